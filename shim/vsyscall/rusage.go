package vsyscall

import "syscall"

// Rusages answers Getrusage in place of the operating system, when set.
var Rusages func(who int, r *syscall.Rusage) error

func Getrusage(who int, r *syscall.Rusage) error {
	if Rusages != nil {
		return Rusages(who, r)
	}
	return syscall.Getrusage(who, r)
}
