package mc

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"os"
	"syscall"
	"unsafe"
)

// The order of a map iteration is an environment choice.  To make executions
// repeatable it is pinned: the runtime's random source for maps is replaced
// by a constant, which rotates the order in small maps.

var randCode []byte

func initMapRand() error {
	f, err := elf.Open("/proc/self/exe")
	if err != nil {
		return err
	}
	defer f.Close()
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	var addr uint64
	for _, s := range syms {
		if s.Name == "internal/runtime/maps.rand" {
			addr = s.Value
		}
	}
	if addr == 0 {
		return fmt.Errorf("maps.rand not found")
	}
	page := uint64(os.Getpagesize())
	start := addr &^ (page - 1)
	end := (addr + 16 + page - 1) &^ (page - 1)
	mem := unsafe.Slice((*byte)(ptr(uintptr(start))), int(end-start))
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		return err
	}
	randCode = mem[addr-start : addr-start+11]
	SetMapOffset(0)
	return selfCheck()
}

func ptr(u uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&u)) }

// SetMapOffset pins the random source of map iteration.
func SetMapOffset(v uint64) {
	if randCode == nil {
		return
	}
	var c [11]byte
	c[0], c[1] = 0x48, 0xb8
	binary.LittleEndian.PutUint64(c[2:], v)
	c[10] = 0xc3
	copy(randCode, c[:])
}

func selfCheck() error {
	for off := uint64(0); off < 3; off++ {
		SetMapOffset(off)
		for i := 0; i < 20; i++ {
			m := map[string]int{"a": 0, "b": 1, "c": 2}
			n := int(off)
			for _, v := range m {
				if v != n%3 {
					SetMapOffset(0)
					return fmt.Errorf("map order not pinned: offset %d gives %d", off, v)
				}
				n++
			}
		}
	}
	SetMapOffset(0)
	return nil
}
