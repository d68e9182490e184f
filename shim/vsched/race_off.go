//go:build !race

package vsched

const RaceEnabled = false

func raceOff() {}
func raceOn()  {}
