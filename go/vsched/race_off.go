//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func raceOff()                   {}
func raceOn()                    {}
func raceAcquire(unsafe.Pointer) {}
func raceRelease(unsafe.Pointer) {}
