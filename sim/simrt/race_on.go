//go:build race

package simrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

const RaceBuild = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }

// The runtime keeps maps of its own for types made by reflection. It guards
// them by a lock whose ordering the simulator hides (as that of all
// locks outside the library), and reports its accesses to the race detector.
//
//go:linkname reflectOffs runtime.reflectOffs
var reflectOffs struct {
	lock uintptr
	next int32
	m    map[int32]unsafe.Pointer
	minv map[unsafe.Pointer]int32
}

//go:linkname moduleToTypelinks runtime.moduleToTypelinks
var moduleToTypelinks unsafe.Pointer

// RaceReports splits the text of the detector and leaves out the reports
// about the runtime's own maps.
func RaceReports(txt string) (keep []string) {
	own := []string{
		fmt.Sprintf("at 0x%012x by", *(*uintptr)(unsafe.Pointer(&reflectOffs.m))),
		fmt.Sprintf("at 0x%012x by", *(*uintptr)(unsafe.Pointer(&reflectOffs.minv))),
		fmt.Sprintf("at 0x%012x by", uintptr(moduleToTypelinks)),
	}
	for _, b := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		mine := strings.Contains(b, "runtime.moduleTypelinks(")
		for _, o := range own {
			mine = mine || strings.Contains(b, o)
		}
		if !mine {
			keep = append(keep, "WARNING: DATA RACE"+b)
		}
	}
	return
}
