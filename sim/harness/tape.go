package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"

	"simrt"
)

// Tape is the decision source of a run. In recording mode decisions come from
// a seeded generator and are recorded; in replay mode they come from the
// record, and are 0 (the least eventful choice) once it is exhausted.
type Tape struct {
	rng    [simrt.NumStreams]uint64
	rec    [simrt.NumStreams][]uint64
	play   [simrt.NumStreams][]uint64
	pos    [simrt.NumStreams]int
	replay bool
	sink   *os.File // every draw is written here at once (runs that crash)
}

func (t *Tape) spill(stream int, v uint64) {
	var b [9]byte
	b[0] = byte(stream)
	for i := 0; i < 8; i++ {
		b[1+i] = byte(v >> (8 * i))
	}
	t.sink.Write(b[:])
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func NewTape(seed uint64) *Tape {
	t := &Tape{}
	for i := range t.rng {
		t.rng[i] = mix(seed*1_000_003 + uint64(i)*7919 + 1)
	}
	return t
}

func ReplayTape(rec [][]uint64) *Tape {
	t := &Tape{replay: true}
	for i := range rec {
		if i < simrt.NumStreams {
			t.play[i] = rec[i]
		}
	}
	return t
}

func (t *Tape) Draw(stream int, n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	if t.replay {
		p := t.pos[stream]
		t.pos[stream]++
		var v uint64
		if p < len(t.play[stream]) {
			v = t.play[stream][p] % n
		}
		if t.sink != nil {
			t.spill(stream, v)
		}
		return v
	}
	x := t.rng[stream]
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	t.rng[stream] = x
	v := ((x * 0x2545f4914f6cdd1d) >> 1) % n
	t.rec[stream] = append(t.rec[stream], v)
	if t.sink != nil {
		t.spill(stream, v)
	}
	return v
}

// G draws a generator choice in [0,n).
func (t *Tape) G(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.Draw(simrt.StreamGen, uint64(n)))
}

// F draws a fault choice in [0,n).
func (t *Tape) F(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.Draw(simrt.StreamFault, uint64(n)))
}

// Gp is true with probability num/den; false is the simple choice.
func (t *Tape) Gp(num, den int) bool { return t.G(den) >= den-num }
func (t *Tape) Fp(num, den int) bool { return t.F(den) >= den-num }

func (t *Tape) Bits() uint64 { return t.Draw(simrt.StreamGen, 1<<63)<<1 | t.Draw(simrt.StreamGen, 2) }

// Size draws a size with a heavy tail: usually small, sometimes up to max.
func (t *Tape) Size(max int) int {
	if max <= 0 {
		return 0
	}
	var m int
	switch t.G(16) {
	case 0, 1, 2, 3, 4, 5:
		m = 3
	case 6, 7, 8, 9, 10:
		m = 8
	case 11, 12, 13:
		m = 24
	case 14:
		m = 96
	default:
		m = max
	}
	if m > max {
		m = max
	}
	return t.G(m + 1)
}

func sortStrings(l []string) { sort.Strings(l) }

// mapKeys lists the keys of a map in a fixed order (the harness itself must not
// add the runtime's map order to a run).
func mapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.Kind() == reflect.String && b.Kind() == reflect.String {
			return a.String() < b.String()
		}
		return fmt.Sprint(a.Interface()) < fmt.Sprint(b.Interface())
	})
	return ks
}
