package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// try executes a replay candidate in a fresh process.
func (c *ctl) try(rp *Replay, verbose bool) (Outcome, bool) {
	n := atomic.AddInt64(&c.tmpN, 1)
	fn := filepath.Join(c.scratch, fmt.Sprintf("cand%d.json", n))
	b, _ := json.Marshal(rp)
	os.WriteFile(fn, b, 0o644)
	defer os.Remove(fn)
	args := []string{"-replay", fn}
	if verbose {
		args = append(args, "-v")
	}
	tmo := 60 * time.Second
	if rp.Kind == "timeout" {
		tmo = 20 * time.Second
	}
	so, se, err, to := c.exec(rp.Race, tmo, args...)
	var o Outcome
	if err == nil {
		err = json.Unmarshal([]byte(so), &o)
	}
	if err != nil {
		o.Kind = "crash"
		if to {
			o.Kind = "timeout"
		}
		o.Msg = crashHead(se)
	}
	if o.Kind == "" {
		return o, false
	}
	if rp.Kind != "" && o.Kind != rp.Kind {
		// a different symptom is accepted only when none was asked for
		return o, false
	}
	return o, true
}

// tapeOf recovers the decision record of a run that kills its process.
func (c *ctl) tapeOf(rp *Replay) [][]uint64 {
	n := atomic.AddInt64(&c.tmpN, 1)
	fn := filepath.Join(c.scratch, fmt.Sprintf("cand%d.json", n))
	tf := filepath.Join(c.scratch, fmt.Sprintf("tape%d", n))
	b, _ := json.Marshal(rp)
	os.WriteFile(fn, b, 0o644)
	defer os.Remove(fn)
	defer os.Remove(tf)
	c.exec(rp.Race, 120*time.Second, "-replay", fn, "-tapeout", tf)
	data, err := os.ReadFile(tf)
	if err != nil {
		return nil
	}
	tape := make([][]uint64, 5)
	for i := 0; i+9 <= len(data); i += 9 {
		s := int(data[i])
		var v uint64
		for k := 0; k < 8; k++ {
			v |= uint64(data[i+1+k]) << (8 * k)
		}
		if s < len(tape) {
			tape[s] = append(tape[s], v)
		}
	}
	return tape
}

func runSeed(prop string, base uint64, i int) uint64 {
	h := uint64(14695981039346656037)
	for k := 0; k < len(prop); k++ {
		h ^= uint64(prop[k])
		h *= 1099511628211
	}
	return mix(h ^ mix(base*0x9e3779b97f4a7c15+uint64(i)))
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (c *ctl) report(f finding, evDir string) (*Replay, string) {
	rp := &Replay{Property: c.prop, Race: f.leg.race, Seed: f.out.Seed, Kind: f.out.Kind, Msg: f.out.Msg, Tape: f.out.Tape,
		Streams: []string{"generation", "schedule", "map order", "pool", "faults"}}
	if rp.Seed == 0 {
		rp.Seed = runSeed(c.prop, c.seed, f.out.Index)
	}
	deadline := time.Now().Add(100 * time.Second)
	if c.tier == "thorough" {
		deadline = time.Now().Add(300 * time.Second)
	}
	if rp.Kind == "crash" || rp.Kind == "timeout" {
		rp.Tape = nil
		if rp.Kind == "crash" {
			if t := c.tapeOf(rp); t != nil {
				rp.Tape = t
			}
		}
	}
	if f.out.Kind == "history" {
		rp.Tape, rp.WantRes, rp.Prelude = nil, f.wantRes, f.prelude
		rp.Prelude = ddmin(rp.Prelude, func(p []uint64) bool {
			if time.Now().After(deadline) {
				return false
			}
			x := *rp
			x.Prelude = p
			_, ok := c.try(&x, false)
			return ok
		})
	}
	ok := false
	if _, ok = c.try(rp, false); !ok {
		// depends on what ran before in the same process
		full := *rp
		for i := f.chunk; i < f.out.Index; i++ {
			full.Prelude = append(full.Prelude, runSeed(c.prop, c.seed, i))
		}
		if _, ok = c.try(&full, false); ok {
			rp = &full
			rp.Note = "the failure needs state left behind by earlier runs of the process (Prelude)"
			rp.Prelude = ddmin(rp.Prelude, func(p []uint64) bool {
				if time.Now().After(deadline) {
					return false
				}
				x := *rp
				x.Prelude = p
				_, ok := c.try(&x, false)
				return ok
			})
		} else {
			rp = &full
			rp.Note = "observed once; did not repeat in a fresh process: the failure depends on something outside the simulator's control (allocation addresses, garbage collection)"
		}
	}
	if ok && rp.Tape != nil {
		c.shrink(rp, deadline)
	}
	if o, ok2 := c.try(rp, true); ok2 {
		rp.Msg = o.Msg
		rp.Trace = o.Trace
		rp.RaceText = o.Race
		for _, s := range o.Switches {
			loc := "task start/end or blocking"
			if int(s.Site) < len(c.siteTab) && s.Site > 0 {
				x := c.siteTab[s.Site]
				loc = fmt.Sprintf("%s:%d (%s)", x.F, x.L, x.Fn)
			}
			rp.Schedule = append(rp.Schedule, fmt.Sprintf("step %d: task %d -> task %d before %s", s.Step, s.From, s.To, loc))
			if len(rp.Schedule) > 400 {
				break
			}
		}
	}
	path := filepath.Join(evDir, fmt.Sprintf("replay-%s.json", c.prop))
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return rp, path
}

func ddmin(xs []uint64, test func([]uint64) bool) []uint64 {
	n := 2
	for len(xs) >= 1 {
		sz := (len(xs) + n - 1) / n
		done := false
		for i := 0; i < len(xs); i += sz {
			j := i + sz
			if j > len(xs) {
				j = len(xs)
			}
			cand := append(append([]uint64{}, xs[:i]...), xs[j:]...)
			if test(cand) {
				xs = cand
				done = true
				if n > 2 {
					n--
				}
				break
			}
		}
		if !done {
			if sz <= 1 {
				break
			}
			n *= 2
			if n > len(xs) {
				n = len(xs)
			}
		}
	}
	return xs
}

// shrink minimises the decision record: shorter and smaller is simpler.
func (c *ctl) shrink(rp *Replay, deadline time.Time) {
	nw := runtime.NumCPU()
	execs := 0
	// batch runs candidates in parallel and returns the first that still fails
	batch := func(cands [][][]uint64) int {
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				x := *rp
				x.Tape = cands[i]
				_, res[i] = c.try(&x, false)
			}(i)
		}
		wg.Wait()
		execs += len(cands)
		for i, ok := range res {
			if ok {
				return i
			}
		}
		return -1
	}
	over := func() bool { return time.Now().After(deadline) || execs > 6000 }
	with := func(s int, v []uint64) [][]uint64 {
		t := append([][]uint64{}, rp.Tape...)
		t[s] = v
		return t
	}
	// sweep tries candidates produced by gen in order; on success applies it
	order := []int{1, 4, 2, 3, 0}
	for round := 0; round < 6 && !over(); round++ {
		before := size(rp.Tape)
		for _, s := range order {
			if len(rp.Tape[s]) == 0 {
				continue
			}
			if batch([][][]uint64{with(s, nil)}) == 0 {
				rp.Tape = with(s, nil)
				continue
			}
			// delete blocks
			for sz := len(rp.Tape[s]) / 2; sz >= 1 && !over(); sz /= 2 {
				for i := 0; i < len(rp.Tape[s]) && !over(); {
					var cands [][][]uint64
					var at []int
					for k := 0; k < nw && i+k*sz < len(rp.Tape[s]); k++ {
						a := i + k*sz
						b := a + sz
						if b > len(rp.Tape[s]) {
							b = len(rp.Tape[s])
						}
						v := append(append([]uint64{}, rp.Tape[s][:a]...), rp.Tape[s][b:]...)
						cands = append(cands, with(s, v))
						at = append(at, a)
					}
					if k := batch(cands); k >= 0 {
						rp.Tape = cands[k]
						i = at[k]
					} else {
						i += nw * sz
					}
				}
			}
			// zero blocks
			for sz := len(rp.Tape[s]) / 2; sz >= 1 && !over(); sz /= 2 {
				for i := 0; i < len(rp.Tape[s]) && !over(); {
					var cands [][][]uint64
					for ; len(cands) < nw && i < len(rp.Tape[s]); i += sz {
						v := append([]uint64{}, rp.Tape[s]...)
						ch := false
						for q := i; q < i+sz && q < len(v); q++ {
							if v[q] != 0 {
								v[q], ch = 0, true
							}
						}
						if ch {
							cands = append(cands, with(s, v))
						}
					}
					if len(cands) == 0 {
						continue
					}
					if k := batch(cands); k >= 0 {
						rp.Tape = cands[k]
					}
				}
			}
			// lower single values
			for i := 0; i < len(rp.Tape[s]) && !over(); i++ {
				for rp.Tape[s][i] > 0 && !over() {
					x := rp.Tape[s][i]
					var cands [][][]uint64
					for _, y := range []uint64{0, 1, x / 2, x - x/4, x - 1} {
						if y < x {
							v := append([]uint64{}, rp.Tape[s]...)
							v[i] = y
							cands = append(cands, with(s, v))
						}
					}
					k := batch(cands)
					if k < 0 {
						break
					}
					rp.Tape = cands[k]
				}
			}
			// trailing zeros carry nothing
			v := rp.Tape[s]
			for len(v) > 0 && v[len(v)-1] == 0 {
				v = v[:len(v)-1]
			}
			rp.Tape = with(s, v)
		}
		if size(rp.Tape) == before {
			break
		}
	}
}

func size(t [][]uint64) (n uint64) {
	for _, s := range t {
		for _, x := range s {
			n += 1 + x&0xffffffff
		}
		n += uint64(len(s)) << 32
	}
	return
}

// replayMain re-executes a replay file against the current tree.
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	scratch := fs.String("scratch", "", "")
	file := fs.String("file", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal("%v", err)
	}
	c := &ctl{prop: rp.Property, start: time.Now()}
	c.builder = &builder{repo: *repo, sim: filepath.Join(*verif, "sim"), scratch: *scratch, goBin: "go"}
	if err := c.prepare(); err != nil {
		fatal("%v", err)
	}
	if err := c.buildAll(!rp.Race, rp.Race); err != nil {
		fatal("%v", err)
	}
	want := rp.Kind
	rp.Kind = ""
	o, failed := c.try(&rp, true)
	for _, l := range o.Trace {
		fmt.Println("  " + l)
	}
	for _, s := range o.Switches {
		x := siteInfo{F: "-"}
		if int(s.Site) < len(c.siteTab) {
			x = c.siteTab[s.Site]
		}
		fmt.Printf("  step %d: task %d -> task %d before %s:%d\n", s.Step, s.From, s.To, x.F, x.L)
	}
	if !failed {
		fmt.Printf("replay of %s: no violation on this tree (recorded: %s)\n", rp.Property, want)
		os.Exit(0)
	}
	fmt.Printf("violation kind=%s: %s\n", o.Kind, o.Msg)
	if o.Race != "" {
		fmt.Println(strings.TrimSpace(o.Race))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, *file)
	os.Exit(1)
}
