// ctl builds the simulator from the working tree of the repository, runs the
// seeded search for one property on all cores, minimises and verifies what it
// finds, and writes the evidence file.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type leg struct {
	race  bool
	runs  int
	chunk int
}

type plan struct {
	quick, thorough []leg
	rule            string
	assume          []string
	order           bool // results must not depend on the order of the runs of a process
}

func legs(plain, plainChunk, race, raceChunk int) []leg {
	var l []leg
	if race > 0 {
		l = append(l, leg{true, race, raceChunk})
	}
	if plain > 0 {
		l = append(l, leg{false, plain, plainChunk})
	}
	return l
}

type Outcome struct {
	Seed     uint64
	Index    int
	Kind     string
	Msg      string
	Hash     uint64
	Res      uint64
	Tape     [][]uint64
	Trace    []string
	Switches []struct {
		Step     uint64
		Site     uint32
		From, To int
	}
	Race string
}

type Summary struct {
	From, To, Done                                                           int
	Hashes, Results, Cases, Sched                                            []uint64
	Steps, Switches, MapIters, MapPerms, NowCalls, SyncOps, Blocks, PoolGets uint64
	SimNs                                                                    int64
	Faults, Counts                                                           map[string]int
	Sites                                                                    []int
	Violations                                                               []Outcome
	Sample                                                                   []string
}

type Replay struct {
	Property string
	Race     bool
	Prelude  []uint64
	Seed     uint64
	WantRes  uint64 `json:",omitempty"`
	Streams  []string
	Tape     [][]uint64
	Kind     string
	Msg      string
	Trace    []string
	Schedule []string
	RaceText string `json:",omitempty"`
	Note     string
}

type finding struct {
	leg   leg
	chunk int // first index of the process
	out   Outcome

	wantRes uint64
	prelude []uint64
}

type ctl struct {
	*builder
	prop, tier string
	seed       uint64
	known      []knownFinding
	start      time.Time
	tmpN       int64
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Kind     string `json:"kind"`
	Match    string `json:"match"` // substring of the violation message
	What     string `json:"what"`
}

func (c *ctl) env(race bool) []string {
	e := []string{"GOMAXPROCS=1", "GOTRACEBACK=single", "GOGC=200"}
	if race {
		e = append(e, "GORACE=atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 halt_on_error=0 exitcode=0 log_path="+filepath.Join(c.scratch, "race"))
	}
	return e
}

func (c *ctl) exec(race bool, timeout time.Duration, args ...string) (stdout, stderr string, err error, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin(race), append([]string{"-sites", strconv.Itoa(c.sites)}, args...)...)
	cmd.Env = append(os.Environ(), c.env(race)...)
	cmd.Dir = c.scratch
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	return o.String(), e.String(), err, ctx.Err() != nil
}

func (c *ctl) chunkTimeout() time.Duration { return 240 * time.Second }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replayMain(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	scratch := flag.String("scratch", "", "")
	runsMul := flag.Float64("mul", 1, "multiplier of the number of runs")
	only := flag.String("only", "", "plain or race")
	flag.Parse()
	c := &ctl{prop: *prop, tier: *tier, start: time.Now(), seed: 1}
	if c.tier == "" {
		c.tier = os.Getenv("VERIF_TIER")
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			c.seed = n
		} else if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.seed = uint64(n)
		}
	}
	p, ok := plans[c.prop]
	if !ok {
		fatal("unknown property %q", c.prop)
	}
	c.builder = &builder{repo: *repo, sim: filepath.Join(*verif, "sim"), scratch: *scratch, goBin: "go"}
	c.loadKnown(filepath.Join(*verif, "known-findings.json"))
	ls := p.quick
	if c.tier == "thorough" {
		ls = p.thorough
	}
	var use []leg
	for _, l := range ls {
		if (*only == "plain" && l.race) || (*only == "race" && !l.race) {
			continue
		}
		l.runs = int(float64(l.runs) * *runsMul)
		if l.runs > 0 {
			use = append(use, l)
		}
	}
	plain, race := false, false
	for _, l := range use {
		if l.race {
			race = true
		} else {
			plain = true
		}
	}
	if err := c.prepare(); err != nil {
		fatal("prepare: %v", err)
	}
	if err := c.buildAll(plain, race); err != nil {
		fatal("build: %v", err)
	}
	built := time.Since(c.start)
	os.Exit(c.search(use, p, built, filepath.Join(*verif, "evidence")))
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

func (c *ctl) loadKnown(fn string) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return
	}
	var all struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("%s: %v", fn, err)
	}
	for _, k := range all.Findings {
		if k.Property == c.prop && k.Status == "open" {
			c.known = append(c.known, k)
		}
	}
}

func (c *ctl) isKnown(o *Outcome) int {
	for i, k := range c.known {
		if (k.Kind == "" || k.Kind == o.Kind) && k.Match != "" && strings.Contains(o.Msg, k.Match) {
			return i
		}
	}
	return -1
}

type agg struct {
	runs, steps, switches, mapIters, mapPerms, now, syncs, blocks, pools uint64
	simNs                                                                int64
	cases, sched                                                         map[uint64]bool
	faults, counts                                                       map[string]int
	sites                                                                map[int]bool
	samples                                                              [][]string
	procs, reversed                                                      int
}

func (c *ctl) search(ls []leg, p plan, built time.Duration, evDir string) int {
	type job struct {
		l        leg
		from, to int
		recheck  []uint64 // hashes of the first execution
	}
	maxWall := 420 * time.Second
	if c.tier == "thorough" {
		maxWall = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_MAXWALL"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			maxWall = time.Duration(n) * time.Second
		}
	}
	jobs := []job{}
	for _, l := range ls {
		base := 0
		if l.race {
			base = 1 << 28 // race legs have indices of their own
		}
		for i := 0; i < l.runs; i += l.chunk {
			to := i + l.chunk
			if to > l.runs {
				to = l.runs
			}
			jobs = append(jobs, job{l: l, from: base + i, to: base + to})
		}
	}
	// interleave the legs
	sort.SliceStable(jobs, func(a, b int) bool {
		fa := float64(jobs[a].from&(1<<28-1)) / float64(jobs[a].l.runs)
		fb := float64(jobs[b].from&(1<<28-1)) / float64(jobs[b].l.runs)
		return fa < fb
	})
	g := &agg{cases: map[uint64]bool{}, sched: map[uint64]bool{}, faults: map[string]int{}, counts: map[string]int{}, sites: map[int]bool{}}
	var mu sync.Mutex
	var found []finding
	knownSeen := map[int]int{}
	var stop int32
	var next int64 = -1
	var hashBy = map[int][]uint64{} // job index -> hashes
	var resBy = map[int][]uint64{}  // job index -> results
	reversed := 0
	var wg sync.WaitGroup
	var checkErr string
	simStart := time.Now()
	truncated := false
	work := func() {
		defer wg.Done()
		for atomic.LoadInt32(&stop) == 0 {
			ji := int(atomic.AddInt64(&next, 1))
			if ji >= len(jobs) {
				return
			}
			if time.Since(c.start) > maxWall {
				mu.Lock()
				truncated = true
				mu.Unlock()
				return
			}
			j := jobs[ji]
			from := j.from
			for from < j.to && atomic.LoadInt32(&stop) == 0 {
				prog := filepath.Join(c.scratch, fmt.Sprintf("prog%d", ji))
				args := []string{"-prop", c.prop, "-base", fmt.Sprint(c.seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(j.to), "-progress", prog}
				if len(c.known) > 0 {
					args = append(args, "-stop=false")
				}
				if ji < 4 {
					args = append(args, "-sample")
				}
				so, se, err, to := c.exec(j.l.race, c.chunkTimeout(), args...)
				var s Summary
				if err == nil {
					err = json.Unmarshal([]byte(so), &s)
				}
				mu.Lock()
				if err != nil {
					idx := from
					if b, e := os.ReadFile(prog); e == nil {
						if n, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
							idx = n
						}
					}
					kind := "crash"
					if to {
						kind = "timeout"
					}
					if strings.Contains(err.Error(), "exit status 2") && !strings.Contains(se, "goroutine") && !strings.Contains(se, "fatal error") {
						checkErr = fmt.Sprintf("worker: %v\n%s", err, tail(se, 2000))
					} else {
						found = append(found, finding{leg: j.l, chunk: from, out: Outcome{Index: idx, Kind: kind, Msg: crashHead(se)}})
					}
					atomic.StoreInt32(&stop, 1)
					mu.Unlock()
					return
				}
				g.add(&s)
				if len(s.Violations) == 0 && from == j.from {
					hashBy[ji] = s.Hashes
					resBy[ji] = s.Results
				}
				for _, v := range s.Violations {
					if k := c.isKnown(&v); k >= 0 {
						knownSeen[k]++
						continue
					}
					found = append(found, finding{leg: j.l, chunk: from, out: v})
					atomic.StoreInt32(&stop, 1)
					break
				}
				mu.Unlock()
				from = j.to
			}
		}
	}
	nw := runtime.NumCPU()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go work()
	}
	wg.Wait()
	simWall := time.Since(simStart)
	if checkErr != "" && len(found) == 0 {
		fatal("%s", checkErr)
	}
	// determinism: repeat some chunks in other processes
	rechecked, mismatches := 0, 0
	mism := []int{}
	if len(found) == 0 {
		var idx []int
		for ji := range hashBy {
			idx = append(idx, ji)
		}
		sort.Ints(idx)
		step := len(idx)/6 + 1
		var wg2 sync.WaitGroup
		sem := make(chan int, nw)
		for k := 0; k < len(idx); k += step {
			ji := idx[k]
			wg2.Add(1)
			sem <- 1
			go func() {
				defer func() { <-sem; wg2.Done() }()
				j := jobs[ji]
				so, _, err, _ := c.exec(j.l.race, c.chunkTimeout(), "-prop", c.prop, "-base", fmt.Sprint(c.seed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-stop="+fmt.Sprint(len(c.known) == 0))
				var s Summary
				if err == nil {
					err = json.Unmarshal([]byte(so), &s)
				}
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					mismatches++
					return
				}
				for i, h := range s.Hashes {
					rechecked++
					if i < len(hashBy[ji]) && hashBy[ji][i] != h {
						mismatches++
						mism = append(mism, j.from+i)
					}
				}
			}()
		}
		wg2.Wait()
	}
	// history: the same runs in the opposite order give the same results
	if len(found) == 0 && p.order {
		var idx []int
		for ji := range resBy {
			idx = append(idx, ji)
		}
		sort.Ints(idx)
		var wg2 sync.WaitGroup
		sem := make(chan int, nw)
		for k, ji := range idx {
			if c.tier != "thorough" && k%3 != 0 {
				continue
			}
			wg2.Add(1)
			sem <- 1
			go func(ji int) {
				defer func() { <-sem; wg2.Done() }()
				j := jobs[ji]
				so, _, err, _ := c.exec(j.l.race, c.chunkTimeout(), "-prop", c.prop, "-base", fmt.Sprint(c.seed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-reverse", "-stop=false")
				var s Summary
				if err == nil {
					err = json.Unmarshal([]byte(so), &s)
				}
				if err != nil {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				n := len(s.Results)
				for i := range s.Results {
					reversed++
					if n == len(resBy[ji]) && s.Results[i] != resBy[ji][n-1-i] {
						found = append(found, c.history(j.l, j.from, j.to, j.to-1-i, resBy[ji][n-1-i]))
						break
					}
				}
			}(ji)
		}
		wg2.Wait()
	}
	res := 0
	var rp *Replay
	var rpath string
	if len(found) > 0 {
		sort.Slice(found, func(a, b int) bool { return found[a].out.Index < found[b].out.Index })
		os.MkdirAll(evDir, 0o755)
		rp, rpath = c.report(found[0], evDir)
		res = 1
	}
	viol := len(found)
	g.reversed = reversed
	c.evidence(evDir, p, ls, g, built, simWall, viol, rp, rpath, rechecked, mismatches, mism, truncated, knownSeen)
	for k := range c.known {
		if knownSeen[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, c.known[k].What)
		}
	}
	if res == 1 {
		fmt.Printf("violation kind=%s: %s\n", rp.Kind, firstLines(rp.Msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rpath)
	} else {
		fmt.Printf("ok property=%s runs=%d distinct=%d schedules=%d rechecked=%d mismatches=%d wall=%.1fs (build %.1fs)\n", c.prop, g.runs, len(g.cases), len(g.sched), rechecked, mismatches, time.Since(c.start).Seconds(), built.Seconds())
		if mismatches > 0 {
			fmt.Printf("note: %d repeated runs differed (first indices %v)\n", mismatches, head(mism, 5))
		}
	}
	return res
}

// history makes the finding for a run whose results depend on the order of
// the runs of its process.
func (c *ctl) history(l leg, from, to, idx int, forward uint64) finding {
	f := finding{leg: l, chunk: from, out: Outcome{Index: idx, Kind: "history", Msg: "results depend on what ran before in the process"}}
	f.out.Seed = runSeed(c.prop, c.seed, idx)
	alone := &Replay{Property: c.prop, Race: l.race, Seed: f.out.Seed}
	o, _ := c.try(alone, false)
	f.wantRes = o.Res
	for i := from; i < to; i++ {
		if forward != o.Res && i < idx {
			f.prelude = append(f.prelude, runSeed(c.prop, c.seed, i))
		}
		if forward == o.Res && i > idx {
			f.prelude = append([]uint64{runSeed(c.prop, c.seed, i)}, f.prelude...)
		}
	}
	return f
}

func head(x []int, n int) []int {
	if len(x) > n {
		return x[:n]
	}
	return x
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func crashHead(se string) string {
	i := strings.Index(se, "fatal error")
	if i < 0 {
		i = strings.Index(se, "panic:")
	}
	if j := strings.Index(se, "runtime: goroutine stack exceeds"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		i = 0
	}
	s := se[i:]
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (g *agg) add(s *Summary) {
	g.procs++
	g.runs += uint64(s.Done)
	g.steps += s.Steps
	g.switches += s.Switches
	g.mapIters += s.MapIters
	g.mapPerms += s.MapPerms
	g.now += s.NowCalls
	g.syncs += s.SyncOps
	g.blocks += s.Blocks
	g.pools += s.PoolGets
	g.simNs += s.SimNs
	for _, h := range s.Cases {
		g.cases[h] = true
	}
	for _, h := range s.Sched {
		g.sched[h] = true
	}
	for k, n := range s.Faults {
		g.faults[k] += n
	}
	for k, n := range s.Counts {
		g.counts[k] += n
	}
	for _, x := range s.Sites {
		g.sites[x] = true
	}
	if len(s.Sample) > 0 && len(g.samples) < 3 {
		if len(s.Sample) > 40 {
			s.Sample = append(s.Sample[:39:39], "... "+s.Sample[len(s.Sample)-1])
		}
		for i, l := range s.Sample {
			if len(l) > 400 {
				s.Sample[i] = l[:400] + "..."
			}
		}
		g.samples = append(g.samples, s.Sample)
	}
}

func (c *ctl) evidence(dir string, p plan, ls []leg, g *agg, built, simWall time.Duration, viol int, rp *Replay, rpath string, rechecked, mismatches int, mism []int, truncated bool, knownSeen map[int]int) {
	os.MkdirAll(dir, 0o755)
	perFile := map[string][2]int{}
	for i, s := range c.siteTab {
		if i == 0 || !strings.HasPrefix(s.F, "yunion.io/x/jsonutils/") {
			continue
		}
		f := filepath.Base(s.F)
		v := perFile[f]
		v[1]++
		if g.sites[i] {
			v[0]++
		}
		perFile[f] = v
	}
	if out := os.Getenv("VSIM_SITES"); out != "" {
		// for whoever wants to know what is never reached
		if f, err := os.OpenFile(out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
			for i, s := range c.siteTab {
				fmt.Fprintln(f, g.sites[i], s.F, s.L, s.Fn)
			}
			f.Close()
		}
	}
	cov := map[string]string{}
	for f, v := range perFile {
		cov[f] = fmt.Sprintf("%d/%d", v[0], v[1])
	}
	hours := simWall.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	faults := map[string]int{}
	for k, n := range g.faults {
		faults[k] = n
	}
	if g.mapPerms > 0 {
		faults["map_enumeration_permuted"] = int(g.mapPerms)
	}
	if g.switches > 0 {
		faults["preemption"] = int(g.switches)
	}
	if g.now > 0 {
		faults["clock_read_skewed"] = int(g.now)
	}
	samples := []interface{}{}
	for _, s := range g.samples {
		samples = append(samples, s)
	}
	if rp != nil {
		samples = append(samples, map[string]interface{}{"violation": rp.Kind, "message": firstLines(rp.Msg, 20), "replay": rpath})
	}
	if len(samples) == 0 {
		samples = append(samples, "no complete chunk")
	}
	legDesc := []string{}
	for _, l := range ls {
		k := "plain build"
		if l.race {
			k = "race-detecting build"
		}
		legDesc = append(legDesc, fmt.Sprintf("%s: %d runs, a fresh process every %d runs", k, l.runs, l.chunk))
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": int64(c.seed), "level": "exploration",
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":         g.runs,
			"distinct_nontrivial": len(g.cases),
			"rule":                p.rule,
			"samples":             samples,
			"runs_per_hour":       int64(float64(g.runs) / hours),
			"seeds_per_hour":      int64(float64(g.runs) / hours),
			"legs":                legDesc,
			"processes":           g.procs,
			"simulated_time_s":    float64(g.simNs) / 1e9,
			"simulated_steps":     g.steps,
			"faults_injected":     faults,
			"world_counters":      g.counts,
			"distinct_interleavings": map[string]interface{}{
				"count":   len(g.sched),
				"measure": "distinct hashes of the sequence (program point, from task, to task) of all task switches of a run, runs with at least one switch",
			},
			"task_switches":                   g.switches,
			"map_enumerations":                g.mapIters,
			"sync_operations":                 g.syncs,
			"blocked_waits":                   g.blocks,
			"pool_gets":                       g.pools,
			"clock_reads":                     g.now,
			"statements_reached":              map[string]interface{}{"measure": "instrumented statements executed at least once / instrumented statements, per source file of the library", "per_file": cov},
			"determinism":                     map[string]interface{}{"runs_repeated_in_another_process": rechecked, "trace_mismatches": mismatches, "indices": head(mism, 10)},
			"runs_repeated_in_opposite_order": g.reversed,
			"truncated_by_time":               truncated,
			"real_code":                       "all of /repo's non-test sources (rebuilt from the working tree), yunion.io/x/pkg, yunion.io/x/log, YAML and standard libraries",
			"stubs":                           "goroutine scheduler, sync and sync/atomic of library and x/pkg, map enumeration order, time.Now/Since/Sleep, time.Local, log output, network, disk and process crashes (simulated), user hooks (fixtures)",
			"instrumentation":                 c.instr,
			"build_s":                         built.Seconds(),
			"known_findings":                  len(knownSeen),
		},
		"assumptions": append([]string{
			"tasks preempt each other at statement boundaries of the library and x/pkg; memory-order effects inside one statement are covered by the race detector only",
			"the simulation explores seeded samples of the space, not all of it",
		}, p.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
