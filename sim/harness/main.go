package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"simrt"

	"yunion.io/x/jsonutils"
	"yunion.io/x/log"
)

// Run is one simulated execution.
type Run struct {
	T          *Tape
	Verbose    bool
	trace      []string
	Faults     map[string]int
	Counts     map[string]int
	kind, msg  string
	hash       uint64
	res        uint64 // results only, whatever the schedule
	Nontrivial bool
}

// R folds into the run a result that must not depend on what else happened
// before in the process.
func (r *Run) R(s string) {
	h := r.res
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.res = (h ^ 0xff) * 1099511628211
}

func (r *Run) Log(f string, a ...interface{}) {
	if r.Verbose && len(r.trace) < 3000 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + fmt.Sprintf("...(%d bytes)", len(s))
		}
		r.trace = append(r.trace, s)
	}
}

// Fail records the first violation of the run.
func (r *Run) Fail(kind, f string, a ...interface{}) {
	if r.kind == "" {
		r.kind = kind
		m := fmt.Sprintf(f, a...)
		if len(m) > 4000 {
			m = m[:4000] + "..."
		}
		r.msg = m
	}
}

func (r *Run) Failed() bool { return r.kind != "" }

func (r *Run) Fault(kind string) { r.Faults[kind]++ }
func (r *Run) Count(kind string) { r.Counts[kind]++ }

// H folds an observation into the trace hash of the run.
func (r *Run) H(s string) {
	h := r.hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r.hash = (h ^ 0xff) * 1099511628211
}

// World is the simulation that decides one property.
type World struct {
	ID     string
	Budget uint64 // step budget of a run
	Run    func(r *Run)
}

var worlds = map[string]*World{}

func register(id string, budget uint64, f func(r *Run)) {
	worlds[id] = &World{id, budget, f}
}

type Outcome struct {
	Seed       uint64
	Index      int
	Kind       string `json:",omitempty"`
	Msg        string `json:",omitempty"`
	Hash       uint64
	Res        uint64
	Case       uint64
	Nontrivial bool
	Tape       [][]uint64          `json:",omitempty"`
	Trace      []string            `json:",omitempty"`
	Switches   []simrt.SwitchEvent `json:",omitempty"`
	Race       string              `json:",omitempty"`
	stats      simrt.Stats
	faults     map[string]int
	counts     map[string]int
}

var zones = []*time.Location{time.UTC, time.FixedZone("CST", 8*3600), time.FixedZone("EST", -5*3600), time.FixedZone("IST", 5*3600+1800), time.FixedZone("ODD", -3600*11-17*60)}

func raceLog() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			fn := strings.TrimPrefix(kv, "log_path=") + fmt.Sprintf(".%d", os.Getpid())
			return fn
		}
	}
	return ""
}

func runOne(w *World, t *Tape, seed uint64, idx int, verbose bool) (out Outcome) {
	r := &Run{T: t, Verbose: verbose, Faults: map[string]int{}, Counts: map[string]int{}, hash: 14695981039346656037}
	races := simrt.RaceErrors()
	var rlogPos int64
	if simrt.RaceBuild {
		if fi, err := os.Stat(raceLog()); err == nil {
			rlogPos = fi.Size()
		}
	}
	simrt.Begin(t, w.Budget, verbose)
	time.Local = zones[t.F(len(zones))]
	func() {
		defer func() {
			if p := recover(); p != nil {
				if simrt.Hung() {
					r.Fail("hang", "%v", p)
					return
				}
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				r.Fail("panic", "%v\n%s", p, buf)
			}
		}()
		w.Run(r)
	}()
	hung, dead := simrt.Hung(), simrt.Deadlocked()
	simrt.Recover(1 << 20)
	// the shared constants keep their values
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Fail("constants", "reading the shared constants panics: %v", p)
			}
		}()
		if s := Obs(jsonutils.JSONNull) + Obs(jsonutils.JSONTrue) + Obs(jsonutils.JSONFalse); s != "NTF" {
			r.Fail("constants", "the shared null/true/false values now read %s", s)
			// repair for the following runs of this process
			repairConstants()
		}
	}()
	out.stats = simrt.End()
	time.Local = time.UTC
	if hung {
		if dead {
			r.Fail("deadlock", "all tasks wait for each other")
		} else {
			r.Fail("hang", "a call did not end within the step budget")
		}
	}
	if n := simrt.RaceErrors() - races; n > 0 {
		txt := ""
		if fn := raceLog(); fn != "" {
			if f, err := os.Open(fn); err == nil {
				f.Seek(rlogPos, 0)
				b, _ := io.ReadAll(io.LimitReader(f, 1<<20))
				txt = string(b)
				f.Close()
			}
		}
		if l := simrt.RaceReports(txt); len(l) > 0 {
			out.Race = strings.Join(l, "\n")
			if len(out.Race) > 16000 {
				out.Race = out.Race[:16000]
			}
			r.Fail("race", "%d data race(s) detected\n%s", len(l), raceSummary(out.Race))
		}
	}
	out.Seed, out.Index, out.Kind, out.Msg = seed, idx, r.kind, r.msg
	r.hash = (r.hash ^ out.stats.SchedHash) * 1099511628211
	r.hash = (r.hash ^ out.stats.Steps) * 1099511628211
	out.Hash = r.hash
	out.Res = r.res
	h := fnv.New64a()
	tp := t.rec
	if t.replay {
		tp = t.play
	}
	var b [8]byte
	for s := range tp {
		for _, x := range tp[s] {
			for i := range b {
				b[i] = byte(x >> (8 * i))
			}
			h.Write(b[:])
		}
		h.Write([]byte{255, 254})
	}
	out.Case = h.Sum64()
	out.Nontrivial = r.Nontrivial
	out.Trace = r.trace
	out.Switches = out.stats.Log
	out.faults, out.counts = r.Faults, r.Counts
	return
}

func repairConstants() {
	*jsonutils.JSONTrue = *jsonutils.NewBool(true)
}

func raceSummary(txt string) string {
	var keep []string
	for _, l := range strings.Split(txt, "\n") {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main") || (strings.HasPrefix(l, "  ") && (strings.Contains(l, "jsonutils") || strings.Contains(l, "yunion.io"))) {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/scratch"); i >= 0 {
				l = l[i+1:]
			}
			keep = append(keep, l)
		}
		if len(keep) >= 16 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

type Summary struct {
	From, To   int
	Done       int
	Hashes     []uint64
	Results    []uint64
	Cases      []uint64 // case hashes of non-trivial runs
	Sched      []uint64 // schedule hashes of runs with preemptions
	Steps      uint64
	Switches   uint64
	MapIters   uint64
	MapPerms   uint64
	NowCalls   uint64
	SyncOps    uint64
	Blocks     uint64
	PoolGets   uint64
	SimNs      int64
	Faults     map[string]int
	Counts     map[string]int
	Sites      []int
	Violations []Outcome
	Sample     []string
}

type Replay struct {
	Property string
	Race     bool     // needs the race-detecting build
	Prelude  []uint64 // seeds of runs to execute first in the same process
	Seed     uint64
	WantRes  uint64 `json:",omitempty"` // result of the run alone in a fresh process
	Streams  []string
	Tape     [][]uint64
	Kind     string
	Msg      string
	Trace    []string
	Schedule []string
	RaceText string `json:",omitempty"`
	Note     string
}

func main() {
	prop := flag.String("prop", "", "")
	base := flag.Uint64("base", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 0, "")
	progress := flag.String("progress", "", "")
	replay := flag.String("replay", "", "")
	verbose := flag.Bool("v", false, "")
	nsites := flag.Int("sites", 1, "")
	sample := flag.Bool("sample", false, "")
	reverse := flag.Bool("reverse", false, "")
	stopFirst := flag.Bool("stop", true, "")
	tapeOut := flag.String("tapeout", "", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		var ids []string
		for id := range worlds {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	simrt.NumSites = *nsites
	debug.SetMaxStack(128 << 20)
	runtime.GOMAXPROCS(1)
	log.Logger().Out = io.Discard
	if *replay != "" {
		doReplay(*replay, *verbose, *tapeOut)
		return
	}
	w := worlds[*prop]
	if w == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.OpenFile(*progress, os.O_CREATE|os.O_RDWR, 0o644)
	}
	sum := Summary{From: *from, To: *to, Faults: map[string]int{}, Counts: map[string]int{}}
	for k := *from; k < *to; k++ {
		i := k
		if *reverse {
			i = *to - 1 - (k - *from)
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		seed := runSeed(*prop, *base, i)
		v := *sample && i == *from
		t := NewTape(seed)
		out := runOne(w, t, seed, i, v)
		sum.Done++
		if v {
			sum.Sample = append(out.Trace, fmt.Sprintf("steps=%d switches=%d", out.stats.Steps, out.stats.Switches))
		}
		sum.Hashes = append(sum.Hashes, out.Hash)
		sum.Results = append(sum.Results, out.Res)
		if out.Nontrivial {
			sum.Cases = append(sum.Cases, out.Case)
		}
		if out.stats.Switches > 0 {
			sum.Sched = append(sum.Sched, out.stats.SchedHash)
		}
		sum.Steps += out.stats.Steps
		sum.Switches += out.stats.Switches
		sum.MapIters += out.stats.MapIters
		sum.MapPerms += out.stats.MapPerms
		sum.NowCalls += out.stats.NowCalls
		sum.SyncOps += out.stats.SyncOps
		sum.Blocks += out.stats.Blocks
		sum.PoolGets += out.stats.PoolGets
		sum.SimNs += out.stats.SimNs
		for k, n := range out.faults {
			sum.Faults[k] += n
		}
		for k, n := range out.counts {
			sum.Counts[k] += n
		}
		if out.Kind != "" {
			for s := range t.rec {
				out.Tape = append(out.Tape, t.rec[s])
			}
			sum.Violations = append(sum.Violations, out)
			if *stopFirst {
				break
			}
		}
	}
	for i, n := range simrt.Hits[:min(*nsites, simrt.MaxSites)] {
		if n > 0 {
			sum.Sites = append(sum.Sites, i)
		}
	}
	json.NewEncoder(os.Stdout).Encode(sum)
}

func runSeed(prop string, base uint64, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return mix(h.Sum64() ^ mix(base*0x9e3779b97f4a7c15+uint64(i)))
}

func doReplay(fn string, verbose bool, tapeOut string) {
	b, err := os.ReadFile(fn)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, filepath.Base(fn), err)
		os.Exit(2)
	}
	w := worlds[rp.Property]
	if w == nil {
		os.Exit(2)
	}
	for _, s := range rp.Prelude {
		runOne(w, NewTape(s), s, 0, false)
	}
	t := ReplayTape(rp.Tape)
	if rp.Tape == nil {
		t = NewTape(rp.Seed)
	}
	if tapeOut != "" {
		t.sink, _ = os.Create(tapeOut)
	}
	out := runOne(w, t, rp.Seed, 0, verbose)
	if rp.WantRes != 0 && out.Kind == "" && out.Res != rp.WantRes {
		out.Kind = "history"
		out.Msg = "the results of this run differ from those of the same run alone in a fresh process: something earlier runs did has a lasting effect"
	}
	if rp.Tape == nil {
		for s := range t.rec {
			out.Tape = append(out.Tape, t.rec[s])
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
