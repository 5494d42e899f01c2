package main

import (
	"fmt"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C01: tasks read one document at the same time, each with values of its own.

func init() { register("C01", 400_000_000, runC01) }

// recipe makes a document the same way every time it is called.
func recipe(t *Tape, v *V) (string, func() jsonutils.JSONObject) {
	seed := t.Bits()
	switch t.G(13) {
	case 12:
		// with nodes that are referred to
		g := genGraph(NewTape(seed), 1+t.G(4))
		all := t.G(2) == 1
		if t.G(2) == 1 {
			return "encoded graph", func() jsonutils.JSONObject { return encode(all, g.build()) }
		}
		return "graph", func() jsonutils.JSONObject {
			o, err := jsonutils.ParseString(encode(all, g.build()).String())
			if err != nil {
				return v.Build()
			}
			return o
		}
	default:
		return "build", func() jsonutils.JSONObject { return v.Build() }
	case 1, 2:
		return "shuffled", func() jsonutils.JSONObject { return v.BuildShuffled(NewTape(seed)) }
	case 3, 4:
		text := v.Text()
		return "parsed", func() jsonutils.JSONObject {
			o, err := jsonutils.ParseString(text)
			if err != nil {
				return v.Build()
			}
			return o
		}
	case 5:
		text := v.Spell(NewTape(seed))
		return "parsed spelling", func() jsonutils.JSONObject {
			o, _, err := jsonutils.ParseStream([]byte(text), 0)
			if err != nil {
				return v.Build()
			}
			return o
		}
	case 6, 7:
		return "marshalled", func() jsonutils.JSONObject { return jsonutils.Marshal(v.Go()) }
	case 8:
		return "deep copy", func() jsonutils.JSONObject { return jsonutils.DeepCopy(v.BuildShuffled(NewTape(seed))) }
	case 9:
		return "copy", func() jsonutils.JSONObject {
			switch x := v.Build().(type) {
			case *jsonutils.JSONDict:
				return x.Copy()
			case *jsonutils.JSONArray:
				return x.Copy()
			default:
				return x
			}
		}
	case 10:
		return "merged", func() jsonutils.JSONObject {
			d := jsonutils.NewDict()
			b := v.Build()
			d.Update(b)
			if d.Length() == 0 {
				return b
			}
			return d
		}
	case 11:
		var sb strings.Builder
		tt := NewTape(seed)
		for i := 0; i < 2+tt.G(8); i++ {
			fmt.Fprintf(&sb, "%s.%d=%d&", plainKeys[tt.G(6)], i%3, tt.G(100))
		}
		q := sb.String()
		return "query", func() jsonutils.JSONObject {
			o, err := jsonutils.ParseQueryString(q)
			if err != nil {
				return v.Build()
			}
			return o
		}
	}
}

func fingerprint(o jsonutils.JSONObject) string {
	var s string
	if p := call(func() { s = Obs(o) + "\n" + o.String() + "\n" + o.PrettyString() }); p != "" {
		return p
	}
	return s
}

type opResult struct {
	first string
	again func() string
}

func doOp(op readOp, d jsonutils.JSONObject) (res opResult) {
	p := call(func() {
		res.again = op.f(d)
		res.first = strings.Clone(res.again())
	})
	if p != "" {
		res = opResult{p, txt(p)}
	}
	return
}

func runC01(r *Run) {
	t := r.T
	v := genDoc(t, genOpt{oddKeys: true, maxNodes: 30, f32: true}, []int{-1, int(KDict), int(KDict), int(KArr)}[t.G(4)])
	other := genDoc(t, genOpt{oddKeys: true, maxNodes: 10}, int(KDict))
	if t.G(3) == 2 && v.K == KDict {
		other = v.Clone()
		other.Set("extra", vInt(1))
		if len(other.O) > 2 {
			other.Del(other.O[0].K)
		}
	}
	how, mk := recipe(t, v)
	if strings.HasSuffix(how, "graph") {
		v = modelOf(mk(), 0)
	}
	ntasks := 2 + t.G(3)
	hot := t.G(2) == 1
	prog := make([][]readOp, ntasks)
	for i := range prog {
		if hot && i > 0 {
			prog[i] = prog[0]
			continue
		}
		for n := 1 + t.G(4); n > 0; n-- {
			prog[i] = append(prog[i], genReadOp(t, v, other, true))
		}
	}
	r.Log("document (%s) %s, other %s", how, v.Text(), other.Text())
	// what each operation gives alone
	want := map[*readOp]string{}
	before := ""
	alone := func() {
		for i := range prog {
			if hot && i > 0 {
				break
			}
			for k := range prog[i] {
				op := &prog[i][k]
				want[op] = doOp(*op, mk()).first
				r.Log("task %d: %s -> %s", i, op.name, want[op])
			}
		}
		before = fingerprint(mk())
	}
	// sometimes the tasks are the first to make these calls in the process
	cold := t.G(2) == 1
	if !cold {
		alone()
	}
	shared := mk()
	res := make([][]opResult, ntasks)
	fns := make([]func(), ntasks)
	for i := range prog {
		i := i
		res[i] = make([]opResult, len(prog[i]))
		fns[i] = func() {
			for k := range prog[i] {
				res[i][k] = doOp(prog[i][k], shared)
			}
		}
	}
	r.Nontrivial = true
	simrt.Extend(200_000_000)
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	if cold {
		alone()
	}
	for i := range prog {
		for k := range prog[i] {
			op := &prog[i][k]
			if hot {
				op = &prog[0][k]
			}
			got := res[i][k]
			if got.first != want[op] {
				r.Fail("result", "task %d, %s: alone it gives\n %s\nwith %d tasks reading the same document\n %s", i, op.name, clip(want[op], 0), ntasks, clip(got.first, 0))
				return
			}
			r.H(got.first)
			var again string
			if p := call(func() { again = got.again() }); p != "" {
				again = p
			}
			if again != got.first {
				r.Fail("result-changed", "task %d, %s gave\n %s\nbut after all tasks have ended the result reads\n %s", i, op.name, clip(got.first, 0), clip(again, 0))
				return
			}
		}
	}
	if after := fingerprint(shared); after != before {
		r.Fail("document", "the document (%s) read by %d tasks was\n %s\nand is now\n %s", how, ntasks, clip(before, 0), clip(after, 0))
	}
}
