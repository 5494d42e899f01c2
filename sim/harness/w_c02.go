package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C02: tasks work on data of their own, before, after and at the same time as
// others; calls and user hooks fail; nothing may leak from one to another.

func init() { register("C02", 600_000_000, runC02) }

// a step makes its data anew each time it runs and returns an observer of what
// it obtained.
type step struct {
	name string
	f    func() func() string
	want string // from the model; "" if unknown
}

// types of the same name in different scopes
func sameName(k int) (reflect.Type, func(t *Tape) interface{}) {
	switch k {
	case 0:
		type rec struct {
			A int    `json:"a"`
			B string `json:"b"`
		}
		return reflect.TypeOf(rec{}), func(t *Tape) interface{} { return rec{1 + t.G(100), "b" + genString(t)} }
	case 1:
		type rec struct {
			B int    `json:"a"`
			A string `json:"b,allowempty"`
			C []int  `json:"c"`
		}
		return reflect.TypeOf(rec{}), func(t *Tape) interface{} { return rec{1 + t.G(100), "a" + genString(t), []int{1, t.G(9)}} }
	case 2:
		type rec struct {
			A string `json:"b"`
			B string `json:"a"`
		}
		return reflect.TypeOf(rec{}), func(t *Tape) interface{} { return rec{"x" + genString(t), "y" + genString(t)} }
	case 3:
		type rec struct {
			A string
			B map[string]int
			E1
		}
		return reflect.TypeOf(rec{}), func(t *Tape) interface{} {
			return rec{"x" + genString(t), map[string]int{"k": t.G(10)}, E1{t.G(9), "e"}}
		}
	default:
		type rec struct {
			A jsonutils.JSONObject
			B time.Time
			D float64 `json:"d,string"`
		}
		return reflect.TypeOf(rec{}), func(t *Tape) interface{} {
			return rec{jsonutils.NewString("s" + genString(t)), time.Unix(int64(1000+t.G(100000)), 0), float64(t.G(100)) / 8}
		}
	}
}

// hooks that fail in all manners
type badMarshal struct{ How int }

func (b badMarshal) MarshalJSON() ([]byte, error) {
	switch b.How {
	case 0:
		return nil, errors.New("marshal refuses")
	case 1:
		return []byte(`{"torn":`), nil
	case 2:
		panic("marshal panics")
	case 3:
		return []byte(`{"ok":1}`), nil
	default:
		// the hook itself uses the library
		return []byte(jsonutils.Marshal(map[string]int{"inner": b.How}).String()), nil
	}
}

type badUnmarshal struct {
	Got string
}

func (b *badUnmarshal) UnmarshalJSON(x []byte) error {
	b.Got = string(x)
	switch len(x) % 6 {
	case 0:
		return errors.New("unmarshal refuses")
	case 1:
		panic("unmarshal panics")
	case 2:
		// the hook itself uses the library on data of its own
		var m map[string]int
		o, _ := jsonutils.ParseString(`{"x":1,"y":2}`)
		if err := o.Unmarshal(&m); err != nil {
			return err
		}
		b.Got += fmt.Sprint(m["x"], m["y"])
	}
	return nil
}

type hookHolder struct {
	Before string
	H      badUnmarshal
	L      []badUnmarshal
	P      *badUnmarshal
	Std    json.RawMessage
	After  string
}

func genStep(t *Tape) step {
	v := genDoc(t, genOpt{oddKeys: true, maxNodes: 14, f32: true}, -1)
	seed := t.Bits()
	switch t.G(30) {
	case 27, 28, 29:
		return genNodeStep(t)
	case 22, 23:
		// documents with node ids, whole, cut or spliced
		text := jsonutils.Marshal(genGraph(t, 1+t.G(4)).build()).String()
		switch t.G(5) {
		case 1, 2:
			text = text[:1+t.G(len(text))]
		case 3:
			text = text[:len(text)-1] + `,"again":` + text + "}"
		case 4:
			text = `[` + text + `,{"___jnid_":` + fmt.Sprint(t.G(5)) + `,"x":<` + fmt.Sprint(t.G(5)) + `>}]`
		}
		return step{"parse graph " + text, func() func() string {
			p, err := jsonutils.ParseString(text)
			if err != nil {
				return txt(errText(err))
			}
			var q *gNode
			err = p.Unmarshal(&q)
			return func() string { return p.String() + dumpI(q) + errText(err) }
		}, ""}
	case 24, 25:
		return genRetry(t)
	case 26:
		// the encoding of a value fails at once, that of another one goes on
		how := t.G(6)
		g := genGraph(t, 1+t.G(3))
		return step{fmt.Sprintf("encoding hook %d beside graph %s", how, g.describe()), func() func() string {
			x := g.build()
			o := ""
			p := call(func() {
				o = jsonutils.Marshal(&struct {
					G *gNode
					H badMarshal
					L *gNode
				}{x, badMarshal{how}, x}).String()
			})
			s := jsonutils.Marshal(x).String()
			return txt(o + p + s)
		}, ""}
	default:
		text := v.Spell(t)
		switch t.G(3) {
		case 1:
			return step{"parse and reuse the buffer of " + text, func() func() string {
				buf := []byte(text)
				o, err := jsonutils.Parse(buf)
				reuse(buf)
				if err != nil {
					return kept(err)
				}
				return func() string { return ObsNorm(o) }
			}, v.Norm()}
		case 2:
			return step{"parse and edit " + text, func() func() string {
				o, err := jsonutils.ParseString(text)
				if err != nil {
					return kept(err)
				}
				if s := ObsNorm(o); s != v.Norm() {
					return txt(s)
				}
				return edited(o)
			}, ""}
		}
		return step{"parse " + text, func() func() string {
			o, err := jsonutils.ParseString(text)
			if err != nil {
				return txt(errText(err))
			}
			return func() string { return ObsNorm(o) }
		}, v.Norm()}
	case 1:
		text := v.Text()
		if len(text) > 2 && (v.K == KDict || v.K == KArr) {
			text = text[:1+t.G(len(text)-1)]
			return step{"parse torn " + text, func() func() string {
				buf := []byte(text)
				_, err := jsonutils.Parse(buf)
				s := errText(err)
				reuse(buf)
				return func() string {
					if e := errText(err); e != s {
						return changed + "the error reads " + e + " once the buffer is reused; before: " + s
					}
					return s
				}
			}, ""}
		}
		return step{"parse scalar " + text, func() func() string {
			o, err := jsonutils.ParseString(text)
			return func() string { return ObsNorm(o) + errText(err) }
		}, v.Norm() + "ok"}
	case 2:
		var sb strings.Builder
		want := ""
		for i := 0; i < 1+t.G(4); i++ {
			d := genDoc(t, genOpt{maxNodes: 5, ident: true, strGen: func(t *Tape) string { return fmt.Sprint("s", t.G(99)) }}, int(KDict))
			sb.WriteString(d.Text() + "\n")
			want += d.Norm() + ","
		}
		text := sb.String()
		return step{"scan " + text, func() func() string {
			buf := []byte(text)
			l, err := jsonutils.ParseJsonStreams(buf)
			reuse(buf)
			return func() string {
				s := ""
				for _, x := range l {
					s += ObsNorm(x) + ","
				}
				return s + errText(err)
			}
		}, want + "ok"}
	case 3, 4:
		w := v.Text()
		return step{"render " + w, func() func() string {
			return txt(v.BuildShuffled(NewTape(seed)).String())
		}, w}
	case 5:
		return step{"pretty " + v.Text(), func() func() string {
			d := v.BuildShuffled(NewTape(seed))
			s := d.PrettyString()
			o, err := jsonutils.ParseString(s)
			if err != nil {
				return txt(errText(err))
			}
			return func() string { return ObsNorm(o) }
		}, v.Norm()}
	case 6, 7, 8:
		typ := genStruct(t, 1+t.G(3), 1+t.Size(6))
		all, edit := t.G(2) == 1, t.G(3) == 2
		p := reflect.New(typ)
		fillValue(t, p.Elem(), false)
		want := canon(p.Elem(), fieldOpt{})
		return step{"round trip " + typ.String() + want, func() func() string {
			p := reflect.New(typ)
			fillValue(NewTape(seed), p.Elem(), false)
			want := canon(p.Elem(), fieldOpt{})
			o := encode(all, p.Interface())
			text := o.String()
			q := reflect.New(typ)
			err := o.Unmarshal(q.Interface())
			if err != nil {
				return txt(errText(err))
			}
			if edit {
				// the document is the task's own; what was decoded may hold parts of it
				if got := canon(q.Elem(), fieldOpt{}); got != want {
					return txt("round trip gives " + got + " instead of " + want + " via " + text)
				}
				editDeep(o, 0)
				return txt("same")
			}
			return func() string {
				if got := canon(q.Elem(), fieldOpt{}); got != want {
					return "round trip gives " + got + " instead of " + want + " via " + text
				}
				return "same"
			}
		}, "same"}
	case 9, 10:
		k := t.G(5)
		typ, mk := sameName(k)
		want := canon(reflect.ValueOf(mk(NewTape(seed))), fieldOpt{})
		return step{fmt.Sprintf("same-named type %d %s", k, want), func() func() string {
			x := mk(NewTape(seed))
			o := jsonutils.Marshal(x)
			q := reflect.New(typ)
			err := o.Unmarshal(q.Interface())
			if err != nil {
				return txt(errText(err))
			}
			return func() string { return canon(q.Elem(), fieldOpt{}) }
		}, want}
	case 11, 12:
		typ := typeFor(t, v, 4)
		return step{"decode into " + clip(typ.String(), 0), func() func() string {
			q := reflect.New(typ)
			err := v.Build().Unmarshal(q.Interface())
			return func() string { return dump(q) + errText(err) }
		}, ""}
	case 13:
		how := t.G(6)
		return step{fmt.Sprintf("encoding hook %d", how), func() func() string {
			o := jsonutils.Marshal(struct {
				A int
				H badMarshal
				L []badMarshal
			}{1, badMarshal{how}, []badMarshal{{3}, {how}}})
			return func() string { return Obs(o) }
		}, ""}
	case 14:
		d := v
		if d.K != KDict {
			d = vDict(KV{"h", v}, KV{"l", vArr(v, v)})
		} else {
			d.Set("h", vStr(genString(t)))
			d.Set("l", vArr(vInt(1), vStr("x")))
			d.Set("p", vInt(int64(t.G(10000))))
			d.Set("after", vStr("end"))
		}
		return step{"decoding hooks " + d.Text(), func() func() string {
			var h hookHolder
			err := d.Build().Unmarshal(&h)
			return func() string { return dumpI(&h) + errText(err) }
		}, ""}
	case 15:
		var sb strings.Builder
		for i := 0; i < 1+t.G(6); i++ {
			fmt.Fprintf(&sb, "&%s=%d", []string{"a", "b", "a.0", "c.0.x", "c.0.y", "c.1.x", "%zz", "d.e"}[t.G(8)], t.G(50))
		}
		q := sb.String()[1:]
		edit := t.G(3) == 2
		return step{"query " + q, func() func() string {
			o, err := jsonutils.ParseQueryString(q)
			if err != nil {
				return txt(errText(err))
			}
			if edit {
				return edited(o)
			}
			return func() string { return Obs(o) + o.QueryString() }
		}, ""}
	case 16:
		edit := t.G(3) == 2
		return step{"yaml " + v.Text(), func() func() string {
			d := v.Build()
			y := yamlText(d)
			o, err := jsonutils.ParseYAML(d.YAMLString())
			if err != nil {
				return txt(y + errText(err))
			}
			if edit {
				return edited(o)
			}
			return func() string { return y + Obs(o) }
		}, ""}
	case 17:
		g := genGraph(t, 1+t.G(4))
		return step{"graph " + g.describe(), func() func() string {
			o := jsonutils.Marshal(g.build())
			s := o.String()
			p, err := jsonutils.ParseString(s)
			if err != nil {
				return txt(s + errText(err))
			}
			var q *gNode
			err = p.Unmarshal(&q)
			return func() string { return s + dumpI(q) + errText(err) }
		}, ""}
	case 18, 19, 20, 21:
		other := genDoc(t, genOpt{oddKeys: true, maxNodes: 6}, int(KDict))
		op := genReadOp(t, v, other, true)
		if t.G(4) == 3 {
			return step{"on " + v.Text() + ": " + op.name + " and edit", func() func() string {
				o := v.Build()
				s := strings.Clone(op.f(o)())
				editDeep(o, 0)
				return func() string { return s + Obs(o) }
			}, ""}
		}
		return step{"on " + v.Text() + ": " + op.name, func() func() string { return op.f(v.Build()) }, ""}
	}
}

// genNodeStep draws a document with node ids of its own making: references come
// before, inside, after the object they name, or name none; some members have
// the wrong type, so that decoding stops half way.
func genNodeStep(t *Tape) step {
	left := 2 + t.G(6)
	var obj func(depth int) string
	obj = func(depth int) string {
		left--
		var ms []string
		if t.G(4) > 0 {
			ms = append(ms, fmt.Sprintf(`"___jnid_":%d`, 1+t.G(4)))
		}
		ms = append(ms, fmt.Sprintf(`"id":%d`, t.G(50)))
		val := func() string {
			switch {
			case t.G(3) == 2:
				return fmt.Sprintf("<%d>", 1+t.G(5))
			case t.G(8) == 7:
				return []string{"5", `"x"`, "null", "[1]", "{}", "true"}[t.G(6)]
			case depth < 4 && left > 0:
				return obj(depth + 1)
			}
			return fmt.Sprintf("<%d>", 1+t.G(4))
		}
		used := map[string]bool{}
		for n := t.G(4); n > 0; n-- {
			k := []string{"self", "next", "zed", "list", "map", "emb_node", "peer"}[t.G(7)]
			if used[k] {
				continue
			}
			used[k] = true
			v := val()
			switch k {
			case "list":
				v = "[" + v + "," + val() + "]"
			case "map":
				v = `{"a":` + v + `,"b":` + val() + "}"
			case "peer":
				v = `{"id":1,"owner":` + v + "}"
			}
			ms = append(ms, fmt.Sprintf("%q:%s", k, v))
		}
		if t.G(10) == 9 {
			ms = append(ms, `"text":{"no":"text"}`)
		}
		var sb strings.Builder
		for i, k := range perm(t, len(ms)) {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(ms[k])
		}
		return "{" + sb.String() + "}"
	}
	text := obj(0)
	target := t.G(4)
	switch target {
	case 1:
		text = `{"x":` + text + `,"y":<` + fmt.Sprint(1+t.G(5)) + `>}`
	case 2:
		text = "[" + text + ",<" + fmt.Sprint(1+t.G(5)) + ">]"
	}
	return step{fmt.Sprintf("decode nodes as %d %s", target, text), func() func() string {
		p, err := jsonutils.ParseString(text)
		if err != nil {
			return txt(errText(err))
		}
		var q interface{}
		switch target {
		case 0:
			q = new(*gNode)
		case 1:
			q = new(map[string]*gNode)
		case 2:
			q = new([]*gNode)
		default:
			q = new(gNode)
		}
		err = p.Unmarshal(q)
		return func() string { return dumpI(q) + errText(err) }
	}, ""}
}

const changed = "changed: "

// reuse puts other bytes where a text was read from.
func reuse(buf []byte) {
	for i := range buf {
		buf[i] = "#reused#"[i%8]
	}
}

// kept observes an error.
func kept(err error) func() string { return func() string { return errText(err) } }

// edited overwrites a document of the task's own.
func edited(o jsonutils.JSONObject) func() string {
	was := Obs(o)
	editDeep(o, 0)
	return func() string { return was + " edited to " + Obs(o) }
}

// flakyM fails as long as it is told to.
type flakyM struct {
	How int
	S   string
}

func (f flakyM) MarshalJSON() ([]byte, error) {
	switch f.How {
	case 1:
		return nil, errors.New("marshal refuses")
	case 2:
		return []byte(`{"torn":`), nil
	case 3:
		panic("marshal panics")
	}
	return []byte(jsonutils.NewString(f.S).String()), nil
}

type flakyU struct {
	Fail *int
	S    string
}

func (f *flakyU) UnmarshalJSON(b []byte) error {
	f.S = string(b)
	if f.Fail == nil {
		return nil
	}
	switch *f.Fail {
	case 1:
		return errors.New("unmarshal refuses")
	case 2:
		panic("unmarshal panics")
	}
	return nil
}

type flakyNode struct {
	Name string
	H    *flakyM `json:",omitempty"`
	Next *flakyNode
	Map  map[string]*flakyNode
	List []interface{}
}

type flakyRec struct {
	A  string
	H  flakyU
	L  []string
	M  map[string]int
	P  *flakyRec
	ZZ string
}

// genRetry draws a call that fails, perhaps several times, and is made again
// on the very same values once the cause is gone.
func genRetry(t *Tape) step {
	times, how := 1+t.G(3), 1+t.G(3)
	name := "n" + genString(t)
	if t.G(2) == 0 {
		depth, at, shape := 1+t.G(4), t.G(3), t.G(3)
		return step{fmt.Sprintf("retry encode how=%d depth=%d shape=%d", how, depth, shape), func() func() string {
			h := &flakyM{how, name}
			top := &flakyNode{Name: name}
			n := top
			for i := 0; i < depth; i++ {
				c := &flakyNode{Name: fmt.Sprint(i)}
				switch (shape + i) % 3 {
				case 0:
					n.Next = c
				case 1:
					n.Map = map[string]*flakyNode{"c": c, "d": {Name: "d"}}
				default:
					n.List = []interface{}{1, c}
				}
				n = c
			}
			n.H = h
			var x interface{} = top
			switch at {
			case 1:
				x = []interface{}{top, "x"}
			case 2:
				x = map[string]*flakyNode{"top": top}
			}
			for i := 0; i < times; i++ {
				if p := call(func() { jsonutils.Marshal(x) }); p == "" {
					return txt("the failure of a hook went unnoticed")
				}
			}
			h.How = 0
			got := jsonutils.Marshal(x)
			o := got
			switch at {
			case 1:
				o, _ = got.GetAt(0)
			case 2:
				o, _ = got.Get("top")
			}
			for i := 0; i < depth && o != nil; i++ {
				switch (shape + i) % 3 {
				case 0:
					o, _ = o.Get("next")
				case 1:
					o, _ = o.Get("map", "c")
				default:
					l, _ := o.Get("list")
					if l == nil {
						o = nil
					} else {
						o, _ = l.GetAt(1)
					}
				}
			}
			if o == nil {
				return txt("lost: " + got.String())
			}
			s, err := o.GetString("h")
			if err != nil || s != name {
				return txt("wrong: " + got.String())
			}
			return txt("encoded")
		}, "encoded"}
	}
	if how == 3 {
		how = 2
	}
	d := genDoc(t, genOpt{maxNodes: 4, ident: true}, int(KDict))
	return step{fmt.Sprintf("retry decode how=%d %s", how, d.Text()), func() func() string {
		o := vDict(KV{"a", vStr(name)}, KV{"h", d}, KV{"l", vArr(vStr("x"), vStr(name))}, KV{"m", vDict(KV{"k", vInt(7)})},
			KV{"p", vDict(KV{"a", vStr("inner")}, KV{"h", d}, KV{"l", vArr()}, KV{"m", vDict()}, KV{"zz", vStr("in")})}, KV{"zz", vStr("end")}).Build()
		fail := how
		x := flakyRec{H: flakyU{Fail: &fail}}
		for i := 0; i < times; i++ {
			var err error
			if p := call(func() { err = o.Unmarshal(&x) }); p == "" && err == nil {
				return txt("the failure of a hook went unnoticed")
			}
		}
		fail = 0
		if err := o.Unmarshal(&x); err != nil {
			return txt(errText(err))
		}
		if x.A != name || x.H.S != d.Text() || len(x.L) != 2 || x.L[1] != name || x.M["k"] != 7 || x.P == nil || x.P.A != "inner" || x.P.ZZ != "in" || x.ZZ != "end" {
			return txt("wrong: " + dumpI(&x))
		}
		return txt("decoded")
	}, "decoded"}
}

func doStep(s *step) (res opResult) {
	p := call(func() {
		res.again = s.f()
		res.first = strings.Clone(res.again())
	})
	if p != "" {
		res = opResult{p, txt(p)}
	}
	return
}

func runC02(r *Run) {
	t := r.T
	ntasks := 2 + t.G(3)
	prog := make([][]step, ntasks)
	for i := range prog {
		if i > 0 && t.G(4) == 3 {
			prog[i] = prog[i-1] // same work, data of their own
			continue
		}
		for n := 1 + t.G(4); n > 0; n-- {
			prog[i] = append(prog[i], genStep(t))
		}
	}
	type result struct {
		s    *step
		res  opResult
		when string
	}
	var all []result
	check := func(s *step, res opResult, when string) bool {
		if strings.HasPrefix(res.first, changed) {
			r.Fail("result-changed", "%s: %s: %s", when, clip(s.name, 0), res.first)
			return false
		}
		if s.want != "" && res.first != s.want {
			r.Fail("result", "%s: %s gives\n %s\ninstead of\n %s", when, clip(s.name, 0), clip(res.first, 0), clip(s.want, 0))
			return false
		}
		for i := range all {
			if all[i].s == s && all[i].res.first != res.first {
				r.Fail("influence", "%s gives\n %s (%s)\n %s (%s)", clip(s.name, 0), clip(all[i].res.first, 0), all[i].when, clip(res.first, 0), when)
				return false
			}
		}
		all = append(all, result{s, res, when})
		return true
	}
	// alone, in some order, before
	for i := range prog {
		for k := range prog[i] {
			r.Log("task %d: %s", i, prog[i][k].name)
			if t.G(3) == 0 {
				if !check(&prog[i][k], doStep(&prog[i][k]), "alone before") {
					return
				}
			}
		}
	}
	res := make([][]opResult, ntasks)
	fns := make([]func(), ntasks)
	for i := range prog {
		i := i
		res[i] = make([]opResult, len(prog[i]))
		fns[i] = func() {
			for k := range prog[i] {
				res[i][k] = doStep(&prog[i][k])
			}
		}
	}
	r.Nontrivial = true
	simrt.Extend(300_000_000)
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for i := range prog {
		for k := range prog[i] {
			if !check(&prog[i][k], res[i][k], fmt.Sprintf("among %d tasks", ntasks)) {
				return
			}
		}
	}
	// alone, after, in the opposite order
	for i := len(prog) - 1; i >= 0; i-- {
		for k := len(prog[i]) - 1; k >= 0; k-- {
			if !check(&prog[i][k], doStep(&prog[i][k]), "alone afterwards") {
				return
			}
		}
	}
	for _, k := range all {
		var again string
		if p := call(func() { again = k.res.again() }); p != "" {
			again = p
		}
		if again != k.res.first {
			r.Fail("result-changed", "%s gave (%s)\n %s\nand the result handed out reads afterwards\n %s", clip(k.s.name, 0), k.when, clip(k.res.first, 0), clip(again, 0))
			return
		}
		r.H(again)
		r.R(again)
	}
}
