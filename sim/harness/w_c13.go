package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C13: a log of messages is applied to several replicas. One applies every
// message once, without faults; the others get messages again right after
// themselves and have attempts interrupted by failing members before that.

func init() { register("C13", 400_000_000, runC13) }

var flakyArm, flakyMode int // the flakyArm-th hook call fails (0: none)

// flaky stores the text of its member; some attempts are interrupted.
type flaky struct {
	Text string
	sub  *string
}

func (f *flaky) UnmarshalJSON(b []byte) error {
	if flakyArm > 0 {
		flakyArm--
		if flakyArm == 0 {
			switch flakyMode {
			case 0:
				return errors.New("interrupted")
			case 1:
				f.Text = string(b[:len(b)/2])
				return errors.New("interrupted half way")
			case 2:
				panic("interrupted")
			case 3:
				f.Text = "half"
				panic(errors.New("interrupted half way"))
			default:
				var m map[string]int
				m["interrupted"] = 1
			}
		}
	}
	f.Text = string(b)
	return nil
}

func (f flaky) MarshalJSON() ([]byte, error) {
	if f.Text == "" {
		return []byte("null"), nil
	}
	return []byte(f.Text), nil
}

var flakyTypes = []reflect.Type{reflect.TypeOf(flaky{}), reflect.TypeOf(&flaky{}), reflect.TypeOf(map[string]flaky{}), reflect.TypeOf([]flaky{}), reflect.TypeOf([]*flaky{})}

// noCounting drops types whose hooks are not idempotent themselves.
func noCounting(typ reflect.Type, depth int) reflect.Type {
	switch typ.Kind() {
	case reflect.Struct:
		if typ == reflect.TypeOf(afterT{}) || typ == reflect.TypeOf(hookScribble{}) {
			return reflect.TypeOf(E1{})
		}
		if typ.Name() != "" {
			return typ
		}
		var fs []reflect.StructField
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			fs = append(fs, reflect.StructField{Name: f.Name, Type: noCounting(f.Type, depth+1), Tag: f.Tag, Anonymous: f.Anonymous})
		}
		return reflect.StructOf(fs)
	case reflect.Ptr:
		return reflect.PtrTo(noCounting(typ.Elem(), depth+1))
	case reflect.Slice:
		return reflect.SliceOf(noCounting(typ.Elem(), depth+1))
	case reflect.Array:
		return reflect.ArrayOf(typ.Len(), noCounting(typ.Elem(), depth+1))
	case reflect.Map:
		return reflect.MapOf(typ.Key(), noCounting(typ.Elem(), depth+1))
	}
	return typ
}

// variant is a document like v with some members changed, left out or added.
func variant(t *Tape, v *V) *V {
	switch v.K {
	case KDict:
		o := &V{K: KDict}
		for _, kv := range v.O {
			switch t.G(6) {
			case 4:
			case 5:
				o.O = append(o.O, KV{kv.K, genDoc(t, genOpt{maxNodes: 4, ident: true}, -1)})
			default:
				o.O = append(o.O, KV{kv.K, variant(t, kv.V)})
			}
		}
		if t.G(3) == 2 {
			k := fmt.Sprintf("extra%d", t.G(3))
			if o.Get(k) == nil {
				o.Set(k, genDoc(t, genOpt{maxNodes: 4, ident: true}, -1))
			}
		}
		return o
	case KArr:
		o := &V{K: KArr}
		for _, x := range v.A {
			if t.G(6) < 5 {
				o.A = append(o.A, variant(t, x))
			}
		}
		for k := t.G(8) - 4; k > 0; k-- {
			o.A = append(o.A, genDoc(t, genOpt{maxNodes: 3, ident: true}, -1))
		}
		return o
	}
	if t.G(3) == 2 {
		return genDoc(t, genOpt{maxNodes: 1, ident: true}, int(v.K))
	}
	return v
}

// namesTwice tells whether some dictionary has two names that may stand for
// the same field.
func namesTwice(v *V) bool {
	seen := map[string]bool{}
	for _, kv := range v.O {
		k := strings.ToLower(strings.NewReplacer("_", "", "-", "").Replace(kv.K))
		if seen[k] || namesTwice(kv.V) {
			return true
		}
		seen[k] = true
	}
	for _, x := range v.A {
		if namesTwice(x) {
			return true
		}
	}
	return false
}

type c13msg struct {
	v    *V
	text string
	doc  jsonutils.JSONObject // the same for all replicas in this process
	val  reflect.Value        // source value of an update
}

func runC13(r *Run) {
	t := r.T
	flakyArm = 0
	base := genDoc(t, genOpt{oddKeys: t.G(3) == 2, maxNodes: 16, ident: true}, []int{int(KDict), int(KDict), int(KDict), -1}[t.G(4)])
	mode := t.G(6) // 0,1,2: decode, 3: Update, 4: UpdateDefault, 5: update from values
	if mode == 3 || mode == 4 {
		base = genDoc(t, genOpt{oddKeys: t.G(3) == 2, maxNodes: 16, f32: true}, int(KDict))
	}
	conc := simrt.RaceBuild || t.G(6) == 5
	shareDocs := t.G(2) == 1
	var typ reflect.Type
	hooks := false
	switch {
	case mode <= 2:
		typ = typeFor(t, base, 4)
		if !conc && t.G(3) > 0 {
			typ = withHooks(t, typ, flakyTypes, 5)
			hooks = true
		}
		typ = noCounting(typ, 0)
	case mode == 5:
		typ = genStruct(t, 1+t.G(3), 1+t.Size(8))
		if !conc && t.G(3) > 0 {
			typ = withHooks(t, typ, flakyTypes, 5)
			hooks = true
		}
	}
	var msgs []c13msg
	for n := 1 + t.Size(5); n > 0; n-- {
		m := c13msg{v: variant(t, base)}
		if t.G(8) == 7 {
			m.v = genDoc(t, genOpt{maxNodes: 8}, -1)
		}
		if mode == 5 {
			m.val = reflect.New(typ)
			if p := call(func() { fillValue(t, m.val.Elem(), t.G(2) == 1) }); p != "" {
				return
			}
			r.Log("message %d: value %s", len(msgs), dump(m.val))
		} else {
			m.text = m.v.Text()
			if mode <= 2 && t.G(3) == 2 {
				m.text = m.v.Spell(t)
			}
			m.doc = m.v.Build()
			r.Log("message %d: %s", len(msgs), m.text)
		}
		msgs = append(msgs, m)
	}
	seed := t.Bits()
	prefill := t.G(2) == 1
	var replicas = 2 + t.G(2)
	// a replica is made in the same state each time, dictionaries by insertions
	// in an order of their own
	type replica struct {
		q reflect.Value
		d *jsonutils.JSONDict
	}
	start := variant(t, base)
	if start.K != KDict {
		start = &V{K: KDict}
	}
	made := func(k int) *replica {
		if mode == 3 || mode == 4 {
			if !prefill {
				return &replica{d: jsonutils.NewDict()}
			}
			if k == 0 {
				return &replica{d: start.Build().(*jsonutils.JSONDict)}
			}
			return &replica{d: start.BuildShuffled(NewTape(seed + uint64(k))).(*jsonutils.JSONDict)}
		}
		rp := &replica{q: reflect.New(typ)}
		if prefill {
			call(func() { fillValue(NewTape(seed), rp.q.Elem(), true) })
		}
		return rp
	}
	state := func(rp *replica) string {
		if rp.d != nil {
			return Obs(rp.d) + rp.d.String()
		}
		return dump(rp.q)
	}
	// apply tells how an attempt ended
	apply := func(rp *replica, i int, again bool) (res string, ok bool) {
		m := msgs[i]
		doc := m.doc
		if !shareDocs && mode != 5 {
			var err error
			var n int
			if p := call(func() { doc, n, err = jsonutils.ParseStream([]byte(m.text), 0) }); p != "" || err != nil || n < 0 {
				return "unreadable", true
			}
		}
		var err error
		var p string
		switch {
		case mode <= 2:
			p = call(func() { err = doc.Unmarshal(rp.q.Interface()) })
		case mode == 3:
			p = call(func() { rp.d.Update(doc) })
		case mode == 4:
			p = call(func() { rp.d.UpdateDefault(doc) })
		default:
			p = call(func() { err = jsonutils.Update(rp.q.Interface(), m.val.Interface()) })
		}
		e := "ok"
		if err != nil {
			e = "error"
		}
		return e + p, true
	}
	// A message that gives one field two values, of which one does not fit, may
	// leave parts of the other: then only determinism is asked for.
	twice := false
	if mode != 5 && typ != nil {
		twice = strings.Contains(typ.String(), "yunion-deprecated-by")
		for _, m := range msgs {
			twice = twice || namesTwice(m.v)
		}
	}
	r.Nontrivial = true
	r.Log("mode %d, target %v, %d replicas, prefilled %v", mode, typ, replicas, prefill)
	var states []string // of the first replica, after each message
	var results []string
	rp0 := made(0)
	states = append(states, state(rp0))
	r.Log("start %s", clip(states[0], 0))
	for i := range msgs {
		res, _ := apply(rp0, i, false)
		results = append(results, res)
		states = append(states, state(rp0))
		r.Log("after message %d (%s): %s", i, clip(res, 0), clip(states[i+1], 0))
	}
	r.H(states[len(states)-1])
	follow := func(k int, draw func(n int) int, interrupt bool) (kind, msg string) {
		interrupt = interrupt && !twice
		rp := made(k)
		if s := state(rp); s != states[0] {
			return "", "" // not reproducible
		}
		for i := range msgs {
			if interrupt && draw(2) == 1 {
				// attempts that fail half way
				for n := 1 + draw(2); n > 0; n-- {
					flakyArm, flakyMode = 1+draw(6), draw(5)
					res, _ := apply(rp, i, false)
					if flakyArm == 0 {
						r.Fault("attempt_interrupted")
						if res == "ok" {
							return "swallowed", fmt.Sprintf("replica %d: the hook of a member failed in message %d and decoding reported success", k, i)
						}
					}
					flakyArm = 0
				}
			}
			res, _ := apply(rp, i, false)
			if res != results[i] {
				return "result", fmt.Sprintf("replica %d: message %d ends in %q, on the first replica in %q", k, i, res, results[i])
			}
			if s := state(rp); s != states[i+1] {
				return "diverged", fmt.Sprintf("replica %d after message %d:\n %s\nthe replica that applied every message once:\n %s\nbefore it:\n %s", k, i, clip(s, 0), clip(states[i+1], 0), clip(states[i], 0))
			}
			again := draw(3)
			if twice && results[i] != "ok" {
				again = 0
			}
			for n := again; n > 0; n-- {
				if !conc {
					r.Fault("message_redelivered")
				}
				res, _ := apply(rp, i, true)
				if res != results[i] {
					return "result", fmt.Sprintf("replica %d: message %d delivered again ends in %q instead of %q", k, i, res, results[i])
				}
				if s := state(rp); s != states[i+1] {
					return "redelivery", fmt.Sprintf("replica %d: message %d delivered again gives\n %s\ninstead of\n %s", k, i, clip(s, 0), clip(states[i+1], 0))
				}
			}
		}
		return "", ""
	}
	if conc {
		fns := make([]func(), replicas)
		kinds := make([]string, replicas)
		outs := make([]string, replicas)
		for k := range fns {
			k := k
			sub := NewTape(t.Bits())
			fns[k] = func() { kinds[k], outs[k] = follow(k+1, func(n int) int { return sub.F(n) }, false) }
		}
		if ps := simrt.RunTasks(fns...); len(ps) > 0 {
			r.Fail("panic", "%v", ps[0])
			return
		}
		if simrt.Hung() {
			return
		}
		for k := range outs {
			if kinds[k] != "" {
				r.Fail(kinds[k], "%s", outs[k])
				return
			}
		}
		return
	}
	for k := 1; k <= replicas; k++ {
		if kind, msg := follow(k, t.F, hooks); kind != "" {
			r.Fail(kind, "%s", msg)
			return
		}
	}
}
