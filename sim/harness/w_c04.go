package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

// C04: a sequence of decodings (complete, failing, aborted by panicking hooks)
// of shared source documents into targets that hold earlier results; only the
// target of each may change.

func init() {
	register("C04", 400_000_000, runC04)
	gotypes.RegisterSerializable(reflect.TypeOf((*iSer)(nil)).Elem(), func() gotypes.ISerializable { return &serT{} })
}

// an interface the library can make values for
type iSer interface {
	gotypes.ISerializable
	Ser() int
}

type serT struct {
	A   int
	B   string
	Doc jsonutils.JSONObject
}

func (s *serT) String() string { return fmt.Sprintf("ser(%d,%q)", s.A, s.B) }
func (s *serT) IsZero() bool   { return s.A == 0 && s.B == "" }
func (s *serT) Ser() int       { return s.A }

// a hook that overwrites the text it is given
type hookScribble struct{ Got string }

func (h *hookScribble) UnmarshalJSON(b []byte) error {
	h.Got = string(b)
	for i := range b {
		b[i] = '#'
	}
	b = append(b, '#', '#')
	if len(b)%7 == 0 {
		return errors.New("scribbler refuses")
	}
	return nil
}

// a hook that keeps the text it is given
type hookKeep struct{ B []byte }

func (h *hookKeep) UnmarshalJSON(b []byte) error { h.B = b; return nil }

var hookTypes = []reflect.Type{reflect.TypeOf(hookScribble{}), reflect.TypeOf(&hookScribble{}), reflect.TypeOf(badUnmarshal{}), reflect.TypeOf(&badUnmarshal{}), reflect.TypeOf(hookKeep{}),
	reflect.TypeOf((*iSer)(nil)).Elem(), reflect.TypeOf(&serT{}), reflect.TypeOf([]hookScribble{}), reflect.TypeOf(map[string]badUnmarshal{})}

// withHooks replaces some field types by types with hooks.
func withHooks(t *Tape, typ reflect.Type, list []reflect.Type, num int) reflect.Type {
	switch typ.Kind() {
	case reflect.Struct:
		if typ.Name() != "" {
			return typ
		}
		var fs []reflect.StructField
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if t.G(num) == num-1 {
				f.Type = list[t.G(len(list))]
			} else {
				f.Type = withHooks(t, f.Type, list, num)
			}
			fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type, Tag: f.Tag})
		}
		return reflect.StructOf(fs)
	case reflect.Ptr:
		if typ.Elem().Kind() == reflect.Struct && typ.Elem().Name() == "" {
			return reflect.PtrTo(withHooks(t, typ.Elem(), list, num))
		}
	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Struct && typ.Elem().Name() == "" {
			return reflect.SliceOf(withHooks(t, typ.Elem(), list, num))
		}
	case reflect.Map:
		if typ.Elem().Kind() == reflect.Struct && typ.Elem().Name() == "" {
			return reflect.MapOf(typ.Key(), withHooks(t, typ.Elem(), list, num))
		}
	}
	return typ
}

// heldDocs collects the documents a value refers to.
func heldDocs(v reflect.Value, depth int, f func(o jsonutils.JSONObject)) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.CanInterface() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return
		}
		if o, ok := v.Interface().(jsonutils.JSONObject); ok {
			f(o)
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			heldDocs(v.Elem(), depth+1, f)
		}
	case reflect.Struct:
		if _, ok := docValue(v); ok {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				heldDocs(v.Field(i), depth+1, f)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			heldDocs(v.Index(i), depth+1, f)
		}
	case reflect.Map:
		for _, k := range mapKeys(v) {
			heldDocs(v.MapIndex(k), depth+1, f)
		}
	}
}

// docValue is the document held by value.
func docValue(v reflect.Value) (jsonutils.JSONObject, bool) {
	switch v.Type() {
	case tDictP.Elem(), tArrP.Elem(), tStrP.Elem(), tIntP.Elem(), tBoolP.Elem(), tFloatP.Elem():
		if v.CanAddr() {
			return v.Addr().Interface().(jsonutils.JSONObject), true
		}
	}
	return nil, false
}

// valueDocs visits the containers held by value.
func valueDocs(v reflect.Value, depth int, f func(o jsonutils.JSONObject)) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if o, ok := docValue(v); ok {
		f(o)
		return
	}
	if v.CanInterface() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if _, ok := v.Interface().(jsonutils.JSONObject); ok {
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			valueDocs(v.Elem(), depth+1, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				valueDocs(v.Field(i), depth+1, f)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			valueDocs(v.Index(i), depth+1, f)
		}
	}
}

// outline is the content of a value with the documents it refers to named by
// identity only, and those it holds by value shown with their members by identity.
func outline(v reflect.Value) string {
	var sb strings.Builder
	var w func(v reflect.Value, depth int)
	w = func(v reflect.Value, depth int) {
		if depth > 14 || !v.IsValid() {
			return
		}
		if o, ok := docValue(v); ok {
			switch x := o.(type) {
			case *jsonutils.JSONDict:
				for _, k := range x.SortedKeys() {
					m, _ := x.Get(k)
					fmt.Fprintf(&sb, "%q:%p,", k, m)
				}
			case *jsonutils.JSONArray:
				for i := 0; i < x.Length(); i++ {
					m, _ := x.GetAt(i)
					fmt.Fprintf(&sb, "%p,", m)
				}
			default:
				sb.WriteString(Obs(o))
			}
			return
		}
		if v.CanInterface() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() {
			if o, ok := v.Interface().(jsonutils.JSONObject); ok {
				fmt.Fprintf(&sb, "doc%p", o)
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			w(v.Elem(), depth+1)
		case reflect.Struct:
			if v.Type() == tTime {
				sb.WriteString(dump(v))
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					w(v.Field(i), depth+1)
					sb.WriteByte(';')
				}
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				w(v.Index(i), depth+1)
				sb.WriteByte(',')
			}
		case reflect.Map:
			l := map[string]reflect.Value{}
			for _, k := range mapKeys(v) {
				l[dump(k)] = v.MapIndex(k)
			}
			for _, k := range sortedKeys(l) {
				sb.WriteString(k + ":")
				w(l[k], depth+1)
				sb.WriteByte(',')
			}
		default:
			sb.WriteString(dump(v))
		}
	}
	w(v, 0)
	return sb.String()
}

type snap struct {
	what string
	get  func() string
	want string
}

type c04 struct {
	r     *Run
	snaps []snap
}

func (c *c04) keep(what string, get func() string) {
	c.snaps = append(c.snaps, snap{what, get, get()})
}

func (c *c04) verify(after string) bool {
	for _, s := range c.snaps {
		if got := s.get(); got != s.want {
			c.r.Fail("changed", "%s changed %s: it reads\n %s\ninstead of\n %s", after, s.what, clip(got, 0), clip(s.want, 0))
			return false
		}
	}
	return true
}

// relength is a document whose lists have other lengths.
func relength(t *Tape, v *V, left *int) *V {
	*left--
	c := *v
	switch v.K {
	case KArr:
		c.A = nil
		if len(v.A) > 0 {
			for i := t.G(2*len(v.A) + 2); i > 0 && *left > 0; i-- {
				c.A = append(c.A, relength(t, v.A[i%len(v.A)], left))
			}
		}
	case KDict:
		d := vDict()
		for _, kv := range v.O {
			d.Set(kv.K, relength(t, kv.V, left))
		}
		return d
	}
	return &c
}

// fillTarget gives a target content of its own before it is decoded into.
func fillTarget(t *Tape, q reflect.Value) {
	call(func() { fillValue(t, q.Elem(), true) })
}

func runC04(r *Run) {
	t := r.T
	c := &c04{r: r}
	nsrc := 1 + t.G(2)
	vs := make([]*V, nsrc)
	src := make([]jsonutils.JSONObject, nsrc)
	mks := make([]func() jsonutils.JSONObject, nsrc)
	for i := range vs {
		vs[i] = genDoc(t, genOpt{oddKeys: t.G(2) == 1, maxNodes: 20, f32: true, ident: true}, []int{int(KDict), int(KDict), int(KArr), -1}[t.G(4)])
		if i > 0 && t.G(2) == 1 {
			// the same as the first with longer and shorter lists
			n := 60
			vs[i] = relength(t, vs[0], &n)
		}
		if i == 0 && t.G(3) == 2 {
			// lists whose elements are all of one kind
			for n := 1 + t.G(3); n > 0; n-- {
				if vs[i].K != KDict {
					break
				}
				l := vArr()
				kind := []int{int(KInt), int(KStr), int(KBool), int(KDict)}[t.G(4)]
				for k := t.G(8); k > 0; k-- {
					l.A = append(l.A, genDoc(t, genOpt{maxDepth: 2, maxNodes: 4, ident: true}, kind))
				}
				vs[i].Set(fmt.Sprint("list", n), l)
			}
		}
		how, mk := recipe(t, vs[i])
		if how == "query" {
			v := vs[i]
			mk = func() jsonutils.JSONObject { return v.Build() }
		}
		src[i], mks[i] = mk(), mk
		r.Log("source %d (%s): %s", i, how, vs[i].Text())
		o := src[i]
		c.keep(fmt.Sprintf("source document %d", i), func() string { return fingerprint(o) })
	}
	c.keep("the shared constants", func() string {
		return Obs(jsonutils.JSONNull) + Obs(jsonutils.JSONTrue) + Obs(jsonutils.JSONFalse) + jsonutils.JSONTrue.String() + jsonutils.JSONFalse.String()
	})
	r.Nontrivial = true
	type target struct {
		q    reflect.Value
		keep int // index of its snapshot
		from []int
	}
	var targets []*target
	note := func(tg *target) {
		q := tg.q
		s := snap{"an earlier target of type " + clip(q.Type().Elem().String(), 0), func() string { return dump(q) }, ""}
		s.want = s.get()
		if tg.keep < 0 {
			tg.keep = len(c.snaps)
			c.snaps = append(c.snaps, s)
		} else {
			c.snaps[tg.keep] = s
		}
	}
	hold := func(q reflect.Value, what string) {
		n := 0
		heldDocs(q.Elem(), 0, func(o jsonutils.JSONObject) {
			if n++; n < 12 {
				c.keep(what, func() string { return Obs(o) })
			}
		})
	}
	newTarget := func(v *V) *target {
		typ := withHooks(t, typeFor(t, v, 4), hookTypes, 9)
		if len(targets) > 0 && t.G(3) == 2 {
			typ = targets[t.G(len(targets))].q.Type().Elem() // one more of these
		}
		tg := &target{q: reflect.New(typ), keep: -1}
		if t.G(3) == 2 {
			seed := t.Bits()
			fillTarget(NewTape(seed), tg.q)
			r.Log("target prefilled: %s", dump(tg.q))
			hold(tg.q, "a document the target held before")
		}
		note(tg)
		targets = append(targets, tg)
		return tg
	}
	for n := 1 + t.Size(5); n > 0; n-- {
		i := t.G(nsrc)
		var after string
		var tg *target
		switch {
		case t.G(6) == 5:
			// one value updates another
			typ := genStruct(t, 2, 1+t.Size(5))
			sp, dp := reflect.New(typ), reflect.New(typ)
			fillValue(t, sp.Elem(), false)
			fillTarget(t, dp)
			hold(sp, "a document held by the value an update was taken from")
			hold(dp, "a document the target of an update held before")
			c.keep("the value an update was taken from", func() string { return dump(sp) })
			tg = &target{q: dp, keep: -1}
			note(tg)
			targets = append(targets, tg)
			c.snaps[tg.keep].get = func() string { return c.snaps[tg.keep].want }
			var err error
			p := call(func() { err = jsonutils.Update(dp.Interface(), sp.Interface()) })
			after = fmt.Sprintf("Update(%v, %s)", errText(err), p)
			r.Log("%s of %s", after, typ)
		default:
			if len(targets) > 0 && t.G(3) == 0 {
				tg = targets[t.G(len(targets))]
			} else {
				tg = newTarget(vs[i])
			}
			// the target itself may change
			get := c.snaps[tg.keep]
			c.snaps[tg.keep].get = func() string { return get.want }
			p := []string{}
			if t.G(5) == 4 {
				p = genPath(t, vs[i])
			}
			var err error
			pn := call(func() { err = src[i].Unmarshal(tg.q.Interface(), p...) })
			after = fmt.Sprintf("decoding source %d%q into %s (%s %s)", i, p, clip(tg.q.Type().Elem().String(), 0), errText(err), clip(pn, 0))
			r.Log("%s", after)
			if err != nil {
				r.Fault("decode_failed")
			}
			if pn != "" {
				r.Fault("decode_aborted_by_panic")
			}
			tg.from = append(tg.from, i)
		}
		if !c.verify(after) {
			return
		}
		switch t.G(4) {
		case 2:
			// the owner of the target changes what is in it
			valueDocs(tg.q.Elem(), 0, editTop)
			if !c.verify("changing containers held by value in the result of " + after) {
				return
			}
		case 3:
			valueDocs(tg.q.Elem(), 0, editTop)
			scribble(tg.q, 0)
			if !c.verify("overwriting the result of " + after) {
				return
			}
		}
		note(tg)
	}
	// several decode the same source at once and overwrite what they got
	if simrt.RaceBuild || t.G(3) == 2 {
		nt := 2 + t.G(2)
		fns := make([]func(), nt)
		outs := make([]string, nt)
		for k := range fns {
			k := k
			i := t.G(nsrc)
			typ := withHooks(t, typeFor(t, vs[i], 4), hookTypes, 9)
			solo := reflect.New(typ)
			var err error
			pn := call(func() { err = mks[i]().Unmarshal(solo.Interface()) })
			want := dump(solo) + errText(err) + pn
			r.Log("task %d: decode source %d into %s", k, i, typ)
			fns[k] = func() {
				q := reflect.New(typ)
				var err error
				pn := call(func() { err = src[i].Unmarshal(q.Interface()) })
				if got := dump(q) + errText(err) + pn; got != want {
					outs[k] = fmt.Sprintf("decoding source %d among others gives\n %s\ninstead of\n %s", i, clip(got, 0), clip(want, 0))
				}
				call(func() {
					valueDocs(q.Elem(), 0, editTop)
					scribble(q, 0)
				})
			}
		}
		if ps := simrt.RunTasks(fns...); len(ps) > 0 {
			r.Fail("panic", "%v", ps[0])
			return
		}
		if simrt.Hung() {
			return
		}
		for _, s := range outs {
			if s != "" {
				r.Fail("result", "%s", s)
				return
			}
		}
		if !c.verify("decoding by several tasks at once") {
			return
		}
	}
	// the owner of the source changes it: values keep what they hold
	var outl []string
	for _, tg := range targets {
		outl = append(outl, outline(tg.q.Elem()))
	}
	for _, o := range src {
		editDeep(o, 0)
	}
	for k, tg := range targets {
		if got := outline(tg.q.Elem()); got != outl[k] {
			r.Fail("shared", "changing a source document changed a target of type %s: it reads\n %s\ninstead of\n %s", clip(tg.q.Type().Elem().String(), 0), clip(got, 0), clip(outl[k], 0))
			return
		}
	}
}

func sortedKeys(m map[string]reflect.Value) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}
