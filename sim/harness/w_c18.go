package main

import (
	"fmt"
	"reflect"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C18: sites hold copies of the same settings, edit them, compare what they
// hold with what others send and exchange the difference.

func init() { register("C18", 400_000_000, runC18) }

// eqV tells whether two documents are equal: numbers of different kinds differ.
func eqV(a, b *V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KBool:
		return a.B == b.B
	case KInt:
		return a.I == b.I
	case KFloat:
		return a.F == b.F
	case KStr:
		return a.S == b.S
	case KArr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !eqV(a.A[i], b.A[i]) {
				return false
			}
		}
	case KDict:
		if len(a.O) != len(b.O) {
			return false
		}
		for _, kv := range a.O {
			x := b.Get(kv.K)
			if x == nil || !eqV(kv.V, x) {
				return false
			}
		}
	}
	return true
}

// near is a value that is almost the one given.
func near(t *Tape, v *V) *V {
	switch v.K {
	case KNull:
		return []*V{vStr(""), vDict(), vBool(false), vStr("null")}[t.G(4)]
	case KBool:
		return []*V{vBool(!v.B), vStr(v.Text()), vInt(1), vInt(0)}[t.G(4)]
	case KInt:
		return []*V{vFloat(float64(v.I)), vStr(v.Text()), vInt(v.I + 1), vInt(-v.I), vInt(v.I ^ 1<<32)}[t.G(5)]
	case KFloat:
		return []*V{vFloat(0 - v.F), vStr(v.Text()), vFloat(v.F + 1), vInt(1)}[t.G(4)]
	case KStr:
		return []*V{vStr(v.S + " "), vStr(strings.ToUpper(v.S)), vStr(v.S + "\x00"), vArr(v), vNull(), vStr(clipText(v.S))}[t.G(6)]
	case KArr:
		x := v.Clone()
		switch t.G(5) {
		case 0:
			x.A = append(x.A, vNull())
		case 1:
			if len(x.A) > 0 {
				x.A = x.A[:len(x.A)-1]
			}
		case 2:
			if n := len(x.A); n > 1 {
				i := t.G(n - 1)
				x.A[i], x.A[i+1] = x.A[i+1], x.A[i]
			}
		case 3:
			if n := len(x.A); n > 0 {
				i := t.G(n)
				x.A[i] = near(t, x.A[i])
			}
		default:
			return vDict(KV{"0", vArr(x.A...)})
		}
		return x
	}
	x := v.Clone()
	if len(x.O) == 0 {
		return []*V{vNull(), vArr(), vDict(KV{"", vNull()})}[t.G(3)]
	}
	i := t.G(len(x.O))
	kv := x.O[i]
	switch t.G(5) {
	case 0:
		x.O[i].V = near(t, kv.V)
	case 1:
		x.Del(kv.K)
	case 2:
		x.Set(kv.K+"_", kv.V.Clone())
	case 3:
		x.Del(kv.K)
		x.Set(strings.ToUpper(kv.K), kv.V)
	default:
		x.Del(kv.K)
		x.Set(kv.K+"2", kv.V)
	}
	return x
}

// posZero makes negative zeros positive: they are equal but look different.
func (v *V) posZero() *V {
	if v.K == KFloat && v.F == 0 {
		v.F = 0
	}
	for _, x := range v.A {
		x.posZero()
	}
	for _, kv := range v.O {
		kv.V.posZero()
	}
	return v
}

func clipText(s string) string {
	if s == "" {
		return "x"
	}
	return s[:len(s)-1]
}

type site struct {
	id   int
	o    *jsonutils.JSONDict
	v    *V
	disk string // what it wrote last
	dv   *V
}

// difference is what Diff has to say.
type difference struct{ aNoB, aDiffB, aAndB, bNoA *V }

func diffV(a, b *V) (d difference) {
	d.aNoB, d.aDiffB, d.aAndB, d.bNoA = vDict(), vDict(), vDict(), vDict()
	for _, kv := range a.O {
		switch x := b.Get(kv.K); {
		case x == nil:
			d.aNoB.Set(kv.K, kv.V)
		case eqV(kv.V, x):
			d.aAndB.Set(kv.K, kv.V)
		default:
			d.aDiffB.Set(kv.K, vArr(kv.V, x))
		}
	}
	for _, kv := range b.O {
		if a.Get(kv.K) == nil {
			d.bNoA.Set(kv.K, kv.V)
		}
	}
	return
}

// selection is a document without or with just some of its members.
func (v *V) selection(names []string, with bool) *V {
	d := vDict()
	for _, kv := range v.O {
		if isIn(names, kv.K) == with {
			d.Set(kv.K, kv.V)
		}
	}
	return d
}

// nulls tells whether a document has a null in it: encoding Go values leaves
// those out unless asked for.
func (v *V) nulls() bool {
	for _, x := range v.A {
		if x.nulls() {
			return true
		}
	}
	for _, kv := range v.O {
		if kv.V.nulls() {
			return true
		}
	}
	return v.K == KNull
}

// handed is a document that reached a site and what it means.
type handed struct {
	o   *jsonutils.JSONDict
	v   *V
	way string
}

// compare lets a caller compare two documents in every way.
func compare(t *Tape, a, b *jsonutils.JSONDict, av, bv *V, names []string, how int) (d [4]*jsonutils.JSONDict, bad string) {
	want := eqV(av, bv)
	if got := a.Equals(b); got != want {
		return d, fmt.Sprintf("Equals says %v", got)
	}
	if got := b.Equals(a); got != want {
		return d, fmt.Sprintf("Equals the other way round says %v", got)
	}
	if !a.Equals(a) {
		return d, "the first is not equal to itself"
	}
	m := diffV(av, bv)
	d[0], d[1], d[2], d[3] = jsonutils.Diff(a, b)
	for i, x := range []*V{m.aNoB, m.aDiffB, m.aAndB, m.bNoA} {
		if got, want := Obs(d[i]), x.Obs(); got != want {
			return d, fmt.Sprintf("Diff gives as %s %s instead of %s", []string{"aNoB", "aDiffB", "aAndB", "bNoA"}[i], clip(got, 0), clip(want, 0))
		}
	}
	if how&1 != 0 {
		for i, x := range []*V{av.selection(names, true), av.selection(names, false)} {
			var c *jsonutils.JSONDict
			if i == 0 {
				c = a.CopyIncludes(names...)
			} else if how&2 != 0 {
				c = a.Copy(names...)
			} else {
				c = a.CopyExcludes(names...)
			}
			if got, want := Obs(c), x.Obs(); got != want {
				return d, fmt.Sprintf("of %s CopyIncludes, CopyExcludes of %q (%d) give %s instead of %s", clip(av.Text(), 0), names, i, clip(got, 0), clip(want, 0))
			}
		}
	}
	if how&4 != 0 {
		if n := len(av.O); a.Length() != n || a.Size() != n || a.IsZero() != (n == 0) || len(a.Value()) != n {
			return d, fmt.Sprintf("Length %d, Size %d, IsZero %v, %d values of %d members", a.Length(), a.Size(), a.IsZero(), len(a.Value()), n)
		}
		for i, k := range a.SortedKeys() {
			if i >= len(av.O) || av.O[i].K != k {
				return d, fmt.Sprintf("SortedKeys has %q at %d", k, i)
			}
			x, _ := a.Get(k)
			w := av.O[i].V
			if bx := bv.Get(k); bx != nil {
				y, _ := b.Get(k)
				if e := x.Equals(y); e != eqV(w, bx) || y.Equals(x) != e {
					return d, fmt.Sprintf("members %q: Equals says %v", k, e)
				}
			}
			zero := w.K == KNull || w.K == KBool && !w.B || w.K == KInt && w.I == 0 || w.K == KFloat && w.F == 0 || w.K == KStr && w.S == "" || w.K == KArr && len(w.A) == 0 || w.K == KDict && len(w.O) == 0
			if x.IsZero() != zero {
				return d, fmt.Sprintf("member %q, %s: IsZero says %v", k, clip(w.Text(), 0), !zero)
			}
		}
	}
	if how&8 != 0 {
		if got := a.Interface(); !sameGo(reflect.ValueOf(got), av) {
			return d, fmt.Sprintf("Interface gives %s", clip(fmt.Sprintf("%#v", got), 0))
		}
	}
	if how&16 != 0 {
		if same := a.String() == b.String(); want && !same {
			return d, fmt.Sprintf("equal but rendered as %s and %s", clip(a.String(), 0), clip(b.String(), 0))
		} else if same && !want && eqV(jread(av.Text()).docOf(), av) && eqV(jread(bv.Text()).docOf(), bv) {
			return d, fmt.Sprintf("different but both rendered as %s", clip(a.String(), 0))
		}
	}
	return d, ""
}

// sameGo tells whether a Go value is what Interface makes of a document.
func sameGo(x reflect.Value, v *V) bool {
	if x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	switch v.K {
	case KNull:
		return !x.IsValid()
	case KBool:
		return x.IsValid() && x.Kind() == reflect.Bool && x.Bool() == v.B
	case KInt:
		return x.IsValid() && x.Kind() == reflect.Int64 && x.Int() == v.I
	case KFloat:
		return x.IsValid() && x.Kind() == reflect.Float64 && x.Float() == v.F
	case KStr:
		return x.IsValid() && x.Kind() == reflect.String && x.String() == v.S
	case KArr:
		if !x.IsValid() || x.Kind() != reflect.Slice || x.Len() != len(v.A) {
			return false
		}
		for i := range v.A {
			if !sameGo(x.Index(i), v.A[i]) {
				return false
			}
		}
		return true
	}
	if !x.IsValid() || x.Kind() != reflect.Map || x.Len() != len(v.O) {
		return false
	}
	for _, kv := range v.O {
		m := x.MapIndex(reflect.ValueOf(kv.K))
		if !m.IsValid() || !sameGo(m, kv.V) {
			return false
		}
	}
	return true
}

// sameRing tells whether a Go value is what Interface makes of the document
// with text n. Where resolved, a reference to an object that holds it is the
// map of that object.
func sameRing(x interface{}, n *jnode, resolved bool, on map[int]uintptr) string {
	switch n.kind {
	case '{':
		m, ok := x.(map[string]interface{})
		if !ok || len(m) != len(n.keys) {
			return fmt.Sprintf("%T for a dictionary of %d", x, len(n.keys))
		}
		if n.id > 0 {
			on[n.id] = reflect.ValueOf(m).Pointer()
			defer delete(on, n.id)
		}
		for i, k := range n.keys {
			if bad := sameRing(m[unquoteKey(k)], n.kids[i], resolved, on); bad != "" {
				return k + ": " + bad
			}
		}
	case '[':
		l, ok := x.([]interface{})
		if !ok || len(l) != len(n.kids) {
			return fmt.Sprintf("%T for a list of %d", x, len(n.kids))
		}
		for i := range l {
			if bad := sameRing(l[i], n.kids[i], resolved, on); bad != "" {
				return fmt.Sprintf("%d: %s", i, bad)
			}
		}
	case '<':
		if !resolved {
			if x != nil {
				return fmt.Sprintf("%T for a reference", x)
			}
			return ""
		}
		m, ok := x.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%T for a reference", x)
		}
		if at := on[n.id]; at != 0 && at != reflect.ValueOf(m).Pointer() {
			return "another map for a reference to an object that holds it"
		}
	default:
		if v := n.docOf(); !sameGo(reflect.ValueOf(x), v) {
			return fmt.Sprintf("%#v for %s", x, n.raw)
		}
	}
	return ""
}

// rings compares documents that hold references: two graphs that differ in
// little, encoded, copied, and read from what was sent.
func rings(r *Run) {
	t := r.T
	all := t.G(2) == 1
	g := genGraph(t, 1+t.G(6))
	h := &graph{n: g.n, m: g.m, text: append([]string{}, g.text...), edges: append([]gEdge{}, g.edges...)}
	switch t.G(3) {
	case 1:
		h.text[t.G(len(h.text))] += "!"
	case 2:
		if n := len(h.edges); n > 0 {
			h.edges = h.edges[:n-1]
		}
	}
	type held struct {
		o        jsonutils.JSONObject
		text     string
		how      string
		resolved bool
	}
	var docs []held
	var bad string
	for _, x := range []*graph{g, h} {
		if bad = call(func() {
			o := encode(all, x.build())
			text := o.String()
			docs = append(docs, held{o, text, "encoded", true})
			for n := 1 + t.G(3); n > 0; n-- {
				d := held{o, text, "copied", true}
				sent := text
				switch t.G(4) {
				case 0:
					d.o = jsonutils.DeepCopy(o)
				case 1:
					d.how = "copied at the top"
					d.o = jsonutils.DeepCopy(o.(*jsonutils.JSONDict).Copy())
				case 2:
					sent = o.PrettyString()
					fallthrough
				case 3:
					d.how, d.resolved = "read from what was sent", false
					if t.F(2) == 1 {
						var sb strings.Builder
						jread(sent).respell(t, &sb)
						sent = sb.String()
						r.Fault("members_reordered")
					}
					p, err := jsonutils.ParseString(sent)
					if err != nil {
						panic(err)
					}
					d.o = p
				}
				if got := d.o.String(); got != text {
					r.Fail("rings", "%s is rendered as %s when %s", clip(text, 0), clip(got, 0), d.how)
				}
				docs = append(docs, d)
			}
		}); bad != "" {
			r.Fail("panic", "sending a graph: %s", clip(bad, 0))
			return
		}
	}
	if r.Failed() {
		return
	}
	r.R(docs[0].text)
	n := 1 + t.G(3)
	outs := make([]string, n)
	fns := make([]func(), n)
	for i := range fns {
		i := i
		var a, b [3]held
		for k := range a {
			a[k], b[k] = docs[t.G(len(docs))], docs[t.G(len(docs))]
		}
		fns[i] = func() {
			p := call(func() {
				for k := range a {
					a, b := a[k], b[k]
					want := a.text == b.text
					if x, y := a.o.Equals(b.o), b.o.Equals(a.o); x != want || y != want {
						outs[i] = fmt.Sprintf("%s, %s, and %s, %s: equal is %v, the other way %v", a.text, a.how, b.text, b.how, x, y)
						return
					}
					x, y := a.o.(*jsonutils.JSONDict), b.o.(*jsonutils.JSONDict)
					if p, q, e, s := jsonutils.Diff(x, y); want && (p.Length() > 0 || q.Length() > 0 || s.Length() > 0 || e.Length() != x.Length()) {
						outs[i] = fmt.Sprintf("%s, %s and %s: differs in %s %s %s", a.text, a.how, b.how, p, q, s)
						return
					}
					if a.how == "copied at the top" { // its references are to what it was copied from
						continue
					}
					if bad := sameRing(x.Interface(), jread(a.text), a.resolved, map[int]uintptr{}); bad != "" {
						outs[i] = fmt.Sprintf("%s, %s: Interface has %s", a.text, a.how, bad)
						return
					}
				}
			})
			if p != "" {
				outs[i] = p
			}
		}
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for _, s := range outs {
		if s != "" {
			r.Fail("rings", "%s", clip(s, 0))
			return
		}
	}
	r.Count("ring_comparisons")
}

func runC18(r *Run) {
	t := r.T
	r.Nontrivial = true
	if t.G(12) == 11 {
		rings(r)
		return
	}
	opt := genOpt{maxNodes: []int{8, 30, 60}[t.G(3)], ident: t.G(2) == 0, oddKeys: t.G(3) == 2}
	opt.keyGen = func(t *Tape) string {
		switch t.G(6) {
		case 0:
			return fmt.Sprintf("k%d", t.G(60))
		case 1:
			k := askKeys[t.G(4)]
			return []string{strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:], k[:1] + strings.ToUpper(k[1:])}[t.G(3)]
		case 2:
			return genString(t)
		}
		return askKeys[t.G(len(askKeys))]
	}
	seed := genDoc(t, opt, int(KDict)).posZero()
	if t.G(4) == 3 {
		for n := t.G(40); n > 0; n-- {
			seed.Set(fmt.Sprintf("k%02d", t.G(60)), genDoc(t, genOpt{maxNodes: 3, ident: true}, -1).posZero())
		}
	}
	if i, dup := seed.find(jnid); dup {
		seed.O = append(seed.O[:i:i], seed.O[i+1:]...)
	}
	if t.G(20) < 19 { // as they are in practice
		for n := len(seed.O); n > 0 && len(seed.Text()) > 1500; n-- {
			seed.O = seed.O[:n-1]
		}
	}
	value := func() *V { return genDoc(t, genOpt{maxNodes: 1 + t.G(8), ident: true}, -1).posZero() }
	sites := make([]*site, 2+t.G(3))
	save := func(s *site) {
		s.dv = jread(s.v.Text()).docOf()
		if t.F(2) == 1 {
			s.disk = s.o.PrettyString()
		} else {
			s.disk = s.o.String()
		}
	}
	for i := range sites {
		v := seed.Clone()
		for n := t.G(3); n > 0; n-- {
			if x := near(t, v); x.K == KDict {
				v = x
			}
		}
		sites[i] = &site{id: i, o: v.BuildShuffled(t).(*jsonutils.JSONDict), v: v}
		save(sites[i])
	}
	ok := func(s *site, when string) bool {
		if got, want := Obs(s.o), s.v.Obs(); got != want {
			r.Fail("held", "site %d holds after %s\n %s instead of\n %s", s.id, when, clip(got, 0), clip(want, 0))
			return false
		}
		return true
	}
	// edit changes what a site holds
	edit := func(s *site) {
		when := ""
		d, v := s.o, s.v
		// somewhere below
		for t.G(3) == 2 {
			var subs []KV
			for _, kv := range v.O {
				if kv.V.K == KDict {
					subs = append(subs, kv)
				}
			}
			if len(subs) == 0 {
				break
			}
			kv := subs[t.G(len(subs))]
			x, err := d.Get(kv.K)
			y, isDict := x.(*jsonutils.JSONDict)
			if err != nil || !isDict {
				r.Fail("held", "site %d: Get(%q) is %T, %v", s.id, kv.K, x, err)
				return
			}
			d, v = y, kv.V
			when += fmt.Sprintf(" below %q", kv.K)
		}
		key := opt.keyGen(t)
		if len(v.O) > 0 && t.G(3) > 0 {
			key = v.O[t.G(len(v.O))].K
		}
		if key == jnid {
			return
		}
		old := v.Get(key)
		switch c := t.G(8); c {
		case 0, 1:
			x := value()
			if old != nil && t.G(3) > 0 {
				x = near(t, old)
			}
			when += fmt.Sprintf(" Set(%q, %s)", key, clip(x.Text(), 0))
			d.Set(key, x.BuildShuffled(t))
			v.Set(key, x)
		case 2:
			x := value()
			path := []string{key}
			for len(path) < 4 && t.G(2) == 1 {
				path = append(path, askKeys[t.G(len(askKeys))])
			}
			when += fmt.Sprintf(" Add(%s, %q)", clip(x.Text(), 0), path)
			err := d.Add(x.BuildShuffled(t), path...)
			bad := false
			m := v
			for i, k := range path {
				if i == len(path)-1 {
					m.Set(k, x)
					break
				}
				n := m.Get(k)
				if n == nil || n.K == KNull {
					n = vDict()
					m.Set(k, n)
				}
				if m = n; m.K != KDict {
					bad = true
					break
				}
			}
			if (err != nil) != bad {
				r.Fail("held", "site %d:%s gives error %v", s.id, when, err)
				return
			}
		case 3, 4:
			when += fmt.Sprintf(" Remove(%q)", key)
			if got := d.Remove(key); got != (old != nil) {
				r.Fail("held", "site %d:%s says %v", s.id, when, got)
				return
			}
			v.Del(key)
		case 5:
			k := []string{key, strings.ToUpper(key), strings.ToLower(key)}[t.G(3)]
			when += fmt.Sprintf(" RemoveIgnoreCase(%q)", k)
			n := 0
			for i := len(v.O) - 1; i >= 0; i-- {
				if name := v.O[i].K; strings.ToLower(name) == strings.ToLower(k) {
					v.Del(name)
					n++
				} else if strings.EqualFold(name, k) {
					return // whether these are one name is not decided here
				}
			}
			if got := d.RemoveIgnoreCase(k); got != (n > 0) {
				r.Fail("held", "site %d:%s says %v, %d were there", s.id, when, got, n)
				return
			}
		default:
			var lists []KV
			for _, kv := range v.O {
				if kv.V.K == KArr {
					lists = append(lists, kv)
				}
			}
			if len(lists) == 0 {
				return
			}
			kv := lists[t.G(len(lists))]
			o, _ := d.Get(kv.K)
			a, isList := o.(*jsonutils.JSONArray)
			if !isList {
				r.Fail("held", "site %d: Get(%q) is %T", s.id, kv.K, o)
				return
			}
			if n := len(kv.V.A); n > 0 && c == 6 {
				i := t.G(n)
				x := near(t, kv.V.A[i])
				when += fmt.Sprintf(" SetAt(%d, %s) of %q", i, clip(x.Text(), 0), kv.K)
				a.SetAt(i, x.BuildShuffled(t))
				kv.V.A[i] = x
			} else {
				x, y := value(), value()
				when += fmt.Sprintf(" Add of %q", kv.K)
				if t.G(2) == 1 {
					a.Add(x.Build(), y.Build())
					kv.V.A = append(kv.V.A, x, y)
				} else {
					a.Add(x.Build())
					kv.V.A = append(kv.V.A, x)
				}
			}
		}
		r.Count("edits")
		ok(s, when)
	}
	// hand sends a document on its way; open unpacks it there
	hand := func(o *jsonutils.JSONDict, v *V) (open func() (handed, string)) {
		var text string
		form := t.G(7)
		if form == 5 && !v.yamlable() {
			form = 0
		}
		v = v.Clone()
		way := []string{"text", "indented text", "another's text", "deep copy", "Go values", "YAML", "held document"}[form]
		read := jread(v.Text()).docOf()
		var keep jsonutils.JSONObject
		switch form {
		case 0:
			text = o.String()
		case 1:
			text = o.PrettyString()
		case 2:
			s := &spell{t: t, ws: t.G(3), esc: t.G(4), shuf: true}
			s.val(v)
			text = s.sb.String()
		case 3:
			if t.G(2) == 1 {
				keep = o.DeepCopy().(jsonutils.JSONObject)
			} else {
				keep = jsonutils.DeepCopy(o)
			}
			read = v
		case 4:
			keep = encode(v.nulls() || t.G(2) == 1, o.Interface())
			read = v
		case 5:
			text = o.YAMLString()
		case 6:
			keep = jsonutils.DeepCopy(o)
			read = v
			text = keep.String()
		}
		return func() (h handed, bad string) {
			var err error
			var x jsonutils.JSONObject
			h.v, h.way = read.Clone(), way
			switch form {
			case 3, 4:
				x = jsonutils.DeepCopy(keep)
			case 5:
				x, err = jsonutils.ParseYAML(text)
			case 6:
				var rec struct{ Spec *jsonutils.JSONDict }
				w := jsonutils.NewDict()
				w.Set("spec", jsonutils.DeepCopy(keep))
				if err = w.Unmarshal(&rec); err == nil {
					x = rec.Spec
				}
			default:
				x, err = jsonutils.ParseString(text)
			}
			if err != nil {
				return h, fmt.Sprintf("sent as %s: %v\n %s", way, err, clip(text, 0))
			}
			d, isDict := x.(*jsonutils.JSONDict)
			if !isDict {
				return h, fmt.Sprintf("sent as %s: got %T", way, x)
			}
			h.o = d
			if got, want := Obs(d), read.Obs(); got != want {
				return h, fmt.Sprintf("sent as %s arrives as\n %s instead of\n %s", way, clip(got, 0), clip(want, 0))
			}
			return h, ""
		}
	}
	// weigh compares what came with what a site holds, by several callers at once at times
	weigh := func(s *site, h handed) (d [4]*jsonutils.JSONDict, good bool) {
		n := 1
		if simrt.RaceBuild || t.G(4) == 3 {
			n = 2 + t.G(2)
		}
		bads := make([]string, n)
		ds := make([][4]*jsonutils.JSONDict, n)
		fns := make([]func(), n)
		for i := range fns {
			i := i
			a, b, av, bv := h.o, s.o, h.v, s.v
			if i > 0 && t.G(2) == 1 {
				a, b, av, bv = b, a, bv, av
			}
			var names []string
			for k := t.G(4); k > 0; k-- {
				if l := av.O; len(l) > 0 && t.G(4) > 0 {
					names = append(names, l[t.G(len(l))].K)
				} else {
					names = append(names, opt.keyGen(t))
				}
			}
			how := t.G(32)
			fns[i] = func() { ds[i], bads[i] = compare(t, a, b, av, bv, names, how) }
		}
		if n == 1 {
			fns[0]()
		} else {
			r.Count("comparisons_at_once")
			if ps := simrt.RunTasks(fns...); len(ps) > 0 {
				r.Fail("panic", "%v", ps[0])
				return d, false
			}
			if simrt.Hung() {
				return d, false
			}
		}
		for _, b := range bads {
			if b != "" {
				r.Fail("compared", "a document that came as %s\n %s\nand the one site %d holds\n %s\n%s", h.way, clip(h.v.Text(), 0), s.id, clip(s.v.Text(), 0), b)
				return d, false
			}
		}
		if got := Obs(h.o); got != h.v.Obs() {
			r.Fail("compared", "comparing changed %s to %s", clip(h.v.Obs(), 0), clip(got, 0))
			return d, false
		}
		return ds[0], ok(s, "comparing")
	}
	// mirror makes what a site holds like what came, by the difference
	mirror := func(s *site, h handed) {
		d, good := weigh(s, h)
		if !good {
			return
		}
		m := diffV(h.v, s.v)
		moved := 0
		s.o.Update(d[0])
		for _, k := range d[1].SortedKeys() {
			x, err := d[1].GetAt(0, k)
			if err != nil {
				r.Fail("compared", "Diff: %v", err)
				return
			}
			s.o.Set(k, x)
			moved++
		}
		for _, k := range d[3].SortedKeys() {
			if !s.o.Remove(k) {
				r.Fail("held", "site %d: Remove(%q) says false", s.id, k)
				return
			}
			moved++
		}
		for _, l := range []*V{m.aNoB, m.aDiffB, m.bNoA} {
			for _, kv := range l.O {
				if x := h.v.Get(kv.K); x != nil {
					s.v.Set(kv.K, x.Clone())
				} else {
					s.v.Del(kv.K)
				}
			}
		}
		if !ok(s, "taking over the difference") {
			return
		}
		if !s.o.Equals(h.o) || !h.o.Equals(s.o) {
			r.Fail("converged", "site %d took over the difference to\n %s\n but is not equal to it:\n %s", s.id, clip(h.v.Text(), 0), clip(s.o.String(), 0))
			return
		}
		a, b, _, c := jsonutils.Diff(s.o, h.o)
		if a.Size()+b.Size()+c.Size() > 0 {
			r.Fail("converged", "site %d took over the difference but there is some left: %s %s %s", s.id, a, b, c)
			return
		}
		if got, want := s.o.String(), h.o.String(); got != want {
			r.Fail("converged", "site %d renders %s instead of %s", s.id, clip(got, 0), clip(want, 0))
			return
		}
		// from here on the site's own
		s.o = jsonutils.DeepCopy(s.o).(*jsonutils.JSONDict)
		r.Count("mirrored")
	}
	sim := newSim(r, []int{0, 4, 20}[t.F(3)])
	budget := 2 + t.G(12)
	var send func(from, to, kind int, open func() (handed, string), names []string)
	arrive := func(from, to, kind int, open func() (handed, string), names []string) {
		if r.Failed() {
			return
		}
		s := sites[to]
		if sim.fault("site_restarted", 1, 6) {
			o, err := jsonutils.ParseString(s.disk)
			d, isDict := o.(*jsonutils.JSONDict)
			if err != nil || !isDict {
				r.Fail("held", "site %d restarts from %s: %v", to, clip(s.disk, 0), err)
				return
			}
			s.o, s.v = d, s.dv.Clone()
			if !ok(s, "a restart") {
				return
			}
		}
		h, bad := open()
		if bad != "" {
			r.Fail("held", "%s", bad)
			return
		}
		r.R(h.way)
		switch kind {
		case 0:
			mirror(s, h)
		case 1:
			if _, good := weigh(s, h); !good {
				return
			}
			s.o.Update(h.o)
			for _, kv := range h.v.O {
				s.v.Set(kv.K, kv.V.Clone())
			}
			s.o = jsonutils.DeepCopy(s.o).(*jsonutils.JSONDict)
			ok(s, "merging what came")
		case 2:
			if _, good := weigh(s, h); !good {
				return
			}
			s.o.UpdateDefault(h.o)
			for _, kv := range h.v.O {
				if s.v.Get(kv.K) == nil {
					s.v.Set(kv.K, kv.V.Clone())
				}
			}
			s.o = jsonutils.DeepCopy(s.o).(*jsonutils.JSONDict)
			ok(s, "merging what came as defaults")
		case 3:
			// ask for what differs
			d, good := weigh(s, h)
			if !good {
				return
			}
			var want []string
			for _, i := range []int{0, 1, 3} {
				want = append(want, d[i].SortedKeys()...)
			}
			if len(want) == 0 || budget <= 0 {
				return
			}
			budget--
			src := sites[from]
			part := src.o.CopyIncludes(want...)
			if got, w := Obs(part), src.v.selection(want, true).Obs(); got != w {
				r.Fail("compared", "CopyIncludes(%q) of site %d is %s instead of %s", want, from, clip(got, 0), clip(w, 0))
				return
			}
			send(from, to, 4, hand(part, src.v.selection(want, true)), want)
		case 4:
			rest := s.o.CopyExcludes(names...)
			rv := s.v.selection(names, false)
			rest.Update(h.o)
			for _, kv := range h.v.O {
				rv.Set(kv.K, kv.V.Clone())
			}
			s.o, s.v = jsonutils.DeepCopy(rest).(*jsonutils.JSONDict), rv.Clone()
			ok(s, "taking what it asked for")
		}
		if r.Failed() {
			return
		}
		if t.F(3) > 0 {
			save(s)
		}
		if t.G(2) == 1 {
			edit(s)
		}
		if budget > 0 && !r.Failed() {
			budget--
			send(to, t.G(len(sites)), t.G(4), hand(s.o, s.v), nil)
		}
	}
	send = func(from, to, kind int, open func() (handed, string), names []string) {
		if sim.fault("message_lost", 1, 12) {
			sim.after(50*ms, func() { send(from, to, kind, open, names) })
			return
		}
		do := func() {
			if p := call(func() { arrive(from, to, kind, open, names) }); p != "" {
				r.Fail("panic", "site %d: %s", to, clip(p, 0))
			}
		}
		if sim.fault("message_duplicated", 1, 8) {
			sim.after(int64(1+t.F(60))*ms, do)
		}
		sim.after(int64(1+t.F(60))*ms, do)
	}
	if p := call(func() {
		for i, s := range sites {
			for n := t.G(3); n > 0 && !r.Failed(); n-- {
				edit(s)
			}
			r.Log("site %d holds %s", i, clip(s.v.Text(), 0))
			r.H(s.v.Text())
		}
	}); p != "" {
		r.Fail("panic", "editing: %s", clip(p, 0))
	}
	if r.Failed() {
		return
	}
	for n := 1 + t.G(3); n > 0; n-- {
		from := t.G(len(sites))
		send(from, t.G(len(sites)), t.G(4), hand(sites[from].o, sites[from].v), nil)
	}
	if !sim.run(400) {
		r.Count("unfinished")
	}
	if r.Failed() {
		return
	}
	// faults are over: everybody follows one
	lead := sites[t.G(len(sites))]
	if p := call(func() {
		for _, s := range sites {
			if s == lead || r.Failed() {
				continue
			}
			h, bad := hand(lead.o, lead.v)()
			if bad != "" {
				r.Fail("held", "%s", bad)
				return
			}
			mirror(s, h)
		}
		for _, a := range sites {
			for _, b := range sites {
				if got, want := a.o.Equals(b.o), eqV(a.v, b.v); got != want && !r.Failed() {
					r.Fail("converged", "sites %d, %d hold\n %s\n %s\n Equals says %v", a.id, b.id, clip(a.v.Text(), 0), clip(b.v.Text(), 0), got)
				}
			}
		}
	}); p != "" {
		r.Fail("panic", "%s", clip(p, 0))
	}
}
