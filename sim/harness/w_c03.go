package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C03: histories of edits on containers that share members, against a model of
// the heap of documents; first one owner, then several at once that own copies
// of a common base.

func init() { register("C03", 400_000_000, runC03) }

// mo is the model of one document object.
type mo struct {
	k    Kind
	v    *V // scalars
	keys []string
	kids []*mo
	real jsonutils.JSONObject
}

func (m *mo) idx(k string) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *mo) set(k string, x *mo) {
	if i := m.idx(k); i >= 0 {
		m.kids[i] = x
		return
	}
	i := sort.SearchStrings(m.keys, k)
	m.keys = append(m.keys, "")
	copy(m.keys[i+1:], m.keys[i:])
	m.keys[i] = k
	m.kids = append(m.kids, nil)
	copy(m.kids[i+1:], m.kids[i:])
	m.kids[i] = x
}

func (m *mo) del(k string) bool {
	i := m.idx(k)
	if i < 0 {
		return false
	}
	m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	m.kids = append(m.kids[:i:i], m.kids[i+1:]...)
	return true
}

func (m *mo) toV() *V {
	switch m.k {
	case KDict:
		v := vDict()
		for i, k := range m.keys {
			v.Set(k, m.kids[i].toV())
		}
		return v
	case KArr:
		v := vArr()
		for _, x := range m.kids {
			v.A = append(v.A, x.toV())
		}
		return v
	}
	return m.v
}

func (m *mo) obs() string { return m.toV().Obs() }

// size of the document written out, up to max.
func (m *mo) size(max int) int {
	n := 1
	for _, x := range m.kids {
		if n >= max {
			break
		}
		n += x.size(max - n)
	}
	return n
}

func (m *mo) reaches(x *mo) bool {
	if m == x {
		return true
	}
	for _, y := range m.kids {
		if y.reaches(x) {
			return true
		}
	}
	return false
}

// adopt makes the model of a document nobody else knows.
func adopt(v *V, o jsonutils.JSONObject) *mo {
	m := &mo{k: v.K, real: o}
	switch v.K {
	case KDict:
		d := o.(*jsonutils.JSONDict)
		for _, kv := range v.O {
			c, err := d.Get(kv.K)
			if err != nil {
				panic("adopt: " + err.Error())
			}
			m.set(kv.K, adopt(kv.V, c))
		}
	case KArr:
		a := o.(*jsonutils.JSONArray)
		for i := range v.A {
			c, err := a.GetAt(i)
			if err != nil {
				panic("adopt: " + err.Error())
			}
			m.kids = append(m.kids, adopt(v.A[i], c))
		}
	default:
		m.v = v
	}
	return m
}

type keptRes struct {
	what string
	get  func() string
	want string
}

type owner struct {
	r    *Run
	t    *Tape
	id   int
	own  []*mo // containers this owner may edit
	vis  []*mo // further documents it may read and hold
	kept []keptRes
}

func (o *owner) fail(kind, f string, a ...interface{}) bool {
	o.r.Fail(kind, "owner %d: "+f, append([]interface{}{o.id}, a...)...)
	return false
}

func (o *owner) pick(kind Kind) *mo {
	var l []*mo
	for _, m := range o.own {
		if m.k == kind {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		m := o.fresh(int(kind))
		if m.k != kind {
			return nil
		}
		return m
	}
	return l[len(l)-1-o.t.G(len(l))]
}

// fresh makes a new document of the owner's own.
func (o *owner) fresh(kind int) *mo {
	v := genDoc(o.t, genOpt{oddKeys: true, maxNodes: 5, maxDepth: 3}, kind)
	m := adopt(v, v.BuildShuffled(o.t))
	o.take(m)
	return m
}

// take notes all containers of m as the owner's own.
func (o *owner) take(m *mo) {
	if m.k != KDict && m.k != KArr {
		return
	}
	for _, x := range o.own {
		if x == m {
			return
		}
	}
	o.own = append(o.own, m)
	for _, x := range m.kids {
		o.take(x)
	}
}

// member picks something to put into a container of the owner.
func (o *owner) member(into *mo) *mo {
	t := o.t
	var m *mo
	switch t.G(5) {
	case 0:
		m = o.fresh(-1)
	case 1, 2:
		if len(o.own) > 0 {
			m = o.own[t.G(len(o.own))]
		}
	case 3:
		if n := len(o.vis); n > 0 {
			m = o.vis[t.G(n)]
		}
	case 4:
		// a constant shared by everybody
		k := t.G(3)
		c := []jsonutils.JSONObject{jsonutils.JSONNull, jsonutils.JSONTrue, jsonutils.JSONFalse}[k]
		return &mo{k: []Kind{KNull, KBool, KBool}[k], v: []*V{vNull(), vBool(true), vBool(false)}[k], real: c}
	}
	if m == nil || m.reaches(into) {
		v := vInt(int64(t.G(1000)))
		m = &mo{k: KInt, v: v, real: v.Build()}
	}
	return m
}

func (o *owner) key(m *mo) string {
	k := o.anyKey(m)
	if k == jnid {
		return "jnid" // the name of the pointer ids
	}
	return k
}

func (o *owner) anyKey(m *mo) string {
	if len(m.keys) > 0 && o.t.G(2) == 1 {
		k := m.keys[o.t.G(len(m.keys))]
		switch o.t.G(8) {
		case 6:
			return strings.ToUpper(k)
		case 7:
			return strings.ToLower(k)
		}
		return k
	}
	return genKey(o.t, &genOpt{oddKeys: true})
}

func (o *owner) keys(m *mo) []string {
	var l []string
	for n := o.t.G(4); n > 0; n-- {
		l = append(l, o.key(m))
	}
	if o.t.G(30) == 29 {
		// very many
		for n := []int{8, 16, 33, 65, 130}[o.t.G(5)]; n > 0; n-- {
			l = append(l, fmt.Sprintf("m%d", n))
		}
		for i, k := range m.keys {
			if i%2 == 0 && k != jnid {
				l = append(l, k)
			}
		}
	}
	return l
}

// deep is the model of a deep copy, structured as the copy c.
func deepModel(m *mo, c jsonutils.JSONObject) *mo { return adopt(m.toV(), c) }

func (o *owner) shallow(m *mo, c jsonutils.JSONObject, keep func(string) bool) *mo {
	n := &mo{k: m.k, real: c}
	for i, x := range m.kids {
		if m.k == KArr {
			n.kids = append(n.kids, x)
		} else if keep == nil || keep(m.keys[i]) {
			n.keys = append(n.keys, m.keys[i])
			n.kids = append(n.kids, x)
		}
	}
	o.own = append(o.own, n)
	return n
}

func isIn(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func (o *owner) check(m *mo, when string) bool {
	got, want := Obs(m.real), m.obs()
	if got != want {
		return o.fail("content", "%s: a document reads\n %s\ninstead of\n %s", when, clip(got, 0), clip(want, 0))
	}
	return true
}

func (o *owner) checkAll(when string) bool {
	for _, m := range o.own {
		if !o.check(m, when) {
			return false
		}
	}
	for _, m := range o.vis {
		if !o.check(m, when+", a document of the base") {
			return false
		}
	}
	for _, k := range o.kept {
		if got := k.get(); got != k.want {
			return o.fail("private", "%s: the result of %s reads\n %s\ninstead of\n %s", when, k.what, clip(got, 0), clip(k.want, 0))
		}
	}
	return true
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// some picks any document the owner may read.
func (o *owner) some(kind Kind) *mo {
	var l []*mo
	for _, m := range o.own {
		if m.k == kind {
			l = append(l, m)
		}
	}
	for _, m := range o.vis {
		if m.k == kind {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return o.pick(kind)
	}
	return l[len(l)-1-o.t.G(len(l))]
}

// op executes one operation on the real documents and on the model.
func (o *owner) op() bool {
	t := o.t
	logf := func(f string, a ...interface{}) { o.r.Log("owner %d: "+f, append([]interface{}{o.id}, a...)...) }
	scr := t.G(2) == 1
	keepList := func(what string, l []jsonutils.JSONObject, kids []*mo) {
		if scr {
			scribble(reflect.ValueOf(l), 0)
			return
		}
		var want strings.Builder
		for _, x := range kids {
			want.WriteString(fmt.Sprintf("%p,", x.real))
		}
		o.kept = append(o.kept, keptRes{what, func() string {
			var sb strings.Builder
			for _, x := range l {
				sb.WriteString(fmt.Sprintf("%p,", x))
			}
			return sb.String()
		}, want.String()})
	}
	keepMap := func(what string, m map[string]jsonutils.JSONObject, d *mo) {
		if scr {
			for k := range m {
				m[k] = jsonutils.NewString("mine")
			}
			m["mine"] = nil
			return
		}
		var want strings.Builder
		for i, k := range d.keys {
			want.WriteString(fmt.Sprintf("%q:%p,", k, d.kids[i].real))
		}
		o.kept = append(o.kept, keptRes{what, func() string {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			var sb strings.Builder
			for _, k := range ks {
				sb.WriteString(fmt.Sprintf("%q:%p,", k, m[k]))
			}
			return sb.String()
		}, want.String()})
	}
	switch t.G(31) {
	case 0, 1, 2, 3:
		m := o.pick(KDict)
		k, x := o.key(m), o.member(m)
		if m.size(400)+x.size(400) > 400 {
			return true
		}
		logf("Set(%q, %s) on %s", k, x.obs(), m.obs())
		m.real.(*jsonutils.JSONDict).Set(k, x.real)
		m.set(k, x)
		return o.check(m, "after Set")
	case 4, 5, 6:
		m := o.pick(KDict)
		k := o.key(m)
		logf("Remove(%q) on %s", k, m.obs())
		got, want := m.real.(*jsonutils.JSONDict).Remove(k), m.del(k)
		if got != want {
			return o.fail("result", "Remove returns %v", got)
		}
		return o.check(m, "after Remove")
	case 7:
		m := o.pick(KDict)
		k := o.key(m)
		logf("RemoveIgnoreCase(%q) on %s", k, m.obs())
		want := false
		for _, x := range append([]string{}, m.keys...) {
			if strings.EqualFold(x, k) {
				want = m.del(x) || want
			}
		}
		if got := m.real.(*jsonutils.JSONDict).RemoveIgnoreCase(k); got != want {
			return o.fail("result", "RemoveIgnoreCase returns %v", got)
		}
		return o.check(m, "after RemoveIgnoreCase")
	case 8, 9:
		m := o.pick(KDict)
		x := o.member(m)
		var path []string
		// the path may lead through containers of others: only own ones
		cur := m
		for n := 1 + t.G(3); n > 0; n-- {
			k := o.key(cur)
			path = append(path, k)
			if n == 1 {
				break
			}
			i := cur.idx(k)
			if i >= 0 && cur.kids[i].k == KDict {
				cur = cur.kids[i]
				if !o.owns(cur) {
					return true
				}
			} else {
				cur = &mo{k: KDict}
			}
		}
		if x.reaches(m) || m.size(400)+x.size(400) > 400 {
			return true
		}
		for p := m; ; {
			i := -1
			if len(path) > 0 {
				i = p.idx(path[0])
			}
			if x.reaches(p) {
				return true
			}
			_ = i
			break
		}
		logf("Add(%s, %q) on %s", x.obs(), path, m.obs())
		// model
		p := m
		ok := true
		var made []*mo
		for i, k := range path {
			if x.reaches(p) {
				return true
			}
			if i == len(path)-1 {
				break
			}
			j := p.idx(k)
			if j >= 0 && p.kids[j].k != KNull {
				if p.kids[j].k != KDict {
					ok = false
					break
				}
				p = p.kids[j]
				continue
			}
			n := &mo{k: KDict}
			p.set(k, n)
			made = append(made, n)
			p = n
		}
		if ok {
			p.set(path[len(path)-1], x)
		}
		err := m.real.(*jsonutils.JSONDict).Add(x.real, path...)
		if (err == nil) != ok {
			return o.fail("result", "Add returns %v", err)
		}
		// the dictionaries made on the way
		p = m
		for _, k := range path {
			i := p.idx(k)
			if i < 0 {
				break
			}
			c := p.kids[i]
			if c.real == nil {
				g, err := p.real.Get(k)
				if err != nil {
					return o.fail("result", "Add made no dictionary at %q: %v", k, err)
				}
				if _, isd := g.(*jsonutils.JSONDict); !isd {
					return o.fail("result", "Add made no dictionary at %q", k)
				}
				c.real = g
				o.own = append(o.own, c)
			}
			if c.k != KDict {
				break
			}
			p = c
		}
		return o.check(m, "after Add")
	case 10, 11, 12:
		m := o.pick(KDict)
		e := o.some(KDict)
		def := t.G(2) == 1
		if m.size(400)+e.size(400) > 400 {
			return true
		}
		for _, x := range e.kids {
			if x.reaches(m) {
				return true
			}
		}
		logf("Update(default=%v) of %s by %s", def, m.obs(), e.obs())
		if def {
			m.real.(*jsonutils.JSONDict).UpdateDefault(e.real)
		} else {
			m.real.(*jsonutils.JSONDict).Update(e.real)
		}
		ks, xs := append([]string{}, e.keys...), append([]*mo{}, e.kids...)
		for i, k := range ks {
			if !def || m.idx(k) < 0 {
				m.set(k, xs[i])
			}
		}
		return o.check(m, "after Update") && o.check(e, "source of Update")
	case 13, 14, 15:
		m := o.pick(KArr)
		var xs []*mo
		var l []jsonutils.JSONObject
		bulk := 0
		if t.G(30) == 29 {
			// a whole list at once
			bulk = []int{5, 9, 11, 16, 17, 33, 65, 130, 260}[t.G(9)]
			if t.G(2) == 1 {
				v := vArr()
				m = adopt(v, jsonutils.NewArray())
				o.take(m)
			}
		}
		n := m.size(400)
		for i := t.G(4) + bulk; i > 0; i-- {
			var x *mo
			if i <= bulk {
				v := vInt(int64(i))
				x = &mo{k: KInt, v: v, real: v.Build()}
			} else {
				x = o.member(m)
			}
			if n += x.size(400); n > 400 {
				break
			}
			xs = append(xs, x)
			l = append(l, x.real)
		}
		logf("Add %d members to %s", len(l), m.obs())
		m.real.(*jsonutils.JSONArray).Add(l...)
		scribble(reflect.ValueOf(l), 0)
		m.kids = append(m.kids, xs...)
		return o.check(m, "after Add")
	case 16, 17:
		m := o.pick(KArr)
		if len(m.kids) == 0 {
			return true
		}
		x := o.member(m)
		if m.size(400)+x.size(400) > 400 {
			return true
		}
		i := t.G(len(m.kids))
		logf("SetAt(%d, %s) on %s", i, x.obs(), m.obs())
		m.real.(*jsonutils.JSONArray).SetAt(i, x.real)
		m.kids[i] = x
		return o.check(m, "after SetAt")
	case 18, 19, 20:
		m := o.some(KDict)
		d := m.real.(*jsonutils.JSONDict)
		ks := o.keys(m)
		var c *jsonutils.JSONDict
		var keep func(string) bool
		k := t.G(4)
		logf("copy %d (%q) of %s", k, ks, m.obs())
		switch k {
		case 0:
			c = d.Copy()
		case 1:
			c = d.Copy(ks...)
			keep = func(k string) bool { return !isIn(ks, k) }
		case 2:
			c = d.CopyExcludes(ks...)
			keep = func(k string) bool { return !isIn(ks, k) }
		default:
			c = d.CopyIncludes(ks...)
			keep = func(k string) bool { return isIn(ks, k) }
		}
		if c == d {
			return o.fail("private", "a copy is the original")
		}
		ks2 := ks
		n := o.shallow(m, c, keep)
		scribble(reflect.ValueOf(ks2), 0)
		return o.check(n, "copy")
	case 21:
		m := o.some(KArr)
		logf("copy of %s", m.obs())
		n := o.shallow(m, m.real.(*jsonutils.JSONArray).Copy(), nil)
		return o.check(n, "copy")
	case 22, 23:
		m := o.some([]Kind{KDict, KDict, KArr}[t.G(3)])
		logf("deep copy of %s", m.obs())
		var c jsonutils.JSONObject
		switch {
		case t.G(2) == 0:
			c = jsonutils.DeepCopy(m.real)
		case m.k == KDict:
			c = m.real.(*jsonutils.JSONDict).DeepCopy().(jsonutils.JSONObject)
		default:
			c = m.real.(*jsonutils.JSONArray).DeepCopy().(jsonutils.JSONObject)
		}
		if got := Obs(c); got != m.obs() {
			return o.fail("content", "the deep copy of %s reads %s", m.obs(), got)
		}
		n := adopt(m.toV(), c)
		o.take(n)
		return true
	case 24:
		m := o.some(KDict)
		logf("map of %s", m.obs())
		if t.G(2) == 0 {
			keepMap("Value", m.real.(*jsonutils.JSONDict).Value(), m)
		} else {
			x, err := m.real.GetMap()
			if err != nil {
				return o.fail("result", "GetMap: %v", err)
			}
			keepMap("GetMap", x, m)
		}
		return o.check(m, "after GetMap")
	case 25:
		m := o.some(KArr)
		logf("list of %s", m.obs())
		if t.G(2) == 0 {
			keepList("Value", m.real.(*jsonutils.JSONArray).Value(), m.kids)
		} else {
			x, err := m.real.GetArray()
			if err != nil {
				return o.fail("result", "GetArray: %v", err)
			}
			keepList("GetArray", x, m.kids)
		}
		return o.check(m, "after GetArray")
	case 26:
		m := o.some(KDict)
		l := m.real.(*jsonutils.JSONDict).SortedKeys()
		logf("keys of %s", m.obs())
		want := append([]string{}, m.keys...)
		if !eqStrings(l, want) {
			return o.fail("result", "SortedKeys gives %q instead of %q", l, want)
		}
		if scr {
			scribble(reflect.ValueOf(l), 0)
		} else {
			o.kept = append(o.kept, keptRes{"SortedKeys", func() string { return fmt.Sprintf("%q", l) }, fmt.Sprintf("%q", want)})
		}
		return o.check(m, "after SortedKeys")
	case 27:
		a, b := o.some(KDict), o.some(KDict)
		if a.size(200)+b.size(200) >= 200 {
			return true
		}
		logf("Diff of %s and %s", a.obs(), b.obs())
		r1, r2, r3, r4 := jsonutils.Diff(a.real.(*jsonutils.JSONDict), b.real.(*jsonutils.JSONDict))
		m := [4]*mo{{k: KDict, real: r1}, {k: KDict, real: r2}, {k: KDict, real: r3}, {k: KDict, real: r4}}
		for i, k := range a.keys {
			j := b.idx(k)
			switch {
			case j < 0:
				m[0].set(k, a.kids[i])
			case a.kids[i].real.Equals(b.kids[j].real):
				m[2].set(k, a.kids[i])
			default:
				p, err := r2.Get(k)
				if err != nil {
					return o.fail("result", "Diff does not show %q", k)
				}
				m[1].set(k, &mo{k: KArr, kids: []*mo{a.kids[i], b.kids[j]}, real: p})
			}
		}
		for j, k := range b.keys {
			if a.idx(k) < 0 {
				m[3].set(k, b.kids[j])
			}
		}
		for _, x := range m {
			if !o.check(x, "result of Diff") {
				return false
			}
			o.own = append(o.own, x)
		}
		for _, x := range m[1].kids {
			o.own = append(o.own, x)
		}
		return true
	case 28:
		// a nested container reached by a look-up is the member itself
		m := o.some(KDict)
		if len(m.keys) == 0 {
			return true
		}
		i := t.G(len(m.keys))
		got, err := m.real.Get(m.keys[i])
		if err != nil {
			return o.fail("result", "Get(%q) of %s: %v", m.keys[i], m.obs(), err)
		}
		if m.kids[i].k >= KArr && got != m.kids[i].real {
			return o.fail("sharing", "Get(%q) of %s is not the member itself", m.keys[i], m.obs())
		}
		return true
	case 29:
		// documents held by value, lists and maps of documents
		k := t.G(6)
		logf("embed %d", k)
		switch k {
		case 0:
			m := o.some(KDict)
			c := encode(t.G(2) == 1, *m.real.(*jsonutils.JSONDict))
			return o.check(o.shallow(m, c, nil), "encoded by value")
		case 1:
			m := o.some(KArr)
			c := encode(t.G(2) == 1, *m.real.(*jsonutils.JSONArray))
			return o.check(o.shallow(m, c, nil), "encoded by value")
		case 2:
			m := o.some(KDict)
			x := m.real.(*jsonutils.JSONDict).Value()
			c := encode(t.G(2) == 1, x)
			for k := range x {
				x[k] = jsonutils.NewString("mine")
			}
			return o.check(o.shallow(m, c, nil), "encoded map")
		case 3:
			m := o.some(KArr)
			l := m.real.(*jsonutils.JSONArray).Value()
			c := encode(t.G(2) == 1, l)
			scribble(reflect.ValueOf(l), 0)
			return o.check(o.shallow(m, c, nil), "encoded list")
		case 4:
			m := o.some(KArr)
			l := m.real.(*jsonutils.JSONArray).Value()
			c := jsonutils.NewArray(l...)
			scribble(reflect.ValueOf(l), 0)
			return o.check(o.shallow(m, c, nil), "new array")
		default:
			m := o.some(KDict)
			var d jsonutils.JSONDict
			if err := m.real.Unmarshal(&d); err != nil {
				return o.fail("result", "decoding into a dictionary: %v", err)
			}
			return o.check(o.shallow(m, &d, nil), "decoded into a dictionary")
		}
	default:
		m := o.some([]Kind{KDict, KDict, KArr}[t.G(3)])
		k := t.G(5)
		logf("read %d of %s", k, m.obs())
		switch k {
		case 0:
			if s := m.real.String(); s != m.toV().Text() {
				return o.fail("content", "a document renders as\n %s\ninstead of\n %s", clip(s, 0), clip(m.toV().Text(), 0))
			}
		case 1:
			x, err := jsonutils.ParseString(m.real.String())
			if err != nil {
				return o.fail("result", "%v", err)
			}
			if ObsNorm(x) != m.toV().Norm() {
				return o.fail("content", "a document re-reads as %s", ObsNorm(x))
			}
		case 2:
			scribble(reflect.ValueOf(m.real.Interface()), 0)
		case 3:
			q := reflect.New(typeFor(t, m.toV(), 3))
			m.real.Unmarshal(q.Interface())
			scribble(q, 0)
		default:
			n := -1
			switch x := m.real.(type) {
			case *jsonutils.JSONDict:
				n = x.Length()
			case *jsonutils.JSONArray:
				n = x.Size()
			}
			if n != len(m.kids) {
				return o.fail("result", "a document of %d members says it has %d", len(m.kids), n)
			}
		}
		return o.check(m, "after reading")
	}
}

func (o *owner) owns(m *mo) bool {
	for _, x := range o.own {
		if x == m {
			return true
		}
	}
	return false
}

func runC03(r *Run) {
	t := r.T
	o := &owner{r: r, t: t}
	o.fresh(int(KDict))
	for n := 1 + t.Size(25); n > 0; n-- {
		if !o.op() {
			return
		}
		if t.G(5) == 4 && !o.checkAll("during the history") {
			return
		}
	}
	if !o.checkAll("at the end") {
		return
	}
	r.Nontrivial = true
	if t.G(3) != 2 && !simrt.RaceBuild {
		return
	}
	// several owners work on copies of what there is now
	nt := 2 + t.G(2)
	owners := make([]*owner, nt)
	fns := make([]func(), nt)
	for i := range owners {
		i := i
		seed, n := t.Bits(), 1+t.Size(9)
		own := &owner{r: r, t: NewTape(seed), id: i + 1, vis: o.own}
		owners[i] = own
		r.Log("owner %d: %d operations of seed %d", i+1, n, seed)
		fns[i] = func() {
			// everybody starts with copies of some container of the base
			if n := len(own.vis); n > 0 {
				m := own.vis[own.t.G(n)]
				if m.k == KDict {
					own.shallow(m, m.real.(*jsonutils.JSONDict).Copy(), nil)
				} else {
					own.shallow(m, m.real.(*jsonutils.JSONArray).Copy(), nil)
				}
				m = own.vis[own.t.G(n)]
				own.take(adopt(m.toV(), jsonutils.DeepCopy(m.real)))
			}
			for k := 0; k < n; k++ {
				if r.Failed() || !own.op() {
					return
				}
			}
		}
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if r.Failed() || simrt.Hung() {
		return
	}
	for _, own := range owners {
		if !own.checkAll("after all owners are done") {
			return
		}
	}
	o.checkAll("base after all owners are done")
}
