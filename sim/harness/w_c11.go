package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"yunion.io/x/jsonutils"
)

// C11: graphs of structures are encoded, carried over a faulty connection that
// also reorders the members of every dictionary, and decoded into fresh values.

func init() { register("C11", 400_000_000, runC11) }

type pptr struct{ orig, dec uintptr }

// sameGraph follows the original along every path that does not pass an object
// twice. Where it comes back to an object it is inside of, the decoded value
// must come back to the very object it is inside of.
func sameGraph(a, b reflect.Value, path string, on []pptr) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s is nil: %v, then %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		for k := len(on) - 1; k >= 0; k-- {
			if on[k].orig == a.Pointer() {
				if on[k].dec != b.Pointer() {
					return fmt.Sprintf("%s was a reference to the enclosing object %d levels up and is another object now", path, len(on)-k)
				}
				return ""
			}
		}
		for k := len(on) - 1; k >= 0; k-- {
			if on[k].dec == b.Pointer() {
				return fmt.Sprintf("%s was another object and is now the one that encloses it, %d levels up", path, len(on)-k)
			}
		}
		return sameGraph(a.Elem(), b.Elem(), path, append(on, pptr{a.Pointer(), b.Pointer()}))
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := sameGraph(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, on); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements, then %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameGraph(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), on); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d members, then %d", path, a.Len(), b.Len())
		}
		for _, k := range mapKeys(a) {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: no %q", path, k.String())
			}
			if d := sameGraph(a.MapIndex(k), y, path+"["+strconv.Quote(k.String())+"]", on); d != "" {
				return d
			}
		}
	case reflect.Int:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d, then %d", path, a.Int(), b.Int())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q, then %q", path, a.String(), b.String())
		}
	}
	return ""
}

// isomorphic compares two graphs with all sharing.
func isomorphic(a, b reflect.Value, path string, m, inv map[uintptr]uintptr) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s is nil: %v, then %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		x, ok := m[a.Pointer()]
		y, ok2 := inv[b.Pointer()]
		if ok || ok2 {
			if x != b.Pointer() || y != a.Pointer() {
				return path + " refers to another object"
			}
			return ""
		}
		m[a.Pointer()] = b.Pointer()
		inv[b.Pointer()] = a.Pointer()
		return isomorphic(a.Elem(), b.Elem(), path, m, inv)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := isomorphic(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, m, inv); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements, then %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := isomorphic(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), m, inv); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d members, then %d", path, a.Len(), b.Len())
		}
		for _, k := range mapKeys(a) {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: no %q", path, k.String())
			}
			if d := isomorphic(a.MapIndex(k), y, path+"["+strconv.Quote(k.String())+"]", m, inv); d != "" {
				return d
			}
		}
	case reflect.Int, reflect.String:
		return sameGraph(a, b, path, nil)
	}
	return ""
}

// object number written in a dictionary, 0 if it is not an object of the graph
func (n *jnode) object() int {
	for i, k := range n.keys {
		switch k {
		case `"id"`, `"z_id"`, `"Id"`:
			v, _ := strconv.Atoi(strings.Trim(n.kids[i].raw, `"`))
			return v
		}
	}
	return 0
}

// share rewrites a document in which shared objects are written out at every
// place into one where each object is written at one place only, which may come
// after references to it.
func (n *jnode) share(t *Tape, offset int) {
	ids := map[int]int{} // ids of the document to objects
	var scan func(n *jnode)
	scan = func(n *jnode) {
		if n.kind == '{' && n.id > 0 {
			ids[n.id] = n.object()
		}
		for _, k := range n.kids {
			scan(k)
		}
	}
	scan(n)
	done := map[int]bool{}
	work := []*jnode{n}
	for len(work) > 0 {
		i := t.G(len(work))
		x := work[i]
		work = append(work[:i], work[i+1:]...)
		switch x.kind {
		case '<':
			x.id = ids[x.id] + offset
			x.raw = fmt.Sprintf("<%d>", x.id)
			continue
		case '{':
			x.id = 0
			if o := x.object(); o > 0 {
				if done[o] {
					*x = jnode{kind: '<', id: o + offset, raw: fmt.Sprintf("<%d>", o+offset)}
					continue
				}
				done[o] = true
				x.id = o + offset
			}
		}
		work = append(work, x.kids...)
	}
}

func runC11(r *Run) {
	t := r.T
	type rec struct {
		orig   reflect.Value // pointer to the value encoded
		shared bool
		text   string
	}
	var recs []rec
	var stream []byte
	var ends []int
	for n := 1 + t.G(3); n > 0; n-- {
		size := 1 + t.Size(12)
		if t.G(40) == 39 {
			size = 1 + t.Size(300)
		}
		var g *graph
		ring := t.G(50) == 49
		if ring {
			g = genRing(t)
		} else {
			g = genGraph(t, size)
		}
		g.alike = t.G(4) == 3
		f := t.G(2)
		obj := g.buildAs(graphFamilies[f])
		all := t.G(2) == 1
		var root reflect.Value // pointer to what is encoded
		byValue := true
		what := ""
		switch t.G(6) {
		case 0, 1:
			root, byValue, what = obj[0], false, "pointer"
		case 2:
			// a structure by value: a copy, not itself part of the graph
			root = reflect.New(obj[0].Type().Elem())
			root.Elem().Set(obj[0].Elem())
			what = "value"
		case 3:
			root = reflect.New([]reflect.Type{reflect.TypeOf(gHolder{}), reflect.TypeOf(hHolder{})}[f])
			h := root.Elem()
			if t.G(4) > 0 {
				h.FieldByName("B").Set(obj[t.G(g.n)])
			}
			if t.G(4) > 0 {
				h.FieldByName("A").Set(obj[t.G(g.n)])
			}
			for k := t.G(4); k > 0; k-- {
				h.FieldByName("L").Set(reflect.Append(h.FieldByName("L"), obj[t.G(g.n)]))
			}
			if g.m > 0 {
				h.FieldByName("P").Set(obj[g.n+t.G(g.m)])
			}
			byValue = t.G(2) == 1
			what = "holder"
		case 4:
			l := reflect.MakeSlice(reflect.SliceOf(obj[0].Type()), 0, 4)
			for k := 1 + t.G(3); k > 0; k-- {
				l = reflect.Append(l, obj[t.G(g.n)])
			}
			root = reflect.New(l.Type())
			root.Elem().Set(l)
			what = "slice"
		case 5:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), obj[0].Type()))
			for k := 1 + t.G(3); k > 0; k-- {
				m.SetMapIndex(reflect.ValueOf([]string{"a", "b", "c", jnid + "x"}[t.G(4)]), obj[t.G(g.n)])
			}
			root = reflect.New(m.Type())
			root.Elem().Set(m)
			what = "map"
		}
		var doc jsonutils.JSONObject
		var text string
		if p := call(func() {
			x := root.Interface()
			if byValue {
				x = root.Elem().Interface()
			}
			doc = encode(all, x)
			if t.G(3) == 2 && !ring {
				text = doc.PrettyString()
			} else {
				text = doc.String()
			}
		}); p != "" {
			r.Fail("panic", "encoding %s: %s", g.describe(), p)
			return
		}
		r.Log("graph family %d %s (as %s, all=%v) text %s", f, g.describe(), what, all, text)
		r.H(text)
		if len(text) > 200000 {
			r.Count("skipped_long")
			continue
		}
		shared := false
		if t.G(3) > 0 {
			// members in another order
			var j *jnode
			if p := call(func() { j = jread(text) }); p != "" {
				r.Fail("text", "the encoding of %s cannot be read: %s", g.describe(), p)
				return
			}
			if t.G(3) == 2 && what != "value" && !g.alike {
				j.share(t, []int{0, 5, 1000}[t.G(3)])
				shared = true
				r.Count("each_object_once")
			}
			var sb strings.Builder
			j.respell(t, &sb)
			text = strings.TrimSpace(sb.String())
			r.Log("respelled: %s", text)
			r.Count("members_reordered")
		}
		if !shared {
			if !checkGraph(r, "decoded without being rendered", doc, root, false, g, text) {
				return
			}
		}
		if i := len(recs); i > 0 {
			stream = append(stream, []string{"", "\n", " "}[t.G(3)]...)
		}
		stream = append(stream, text...)
		ends = append(ends, len(stream))
		recs = append(recs, rec{root, shared, text})
	}
	r.Nontrivial = len(recs) > 0
	rd := &docReader{r: r, ends: ends, keep: []int{0, 0, 5, 1000}[t.F(4)]}
	rd.onDoc = func(i int, o jsonutils.JSONObject) {
		if t.G(4) == 3 {
			o = jsonutils.DeepCopy(o)
		}
		checkGraph(r, fmt.Sprintf("record %d from the wire", i), o, recs[i].orig, recs[i].shared, nil, recs[i].text)
	}
	if !transfer(r, stream, []int{0, 10, 60}[t.F(3)], rd) {
		r.Count("unfinished")
		return
	}
	if !r.Failed() && rd.next != len(recs) {
		r.Fail("liveness", "only %d of %d records were read", rd.next, len(recs))
	}
}

func checkGraph(r *Run, how string, o jsonutils.JSONObject, orig reflect.Value, shared bool, g *graph, text string) bool {
	q := reflect.New(orig.Type().Elem())
	var err error
	if pn := call(func() { err = o.Unmarshal(q.Interface()) }); pn != "" {
		r.Fail("panic", "%s: decoding %q: %s", how, clip(text, 0), pn)
		return false
	}
	if err != nil {
		r.Fail("error", "%s: decoding %q: %v", how, clip(text, 0), err)
		return false
	}
	var d string
	if shared {
		d = isomorphic(orig, q, "", map[uintptr]uintptr{}, map[uintptr]uintptr{})
	} else {
		d = sameGraph(orig, q, "", nil)
	}
	if d != "" {
		r.Fail("graph", "%s: %s\n text %s", how, d, clip(text, 0))
		return false
	}
	return true
}
