package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Graphs of structures linked by pointers. Two families of types with the same
// Go fields but different member names, so that the order in which members are
// written and the order in which they are read differ in different ways.

type gNode struct {
	Id    int               `json:"id"`
	Text  string            `json:"text,omitempty"`
	Self  *gNode            `json:"self"`
	Next  *gNode            `json:"next"`
	Peer  *gPeer            `json:"peer"`
	List  []*gNode          `json:"list"`
	Peers []*gPeer          `json:"peers"`
	Map   map[string]*gNode `json:"map"`
	In    gInner            `json:"in"`
	GEmb
	Zed *gNode `json:"zed"`
}

type GEmb struct {
	EmbNode *gNode `json:"emb_node"`
}

type gInner struct {
	Up   *gNode   `json:"up"`
	Kids []*gNode `json:"kids"`
}

type gPeer struct {
	Id    int               `json:"id"`
	Text  string            `json:"name"`
	Owner *gNode            `json:"owner"`
	Back  *gPeer            `json:"back"`
	Many  map[string]*gPeer `json:"many"`
	Inner []gInner          `json:"inner"`
}

type hNode struct {
	Id    int               `json:"z_id"`
	Text  string            `json:"y_text"`
	Self  *hNode            `json:"x_self,omitempty"`
	Next  *hNode            `json:"w_next"`
	Peer  *hPeer            `json:"v_peer"`
	List  []*hNode          `json:"u_list"`
	Peers []*hPeer          `json:"t_peers,omitempty"`
	Map   map[string]*hNode `json:"s_map"`
	In    hInner            `json:"r_in"`
	HEmb
	Zed *hNode `json:"a_zed"`
}

type HEmb struct {
	EmbNode *hNode `json:"q_emb"`
}

type hInner struct {
	Up   *hNode   `json:"z"`
	Kids []*hNode `json:"a"`
}

type hPeer struct {
	Id    int
	Text  string
	Owner *hNode
	Back  *hPeer
	Many  map[string]*hPeer
	Inner []hInner
}

type gHolder struct {
	B *gNode
	L []*gNode
	A *gNode
	P *gPeer
}

type hHolder struct {
	B *hNode `json:"b"`
	L []*hNode
	A *hNode `json:"z"`
	P *hPeer
}

var graphFamilies = [][2]reflect.Type{
	{reflect.TypeOf(gNode{}), reflect.TypeOf(gPeer{})},
	{reflect.TypeOf(hNode{}), reflect.TypeOf(hPeer{})},
}

// gEdge: a link of kind `kind` from object `from` to object `to` (-1: nil).
type gEdge struct {
	from, to int
	kind     int
	key      string
}

// objects 0..n-1 are nodes, n..n+m-1 are peers.
type graph struct {
	n, m  int
	text  []string
	edges []gEdge
	alike bool // all objects have the same number and text
}

const (
	eSelf = iota
	eNext
	eZed
	eEmb
	eUp
	eList
	eMap
	eKids
	ePeer
	ePeers
	eOwner // from peers
	eBack
	eMany
	eInnerUp
	eInnerKids
)

var edgeName = []string{"self", "next", "zed", "emb", "in.up", "list", "map", "in.kids", "peer", "peers", "owner", "back", "many", "inner.up", "inner.kids"}

func (g *graph) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d nodes %d peers", g.n, g.m)
	if g.alike {
		sb.WriteString(" all alike")
	}
	sb.WriteByte(':')
	for _, e := range g.edges {
		fmt.Fprintf(&sb, " %d-%s%s->%d", e.from, edgeName[e.kind], e.key, e.to)
	}
	return sb.String()
}

// addEdge links from to to with some free kind of link.
func (g *graph) addEdge(t *Tape, from, to int) {
	var kinds []int
	switch {
	case from < g.n && to < g.n:
		kinds = []int{eNext, eSelf, eZed, eEmb, eUp, eList, eMap, eKids}
	case from < g.n:
		kinds = []int{ePeer, ePeers}
	case to < g.n:
		kinds = []int{eOwner, eInnerUp, eInnerKids}
	default:
		kinds = []int{eBack, eMany}
	}
	k := kinds[t.G(len(kinds))]
	taken := func(k int) bool {
		switch k {
		case eList, eMap, eKids, ePeers, eMany, eInnerUp, eInnerKids:
			return false
		}
		for _, e := range g.edges {
			if e.from == from && e.kind == k {
				return true
			}
		}
		return false
	}
	for i := 0; taken(k) && i < len(kinds); i++ {
		k = kinds[i]
	}
	if taken(k) {
		return
	}
	e := gEdge{from: from, to: to, kind: k}
	if k == eMap || k == eMany {
		e.key = []string{"a", "b", "z", "k1", "0", "", "中"}[t.G(7)]
		for _, x := range g.edges {
			if x.from == from && x.kind == k && x.key == e.key {
				return
			}
		}
	}
	g.edges = append(g.edges, e)
	if g.paths(400) >= 400 {
		g.edges = g.edges[:len(g.edges)-1]
	}
}

// paths counts the simple paths from the roots, up to max.
func (g *graph) paths(max int) int {
	on := make([]bool, g.n+g.m)
	c := 0
	var walk func(i int)
	walk = func(i int) {
		c++
		if c >= max || on[i] {
			return
		}
		on[i] = true
		for _, e := range g.edges {
			if e.from == i && e.to >= 0 {
				walk(e.to)
			}
		}
		on[i] = false
	}
	for i := 0; i < g.n+g.m && c < max; i++ {
		walk(i)
	}
	return c / max * max
}

func genGraph(t *Tape, n int) *graph {
	g := &graph{n: n}
	if t.G(2) == 1 {
		g.m = t.G(1 + min(n, 4))
	}
	tot := g.n + g.m
	for i := 0; i < tot; i++ {
		g.text = append(g.text, []string{"", "x", "two words", "<3>", jnid, "\"q\"", "1"}[t.G(7)])
	}
	// a tree that reaches everything
	for i := 1; i < tot; i++ {
		p := t.G(i)
		if t.G(3) == 0 {
			p = i - 1
		}
		g.addEdge(t, p, i)
	}
	for k := t.G(4 + n); k > 0; k-- {
		g.addEdge(t, t.G(tot), t.G(tot))
	}
	return g
}

// genRing draws a long way through many objects that comes back to where it began.
func genRing(t *Tape) *graph {
	g := &graph{n: []int{20, 40, 70, 130, 260, 520, 1030}[t.G(7)] + t.G(9)}
	for i := 0; i < g.n; i++ {
		g.text = append(g.text, "")
	}
	kind := eNext
	for i := 1; i < g.n; i++ {
		if t.G(4) == 3 {
			kind = []int{eNext, eZed, eEmb, eUp, eList, eMap, eKids}[t.G(7)]
		}
		g.edges = append(g.edges, gEdge{from: i - 1, to: i, kind: kind})
	}
	g.edges = append(g.edges, gEdge{from: g.n - 1, to: t.G(3), kind: eSelf})
	for k := t.G(3); k > 0; k-- {
		i := 1 + t.G(g.n-2)
		g.edges = append(g.edges, gEdge{from: i, to: t.G(i + 1), kind: eSelf})
	}
	return g
}

// buildAs makes the graph of values of a family of types; the result holds
// pointers to all objects.
func (g *graph) buildAs(fam [2]reflect.Type) []reflect.Value {
	obj := make([]reflect.Value, g.n+g.m)
	for i := range obj {
		if i < g.n {
			obj[i] = reflect.New(fam[0])
		} else {
			obj[i] = reflect.New(fam[1])
		}
		if g.alike {
			obj[i].Elem().FieldByName("Id").SetInt(1)
			obj[i].Elem().FieldByName("Text").SetString(g.text[0])
			continue
		}
		obj[i].Elem().FieldByName("Id").SetInt(int64(i + 1))
		obj[i].Elem().FieldByName("Text").SetString(g.text[i])
	}
	for _, e := range g.edges {
		o := obj[e.from].Elem()
		set := func(f reflect.Value) {
			if e.to < 0 {
				f.Set(reflect.Zero(f.Type()))
			} else {
				f.Set(obj[e.to])
			}
		}
		app := func(f reflect.Value) {
			x := reflect.New(f.Type().Elem()).Elem()
			set(x)
			f.Set(reflect.Append(f, x))
		}
		put := func(f reflect.Value) {
			if f.IsNil() {
				f.Set(reflect.MakeMap(f.Type()))
			}
			x := reflect.New(f.Type().Elem()).Elem()
			set(x)
			f.SetMapIndex(reflect.ValueOf(e.key), x)
		}
		switch e.kind {
		case eSelf:
			set(o.FieldByName("Self"))
		case eNext:
			set(o.FieldByName("Next"))
		case eZed:
			set(o.FieldByName("Zed"))
		case eEmb:
			set(o.FieldByName("EmbNode"))
		case eUp:
			set(o.FieldByName("In").FieldByName("Up"))
		case eKids:
			app(o.FieldByName("In").FieldByName("Kids"))
		case eList:
			app(o.FieldByName("List"))
		case eMap:
			put(o.FieldByName("Map"))
		case ePeer:
			set(o.FieldByName("Peer"))
		case ePeers:
			app(o.FieldByName("Peers"))
		case eOwner:
			set(o.FieldByName("Owner"))
		case eBack:
			set(o.FieldByName("Back"))
		case eMany:
			put(o.FieldByName("Many"))
		case eInnerUp, eInnerKids:
			f := o.FieldByName("Inner")
			x := reflect.New(f.Type().Elem()).Elem()
			if e.kind == eInnerUp {
				set(x.FieldByName("Up"))
			} else {
				app(x.FieldByName("Kids"))
			}
			f.Set(reflect.Append(f, x))
		}
	}
	return obj
}

func (g *graph) build() *gNode { return g.buildAs(graphFamilies[0])[0].Interface().(*gNode) }

// bisimilar compares two pointer-linked values: same content everywhere along
// every path, whatever is shared and whatever is copied. It returns "" or the
// path of the first difference.
func bisimilar(a, b reflect.Value, path string, seen map[[2]uintptr]bool) string {
	if a.Type() != b.Type() {
		return path + ": types"
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v and %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		k := [2]uintptr{a.Pointer(), b.Pointer()}
		if seen[k] {
			return ""
		}
		seen[k] = true
		return bisimilar(a.Elem(), b.Elem(), path, seen)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := bisimilar(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, seen); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: lengths %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := bisimilar(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), seen); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: sizes %d and %d", path, a.Len(), b.Len())
		}
		for _, k := range mapKeys(a) {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: no %q", path, k.String())
			}
			if d := bisimilar(a.MapIndex(k), y, path+"["+strconv.Quote(k.String())+"]", seen); d != "" {
				return d
			}
		}
	case reflect.Int:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d and %d", path, a.Int(), b.Int())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
		}
	}
	return ""
}

// ---- a small reader of its own for documents that may hold references ----

type jnode struct {
	kind byte // { [ " < or 0 for other scalars
	raw  string
	keys []string
	kids []*jnode
	id   int // node id of a dictionary or of a reference
}

type jreader struct {
	s   string
	pos int
}

func (r *jreader) fail(what string) { panic(fmt.Sprintf("jread: %s at %d of %q", what, r.pos, r.s)) }

func (r *jreader) ws() {
	for r.pos < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.pos]) >= 0 {
		r.pos++
	}
}

func (r *jreader) str() string {
	st := r.pos
	if r.s[r.pos] != '"' {
		r.fail("no string")
	}
	for r.pos++; r.pos < len(r.s); r.pos++ {
		switch r.s[r.pos] {
		case '\\':
			r.pos++
		case '"':
			r.pos++
			return r.s[st:r.pos]
		}
	}
	r.fail("open string")
	return ""
}

func (r *jreader) val() *jnode {
	r.ws()
	if r.pos >= len(r.s) {
		r.fail("end")
	}
	n := &jnode{}
	switch c := r.s[r.pos]; c {
	case '{':
		n.kind = '{'
		r.pos++
		for {
			r.ws()
			if r.s[r.pos] == '}' {
				r.pos++
				return n
			}
			k := r.str()
			r.ws()
			if r.s[r.pos] != ':' {
				r.fail("no colon")
			}
			r.pos++
			v := r.val()
			if k == strconv.Quote(jnid) {
				n.id, _ = strconv.Atoi(v.raw)
			} else {
				n.keys = append(n.keys, k)
				n.kids = append(n.kids, v)
			}
			r.ws()
			if r.s[r.pos] == ',' {
				r.pos++
			}
		}
	case '[':
		n.kind = '['
		r.pos++
		for {
			r.ws()
			if r.s[r.pos] == ']' {
				r.pos++
				return n
			}
			n.kids = append(n.kids, r.val())
			r.ws()
			if r.s[r.pos] == ',' {
				r.pos++
			}
		}
	case '"':
		n.kind = '"'
		n.raw = r.str()
	case '<':
		n.kind = '<'
		e := strings.IndexByte(r.s[r.pos:], '>')
		if e < 0 {
			r.fail("open reference")
		}
		n.raw = r.s[r.pos : r.pos+e+1]
		n.id, _ = strconv.Atoi(n.raw[1:e])
		r.pos += e + 1
	default:
		st := r.pos
		for r.pos < len(r.s) && strings.IndexByte(",]} \t\r\n", r.s[r.pos]) < 0 {
			r.pos++
		}
		if n.raw = r.s[st:r.pos]; n.raw == "" {
			r.fail("no value")
		}
	}
	return n
}

func jread(s string) *jnode {
	r := &jreader{s: s}
	return r.val()
}

// respell writes the document with the members of every dictionary, the node
// id among them, in some order and with some blanks.
func (n *jnode) respell(t *Tape, sb *strings.Builder) {
	sp := func() {
		if t.G(6) == 5 {
			sb.WriteString([]string{" ", "\n", "\t", "  "}[t.G(4)])
		}
	}
	sp()
	switch n.kind {
	case '{':
		ks := append([]string{}, n.keys...)
		vs := append([]*jnode{}, n.kids...)
		if n.id > 0 {
			ks = append(ks, strconv.Quote(jnid))
			vs = append(vs, &jnode{raw: strconv.Itoa(n.id)})
		}
		sb.WriteByte('{')
		for i, k := range perm(t, len(ks)) {
			if i > 0 {
				sb.WriteByte(',')
			}
			sp()
			sb.WriteString(ks[k])
			sp()
			sb.WriteByte(':')
			vs[k].respell(t, sb)
		}
		sp()
		sb.WriteByte('}')
	case '[':
		sb.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			k.respell(t, sb)
		}
		sb.WriteByte(']')
	default:
		sb.WriteString(n.raw)
	}
	sp()
}
