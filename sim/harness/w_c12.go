package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"yunion.io/x/jsonutils"
)

// C12: values with hooks of the user's are decoded and encoded while some of
// the hooks fail. The harness knows which hook must be called with which text.

func init() { register("C12", 400_000_000, runC12) }

// the log of the run: hooks called, in order
var (
	hookLog  []string
	hookFail map[string]int // text to the way the hook fails
)

// probe records the text its decoding hook is given.
type probe struct{ Got string }

func (p *probe) UnmarshalJSON(b []byte) error {
	s := string(b)
	hookLog = append(hookLog, s)
	if how, ok := hookFail[s]; ok {
		p.Got = "failed " + s
		if how == 1 {
			return jsonutils.ErrTypeMismatch
		}
		return errors.New("the hook of " + s + " refuses")
	}
	p.Got = s
	return nil
}

// vprobe is a kind of text with a hook.
type vprobe string

func (p *vprobe) UnmarshalJSON(b []byte) error {
	var q probe
	err := q.UnmarshalJSON(b)
	*p = vprobe(q.Got)
	return err
}

// mprobe is a kind of map with a hook.
type mprobe map[string]int

func (p *mprobe) UnmarshalJSON(b []byte) error {
	var q probe
	err := q.UnmarshalJSON(b)
	*p = mprobe{q.Got: 1}
	return err
}

// nodes with an after-decoding hook
type aNode struct {
	Id     int              `json:"id"`
	P      probe            `json:"p"`
	Q      *probe           `json:"q"`
	T      vprobe           `json:"t"`
	L      []probe          `json:"l"`
	M      map[string]probe `json:"m"`
	S      string           `json:"s"`
	N      int64            `json:"n"`
	Kid    *aNode           `json:"kid"`
	Kids   []aNode          `json:"kids"`
	ByName map[string]bNode `json:"by_name"`
	In     bNode            `json:"in"`
	Z      probe            `json:"zz"`
}

func (n *aNode) AfterUnmarshal() { hookLog = append(hookLog, afterMark(n.Id, n)) }

type EBase struct {
	BaseId int    `json:"base_id"`
	BP     *probe `json:"bp"`
	BS     string `json:"bs"`
}

func (n *EBase) AfterUnmarshal() { hookLog = append(hookLog, afterMark(n.BaseId, n)) }

type bNode struct {
	Id int `json:"id"`
	EBase
	X  probe    `json:"x"`
	Y  []*aNode `json:"y"`
	MP mprobe   `json:"mp"`
	A  int      `json:"a"`
}

func (n *bNode) AfterUnmarshal() { hookLog = append(hookLog, afterMark(n.Id, n)) }

func afterMark(id int, x interface{}) string { return fmt.Sprintf("after#%d %s", id, dumpI(x)) }

var (
	tProbe  = reflect.TypeOf(probe{})
	tVProbe = reflect.TypeOf(vprobe(""))
	tMProbe = reflect.TypeOf(mprobe{})
	tANode  = reflect.TypeOf(aNode{})
	tBNode  = reflect.TypeOf(bNode{})
	tEBase  = reflect.TypeOf(EBase{})
)

type hookEvent struct {
	text  string // of the member
	fails bool
	opt   bool // may or may not be called, once at most
}

type afterEvent struct {
	id  int
	opt bool
	get func(root reflect.Value) reflect.Value // the node in the decoded value
}

type c12 struct {
	t      *Tape
	uid    int
	left   int
	calm   bool // hooks fail rarely
	events []hookEvent
	afters []afterEvent
}

func (c *c12) id() int { c.uid++; return c.uid }

// member draws the document of a hook; it is like no other.
func (c *c12) member() *V {
	id := int64(c.id())
	switch c.t.G(6) {
	case 1:
		return vStr(fmt.Sprintf("h%d %s", id, genString(c.t)))
	case 2:
		return vArr(vInt(id), genDoc(c.t, genOpt{maxNodes: 4}, -1))
	case 3:
		return vDict(KV{"uid", vInt(id)})
	case 4:
		v := genDoc(c.t, genOpt{maxNodes: 8, oddKeys: true}, int(KDict))
		v.Set("uid", vInt(id))
		return v
	case 5:
		return vFloat(float64(id) + 0.5)
	}
	return vInt(1000000 + id)
}

type getter func(root reflect.Value) reflect.Value

// gen draws the document for a value of a type and fills in the value expected.
// zap clears in a decoded value what is not determined.
func (c *c12) gen(typ reflect.Type, want reflect.Value, depth int, get getter) (v *V, zap func(a reflect.Value)) {
	t := c.t
	c.left--
	hook := func() {
		v = c.member()
		e := hookEvent{text: v.Text(), fails: t.F(6) == 5}
		if c.calm && e.fails {
			e.fails = t.F(12) == 11
		}
		c.events = append(c.events, e)
		if e.fails {
			hookFail[e.text] = t.F(2)
		}
	}
	got := func() string {
		e := c.events[len(c.events)-1]
		if e.fails {
			return "failed " + e.text
		}
		return e.text
	}
	switch typ {
	case tProbe:
		hook()
		want.Set(reflect.ValueOf(probe{got()}))
		return
	case tVProbe:
		hook()
		want.SetString(got())
		return
	case tMProbe:
		hook()
		want.Set(reflect.ValueOf(mprobe{got(): 1}))
		return
	}
	switch typ.Kind() {
	case reflect.Int, reflect.Int64:
		i := int64(t.G(1000))
		want.SetInt(i)
		return vInt(i), nil
	case reflect.String:
		s := genString(t)
		want.SetString(s)
		return vStr(s), nil
	case reflect.Ptr:
		want.Set(reflect.New(typ.Elem()))
		v, z := c.gen(typ.Elem(), want.Elem(), depth, func(r reflect.Value) reflect.Value { return get(r).Elem() })
		if z == nil {
			return v, nil
		}
		return v, func(a reflect.Value) {
			if !a.IsNil() {
				z(a.Elem())
			}
		}
	case reflect.Slice, reflect.Map:
		e0, a0 := len(c.events), len(c.afters)
		n := t.G(4)
		if n == 0 {
			n = 1
		}
		keys := []string{"a", "b", "c", "k k", "中"}
		switch e := typ.Elem(); e {
		case tProbe, tVProbe, tMProbe, reflect.PtrTo(tProbe):
			if t.G(20) == 19 {
				n = []int{9, 11, 16, 17, 33, 64, 65, 100, 130, 260}[t.G(10)]
				for i := 0; i < n; i++ {
					keys = append(keys, fmt.Sprintf("k%d", i))
				}
				defer func(was bool) { c.calm = was }(c.calm)
				c.calm = true
			}
		}
		if typ.Kind() == reflect.Slice {
			v = vArr()
			want.Set(reflect.MakeSlice(typ, n, n))
			for i := 0; i < n; i++ {
				i := i
				x, _ := c.gen(typ.Elem(), want.Index(i), depth+1, func(r reflect.Value) reflect.Value { return get(r).Index(i) })
				v.A = append(v.A, x)
			}
		} else {
			v = vDict()
			want.Set(reflect.MakeMap(typ))
			for i := 0; i < n; i++ {
				k := keys[t.G(len(keys))]
				if v.Get(k) != nil {
					continue
				}
				w := reflect.New(typ.Elem()).Elem()
				x, _ := c.gen(typ.Elem(), w, depth+1, func(r reflect.Value) reflect.Value { return get(r).MapIndex(reflect.ValueOf(k)) })
				want.SetMapIndex(reflect.ValueOf(k), w)
				v.Set(k, x)
			}
		}
		bad := false
		for _, e := range c.events[e0:] {
			bad = bad || e.fails
		}
		if bad {
			// a list or map is given up at its first failing element
			for k := e0; k < len(c.events); k++ {
				c.events[k].opt = true
			}
			for k := a0; k < len(c.afters); k++ {
				c.afters[k].opt = true
			}
			want.Set(reflect.Zero(typ))
			return v, func(a reflect.Value) { a.Set(reflect.Zero(typ)) }
		}
		return v, nil
	case reflect.Struct:
		v = vDict()
		var zaps []func(a reflect.Value)
		nf := typ.NumField()
		if (typ == tANode || typ == tBNode) && t.G(10) == 9 {
			// nothing known about this node, which has no number then
			nf = 0
			if typ == tBNode {
				c.afters = append(c.afters, afterEvent{get: get})
			}
		}
		for i := 0; i < nf; i++ {
			i := i
			f := typ.Field(i)
			sub := func(r reflect.Value) reflect.Value { return get(r).Field(i) }
			key := f.Tag.Get("json")
			if f.Anonymous {
				x, z := c.gen(f.Type, want.Field(i), depth, sub)
				for _, kv := range x.O {
					v.Set(kv.K, kv.V)
				}
				if z != nil {
					zaps = append(zaps, func(a reflect.Value) { z(a.Field(i)) })
				}
				continue
			}
			if key == "id" || key == "base_id" {
				id := int64(c.id())
				want.Field(i).SetInt(id)
				v.Set(key, vInt(id))
				continue
			}
			deep := f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct && f.Type != reflect.PtrTo(tProbe) || f.Type.Kind() == reflect.Struct && f.Type != tProbe || f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Map && f.Type != tMProbe
			if t.G(5) == 0 || deep && (depth >= 4 || c.left < 0) {
				continue
			}
			x, z := c.gen(f.Type, want.Field(i), depth+1, sub)
			v.Set(key, x)
			if z != nil {
				zaps = append(zaps, func(a reflect.Value) { z(a.Field(i)) })
			}
		}
		switch typ {
		case tANode, tBNode:
			c.afters = append(c.afters, afterEvent{id: int(want.FieldByName("Id").Int()), get: get})
		case tEBase:
			c.afters = append(c.afters, afterEvent{id: int(want.FieldByName("BaseId").Int()), get: get})
		}
		if typ != tEBase {
			for k := t.G(3); k > 0; k-- {
				v.Set(fmt.Sprintf("unknown%d", k), genDoc(t, genOpt{maxNodes: 3}, -1))
			}
		}
		if zaps != nil {
			zap = func(a reflect.Value) {
				for _, z := range zaps {
					z(a)
				}
			}
		}
		return
	}
	panic("c12: type " + typ.String())
}

var c12Fields = []reflect.Type{tProbe, reflect.PtrTo(tProbe), tVProbe, tMProbe, reflect.TypeOf([]probe{}), reflect.TypeOf([]*probe{}), reflect.TypeOf(map[string]probe{}), reflect.TypeOf(map[string]*vprobe{}),
	tInt, tString, tANode, reflect.PtrTo(tANode), tBNode, reflect.PtrTo(tBNode), reflect.TypeOf([]aNode{}), reflect.TypeOf([]*bNode{}), reflect.TypeOf(map[string]aNode{})}

func c12Type(t *Tape, depth int) reflect.Type {
	switch t.G(5) {
	case 0:
		return tANode
	case 1:
		return tBNode
	}
	var fs []reflect.StructField
	for n := 1 + t.G(8); n > 0; n-- {
		ft := c12Fields[t.G(len(c12Fields))]
		if depth > 0 && t.G(5) == 4 {
			ft = c12Type(t, depth-1)
			if t.G(2) == 1 {
				ft = reflect.PtrTo(ft)
			}
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", n), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`json:"%s%d"`, []string{"f", "z", "A"}[t.G(3)], n))})
	}
	return reflect.StructOf(fs)
}

func runC12(r *Run) {
	r.Nontrivial = true
	for n := 1 + r.T.G(4); n > 0 && !r.Failed(); n-- {
		if r.T.G(3) == 2 {
			encodeHooks(r)
		} else {
			decodeHooks(r)
		}
	}
}

func decodeHooks(r *Run) {
	t := r.T
	hookLog, hookFail = nil, map[string]int{}
	typ := c12Type(t, 2)
	c := &c12{t: t, left: 10 + t.Size(60)}
	want := reflect.New(typ)
	v, zap := c.gen(typ, want.Elem(), 0, func(root reflect.Value) reflect.Value { return root })
	nfail := 0
	for _, e := range c.events {
		if e.fails {
			nfail++
			r.Fault("decoding_hook_fails")
		}
	}
	var o jsonutils.JSONObject
	how, mk := "built", func() jsonutils.JSONObject { return v.Build() }
	switch t.G(3) {
	case 1:
		how, mk = "shuffled", func() jsonutils.JSONObject { return v.BuildShuffled(t) }
	case 2:
		how, mk = "parsed", func() jsonutils.JSONObject {
			x, err := jsonutils.ParseString(v.Spell(t))
			if err != nil || Obs(x) != v.Obs() {
				return v.Build() // other properties
			}
			return x
		}
	}
	if p := call(func() { o = mk() }); p != "" {
		return
	}
	r.Log("decode (%s) %s into %s, %d of %d hooks fail", how, v.Text(), typ, nfail, len(c.events))
	q := reflect.New(typ)
	var err error
	if p := call(func() { err = o.Unmarshal(q.Interface()) }); p != "" {
		r.Fail("panic", "decoding %s into %s: %s", v.Text(), typ, p)
		return
	}
	log := hookLog
	hookLog = nil
	r.H(strings.Join(log, "|"))
	ctx := func() string {
		return fmt.Sprintf("\n document %s\n type %s\n calls %q", clip(v.Text(), 0), clip(typ.String(), 0), log)
	}
	if (err != nil) != (nfail > 0) {
		r.Fail("report", "%d hooks failed and decoding returned %v%s", nfail, err, ctx())
		return
	}
	count := map[string]int{}
	for _, l := range log {
		if strings.HasPrefix(l, "after#") {
			l = l[:strings.IndexByte(l, ' ')]
		}
		count[l]++
	}
	seenFail := false
	for _, e := range c.events {
		n := count[e.text]
		delete(count, e.text)
		if n > 1 || n == 0 && !e.opt {
			r.Fail("calls", "the hook of %s was called %d times%s", e.text, n, ctx())
			return
		}
		seenFail = seenFail || n == 1 && e.fails
	}
	lo, hi := 0, 0
	for _, e := range c.afters {
		if e.id == 0 {
			hi++
			if !e.opt {
				lo++
			}
			continue
		}
		k := fmt.Sprintf("after#%d", e.id)
		n := count[k]
		delete(count, k)
		if n > 1 || n == 0 && !e.opt {
			r.Fail("after", "the after-decoding hook of node %d was called %d times%s", e.id, n, ctx())
			return
		}
	}
	if n := count["after#0"]; n < lo || n > hi {
		r.Fail("after", "the after-decoding hooks of %d to %d nodes without content were called %d times%s", lo, hi, n, ctx())
		return
	}
	delete(count, "after#0")
	for _, l := range sortedCount(count) {
		r.Fail("calls", "a hook was called with %q, which is the text of no member%s", l, ctx())
		return
	}
	for _, e := range c.afters {
		if e.opt || e.id == 0 {
			continue
		}
		nd := e.get(q.Elem())
		now := nd
		if !nd.CanAddr() {
			now = reflect.New(nd.Type()).Elem()
			now.Set(nd)
		}
		mark := afterMark(e.id, now.Addr().Interface())
		for _, l := range log {
			if strings.HasPrefix(l, fmt.Sprintf("after#%d ", e.id)) && l != mark {
				r.Fail("after", "the after-decoding hook of node %d ran when the node was\n %s\nwhile in the end it is\n %s%s", e.id, clip(l, 0), clip(mark, 0), ctx())
				return
			}
		}
	}
	if zap != nil {
		call(func() { zap(q.Elem()) })
	}
	if a, b := dump(q), dump(want); a != b {
		r.Fail("filled", "decoding gives\n %s\ninstead of\n %s%s", clip(a, 0), clip(b, 0), ctx())
	}
}

func sortedCount(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

// ---- encoding ----

var mhookLog []int

type mhook struct {
	Uid  int
	Text string
	Mode int // 0: returns Text, 1: error, 2: text that is no document, 3: panic, 4: error with text
}

func (h mhook) MarshalJSON() ([]byte, error) { return h.run() }

func (h mhook) run() ([]byte, error) {
	mhookLog = append(mhookLog, h.Uid)
	switch h.Mode {
	case 1:
		return nil, fmt.Errorf("hook %d refuses", h.Uid)
	case 3:
		panic(fmt.Sprintf("hook %d panics", h.Uid))
	case 4:
		return []byte(`{"half":1}`), fmt.Errorf("hook %d refuses with text", h.Uid)
	}
	return []byte(h.Text), nil
}

// phook has its hook on the pointer.
type phook struct{ H mhook }

func (h *phook) MarshalJSON() ([]byte, error) { return h.H.run() }

// lhook is a kind of list with a hook.
type lhook []mhook

func (h lhook) MarshalJSON() ([]byte, error) { return h[0].run() }

type mcase struct {
	v *V // expected
}

type mgen struct {
	t     *Tape
	uid   int
	left  int
	bad   []*mhook // as drawn
	modes []int
	all   []int // uids
	fail  bool  // draw failing ones
	calm  bool  // hooks fail rarely
}

func (g *mgen) hook() (mhook, *V) {
	t := g.t
	g.uid++
	g.all = append(g.all, g.uid)
	v := genDoc(t, genOpt{maxNodes: 6, oddKeys: t.G(2) == 1}, -1)
	if v.K == KNull || v.K == KFloat {
		v = vInt(int64(g.uid))
	}
	h := mhook{Uid: g.uid, Text: v.Text()}
	if t.G(3) == 2 {
		h.Text = v.Spell(t)
	}
	if t.F(6) == 5 && (!g.calm || t.F(12) == 11) {
		h.Mode = 1 + t.F(4)
		if h.Mode == 2 {
			h.Text = []string{"", " ", "{", "[", `{"a":1`, `{"a"`, `{"a":`, `[1,2`, `[1,,`, `"abc`, `{"a":1,`, `{"a" 1}`, `{"a":1}}`, `{"a":1}{"b":2}`, `[1] 2`, `"a" "b"`, "]", "}", ",", `{"a":"b}`}[t.F(20)]
		}
		g.modes = append(g.modes, h.Mode)
	}
	return h, v
}

// value draws a value and the document it must be encoded to (which is nil if
// it is left out).
func (g *mgen) value(depth int) (interface{}, *V) {
	t := g.t
	g.left--
	k := t.G(11)
	if depth <= 0 || g.left < 0 {
		k = t.G(5)
	}
	switch k {
	case 1:
		h, v := g.hook()
		return &h, v
	case 2:
		h, v := g.hook()
		return &phook{h}, v
	case 3:
		h, v := g.hook()
		return lhook{h}, v
	case 4:
		i := 1 + t.G(100)
		return i, vInt(int64(i))
	case 5:
		var l []interface{}
		v := vArr()
		for n := 1 + t.G(3); n > 0; n-- {
			x, y := g.value(depth - 1)
			l = append(l, x)
			v.A = append(v.A, y)
		}
		return l, v
	case 6:
		m := map[string]interface{}{}
		v := vDict()
		for n := 1 + t.G(3); n > 0; n-- {
			key := plainKeys[t.G(len(plainKeys))]
			if v.Get(key) != nil {
				continue
			}
			x, y := g.value(depth - 1)
			m[key] = x
			v.Set(key, y)
		}
		return m, v
	case 7:
		var l []mhook
		v := vArr()
		n := 1 + t.G(3)
		if t.G(12) == 11 {
			n = []int{9, 16, 17, 33, 65, 130}[t.G(6)]
			g.calm = true
		}
		for ; n > 0; n-- {
			h, y := g.hook()
			l = append(l, h)
			v.A = append(v.A, y)
		}
		return l, v
	case 8:
		m := map[string]*phook{}
		v := vDict()
		n := 1 + t.G(3)
		if t.G(12) == 11 {
			n = []int{9, 16, 17, 33, 65, 130}[t.G(6)]
			g.calm = true
		}
		for ; n > 0; n-- {
			key := plainKeys[t.G(len(plainKeys))]
			if g.calm {
				key += fmt.Sprint(n)
			}
			if v.Get(key) != nil {
				continue
			}
			h, y := g.hook()
			m[key] = &phook{h}
			v.Set(key, y)
		}
		return m, v
	case 9, 10:
		// a structure of fields with values of their own types
		var fs []reflect.StructField
		var vals []interface{}
		v := vDict()
		for n := 1 + t.G(5); n > 0; n-- {
			x, y := g.value(depth - 1)
			key := fmt.Sprintf("%s%d", []string{"f", "z", "A"}[t.G(3)], n)
			ft := reflect.TypeOf(x)
			if t.G(4) == 3 {
				ft = tAny
			}
			tag := key
			if t.G(4) == 3 {
				tag += ",omitempty"
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", n), Type: ft, Tag: reflect.StructTag(`json:"` + tag + `"`)})
			vals = append(vals, x)
			v.Set(key, y)
		}
		s := reflect.New(reflect.StructOf(fs))
		for i, x := range vals {
			s.Elem().Field(i).Set(reflect.ValueOf(x))
		}
		if t.G(2) == 1 {
			return s.Interface(), v
		}
		return s.Elem().Interface(), v
	}
	h, v := g.hook()
	return h, v
}

func encodeHooks(r *Run) {
	t := r.T
	g := &mgen{t: t, left: 3 + t.Size(20)}
	x, want := g.value(1 + t.G(3))
	all := t.G(3) == 2
	mhookLog = nil
	var o jsonutils.JSONObject
	p := call(func() { o = encode(all, x) })
	log := mhookLog
	r.Log("encode a %T, expected %s, failing hooks %v: %s", x, clip(want.Text(), 0), g.modes, clip(p, 0))
	for _, m := range g.modes {
		r.Fault([]string{"", "encoding_hook_error", "encoding_hook_returns_no_document", "encoding_hook_panics", "encoding_hook_error_with_text"}[m])
	}
	if len(g.modes) > 0 {
		if p == "" {
			r.Fail("silent", "hooks failed (%v) and encoding a %T returned %s; expected without failures: %s", g.modes, x, clip(o.String(), 0), clip(want.Text(), 0))
		}
	} else {
		if p != "" {
			r.Fail("panic", "encoding a %T, expected %s: %s", x, want.Text(), p)
			return
		}
		if ObsNorm(o) != want.Norm() {
			r.Fail("content", "encoding a %T gives %s instead of %s", x, o.String(), want.Text())
			return
		}
		count := map[int]int{}
		for _, u := range log {
			count[u]++
		}
		for _, u := range g.all {
			if count[u] != 1 {
				r.Fail("calls", "encoding a %T called hook %d %d times, result %s", x, u, count[u], o.String())
				return
			}
		}
	}
	if r.Failed() {
		return
	}
	// a call after that is not affected
	h := struct {
		A int    `json:"a"`
		H mhook  `json:"h"`
		P *phook `json:"p"`
	}{1, mhook{Uid: 1, Text: `{"x":[1]}`}, &phook{mhook{Uid: 2, Text: `"y"`}}}
	var s string
	if p := call(func() { s = encode(all, &h).String() }); p != "" || s != `{"a":1,"h":{"x":[1]},"p":"y"}` {
		r.Fail("after", "after that a simple value is encoded as %s %s", s, p)
	}
}
