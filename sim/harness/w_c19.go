package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/gotypes"
)

// C19: publishers and subscribers that hold messages behind interfaces and
// exchange them as text; the subscribers' registry says which concrete type
// an interface is read as.

func init() {
	register("C19", 400_000_000, runC19)
	gotypes.RegisterSerializable(tNote, func() gotypes.ISerializable { return newNote(7, 1.5) })
	for _, s := range []string{"1", "2", "3"} {
		s := s
		gotypes.RegisterSerializableTransformer(tNote, func(o gotypes.ISerializable) gotypes.ISerializable {
			if noteSolo {
				noteTurns++
			}
			c := *o.(*note)
			c.trail += s
			return &c
		})
	}
	gotypes.RegisterSerializable(tLabels, func() gotypes.ISerializable { return labels{} })
	gotypes.RegisterSerializable(tHeld, func() gotypes.ISerializable { return nil })
	gotypes.RegisterSerializable(tNotePtr, func() gotypes.ISerializable { return newNote(8, 0) })
}

// newNote is a note with its defaults, each with its own ones.
func newNote(num int, rate float64) *note {
	return &note{Num: num, Rate: rate, Attrs: map[string]string{"by": "registry"}, Seal: []int{1, 2, 3}, Box: &noteBox{N: 5, L: []int{4, 4}}}
}

// Note is registered: whatever implements it is read as a *note.
type Note interface {
	gotypes.ISerializable
	Called() string
}

// Labels is registered and read as a map.
type Labels interface {
	gotypes.ISerializable
	Labels() int
}

// Held is registered without a type of its own: the document itself is held.
type Held interface {
	gotypes.ISerializable
	Length() int
}

// Unknown is not registered.
type Unknown interface {
	gotypes.ISerializable
	Unknown()
}

var (
	tNote    = reflect.TypeOf((*Note)(nil)).Elem()
	tLabels  = reflect.TypeOf((*Labels)(nil)).Elem()
	tHeld    = reflect.TypeOf((*Held)(nil)).Elem()
	tUnknown = reflect.TypeOf((*Unknown)(nil)).Elem()
	tNotePtr = reflect.TypeOf((*note)(nil))

	noteSolo  bool // nobody else runs: turns are counted
	noteTurns int
)

type note struct {
	Name  string  `json:"name"`
	Num   int     `json:"num"`
	Rate  float64 `json:"rate"`
	Tags  []string
	Next  Note            `json:"next"`
	Parts map[string]Note `json:"parts"`
	List  []Note          `json:"list"`
	Marks Labels          `json:"marks"`
	Odd   picky           `json:"odd"`
	Sub   *noteSub        `json:"sub"`

	Attrs map[string]string `json:"attrs"`
	Seal  []int             `json:"seal"`
	Box   *noteBox          `json:"box"`

	trail string
}

type noteSub struct {
	Num  int  `json:"num"`
	Note Note `json:"note"`
}

type noteBox struct {
	N int   `json:"n"`
	L []int `json:"l"`
}

func (n *note) String() string { return "note " + n.Name }
func (n *note) IsZero() bool   { return n == nil || n.Name == "" }
func (n *note) Called() string { return n.Name }

// memo is another implementation, which knows less.
type memo struct {
	Name  string `json:"name"`
	Next  Note   `json:"next"`
	List  []Note `json:"list"`
	Color string `json:"color"`
}

func (n *memo) String() string { return "memo " + n.Name }
func (n *memo) IsZero() bool   { return n == nil }
func (n *memo) Called() string { return n.Name }

// scrap is held by value.
type scrap struct {
	Num   int             `json:"num"`
	Parts map[string]Note `json:"parts"`
}

func (n scrap) String() string { return "scrap" }
func (n scrap) IsZero() bool   { return false }
func (n scrap) Called() string { return "" }

type labels map[string]string

func (l labels) String() string { return "labels" }
func (l labels) IsZero() bool   { return len(l) == 0 }
func (l labels) Labels() int    { return len(l) }

// picky reads itself, and refuses some texts.
type picky struct{ s string }

func (p *picky) UnmarshalJSON(b []byte) error {
	o, err := jsonutils.Parse(b)
	if err != nil {
		return err
	}
	s, _ := o.GetString()
	if strings.HasPrefix(s, "no") {
		return errHook
	}
	p.s = s
	return nil
}

func (p picky) MarshalJSON() ([]byte, error) {
	return []byte(jsonutils.NewString(p.s).String()), nil
}

// envelope holds messages in fields.
type envelope struct {
	To    string          `json:"to"`
	Note  Note            `json:"note"`
	More  []Note          `json:"more"`
	Two   [2]Note         `json:"two"`
	By    map[string]Note `json:"by"`
	Marks Labels          `json:"marks"`
	Doc   Held            `json:"doc"`
	Raw   jsonutils.JSONObject
}

// mnote is what a note has to hold.
type mnote struct {
	name  string
	num   int64
	rate  string
	tags  []string
	next  *mnote
	parts map[string]*mnote
	list  []*mnote
	marks map[string]string
	noMks bool
	odd   string
	sub   bool
	subn  int64
	subnt *mnote
	trail string
	attrs map[string]string
	seal  []int
	boxn  int
	boxl  []int
	ring  bool // next is the first one again
}

func newMnote() *mnote {
	return &mnote{num: 7, rate: "1.5", noMks: true, attrs: map[string]string{"by": "registry"}, seal: []int{1, 2, 3}, boxn: 5, boxl: []int{4, 4}}
}

func showLabels(sb *strings.Builder, m map[string]string) {
	var l []string
	for k, x := range m {
		l = append(l, fmt.Sprintf("%q:%q", k, x))
	}
	sort.Strings(l)
	fmt.Fprintf(sb, "{%s}", strings.Join(l, ","))
}

func (m *mnote) show(sb *strings.Builder) {
	if m == nil {
		sb.WriteString("nil")
		return
	}
	fmt.Fprintf(sb, "<%q %d %s %q trail=%s", m.name, m.num, m.rate, m.tags, m.trail)
	sb.WriteString(" next=")
	if m.ring {
		sb.WriteString("AGAIN")
	} else {
		m.next.show(sb)
	}
	var ks []string
	for k := range m.parts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(sb, " %q=", k)
		m.parts[k].show(sb)
	}
	for _, x := range m.list {
		sb.WriteString(" -")
		x.show(sb)
	}
	if !m.noMks {
		sb.WriteString(" marks=")
		showLabels(sb, m.marks)
	}
	fmt.Fprintf(sb, " odd=%q attrs=", m.odd)
	showLabels(sb, m.attrs)
	fmt.Fprintf(sb, " seal=%d box=%d%d", m.seal, m.boxn, m.boxl)
	if m.sub {
		fmt.Fprintf(sb, " sub=%d,", m.subn)
		m.subnt.show(sb)
	}
	sb.WriteString(">")
}

func (m *mnote) text() string {
	var sb strings.Builder
	m.show(&sb)
	return sb.String()
}

// noteView reads a note that was received; it fails for values of other
// types and for ones that several places share.
type noteView struct {
	seen map[*note]bool // everything any message holds
	mine map[*note]bool
	path []*note
	bad  string
}

func (w *noteView) read(x Note) *mnote {
	if x == nil {
		return nil
	}
	n, ok := x.(*note)
	if !ok || n == nil {
		w.bad = fmt.Sprintf("a %T is held", x)
		return nil
	}
	if w.seen[n] || w.mine[n] {
		w.bad = fmt.Sprintf("the note %q is held in two places", n.Name)
		return nil
	}
	w.mine[n] = true
	m := &mnote{name: n.Name, num: int64(n.Num), rate: fmt.Sprint(n.Rate), tags: n.Tags, noMks: n.Marks == nil, odd: n.Odd.s, trail: n.trail, attrs: n.Attrs, seal: n.Seal, boxn: -1}
	if n.Box != nil {
		m.boxn, m.boxl = n.Box.N, n.Box.L
	}
	w.path = append(w.path, n)
	if nx, ok := n.Next.(*note); ok && len(w.path) > 1 && (nx == w.path[0] || nx == w.path[1] && w.path[0].trail != "") {
		m.ring = true
	} else {
		m.next = w.read(n.Next)
	}
	w.path = w.path[:len(w.path)-1]
	save := w.path
	w.path = nil
	if len(n.Parts) > 0 {
		m.parts = map[string]*mnote{}
		var ks []string
		for k := range n.Parts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m.parts[k] = w.read(n.Parts[k])
		}
	}
	for _, y := range n.List {
		m.list = append(m.list, w.read(y))
	}
	if n.Sub != nil {
		m.sub, m.subn, m.subnt = true, int64(n.Sub.Num), w.read(n.Sub.Note)
	}
	w.path = save
	if n.Marks != nil {
		l, ok := n.Marks.(labels)
		if !ok {
			w.bad = fmt.Sprintf("a %T is held", n.Marks)
		}
		m.marks = l
	}
	return m
}

// noteDoc draws what a text says about a note and what has to be read from
// it; ok is false if the text does not fit.
func noteDoc(t *Tape, depth int, spoil *int) (v *V, m *mnote, ok bool) {
	v, m, ok = vDict(), newMnote(), true
	wrong := func(l ...*V) *V {
		if *spoil > 0 && t.G(4) == 3 {
			*spoil--
			ok = false
			return l[t.G(len(l))]
		}
		return nil
	}
	sub := func() (*V, *mnote) {
		if t.G(5) == 4 {
			return vNull(), nil
		}
		if w := wrong(vStr("x"), vInt(4), vBool(true), vArr(), vArr(vDict()), vStr(""), vFloat(1.5)); w != nil {
			return w, nil
		}
		x, y, good := noteDoc(t, depth-1, spoil)
		ok = ok && good
		return x, y
	}
	if t.G(4) < 3 {
		m.name = genString(t)
		v.Set("name", vStr(m.name))
	}
	if t.G(2) == 1 {
		m.num = int64(t.G(100))
		v.Set("num", vInt(m.num))
		if w := wrong(vStr("abc"), vArr(), vDict(), vStr("1e")); w != nil {
			v.Set("num", w)
		}
	}
	if t.G(4) == 3 {
		m.rate = "0.25"
		v.Set("rate", vFloat(0.25))
	}
	if t.G(3) == 2 {
		l := vArr()
		for i := t.G(4); i > 0; i-- {
			s := genString(t)
			m.tags = append(m.tags, s)
			l.A = append(l.A, vStr(s))
		}
		v.Set("tags", l)
	}
	if t.G(4) == 3 {
		v.Set("other", genDoc(t, genOpt{maxDepth: 2, maxNodes: 5}, -1))
	}
	if t.G(4) == 3 {
		m.noMks = false
		d := vDict()
		m.marks = map[string]string{}
		for i := t.G(3); i > 0; i-- {
			k, s := []string{"a", "b", "Cc", "d e"}[t.G(4)], genString(t)
			m.marks[k] = s
			d.Set(k, vStr(s))
		}
		v.Set("marks", d)
		if w := wrong(vStr("x"), vInt(4), vArr(vDict())); w != nil {
			v.Set("marks", w)
		}
	}
	if t.G(4) == 3 {
		m.odd = "ok " + genString(t)
		v.Set("odd", vStr(m.odd))
		if w := wrong(vStr("no")); w != nil {
			v.Set("odd", w)
		}
	}
	if t.G(4) == 3 {
		d := vDict()
		for i := t.G(4); i > 0; i-- {
			k, s := []string{"a", "by", "Cc", "d e"}[t.G(4)], genString(t)
			m.attrs[k] = s
			d.Set(k, vStr(s))
		}
		v.Set("attrs", d)
	}
	if t.G(4) == 3 {
		l := vArr()
		m.seal = nil
		for i := t.G(5); i > 0; i-- {
			k := t.G(100)
			m.seal = append(m.seal, k)
			l.A = append(l.A, vInt(int64(k)))
		}
		v.Set("seal", l)
	}
	if t.G(4) == 3 {
		d := vDict()
		if t.G(2) == 1 {
			m.boxn = t.G(100)
			d.Set("n", vInt(int64(m.boxn)))
		}
		if t.G(2) == 1 {
			m.boxl = []int{t.G(100)}
			d.Set("l", vArr(vInt(int64(m.boxl[0]))))
		}
		v.Set("box", d)
	}
	if depth <= 0 {
		return
	}
	if t.G(3) == 2 {
		var x *V
		x, m.next = sub()
		v.Set("next", x)
	}
	if t.G(3) == 2 {
		d := vDict()
		m.parts = map[string]*mnote{}
		for _, i := range perm(t, 5)[:t.G(4)] {
			k := []string{"a", "b", "Cc", "d e", "x/y"}[i]
			x, y := sub()
			d.Set(k, x)
			m.parts[k] = y
		}
		v.Set("parts", d)
	}
	if t.G(3) == 2 {
		l := vArr()
		n := t.G(4)
		if t.G(30) == 29 {
			n, depth = 5+t.G(30), 1
		}
		for ; n > 0; n-- {
			x, y := sub()
			l.A = append(l.A, x)
			m.list = append(m.list, y)
		}
		v.Set("list", l)
	}
	if t.G(4) == 3 {
		d := vDict()
		m.sub, m.subn = true, int64(t.G(50))
		d.Set("num", vInt(m.subn))
		if t.G(3) > 0 {
			x, y := sub()
			d.Set("note", x)
			m.subnt = y
		}
		v.Set("sub", d)
	}
	return
}

// compose makes a publisher's value, held as one of the implementations,
// and says what has to be read of it.
func compose(t *Tape, depth int, all bool) (Note, *mnote) {
	sub := func() (Note, *mnote) {
		if t.G(5) == 4 {
			return nil, nil
		}
		return compose(t, depth-1, all)
	}
	parts := func() (map[string]Note, map[string]*mnote) {
		if depth <= 0 || t.G(3) > 0 {
			return nil, nil
		}
		ps, ms := map[string]Note{}, map[string]*mnote{}
		for _, i := range perm(t, 5)[:t.G(4)] {
			k := []string{"a", "b", "Cc", "d e", "x/y"}[i]
			x, y := sub()
			ps[k] = x
			if y != nil || all {
				ms[k] = y
			}
		}
		return ps, ms
	}
	list := func() (ns []Note, ms []*mnote) {
		if depth <= 0 || t.G(3) > 0 {
			return nil, nil
		}
		for i := t.G(4); i > 0; i-- {
			x, y := sub()
			ns = append(ns, x)
			if y != nil || all {
				ms = append(ms, y)
			}
		}
		return
	}
	m := newMnote()
	switch t.G(4) {
	case 1:
		n := &memo{Name: genString(t), Color: "c" + genString(t)}
		m.name = n.Name
		if depth > 0 && t.G(3) == 2 {
			n.Next, m.next = sub()
		}
		n.List, m.list = list()
		return n, m
	case 2:
		n := scrap{Num: t.G(90)}
		m.num = int64(n.Num)
		n.Parts, m.parts = parts()
		return n, m
	}
	n := &note{Name: genString(t), Num: t.G(90), Rate: 0.5}
	m.name, m.num, m.rate = n.Name, int64(n.Num), "0.5"
	if all {
		// what is empty is written, too
		n.Attrs, n.Seal, n.Box = map[string]string{}, []int{}, &noteBox{}
		m.seal, m.boxn, m.boxl = nil, 0, nil
	}
	if t.G(4) == 3 {
		n.Attrs = map[string]string{"a": "x", "b": "y" + genString(t)}
		m.attrs["a"], m.attrs["b"] = "x", n.Attrs["b"]
		n.Seal, m.seal = []int{9, 8, 7, 6}[:1+t.G(4)], nil
		m.seal = append(m.seal, n.Seal...)
		n.Box = &noteBox{N: t.G(9), L: []int{7}}
		m.boxn, m.boxl = n.Box.N, []int{7}
	}
	for i := t.G(3); i > 0; i-- {
		s := genString(t)
		n.Tags, m.tags = append(n.Tags, s), append(m.tags, s)
	}
	if t.G(3) == 2 {
		n.Marks, m.noMks = labels{}, false
		m.marks = map[string]string{}
		for i := 1 + t.G(3); i > 0; i-- {
			k, s := []string{"a", "b", "Cc", "d e"}[t.G(4)], "x"+genString(t)
			n.Marks.(labels)[k], m.marks[k] = s, s
		}
	}
	if t.G(3) == 2 {
		n.Odd.s = "ok " + genString(t)
		m.odd = n.Odd.s
	}
	if depth > 0 && t.G(3) == 2 {
		n.Next, m.next = sub()
	}
	n.Parts, m.parts = parts()
	n.List, m.list = list()
	if depth > 0 && t.G(3) == 2 {
		n.Sub = &noteSub{Num: t.G(9)}
		m.sub, m.subn = true, int64(n.Sub.Num)
		n.Sub.Note, m.subnt = sub()
	}
	return n, m
}

type parcel struct {
	how   string
	text  string
	in    int // 0: a note, 1: an envelope, 2: labels, 3: a document, 4: unregistered
	ok    bool
	want  string
	notes *mnote
	env   *menv
	typ   reflect.Type
	docTo reflect.Type
	hops  int
	full  bool // an envelope with everything in it that a field may hold before
}

// menv is what an envelope has to hold.
type menv struct {
	note  *mnote
	more  []*mnote
	two   [2]*mnote
	by    map[string]*mnote
	marks map[string]string
	noMks bool
	doc   *V
	raw   *V
}

func (e *menv) text() string {
	var sb strings.Builder
	e.note.show(&sb)
	for _, x := range e.more {
		sb.WriteString(" more ")
		x.show(&sb)
	}
	for _, x := range e.two {
		sb.WriteString(" two ")
		x.show(&sb)
	}
	var ks []string
	for k := range e.by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, " by %q ", k)
		e.by[k].show(&sb)
	}
	if !e.noMks {
		sb.WriteString(" marks ")
		showLabels(&sb, e.marks)
	}
	if e.doc != nil {
		sb.WriteString(" doc " + e.doc.Norm())
	}
	if e.raw != nil {
		sb.WriteString(" raw " + e.raw.Norm())
	}
	return sb.String()
}

func envDoc(t *Tape, spoil *int) (v *V, e *menv, ok bool) {
	v, e, ok = vDict(), &menv{noMks: true}, true
	sub := func() (*V, *mnote) {
		if t.G(5) == 4 {
			return vNull(), nil
		}
		x, y, good := noteDoc(t, 1, spoil)
		ok = ok && good
		return x, y
	}
	var x *V
	if t.G(4) > 0 {
		x, e.note = sub()
		v.Set("note", x)
	}
	if t.G(3) == 2 {
		l := vArr()
		for i := t.G(4); i > 0; i-- {
			x, y := sub()
			l.A = append(l.A, x)
			e.more = append(e.more, y)
		}
		v.Set("more", l)
	}
	if t.G(3) == 2 {
		l := vArr(nil, nil)
		for i := range e.two {
			l.A[i], e.two[i] = sub()
		}
		v.Set("two", l)
	}
	if t.G(3) == 2 {
		d := vDict()
		e.by = map[string]*mnote{}
		for _, i := range perm(t, 4)[:t.G(4)] {
			k := []string{"a", "b", "Cc", "d e"}[i]
			x, y := sub()
			d.Set(k, x)
			e.by[k] = y
		}
		v.Set("by", d)
	}
	if t.G(3) == 2 {
		e.noMks, e.marks = false, map[string]string{}
		d := vDict()
		for i := t.G(3); i > 0; i-- {
			k, s := []string{"a", "b"}[t.G(2)], genString(t)
			e.marks[k] = s
			d.Set(k, vStr(s))
		}
		v.Set("marks", d)
	}
	if t.G(3) == 2 {
		e.doc = genDoc(t, genOpt{maxDepth: 2, maxNodes: 6}, int(KDict))
		v.Set("doc", e.doc)
	}
	if t.G(3) == 2 {
		e.raw = genDoc(t, genOpt{maxDepth: 2, maxNodes: 6}, []int{int(KDict), int(KArr), -1}[t.G(3)])
		v.Set("raw", e.raw)
		if e.raw.K == KNull {
			e.raw = nil
		}
	}
	if t.G(3) == 2 {
		v.Set("to", vStr("x"))
	}
	return
}

type got struct {
	p    *parcel
	err  error
	res  interface{}
	text string // as it was read first
	mine map[*note]bool
}

func (g *got) view(seen map[*note]bool) (text, bad string) {
	w := &noteView{seen: seen, mine: map[*note]bool{}}
	g.mine = w.mine
	switch x := g.res.(type) {
	case *note:
		m := w.read(x)
		text = m.text()
	case *envelope:
		e := &menv{noMks: x.Marks == nil}
		e.note = w.read(x.Note)
		for _, y := range x.More {
			e.more = append(e.more, w.read(y))
		}
		for i, y := range x.Two {
			e.two[i] = w.read(y)
		}
		e.by = map[string]*mnote{}
		var ks []string
		for k := range x.By {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e.by[k] = w.read(x.By[k])
		}
		if l, ok := x.Marks.(labels); ok {
			e.marks = l
		} else if x.Marks != nil {
			return "", fmt.Sprintf("a %T is held", x.Marks)
		}
		text = e.text()
		if x.Doc != nil {
			o, ok := x.Doc.(jsonutils.JSONObject)
			if !ok {
				return "", fmt.Sprintf("a %T is held", x.Doc)
			}
			text += " doc " + ObsNorm(o)
		}
		if x.Raw != nil {
			text += " raw " + ObsNorm(x.Raw)
		}
	case labels:
		var sb strings.Builder
		showLabels(&sb, x)
		text = sb.String()
	case jsonutils.JSONObject:
		text = ObsNorm(x)
	case nil:
		text = "nothing"
	default:
		return "", fmt.Sprintf("a %T is returned", x)
	}
	return text, w.bad
}

func (p *parcel) receive(pre bool) (res interface{}, err error) {
	if p.typ == nil {
		o, err := jsonutils.ParseString(p.text)
		if err != nil {
			return nil, err
		}
		e := &envelope{}
		if pre {
			e.Note, e.Marks = preNote, preLabels
		}
		if err := o.Unmarshal(e); err != nil {
			return nil, err
		}
		return e, nil
	}
	x, err := jsonutils.JSONDeserialize(p.typ, p.text)
	if x == nil {
		return nil, err
	}
	return x, err
}

// own changes what a note came with.
func (n *note) own() {
	if n.Attrs != nil {
		n.Attrs["mine"] = "mine"
	}
	for i := range n.Seal {
		n.Seal[i] = -1
	}
	if n.Box != nil {
		n.Box.N = -1
		for i := range n.Box.L {
			n.Box.L[i] = -1
		}
	}
}

// what a field held before it is read over; never touched
var (
	preNote   = &note{Name: "before", Num: 1, Parts: map[string]Note{"p": &note{Name: "in"}}}
	preLabels = labels{"before": "1"}
)

func runC19(r *Run) {
	t := r.T
	sim := newSim(r, []int{0, 4, 20}[t.F(3)])
	var kept []*got
	seen := map[*note]bool{}
	fine := func() bool {
		for _, g := range kept {
			text, _ := g.view(nil)
			if text != g.text {
				r.Fail("changed", "a message read earlier from %s\nwas %s\nnow %s", clip(g.p.text, 0), clip(g.text, 0), clip(text, 0))
				return false
			}
		}
		return true
	}
	spell := func(v *V) string {
		if t.G(2) == 1 {
			return v.Spell(t)
		}
		return v.Text()
	}
	var post func(p *parcel)
	arrived := func(p *parcel) {
		n := 1
		if simrt.RaceBuild || t.G(4) == 3 {
			n = 2 + t.G(2)
		}
		gs := make([]*got, n)
		pre := p.full && t.G(2) == 1
		for i := range gs {
			gs[i] = &got{p: p}
		}
		noteSolo, noteTurns = n == 1, 0
		if n == 1 {
			if s := call(func() { gs[0].res, gs[0].err = p.receive(pre) }); s != "" {
				r.Fail("panic", "%s read from %s: %s", p.how, clip(p.text, 0), clip(s, 0))
				return
			}
		} else {
			fns := make([]func(), n)
			for i := range fns {
				g := gs[i]
				fns[i] = func() { g.res, g.err = p.receive(pre) }
			}
			r.Count("readers_at_once")
			if ps := simrt.RunTasks(fns...); len(ps) > 0 {
				r.Fail("panic", "%v", ps[0])
				return
			}
			if simrt.Hung() {
				return
			}
		}
		r.Count("read_as_" + fmt.Sprint(p.in))
		for _, g := range gs {
			if (g.err == nil) != p.ok {
				r.Fail("fit", "%s read from %s: error %v, expected %v", p.how, clip(p.text, 0), g.err, !p.ok)
				return
			}
			if !p.ok {
				r.Count("refused")
				if g.res != nil {
					r.Fail("failed", "%s read from %s: error %v with a %T", p.how, clip(p.text, 0), g.err, g.res)
					return
				}
				if noteSolo && noteTurns > 0 {
					r.Fail("transform", "%s read from %s failed (%v) and was transformed", p.how, clip(p.text, 0), g.err)
					return
				}
				continue
			}
			text, bad := g.view(seen)
			if bad == "" && text != p.want {
				bad = "holds " + text
			}
			if bad != "" {
				r.Fail("content", "%s read from %s\nshould hold %s\n%s", p.how, clip(p.text, 0), clip(p.want, 0), clip(bad, 0))
				return
			}
			if g.p.in == 0 && noteSolo && noteTurns != 3 {
				r.Fail("transform", "%s read from %s was transformed %d times by 3 transformers", p.how, clip(p.text, 0), noteTurns)
				return
			}
			g.text = text
			r.R(text)
			for x := range g.mine {
				seen[x] = true
			}
		}
		if preNote.Name != "before" || preNote.Num != 1 || len(preNote.Parts) != 1 || preNote.Parts["p"].(*note).Name != "in" || preNote.Next != nil || len(preLabels) != 1 {
			r.Fail("changed", "%s read from %s changed what the field held before", p.how, clip(p.text, 0))
			return
		}
		if !p.ok || !fine() {
			return
		}
		for _, g := range gs {
			switch x := g.res.(type) {
			case *note:
				if p.hops < 3 && t.G(3) == 2 {
					// pass it on
					all := t.G(2) == 1
					var text string
					if s := call(func() { text = encode(all, x).String() }); s != "" {
						r.Fail("panic", "encoding %s: %s", p.want, clip(s, 0))
						return
					}
					m := *p
					m.hops++
					m.text = text
					m.how = fmt.Sprintf("a note passed on (all=%v)", all)
					m.notes = relayed(p.notes, all, true)
					m.want = m.notes.text()
					post(&m)
				}
				if t.G(3) == 2 {
					// its owner goes on with it
					x.Name, x.Num = "mine", -1
					for k := range x.Parts {
						delete(x.Parts, k)
					}
					x.Next = x
					for i := range x.Tags {
						x.Tags[i] = "mine"
					}
					for i := range x.List {
						x.List[i] = nil
					}
					if l, ok := x.Marks.(labels); ok {
						l["mine"] = "mine"
					}
					x.own()
					continue
				}
			case *envelope:
				if t.G(3) == 2 {
					if n, ok := x.Note.(*note); ok {
						n.Name, n.Num, n.Parts = "mine", -1, nil
						n.own()
					}
					if l, ok := x.Marks.(labels); ok {
						l["mine"] = "mine"
					}
					continue
				}
			case labels:
				if t.G(3) == 2 {
					x["mine"] = "mine"
					continue
				}
			}
			kept = append(kept, g)
		}
		fine()
	}
	post = func(p *parcel) {
		if sim.fault("message_lost", 1, 12) {
			sim.after(50*ms, func() { post(p) })
			return
		}
		if p.ok && strings.HasPrefix(p.text, "{") && sim.fault("message_torn", 1, 10) {
			q := *p
			q.text, q.ok = p.text[:1+t.F(len(p.text)-1)], false
			sim.after(int64(1+t.F(60))*ms, func() { arrived(&q) })
		}
		if sim.fault("message_duplicated", 1, 6) {
			sim.after(int64(1+t.F(60))*ms, func() { arrived(p) })
		}
		sim.after(int64(1+t.F(60))*ms, func() { arrived(p) })
	}
	for k := 1 + t.G(4); k > 0 && !r.Failed(); k-- {
		p := &parcel{ok: true}
		spoil := 0
		if t.G(4) == 3 {
			spoil = 1
		}
		switch t.G(8) {
		case 0, 1:
			v, m, ok := noteDoc(t, 2, &spoil)
			m.trail = "123"
			p.how, p.text, p.ok, p.notes, p.typ = "a note", spell(v), ok, m, tNote
			p.want = m.text()
		case 2, 3:
			all := t.G(2) == 1
			n, m := compose(t, 2, all)
			if t.G(5) == 4 {
				n, m = ringOf(t, all)
			}
			m.trail = "123"
			var x interface{} = n
			if t.G(2) == 1 {
				// behind the interface all the way
				x = &n
			}
			if s := call(func() { p.text = encode(all, x).String() }); s != "" {
				r.Fail("panic", "encoding %s: %s", m.text(), clip(s, 0))
				return
			}
			p.how, p.notes, p.typ = fmt.Sprintf("a %T (all=%v)", n, all), m, tNote
			p.want = m.text()
		case 4, 5:
			v, e, ok := envDoc(t, &spoil)
			p.how, p.text, p.ok, p.in = "an envelope", spell(v), ok, 1
			p.want = e.text()
			p.full = v.Get("note") != nil && v.Get("marks") != nil
		case 6:
			m := map[string]string{}
			d := vDict()
			for i := t.G(4); i > 0; i-- {
				k, s := genString(t), genString(t)
				if strings.HasPrefix(k, jnid) {
					continue
				}
				m[k] = s
				d.Set(k, vStr(s))
			}
			if spoil > 0 {
				p.ok = false
				d = []*V{vStr("x"), vInt(3), vArr(vDict())}[t.G(3)]
			}
			var sb strings.Builder
			showLabels(&sb, m)
			p.how, p.text, p.in, p.typ, p.want = "labels", spell(d), 2, tLabels, sb.String()
		default:
			v := genDoc(t, genOpt{maxDepth: 3, maxNodes: 12, oddKeys: true}, []int{int(KDict), int(KArr), -1}[t.G(3)])
			p.how, p.text, p.in, p.want = "a document", spell(v), 3, v.Norm()
			switch t.G(6) {
			case 0:
				p.typ = jsonutils.JSONObjectType
			case 1:
				p.typ = tHeld
			case 2:
				p.typ, p.ok = jsonutils.JSONDictPtrType, v.K == KDict || v.K == KNull
				if v.K == KNull {
					p.want = vDict().Norm()
				}
			case 3:
				p.typ, p.ok = jsonutils.JSONArrayPtrType, v.K == KArr || v.K == KNull
				if v.K == KNull {
					p.want = vArr().Norm()
				}
			case 4:
				p.typ, p.ok = tUnknown, false
			default:
				// the concrete type is registered by itself
				sp := 0
				w, m, ok := noteDoc(t, 1, &sp)
				if w.Get("num") == nil {
					m.num = 8
				}
				if w.Get("rate") == nil {
					m.rate = "0"
				}
				p.how, p.text, p.typ, p.ok, p.notes, p.want = "a *note", spell(w), tNotePtr, ok, m, m.text()
				p.hops = 9
			}
			p.how += " as " + p.typ.String()
		}
		r.Log("%s: %s (fits: %v)", p.how, clip(p.text, 0), p.ok)
		r.H(p.text)
		post(p)
	}
	r.Nontrivial = true
	if !r.Failed() && !sim.run(200) {
		r.Count("unfinished")
	}
}

// ringOf makes notes that lead back to the first one.
func ringOf(t *Tape, all bool) (Note, *mnote) {
	k := 1 + t.G(3)
	if t.G(12) == 11 {
		k = 4 + t.G(40)
	}
	ns := make([]*note, k)
	for i := range ns {
		ns[i] = &note{Name: fmt.Sprint("r", i), Num: i, Rate: 0.5}
		if all {
			ns[i].Attrs, ns[i].Seal, ns[i].Box = map[string]string{}, []int{}, &noteBox{}
		}
	}
	for i := range ns {
		ns[i].Next = ns[(i+1)%k]
	}
	// what is returned is the transformed copy of the first one
	var last, first *mnote
	for i := 0; i <= k; i++ {
		m := newMnote()
		m.name, m.num, m.rate = fmt.Sprint("r", i%k), int64(i%k), "0.5"
		if all {
			m.seal, m.boxn, m.boxl = nil, 0, nil
		}
		if last != nil {
			last.next = m
		} else {
			first = m
		}
		last = m
	}
	last.ring = true
	return ns[0], first
}

// relayed tells what is left of a note that is encoded again.
func relayed(m *mnote, all, top bool) *mnote {
	if m == nil {
		return nil
	}
	c := *m
	c.trail = ""
	if top {
		c.trail = "123"
	}
	if d := newMnote(); !all {
		// empty lists are not written
		if len(m.seal) == 0 {
			c.seal = d.seal
		}
		if len(m.boxl) == 0 {
			c.boxl = d.boxl
		}
	}
	c.next = relayed(m.next, all, false)
	c.tags = nil
	for _, s := range m.tags {
		c.tags = append(c.tags, s)
	}
	if m.parts != nil {
		c.parts = map[string]*mnote{}
		for k, x := range m.parts {
			if x != nil || all {
				c.parts[k] = relayed(x, all, false)
			}
		}
	}
	c.list = nil
	for _, x := range m.list {
		if x != nil || all {
			c.list = append(c.list, relayed(x, all, false))
		}
	}
	if len(m.marks) == 0 && !all {
		c.noMks = true
	}
	if m.sub {
		c.subnt = relayed(m.subnt, all, false)
	}
	return &c
}
