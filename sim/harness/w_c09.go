package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C09: the same value is encoded and rendered again and again while the order
// of map enumerations, the clock, the time zone, the history of the process and
// the other tasks change.

func init() { register("C09", 400_000_000, runC09) }

var localZones = []*time.Location{time.UTC, time.FixedZone("E", 8*3600), time.FixedZone("W", -9*3600-1800), time.FixedZone("X", 14*3600), time.FixedZone("Y", 5*3600+45*60)}

// setZone moves the process to another time zone.
func setZone(r *Run, k int) {
	time.Local = localZones[k]
	if k > 0 {
		r.Fault("time_zone_changed")
	}
}

type kStringer int

func (k kStringer) String() string { return fmt.Sprintf("key<%d>", 100-int(k)) }

// kMod is a key that others have the same text as.
type kMod int

func (k kMod) String() string { return fmt.Sprint("mod", (int(k)%3+3)%3) }

type kPair struct{ A, B string }

var mapTypes = []reflect.Type{
	reflect.TypeOf(map[interface{}]int{}), reflect.TypeOf(map[kMod]string{}), reflect.TypeOf(map[kPair]*E1{}), reflect.TypeOf(map[interface{}]interface{}{}),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[int8]int{}), reflect.TypeOf(map[uint16]bool{}), reflect.TypeOf(map[nKey]map[int64]string{}),
	reflect.TypeOf(map[bool]int{}), reflect.TypeOf(map[float64]int{}), reflect.TypeOf(map[string]time.Time{}), reflect.TypeOf(map[string]map[string]map[string]int{}), reflect.TypeOf(map[kStringer]int{}),
	reflect.TypeOf(map[string][]map[string]int{}), reflect.TypeOf(map[string]*E1{}), reflect.TypeOf(map[string]jsonutils.JSONObject{}), reflect.TypeOf(map[[2]int]string{}), reflect.TypeOf(map[uint64]map[string]int{}), reflect.TypeOf(map[string]*gNode{})}

// fillMap puts entries into maps of any kind.
func fillMap(t *Tape, v reflect.Value, depth int) {
	typ := v.Type()
	v.Set(reflect.MakeMap(typ))
	n, many := t.Size(9), false
	if depth == 0 && typ.Key().Kind() == reflect.String && t.G(12) == 11 {
		n, many = []int{17, 33, 65, 100, 129, 257, 300}[t.G(7)], true
	}
	for ; n > 0; n-- {
		k := reflect.New(typ.Key()).Elem()
		switch k.Kind() {
		case reflect.String:
			k.SetString(genKey(t, &genOpt{oddKeys: true}))
			if many {
				k.SetString(fmt.Sprintf("%s%d", []string{"k", "", "K_"}[t.G(3)], n))
			}
			if k.String() == jnid {
				k.SetString("x")
			}
		case reflect.Int, reflect.Int8, reflect.Int64:
			// kMod among them
			i := []int64{0, 1, -1, 9, 10, 11, 100, -10, -9, 127, 2, 20, -128, 99}[t.G(14)]
			k.SetInt(i)
		case reflect.Uint16, reflect.Uint64:
			k.SetUint([]uint64{0, 1, 9, 10, 11, 100, 65535, 2, 20, 200}[t.G(10)])
		case reflect.Bool:
			k.SetBool(t.G(2) == 1)
		case reflect.Float64:
			k.SetFloat([]float64{0, 1, 1.5, 10, -2, 1e21, 0.1, math.Inf(1)}[t.G(8)])
		case reflect.Interface:
			// keys of several types with the same text
			x := []interface{}{1, "1", int8(1), uint64(1), 1.0, true, "true", kMod(1), kMod(4), "mod1", "<nil>", nil, [1]int{1}, [1]string{"1"}, "[1]", float32(1), kPair{"a b", "c"}, kPair{"a", "b c"}}[t.G(18)]
			if x != nil {
				k.Set(reflect.ValueOf(x))
			}
		default:
			if typ.Key() == reflect.TypeOf(kPair{}) {
				w := []string{"", "a", "a b", "b c", "c", " "}
				k.Set(reflect.ValueOf(kPair{w[t.G(6)], w[t.G(6)]}))
				break
			}
			fillValue(t, k, false)
		}
		e := reflect.New(typ.Elem()).Elem()
		if e.Kind() == reflect.Map {
			if depth < 4 {
				fillMap(t, e, depth+1)
			}
		} else if e.Kind() == reflect.Slice && e.Type().Elem().Kind() == reflect.Map {
			for m := t.G(3); m > 0; m-- {
				x := reflect.New(e.Type().Elem()).Elem()
				fillMap(t, x, depth+1)
				e.Set(reflect.Append(e, x))
			}
		} else if e.Type() == tAny && t.G(2) == 1 && depth < 4 {
			x := reflect.New(mapTypes[t.G(len(mapTypes))]).Elem()
			fillMap(t, x, depth+1)
			e.Set(x)
		} else if many && e.Kind() != reflect.Ptr && e.Kind() != reflect.Interface && e.Type() != tTime {
			small := filler{t: t, budget: 3, nils: true}
			small.fill(e, 2, false)
		} else if _, ok := e.Interface().(*gNode); ok {
			e.Set(reflect.ValueOf(genGraph(t, 1+t.G(3)).build()))
		} else {
			fillValue(t, e, true)
		}
		v.SetMapIndex(k, e)
	}
}

// unquoteKey reads a member name; only for comparing.
func unquoteKey(s string) string {
	s = s[1 : len(s)-1]
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 >= len(s) {
			sb.WriteByte(s[i])
			continue
		}
		i++
		switch s[i] {
		case 'n':
			sb.WriteByte('\n')
		case 't':
			sb.WriteByte('\t')
		case 'r':
			sb.WriteByte('\r')
		case 'b':
			sb.WriteByte('\b')
		case 'f':
			sb.WriteByte('\f')
		case 'u':
			if i+4 < len(s) {
				n, _ := strconv.ParseUint(s[i+1:i+5], 16, 32)
				sb.WriteRune(rune(n))
				i += 4
			}
		default:
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// disordered returns two neighbouring members that are not in ascending order.
func (n *jnode) disordered() string {
	for i, k := range n.keys {
		if i > 0 && unquoteKey(n.keys[i-1]) >= unquoteKey(k) {
			return n.keys[i-1] + " before " + k
		}
	}
	for _, k := range n.kids {
		if s := k.disordered(); s != "" {
			return s
		}
	}
	return ""
}

// altered returns a copy of a document in which one to three scalar members of
// dictionaries have another value, mostly one of the same length; nil if there
// are none.
func altered(t *Tape, v *V) *V {
	c := v.Clone()
	var at []*V
	var walk func(v *V)
	walk = func(v *V) {
		for _, x := range v.A {
			walk(x)
		}
		for _, kv := range v.O {
			if kv.V.K == KStr || kv.V.K == KInt || kv.V.K == KBool || kv.V.K == KNull {
				at = append(at, kv.V)
			}
			walk(kv.V)
		}
	}
	walk(c)
	if len(at) == 0 {
		return nil
	}
	for n := 1 + t.G(3); n > 0; n-- {
		x := at[t.G(len(at))]
		switch {
		case x.K == KStr && len(x.S) > 0 && x.S[0] >= 'a' && x.S[0] < 'z':
			x.S = string(x.S[0]+1) + x.S[1:]
		case x.K == KInt && x.I > 0 && x.I%10 != 0:
			x.I--
		case x.K == KInt:
			*x = *vInt(5)
		case x.K == KBool:
			x.B = !x.B
		case t.G(2) == 1:
			*x = *vStr("x")
		default:
			*x = V{K: KNull}
		}
	}
	return c
}

// backAgain makes the other document, renders it and sets the members that
// differ to what they are in v.
func backAgain(other, v *V) jsonutils.JSONObject {
	o := other.Build()
	render(o)
	var walk func(o jsonutils.JSONObject, a, v *V)
	walk = func(o jsonutils.JSONObject, a, v *V) {
		switch x := o.(type) {
		case *jsonutils.JSONArray:
			l, _ := x.GetArray()
			for i := range l {
				walk(l[i], a.A[i], v.A[i])
			}
		case *jsonutils.JSONDict:
			for i, kv := range v.O {
				if len(kv.V.A)+len(kv.V.O) == 0 {
					if a.O[i].V.Obs() != kv.V.Obs() {
						x.Set(kv.K, kv.V.Build())
					}
				} else if y, err := x.Get(kv.K); err == nil {
					walk(y, a.O[i].V, kv.V)
				}
			}
		}
	}
	walk(o, other, v)
	return o
}

type rendering struct{ compact, pretty, yaml, query string }

func (a rendering) diff(b rendering) string {
	for _, x := range [][3]string{{"compact", a.compact, b.compact}, {"indented", a.pretty, b.pretty}, {"query", a.query, b.query}, {"YAML", a.yaml, b.yaml}} {
		if x[1] != x[2] {
			return fmt.Sprintf("the %s form was\n %s\nand is now\n %s", x[0], clip(x[1], 0), clip(x[2], 0))
		}
	}
	return ""
}

// yamlLess is the order the YAML package gives to keys.
func yamlLess(a, b string) bool {
	ar, br := []rune(a), []rune(b)
	for i := 0; i < len(ar) && i < len(br); i++ {
		if ar[i] == br[i] {
			continue
		}
		al, bl := unicode.IsLetter(ar[i]), unicode.IsLetter(br[i])
		if al && bl {
			return ar[i] < br[i]
		}
		if al || bl {
			return bl
		}
		var ai, bi int
		var an, bn int64
		if ar[i] == '0' || br[i] == '0' {
			for j := i - 1; j >= 0 && unicode.IsDigit(ar[j]); j-- {
				if ar[j] != '0' {
					an, bn = 1, 1
					break
				}
			}
		}
		for ai = i; ai < len(ar) && unicode.IsDigit(ar[ai]); ai++ {
			an = an*10 + int64(ar[ai]-'0')
		}
		for bi = i; bi < len(br) && unicode.IsDigit(br[bi]); bi++ {
			bn = bn*10 + int64(br[bi]-'0')
		}
		if an != bn {
			return an < bn
		}
		if ai != bi {
			return ai < bi
		}
		return ar[i] < br[i]
	}
	return len(ar) < len(br)
}

// unorderable tells whether some dictionary has keys that cannot be arranged so
// that each comes before all that follow in the order of the YAML package.
func (n *jnode) unorderable() bool {
	var ks []string
	for _, k := range n.keys {
		ks = append(ks, unquoteKey(k))
	}
	sort.Slice(ks, func(i, j int) bool { return yamlLess(ks[i], ks[j]) })
	for i, a := range ks {
		for _, b := range ks[i+1:] {
			if a != b && (!yamlLess(a, b) || yamlLess(b, a)) {
				return true
			}
		}
	}
	for _, k := range n.kids {
		if k.unorderable() {
			return true
		}
	}
	return false
}

// yamlText is the YAML form of a document as far as the document determines
// it: which order the YAML package gives keys it cannot sort is decided (and
// known) under C09 alone, elsewhere the lines of such documents are compared
// in sorted order.
func yamlText(o jsonutils.JSONObject) string {
	y := o.YAMLString()
	if jread(o.String()).unorderable() {
		l := strings.Split(y, "\n")
		for i := range l {
			l[i] = strings.TrimLeft(l[i], " -?")
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	return y
}

func sameLines(a, b string) bool {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for _, l := range [][]string{x, y} {
		for i := range l {
			l[i] = strings.TrimLeft(l[i], " -?")
		}
		sort.Strings(l)
	}
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

// kind tells the one known way to differ from all others.
func (a rendering) kind(b rendering) string {
	if a.compact == b.compact && a.pretty == b.pretty && a.query == b.query && sameLines(a.yaml, b.yaml) && jread(a.compact).unorderable() {
		return "yaml_order"
	}
	return "differs"
}

func render(o jsonutils.JSONObject) (d rendering) {
	d.compact = o.String()
	if len(d.compact) < 3000 {
		d.pretty = o.PrettyString()
	}
	d.query = o.QueryString()
	d.yaml = o.YAMLString()
	return
}

func runC09(r *Run) {
	t := r.T
	r.Nontrivial = true
	pinTimes = true
	defer func() { time.Local, pinTimes = localZones[0], false }()
	setZone(r, t.F(len(localZones)))
	seed := t.Bits()
	all := t.G(2) == 1
	// mk makes the same value each time, k says how
	var mk func(k int) (interface{}, error)
	var doc *V
	what := ""
	switch t.G(6) {
	case 0, 1:
		doc = genDoc(t, genOpt{oddKeys: t.G(2) == 1, maxNodes: 40, f32: true}, []int{int(KDict), int(KDict), int(KArr), -1}[t.G(4)])
		if t.G(40) == 39 {
			// no order of these keys is right in YAML
			doc = &V{K: KDict}
			for _, k := range []string{"1", "12345678901234567890", "_x", "b"} {
				doc.O = append(doc.O, KV{k, vInt(5)})
			}
		}
		what = "document " + doc.Text()
		how, again := recipe(t, doc)
		if how == "query" || strings.HasSuffix(how, "graph") || how == "parsed spelling" || how == "parsed" || how == "marshalled" {
			how = ""
		}
		other := altered(t, doc)
		mk = func(k int) (interface{}, error) {
			switch {
			case k == 0:
				return doc.Build(), nil
			case k%5 == 2 && other != nil:
				return backAgain(other, doc), nil
			case k%3 == 1 && how != "":
				return again(), nil
			case k%3 == 2:
				o, err := jsonutils.ParseString(doc.Text())
				if err != nil || Obs(o) != doc.Obs() {
					return doc.BuildShuffled(NewTape(seed + uint64(k))), nil
				}
				return o, nil
			}
			return doc.BuildShuffled(NewTape(seed + uint64(k))), nil
		}
	case 2:
		typ := genStruct(t, 1+t.G(4), 1+t.Size(10))
		what = "value of type " + typ.String()
		mk = func(k int) (interface{}, error) {
			p := reflect.New(typ)
			if k%3 == 2 {
				// it held something else before
				fillValue(NewTape(seed+uint64(k)), p.Elem(), true)
				encode(k%2 == 0, p.Interface())
				p.Elem().Set(reflect.Zero(typ))
			}
			fillValue(NewTape(seed), p.Elem(), true)
			return p.Interface(), nil
		}
	case 3:
		typ := mapTypes[t.G(len(mapTypes))]
		what = "value of type " + typ.String()
		mk = func(k int) (interface{}, error) {
			p := reflect.New(typ)
			fillMap(NewTape(seed), p.Elem(), 0)
			return p.Elem().Interface(), nil
		}
	case 4:
		g := genGraph(t, 1+t.Size(9))
		f := t.G(2)
		what = "graph " + g.describe()
		mk = func(k int) (interface{}, error) { return g.buildAs(graphFamilies[f])[0].Interface(), nil }
	case 5:
		// a structure of maps, times and documents of their own
		var fs []reflect.StructField
		for n := 2 + t.G(5); n > 0; n-- {
			ft := mapTypes[t.G(len(mapTypes))]
			if t.G(4) == 3 {
				ft = []reflect.Type{tTime, reflect.TypeOf(&time.Time{}), tObj, tAny}[t.G(4)]
			}
			tag := []string{"", `json:"x%d,omitempty"`, `json:"a%d,allowempty"`, `json:"m%d"`, `json:"s%d,string"`}[t.G(5)]
			if ft.Kind() != reflect.Map && strings.Contains(tag, "string") {
				tag = ""
			}
			if tag != "" {
				tag = fmt.Sprintf(tag, n)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", n), Type: ft, Tag: reflect.StructTag(tag)})
		}
		typ := reflect.StructOf(fs)
		what = "value of type " + typ.String()
		mk = func(k int) (interface{}, error) {
			p := reflect.New(typ)
			s := NewTape(seed)
			for i := 0; i < typ.NumField(); i++ {
				if typ.Field(i).Type.Kind() == reflect.Map {
					if s.G(5) > 0 {
						fillMap(s, p.Elem().Field(i), 0)
					}
				} else {
					fillValue(s, p.Elem().Field(i), true)
				}
			}
			return p.Interface(), nil
		}
	}
	r.Log("%s all=%v", what, all)
	one := func(k int, direct bool) (d rendering, err error) {
		if p := call(func() {
			var x interface{}
			x, err = mk(k)
			if err != nil {
				return
			}
			o, isDoc := x.(jsonutils.JSONObject)
			if !isDoc || !direct {
				o = encode(all, x)
			}
			d = render(o)
		}); p != "" {
			err = errors.New(p)
		}
		return
	}
	first, err := one(0, true)
	if err != nil {
		r.Fail("panic", "%s: %v", clip(what, 0), err)
		return
	}
	r.H(first.compact)
	r.R(first.compact + first.pretty + first.yaml + first.query)
	r.Log("first %s", first.compact)
	if doc != nil && first.compact != doc.Text() {
		r.Fail("text", "the document renders as\n %s\ninstead of\n %s", clip(first.compact, 0), clip(doc.Text(), 0))
		return
	}
	for i, s := range []string{first.compact, first.pretty} {
		if s == "" {
			continue
		}
		var n *jnode
		if p := call(func() { n = jread(s) }); p != "" {
			r.Fail("text", "%s: rendering %d cannot be read: %s", clip(what, 0), i, clip(p, 0))
			return
		}
		if d := n.disordered(); d != "" {
			r.Fail("order", "%s: member %s in %s", clip(what, 0), d, clip(s, 0))
			return
		}
	}
	check := func(k int, when string) (string, string) {
		d, err := one(k, k%2 == 0)
		if err != nil {
			return "panic", fmt.Sprintf("%s: %s: %v", clip(what, 0), when, err)
		}
		if s := first.diff(d); s != "" {
			return first.kind(d), fmt.Sprintf("%s, %s: %s", clip(what, 0), when, s)
		}
		return "", ""
	}
	for k := 1; k <= 2+t.G(3); k++ {
		setZone(r, t.F(len(localZones)))
		if t.G(2) == 1 {
			// something else happens in between
			s := genStep(t)
			doStep(&s)
		}
		if kind, s := check(k, fmt.Sprintf("time %d", k+1)); s != "" {
			r.Fail(kind, "%s", s)
			return
		}
	}
	if !simrt.RaceBuild && t.G(4) < 3 {
		return
	}
	// all at once, among other work, some on one shared value
	shared, err := mk(1)
	if err != nil {
		return
	}
	nt := 2 + t.G(2)
	fns := make([]func(), nt)
	outs, kinds := make([]string, nt), make([]string, nt)
	for k := range fns {
		k := k
		switch t.G(4) {
		case 0, 1:
			fns[k] = func() { kinds[k], outs[k] = check(k+1, "among other tasks") }
		case 2:
			fns[k] = func() {
				var d rendering
				if p := call(func() { d = render(encode(all, shared)) }); p != "" {
					kinds[k], outs[k] = "panic", p
				} else if s := first.diff(d); s != "" {
					kinds[k], outs[k] = first.kind(d), fmt.Sprintf("%s, shared by several tasks: %s", clip(what, 0), s)
				}
			}
		default:
			s := genStep(t)
			fns[k] = func() { doStep(&s) }
		}
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for i, s := range outs {
		if s != "" {
			r.Fail(kinds[i], "%s", s)
			return
		}
	}
}
