package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"yunion.io/x/jsonutils"
)

// C07: texts are damaged on their way; what is accepted all the same is put
// to every use.

func init() { register("C07", 600_000_000, runC07) }

// modelOf reads a document through the API.
func modelOf(o jsonutils.JSONObject, depth int) *V {
	if depth > 12000 {
		return vNull()
	}
	switch x := o.(type) {
	case *jsonutils.JSONDict:
		v := vDict()
		for _, k := range x.SortedKeys() {
			m, err := x.Get(k)
			if err == nil {
				v.Set(k, modelOf(m, depth+1))
			}
		}
		return v
	case *jsonutils.JSONArray:
		v := vArr()
		for i := 0; i < x.Length(); i++ {
			m, err := x.GetAt(i)
			if err == nil {
				v.A = append(v.A, modelOf(m, depth+1))
			}
		}
		return v
	case *jsonutils.JSONString:
		return vStr(x.Value())
	case *jsonutils.JSONInt:
		return vInt(x.Value())
	case *jsonutils.JSONFloat:
		v := vFloat(x.Value())
		// it knows its own width
		v.F32 = float64(float32(v.F)) == v.F && x.String() != floatText(v.F, false) && x.String() == floatText(v.F, true)
		return v
	case *jsonutils.JSONBool:
		return vBool(x.Value())
	}
	return vNull()
}

const damageBytes = "\"'{}[],:\\<> \n\x00u-.eE0ntf&=%\xff"

// damage applies a few faults to a text.
func damage(r *Run, b []byte, others [][]byte) []byte {
	t := r.T
	span := func(max int) (int, int) {
		i := t.F(len(b) + 1)
		n := t.F(min(len(b)-i, max) + 1)
		return i, i + n
	}
	glue := func(parts ...[]byte) []byte {
		var o []byte
		for _, p := range parts {
			o = append(o, p...)
		}
		return o
	}
	for n := 1 + t.F(4); n > 0; n-- {
		k := t.F(13)
		if len(b) == 0 {
			k = 11
		}
		switch k {
		case 0:
			i := t.F(len(b))
			b = glue(b)
			b[i] ^= 1 << t.F(8)
			r.Fault("bit_flipped")
		case 1, 2:
			i := t.F(len(b))
			b = glue(b)
			b[i] = damageBytes[t.F(len(damageBytes))]
			r.Fault("byte_replaced")
		case 3:
			i, j := span(8)
			b = glue(b[:i], b[j:])
			r.Fault("bytes_dropped")
		case 4:
			i, j := span(200)
			b = glue(b[:i], b[j:])
			r.Fault("packet_dropped")
		case 5:
			i, j := span(60)
			b = glue(b[:j], b[i:])
			r.Fault("packet_duplicated")
		case 6:
			i, j := span(60)
			m := i + t.F(j-i+1)
			b = glue(b[:i], b[m:j], b[i:m], b[j:])
			r.Fault("packets_reordered")
		case 7:
			i, j := span(512)
			b = glue(b[:i], make([]byte, j-i), b[j:])
			r.Fault("zero_filled")
		case 8:
			if len(others) > 0 {
				o := others[t.F(len(others))]
				i, j := span(200)
				p := t.F(len(o) + 1)
				q := p + t.F(min(len(o)-p, 200)+1)
				b = glue(b[:i], o[p:q], b[j:])
				r.Fault("spliced")
			}
		case 9:
			i := t.F(len(b) + 1)
			if j := bytes.LastIndexByte(b[:i], '\\'); j >= 0 && t.F(3) == 2 {
				// inside what an escape stands for
				i = min(len(b), j+1+t.F(6))
			}
			b = glue(b[:i])
			r.Fault("torn")
		case 10:
			b = glue(b[t.F(len(b)+1):])
			r.Fault("head_lost")
		case 11:
			i := t.F(len(b) + 1)
			s := []string{"{", "[", "{\"", "\"", "\\", "\\u", "\\ud83d", "<1>", "<", "___jnid_:1,", "\"___jnid_\":1,", "1e400", "-", "--1", "nan", "inf", "0x1p4", "9223372036854775808", "-9223372036854775809", "1.", ".5", "''", "'", ":", ",", "null", "\xff\xfe", "\xef\xbb\xbf", "//", "a.0.b=", "%", "&&", "=", "a.99999999999999999999=1&", "\\x", "\\x4", "\\x41", "\\u00", "\\ud83d\\", "\\ud83d\\u"}[t.F(40)]
			if t.F(4) == 3 {
				b = b[:i]
				r.Fault("torn")
			}
			b = glue(b[:i], []byte(s), b[i:])
			r.Fault("noise_inserted")
		case 12:
			i := t.F(len(b) + 1)
			m := 1 + t.F(120)
			if t.F(8) == 7 {
				m *= 20
			}
			b = glue(b[:i], []byte(strings.Repeat([]string{"[", "{\"a\":", "[{\"b\":", "]", "}", "[[],", "\\", "\"", "a.", "a.0."}[t.F(10)], m)), b[i:])
			r.Fault("nesting_inserted")
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
	}
	return b
}

// zoo: fixed targets; none has hooks that panic.
var zoo = []reflect.Type{reflect.TypeOf(gNode{}), reflect.TypeOf(hNode{}), reflect.TypeOf(gHolder{}), reflect.TypeOf([]*gNode{}), reflect.TypeOf(map[string]*hNode{}), reflect.TypeOf(Tree{}), reflect.TypeOf(&Tree{}), reflect.TypeOf([]Tree{}),
	reflect.TypeOf(E5{}), reflect.TypeOf(aNode{}), reflect.TypeOf(&bNode{}), tAny, tObj, reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf([]string{}), tString, tInt, tF64, tBool, tTime, tTri,
	reflect.TypeOf((*iSer)(nil)).Elem(), reflect.TypeOf(&serT{}), reflect.TypeOf(hookU{}), reflect.TypeOf([]byte{}), reflect.TypeOf([3]int{}), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(map[int]string{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(uintptr(0)), reflect.TypeOf((*jsonutils.JSONObject)(nil)), reflect.TypeOf((**int)(nil)),
	reflect.TypeOf(struct {
		E1
		*E2
		X interface{} `json:"x"`
		a int
		B *gNode
	}{})}

func runC07(r *Run) {
	t := r.T
	r.Nontrivial = true
	var texts [][]byte
	var vs []*V
	for n := 1 + t.G(3); n > 0; n-- {
		var s string
		v := genDoc(t, genOpt{oddKeys: t.G(2) == 1, maxNodes: 25, huge: true}, -1)
		switch t.G(8) {
		case 0, 1:
			s = v.Text()
		case 2, 3:
			s = v.Spell(t)
		case 4:
			s = v.Build().PrettyString()
		case 5:
			g := genGraph(t, 1+t.Size(8))
			f := t.G(2)
			call(func() { s = encode(t.G(2) == 1, g.buildAs(graphFamilies[f])[0].Interface()).String() })
		case 6:
			call(func() {
				typ := genStruct(t, 2, 1+t.Size(8))
				p := reflect.New(typ)
				fillValue(t, p.Elem(), true)
				s = jsonutils.Marshal(p.Interface()).String()
			})
		case 7:
			s = v.Build().QueryString()
		}
		texts = append(texts, []byte(s))
		vs = append(vs, v)
	}
	for n := 2 + t.G(6); n > 0 && !r.Failed(); n-- {
		b := damage(r, texts[t.G(len(texts))], texts)
		// a buffer without anything behind its end
		b = append(make([]byte, 0, len(b)), b...)[:len(b):len(b)]
		r.Log("input %q", clip(string(b), 0))
		k := t.G(6)
		if k == 3 && strings.Count(string(b), "[")+strings.Count(string(b), "{") > 150 {
			// a scan costs the third power of the number of openings that
			// are never closed
			k = 4
		}
		switch k {
		case 0, 1, 2:
			var o jsonutils.JSONObject
			var err error
			if p := call(func() { o, err = jsonutils.Parse(b) }); p != "" {
				r.Fail("panic", "Parse(%q) %s", b, p)
				return
			}
			accepted(r, o, err, fmt.Sprintf("Parse(%q)", b), vs)
		case 3:
			var l []jsonutils.JSONObject
			var err error
			if p := call(func() { l, err = jsonutils.ParseJsonStreams(b) }); p != "" {
				r.Fail("panic", "ParseJsonStreams(%q) %s", b, p)
				return
			}
			r.H(errText(err))
			if err == nil {
				for i, o := range l {
					if i < 6 {
						accepted(r, o, nil, fmt.Sprintf("document %d of ParseJsonStreams(%q)", i, b), vs)
					}
				}
			}
		case 4:
			off := 0
			for k := 0; k < 12 && !r.Failed(); k++ {
				var o jsonutils.JSONObject
				var n int
				var err error
				if t.G(5) == 4 {
					off = t.F(len(b) + 3)
				}
				if p := call(func() { o, n, err = jsonutils.ParseStream(b, off) }); p != "" {
					r.Fail("panic", "ParseStream(%q, %d) %s", b, off, p)
					return
				}
				if err == nil && (n <= off || n > len(b)) {
					r.Fail("position", "ParseStream(%q, %d) accepts a document that ends at %d", b, off, n)
					return
				}
				accepted(r, o, err, fmt.Sprintf("ParseStream(%q, %d)", b, off), vs)
				if err != nil {
					off++
				} else {
					off = n
				}
			}
		case 5:
			s := string(b)
			if t.G(2) == 1 {
				var l []string
				for k := 1 + t.G(8); k > 0; k-- {
					l = append(l, []string{"a", "b.0", "b.1", "b.0.x", "c.d", "c.0", "a.b", "", ".", "a..b", "0", "1", "id"}[t.G(13)]+"="+[]string{"1", "", "x%20y", "%zz", "a&b"}[t.G(5)])
				}
				s = string(damage(r, []byte(strings.Join(l, "&")), texts))
			}
			var o jsonutils.JSONObject
			var err error
			if p := call(func() { o, err = jsonutils.ParseQueryString(s) }); p != "" {
				r.Fail("panic", "ParseQueryString(%q) %s", s, p)
				return
			}
			accepted(r, o, err, fmt.Sprintf("ParseQueryString(%q)", s), vs)
		}
	}
}

// accepted puts a document to use.
func accepted(r *Run, o jsonutils.JSONObject, err error, how string, vs []*V) {
	t := r.T
	if err != nil {
		if o != nil && !reflect.ValueOf(o).IsNil() {
			r.Fail("both", "%s returns a document and the error %v", how, err)
		}
		r.H("error")
		r.Count("rejected")
		call(func() { _ = err.Error() })
		return
	}
	if o == nil {
		r.Fail("neither", "%s returns neither a document nor an error", how)
		return
	}
	r.Count("accepted")
	var text, obs string
	if p := call(func() { text = o.String(); obs = ObsNorm(o) }); p != "" {
		r.Fail("panic", "%s: rendering: %s", how, p)
		return
	}
	r.H(text)
	for k := 0; k < 2; k++ {
		s := text
		if k == 1 {
			if len(text) > 3000 || t.G(2) == 0 || deepText(text) > 700 {
				break
			}
			if p := call(func() { s = o.PrettyString() }); p != "" {
				r.Fail("panic", "%s: rendering indented: %s", how, p)
				return
			}
		}
		var o2 jsonutils.JSONObject
		var err2 error
		var obs2, text2 string
		if p := call(func() {
			o2, err2 = jsonutils.ParseString(s)
			if err2 == nil {
				obs2, text2 = ObsNorm(o2), o2.String()
			}
		}); p != "" {
			r.Fail("panic", "%s: reading its rendering %q: %s", how, clip(s, 0), p)
			return
		}
		if err2 != nil {
			r.Fail("unreadable", "%s is accepted, its rendering %q is not: %v", how, clip(s, 0), err2)
			return
		}
		if obs2 != obs {
			r.Fail("unstable", "%s gives %s\n text %q\nreading that gives %s\n text %q", how, clip(obs, 0), clip(text, 0), clip(obs2, 0), clip(text2, 0))
			return
		}
	}
	if deepText(text) > 300 {
		// looking into every level of such a document takes too long
		if p := call(func() {
			if c := jsonutils.DeepCopy(o); c.String() != text {
				r.Fail("copy", "%s: the copy of %q is %q", how, clip(text, 0), clip(c.String(), 0))
			}
		}); p != "" {
			r.Fail("panic", "%s: copying: %s", how, p)
		}
		r.Count("very_deep")
		return
	}
	v := modelOf(o, 0)
	use := func(what string, f func()) bool {
		if p := call(f); p != "" {
			r.Fail("panic", "%s\n reads %s\n %s: %s", how, clip(text, 0), what, p)
			return false
		}
		return true
	}
	for n := 1 + t.G(5); n > 0; n-- {
		op := genReadOp(t, v, vs[t.G(len(vs))], false)
		if strings.HasPrefix(op.name, "PrettyString") && len(text) > 3000 {
			continue
		}
		var s string
		if !use(op.name, func() { s = op.f(o)() }) {
			return
		}
		r.H(s)
	}
	// every conversion of every value, and of fragments of every text
	if t.G(3) == 2 {
		var docs []jsonutils.JSONObject
		sweep(o, 0, func(x jsonutils.JSONObject) {
			if len(docs) > 40 {
				return
			}
			docs = append(docs, x)
			if s, ok := x.(*jsonutils.JSONString); ok && len(s.Value()) > 0 && len(s.Value()) < 100 {
				f := s.Value()
				i := t.G(len(f))
				docs = append(docs, jsonutils.NewString(f[i:i+t.G(len(f)-i+1)]), jsonutils.NewString(f[i:]))
			}
		})
		for _, x := range docs {
			if !use("converting "+clip(fmt.Sprintf("%T %v", x, x), 0), func() { conversions(x) }) {
				return
			}
		}
	}
	for n := t.G(4); n > 0; n-- {
		typ := zoo[t.G(len(zoo))]
		q := reflect.New(typ)
		if t.G(4) == 3 {
			call(func() { fillValue(t, q.Elem(), true) })
		}
		if !use("decoding into "+clip(typ.String(), 0), func() {
			err := o.Unmarshal(q.Interface())
			if err != nil {
				_ = err.Error()
			}
		}) {
			return
		}
	}
	if !use("copying and comparing", func() {
		c := jsonutils.DeepCopy(o)
		if s := c.String(); s != text {
			r.Fail("copy", "%s: the copy of %q is %q", how, clip(text, 0), clip(s, 0))
		}
		if obs == ObsNorm(o) && !strings.Contains(obs, "NaN") && !strings.Contains(obs, "?") && !o.Equals(c) {
			r.Fail("copy", "%s: %q is not equal to its copy", how, clip(text, 0))
		}
	}) {
		return
	}
	if s := o.String(); s != text {
		r.Fail("changed", "%s: after all that %q reads %q", how, clip(text, 0), clip(s, 0))
	}
}

// deepText is how deep lists and dictionaries are nested in a compact text.
func deepText(s string) (max int) {
	n, in := 0, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case in && c == '\\':
			i++
		case c == '"':
			in = !in
		case in:
		case c == '{' || c == '[':
			if n++; n > max {
				max = n
			}
		case c == '}' || c == ']':
			n--
		}
	}
	return
}

// conversions asks a document for everything it could stand for.
func conversions(x jsonutils.JSONObject) string {
	var sb strings.Builder
	note := func(v interface{}, err error) { fmt.Fprintf(&sb, "%v %s,", v, errText(err)) }
	i, err := x.Int()
	note(i, err)
	f, err := x.Float()
	note(f, err)
	b, err := x.Bool()
	note(b, err)
	s, err := x.GetString()
	note(s, err)
	tm, err := x.GetTime()
	note(tm.UnixNano(), err)
	l, err := x.GetArray()
	note(len(l), err)
	m, err := x.GetMap()
	note(len(m), err)
	for _, k := range []string{"a", "", "0"} {
		i, err = x.Int(k)
		note(i, err)
		tm, err = x.GetTime(k)
		note(tm.UnixNano(), err)
		o, err := x.Get(k)
		note(o != nil, err)
		o, err = x.GetAt(0, k)
		note(o != nil, err)
	}
	for k := -1; k < 3; k++ {
		o, err := x.GetAt(k)
		note(o != nil, err)
	}
	note(x.IsZero(), nil)
	note(x.QueryString(), nil)
	for _, typ := range scalarTypes {
		q := reflect.New(typ)
		err := x.Unmarshal(q.Interface())
		note(q.Elem().Type(), err)
	}
	return sb.String()
}
