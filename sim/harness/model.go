package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"yunion.io/x/jsonutils"
)

// V is the model of a document, independent of the library.
type Kind int

const (
	KNull Kind = iota
	KBool
	KInt
	KFloat
	KStr
	KArr
	KDict
)

type KV struct {
	K string
	V *V
}

type V struct {
	K   Kind
	B   bool
	I   int64
	F   float64
	F32 bool
	S   string
	A   []*V
	O   []KV // ascending by key, unique
}

func vNull() *V           { return &V{K: KNull} }
func vBool(b bool) *V     { return &V{K: KBool, B: b} }
func vInt(i int64) *V     { return &V{K: KInt, I: i} }
func vFloat(f float64) *V { return &V{K: KFloat, F: f} }
func vStr(s string) *V    { return &V{K: KStr, S: s} }
func vArr(a ...*V) *V     { return &V{K: KArr, A: a} }
func vDict(kvs ...KV) *V {
	v := &V{K: KDict}
	for _, kv := range kvs {
		v.Set(kv.K, kv.V)
	}
	return v
}

func (v *V) find(k string) (int, bool) {
	i := sort.Search(len(v.O), func(i int) bool { return v.O[i].K >= k })
	return i, i < len(v.O) && v.O[i].K == k
}

func (v *V) Get(k string) *V {
	if i, ok := v.find(k); ok {
		return v.O[i].V
	}
	return nil
}

func (v *V) Set(k string, x *V) {
	i, ok := v.find(k)
	if ok {
		v.O[i].V = x
		return
	}
	v.O = append(v.O, KV{})
	copy(v.O[i+1:], v.O[i:])
	v.O[i] = KV{k, x}
}

func (v *V) Del(k string) bool {
	i, ok := v.find(k)
	if ok {
		v.O = append(v.O[:i:i], v.O[i+1:]...)
	}
	return ok
}

func (v *V) Clone() *V {
	c := *v
	c.A, c.O = nil, nil
	for _, x := range v.A {
		c.A = append(c.A, x.Clone())
	}
	for _, kv := range v.O {
		c.O = append(c.O, KV{kv.K, kv.V.Clone()})
	}
	return &c
}

func (v *V) Nodes() int {
	n := 1
	for _, x := range v.A {
		n += x.Nodes()
	}
	for _, kv := range v.O {
		n += kv.V.Nodes()
	}
	return n
}

func quoteModel(sb *strings.Builder, s string) {
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case c == '\b':
			sb.WriteString("\\b")
		case c == '\f':
			sb.WriteString("\\f")
		case c == '\n':
			sb.WriteString("\\n")
		case c == '\r':
			sb.WriteString("\\r")
		case c == '\t':
			sb.WriteString("\\t")
		case c < 0x20:
			fmt.Fprintf(sb, "\\u%04x", c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
}

func floatText(f float64, f32 bool) string {
	if f32 {
		return strconv.FormatFloat(f, 'f', -1, 32)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// write renders the compact canonical text.
func (v *V) write(sb *strings.Builder) {
	switch v.K {
	case KNull:
		sb.WriteString("null")
	case KBool:
		sb.WriteString(strconv.FormatBool(v.B))
	case KInt:
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		sb.WriteString(floatText(v.F, v.F32))
	case KStr:
		quoteModel(sb, v.S)
	case KArr:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.write(sb)
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		for i, kv := range v.O {
			if i > 0 {
				sb.WriteByte(',')
			}
			quoteModel(sb, kv.K)
			sb.WriteByte(':')
			kv.V.write(sb)
		}
		sb.WriteByte('}')
	}
}

func (v *V) Text() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

// obs renders the observation form: like obsObj for a document with this content.
func (v *V) obs(sb *strings.Builder, norm bool) {
	switch v.K {
	case KNull:
		sb.WriteByte('N')
	case KBool:
		if v.B {
			sb.WriteByte('T')
		} else {
			sb.WriteByte('F')
		}
	case KInt:
		if norm {
			sb.WriteByte('n')
		} else {
			sb.WriteByte('i')
		}
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		if norm {
			sb.WriteByte('n')
		} else {
			sb.WriteByte('f')
		}
		sb.WriteString(normFloat(v.F, v.F32))
	case KStr:
		sb.WriteString(strconv.Quote(v.S))
	case KArr:
		sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				sb.WriteByte(',')
			}
			x.obs(sb, norm)
		}
		sb.WriteByte(']')
	case KDict:
		sb.WriteByte('{')
		for i, kv := range v.O {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(strconv.Quote(kv.K))
			sb.WriteByte(':')
			kv.V.obs(sb, norm)
		}
		sb.WriteByte('}')
	}
}

func normFloat(f float64, f32 bool) string {
	if f == 0 {
		return "0"
	}
	return floatText(f, f32)
}

func (v *V) Obs() string {
	var sb strings.Builder
	v.obs(&sb, false)
	return sb.String()
}

// Norm is the observation form in which numbers are compared by value.
func (v *V) Norm() string {
	var sb strings.Builder
	v.obs(&sb, true)
	return sb.String()
}

// obsObj observes a document through public accessors only.
func obsObj(sb *strings.Builder, o jsonutils.JSONObject, norm bool, depth int) {
	if depth > 5000 {
		sb.WriteString("!deep")
		return
	}
	switch x := o.(type) {
	case nil:
		sb.WriteString("!nil")
	case *jsonutils.JSONDict:
		if x == nil {
			sb.WriteString("!nildict")
			return
		}
		keys := x.SortedKeys()
		if len(keys) != x.Length() {
			fmt.Fprintf(sb, "!len%d/%d", len(keys), x.Length())
		}
		sb.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				sb.WriteByte(',')
				if keys[i-1] >= k {
					sb.WriteString("!order")
				}
			}
			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			c, err := x.Get(k)
			if err != nil {
				sb.WriteString("!missing")
				continue
			}
			obsObj(sb, c, norm, depth+1)
		}
		sb.WriteByte('}')
	case *jsonutils.JSONArray:
		if x == nil {
			sb.WriteString("!nilarr")
			return
		}
		sb.WriteByte('[')
		n := x.Length()
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			c, err := x.GetAt(i)
			if err != nil {
				sb.WriteString("!missing")
				continue
			}
			obsObj(sb, c, norm, depth+1)
		}
		sb.WriteByte(']')
	case *jsonutils.JSONString:
		if x == nil {
			sb.WriteString("!nilstr")
			return
		}
		sb.WriteString(strconv.Quote(x.Value()))
	case *jsonutils.JSONInt:
		if x == nil {
			sb.WriteString("!nilint")
			return
		}
		if norm {
			sb.WriteByte('n')
		} else {
			sb.WriteByte('i')
		}
		sb.WriteString(strconv.FormatInt(x.Value(), 10))
	case *jsonutils.JSONFloat:
		if x == nil {
			sb.WriteString("!nilfloat")
			return
		}
		f := x.Value()
		if norm {
			sb.WriteByte('n')
		} else {
			sb.WriteByte('f')
		}
		// the text the library gives it (it knows its own width)
		if f == 0 {
			sb.WriteString("0")
		} else {
			s := x.String()
			if g, err := strconv.ParseFloat(s, 64); err != nil && !math.IsInf(f, 0) || (err == nil && g != f && float32(g) != float32(f) && !(g != g && f != f)) {
				fmt.Fprintf(sb, "!%v/", f)
			}
			sb.WriteString(s)
		}
	case *jsonutils.JSONBool:
		if x == nil {
			sb.WriteString("!nilbool")
			return
		}
		if x.Value() {
			sb.WriteByte('T')
		} else {
			sb.WriteByte('F')
		}
	case *jsonutils.JSONValue:
		if x == nil {
			sb.WriteString("!nilnull")
			return
		}
		sb.WriteByte('N')
	default:
		sb.WriteByte('?')
		sb.WriteString(o.String())
	}
}

func Obs(o jsonutils.JSONObject) string {
	var sb strings.Builder
	obsObj(&sb, o, false, 0)
	return sb.String()
}

func ObsNorm(o jsonutils.JSONObject) string {
	var sb strings.Builder
	obsObj(&sb, o, true, 0)
	return sb.String()
}

// Build makes the document through the constructors of the API.
func (v *V) Build() jsonutils.JSONObject {
	switch v.K {
	case KNull:
		return jsonutils.JSONNull
	case KBool:
		return jsonutils.NewBool(v.B)
	case KInt:
		return jsonutils.NewInt(v.I)
	case KFloat:
		if v.F32 {
			return jsonutils.NewFloat32(float32(v.F))
		}
		return jsonutils.NewFloat64(v.F)
	case KStr:
		return jsonutils.NewString(v.S)
	case KArr:
		a := jsonutils.NewArray()
		for _, x := range v.A {
			a.Add(x.Build())
		}
		return a
	default:
		d := jsonutils.NewDict()
		for _, kv := range v.O {
			d.Set(kv.K, kv.V.Build())
		}
		return d
	}
}

// BuildShuffled builds dictionaries in a drawn insertion order, with detours
// (members added and removed or overwritten).
func (v *V) BuildShuffled(t *Tape) jsonutils.JSONObject {
	switch v.K {
	case KArr:
		var els []jsonutils.JSONObject
		for _, x := range v.A {
			els = append(els, x.BuildShuffled(t))
		}
		return jsonutils.NewArray(els...)
	case KDict:
		d := jsonutils.NewDict()
		n := len(v.O)
		ord := perm(t, n)
		for _, i := range ord {
			kv := v.O[i]
			switch t.G(6) {
			case 5:
				d.Set(kv.K, jsonutils.NewString("detour"))
			case 4:
				k := kv.K + "~"
				if v.Get(k) == nil {
					d.Set(k, jsonutils.NewInt(1))
					d.Set(kv.K, kv.V.BuildShuffled(t))
					d.Remove(k)
					continue
				}
			}
			d.Set(kv.K, kv.V.BuildShuffled(t))
		}
		return d
	default:
		return v.Build()
	}
}

func perm(t *Tape, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - t.G(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Go converts to plain Go values (maps, slices); nil elements become nil.
func (v *V) Go() interface{} {
	switch v.K {
	case KNull:
		return nil
	case KBool:
		return v.B
	case KInt:
		return v.I
	case KFloat:
		if v.F32 {
			return float32(v.F)
		}
		return v.F
	case KStr:
		return v.S
	case KArr:
		r := []interface{}{}
		for _, x := range v.A {
			r = append(r, x.Go())
		}
		return r
	default:
		r := map[string]interface{}{}
		for _, kv := range v.O {
			r[kv.K] = kv.V.Go()
		}
		return r
	}
}

// ---- standard JSON spellings ----

type spell struct {
	t     *Tape
	sb    strings.Builder
	ws    int
	esc   int
	shuf  bool
	exp   bool
	noUni bool
}

// Spell renders v in a drawn standard JSON spelling.
func (v *V) Spell(t *Tape) string {
	s := &spell{t: t, ws: t.G(3), esc: t.G(4), shuf: t.G(2) == 1, exp: t.G(2) == 1}
	s.val(v)
	return s.sb.String()
}

func (s *spell) space() {
	if s.ws == 0 {
		return
	}
	n := s.t.G(s.ws * 2)
	for i := 0; i < n; i++ {
		s.sb.WriteByte(" \n\t\r"[s.t.G(4)])
	}
}

func (s *spell) str(x string) {
	if s.esc == 0 {
		quoteModel(&s.sb, x)
		return
	}
	s.sb.WriteByte('"')
	for i := 0; i < len(x); {
		c := x[i]
		if c >= 0x80 {
			r, n := utf8.DecodeRuneInString(x[i:])
			if r != utf8.RuneError && s.t.G(2) == 1 {
				if r >= 0x10000 {
					a, b := utf16.EncodeRune(r)
					fmt.Fprintf(&s.sb, "\\u%04x\\u%04X", a, b)
				} else {
					fmt.Fprintf(&s.sb, "\\u%04x", r)
				}
			} else {
				s.sb.WriteString(x[i : i+n])
			}
			i += n
			continue
		}
		i++
		switch {
		case c == '"' || c == '\\':
			if s.t.G(4) == 3 {
				fmt.Fprintf(&s.sb, "\\u%04X", c)
			} else {
				s.sb.WriteByte('\\')
				s.sb.WriteByte(c)
			}
		case c < 0x20:
			k := strings.IndexByte("\b\f\n\r\t", c)
			if k >= 0 && s.t.G(3) != 2 {
				s.sb.WriteByte('\\')
				s.sb.WriteByte("bfnrt"[k])
			} else {
				fmt.Fprintf(&s.sb, "\\u%04x", c)
			}
		case c == '/' && s.t.G(2) == 1:
			s.sb.WriteString("\\/")
		case s.esc == 3 && s.t.G(8) == 7:
			fmt.Fprintf(&s.sb, "\\u%04x", c)
		default:
			s.sb.WriteByte(c)
		}
	}
	s.sb.WriteByte('"')
}

func (s *spell) val(v *V) {
	switch v.K {
	case KFloat:
		if s.exp {
			bits := 64
			if v.F32 {
				bits = 32
			}
			f := []byte{'e', 'E', 'g', 'f'}[s.t.G(4)]
			n := strconv.FormatFloat(v.F, f, -1, bits)
			if i := strings.IndexAny(n, "eE"); s.t.G(8) == 7 && strings.Contains(n, ".") {
				// digits that say nothing
				zeros := strings.Repeat("0", []int{1, 3, 17, 40, 64, 128, 300, 520, 1100, 4100}[s.t.G(10)])
				switch {
				case i < 0:
					n += zeros
				case s.t.G(2) == 1:
					n = n[:i] + zeros + n[i:]
				case n[i+1] == '-' || n[i+1] == '+':
					n = n[:i+2] + zeros + n[i+2:]
				}
			}
			s.sb.WriteString(n)
			return
		}
		v.write(&s.sb)
	case KStr:
		s.str(v.S)
	case KArr:
		s.sb.WriteByte('[')
		s.space()
		for i, x := range v.A {
			if i > 0 {
				s.sb.WriteByte(',')
				s.space()
			}
			s.val(x)
			s.space()
		}
		s.sb.WriteByte(']')
	case KDict:
		s.sb.WriteByte('{')
		s.space()
		ord := make([]int, len(v.O))
		for i := range ord {
			ord[i] = i
		}
		if s.shuf {
			ord = perm(s.t, len(v.O))
		}
		for i, o := range ord {
			kv := v.O[o]
			if i > 0 {
				s.sb.WriteByte(',')
				s.space()
			}
			s.str(kv.K)
			s.space()
			s.sb.WriteByte(':')
			s.space()
			s.val(kv.V)
			s.space()
		}
		s.sb.WriteByte('}')
	default:
		v.write(&s.sb)
	}
}
