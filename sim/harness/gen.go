package main

import (
	"fmt"
	"math"
	"strings"
)

var plainKeys = []string{"a", "b", "c", "id", "name", "Name", "NAME", "aB", "Ab", "ab", "key1", "key2", "key10", "status", "x", "y", "z", "value", "items", "created_at", "k", "K"}

var oddKeys = []string{"", " ", "a.b", "a.0", "0", "1", "10", "01", "-1", "\"", "\\", "'", "a\nb", "\x00", "\x7f", "é", "中文", "名", "\xff\xfe", "😀", "a b", "{", "}", "[", "]", ",", ":", "a:b", "true", "null", "<1>", "&=", "a%20", "__jnid", "_", "a\"b\\c", "İ", "ſ", "K"}

var oddStrings = []string{"", "true", "false", "yes", "no", "on", "off", "Yes", "1", "0", "null", "none", "-1", "12345678901234567890", "9223372036854775807", "-9223372036854775808", "3.14", "1e5", "NaN", "Inf", "-inf", "0x10", "010", "1_000",
	"1,234,567.89", "1.234.567,89", "1,234", "$12", "12%",
	"2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123456Z", "2020-01-02 03:04:05", "2020-01-02T03:04Z", "2019-09-17T20:50:17.66667134+08:00", "20200102030405", "2020-01-02", "Mon, 02 Jan 2006 15:04:05 MST", "Mon Jan _2 15:04:05 MST 2006", "02 Jan 06 15:04 MST", "Mon Jan  2 15:04:05 UTC 2006",
	"<1>", "<12>", "<>", "___jnid_", "{\"a\":1}", "[1,2]", "{", "}", "[", "]", "\"", "'", "\\", "\\u0041", "a\\", "\n", "\r\n", "\t", "\b\f", "\x00", "\x01\x1f", "\x7f", "\xff", "\xc3\x28", "\xe4\xb8", "é", "中文字符", "😀", "\u2028\u2029", "<script>&amp;", "a=b&c=d", "a+b%20c", "#/?", "..", "a.b.c"}

func genString(t *Tape) string {
	switch t.G(8) {
	case 0:
		return []string{"", "a", "b", "ab", "hello", "v1", "xyz", "The quick brown fox"}[t.G(8)]
	case 1, 2:
		return oddStrings[t.G(len(oddStrings))]
	case 3: // random bytes
		n := t.Size(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.G(256))
		}
		return string(b)
	case 4: // random runes
		n := t.Size(20)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune([]rune{'a', 'é', '中', '😀', '"', '\\', '\n', 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xe000, 0xd7ff}[t.G(14)])
		}
		return sb.String()
	case 5: // long
		n := []int{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000}[t.G(23)]
		if t.G(60) == 59 { // beyond the sizes of buffers
			n = []int{8191, 8192, 8193, 10000, 16383, 16384, 16385, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 70000}[t.G(15)]
		}
		unit := []string{"x", "ab", "\"", "\\", "\n", "é", "0123456789", "a b ", "\x01", "😀"}[t.G(10)]
		s := strings.Repeat(unit, n/len(unit)+1)
		return s[:n]
	case 6:
		return fmt.Sprintf("s%d", t.G(1000))
	default:
		return oddStrings[t.G(len(oddStrings))] + oddStrings[t.G(len(oddStrings))]
	}
}

func genInt(t *Tape) int64 {
	switch t.G(6) {
	case 0, 1:
		return int64(t.G(20)) - 5
	case 2:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt16, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 255, 256, 65535, 65536, 1 << 31, 1 << 32, 999999999999999999, -1, math.MinInt64 + 1, 127, 128, -128, -129}[t.G(21)]
	case 3:
		return int64(t.Bits()) >> uint(t.G(64))
	default:
		return int64(t.G(1000000))
	}
}

func genFloat(t *Tape) float64 {
	switch t.G(6) {
	case 0, 1:
		return float64(t.G(2000)-1000) / []float64{1, 2, 4, 8, 10, 100, 3, 7}[t.G(8)]
	case 2:
		return []float64{0, math.Copysign(0, -1), 0.1, 1e21, 1e-7, 1e300, -1e300, 5e-324, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 1.0 / 3, 1e15, 1e16, 123456789012345678, 9.007199254740993e15, 1.7976931348623157e308, 0.30000000000000004, 9223372036854775807, -9223372036854775808, 18446744073709551615, 2.5, 1e6, 1e20}[t.G(24)]
	case 3:
		for {
			f := math.Float64frombits(t.Bits())
			if f == f && !math.IsInf(f, 0) {
				return f
			}
			if t.replay {
				return 1.5
			}
		}
	case 4:
		return float64(genInt(t))
	default:
		return float64(t.G(1000)) + 0.5
	}
}

func genFloat32(t *Tape) float64 {
	f := float32(genFloat(t))
	if f != f || math.IsInf(float64(f), 0) {
		f = 1.25
	}
	return float64(f)
}

type genOpt struct {
	oddKeys  bool // allow any member name
	ident    bool // identifier names only
	noNull   bool
	noEmpty  bool // no empty containers or strings
	maxNodes int
	maxDepth int
	noFloat  bool
	strGen   func(t *Tape) string
	keyGen   func(t *Tape) string
	arrKinds bool // homogeneous array elements
	f32      bool
	huge     bool // now and then thousands of members, a thousand levels
}

func genKey(t *Tape, o *genOpt) string {
	if o.keyGen != nil {
		return o.keyGen(t)
	}
	if o.oddKeys && !o.ident {
		switch t.G(8) {
		case 5:
			return oddKeys[t.G(len(oddKeys))]
		case 6:
			return oddStrings[t.G(len(oddStrings))]
		case 7:
			return genString(t)
		}
	}
	if t.G(3) == 2 {
		return fmt.Sprintf("%s%d", plainKeys[t.G(len(plainKeys))], t.G(200))
	}
	return plainKeys[t.G(len(plainKeys))]
}

const jnid = "___jnid_"

type docGen struct {
	t      *Tape
	o      *genOpt
	budget int
}

func (g *docGen) scalar() *V {
	t := g.t
	for {
		switch t.G(9) {
		case 0:
			return vInt(genInt(t))
		case 1, 2, 3:
			if g.o.strGen != nil {
				return vStr(g.o.strGen(t))
			}
			s := genString(t)
			if t.G(6) == 5 { // text that converts
				s = []string{"2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123456Z", "2020-01-02 03:04:05", "Mon, 02 Jan 2006 15:04:05 MST", "17", "-3", "2.5", "1e3", "1,234,567.89", "true", "off", "yes", "0"}[t.G(13)]
				if n := len(s); t.G(3) == 2 {
					// a part of it
					i := t.G(n)
					s = s[i : i+t.G(n-i+1)]
				}
			}
			if g.o.noEmpty && s == "" {
				s = "e"
			}
			return vStr(s)
		case 4:
			return vBool(t.G(2) == 1)
		case 5:
			if g.o.noFloat {
				return vInt(genInt(t))
			}
			f := genFloat(t)
			return vFloat(f)
		case 6:
			if g.o.noNull {
				return vInt(0)
			}
			return vNull()
		case 7:
			if g.o.noFloat || !g.o.f32 {
				return vInt(genInt(t))
			}
			return &V{K: KFloat, F: genFloat32(t), F32: true}
		default:
			return vInt(int64(t.G(100)))
		}
	}
}

func (g *docGen) value(depth int) *V {
	if g.budget <= 0 || depth >= g.o.maxDepth {
		g.budget--
		return g.scalar()
	}
	switch g.t.G(5) {
	case 0, 1, 2:
		g.budget--
		return g.scalar()
	case 3:
		return g.dict(depth, g.t.Size(min(g.budget, 12)))
	default:
		return g.arr(depth, g.t.Size(min(g.budget, 12)))
	}
}

func (g *docGen) dict(depth, n int) *V {
	if g.o.noEmpty && n == 0 {
		n = 1
	}
	d := &V{K: KDict}
	g.budget--
	for i := 0; i < n; i++ {
		k := genKey(g.t, g.o)
		if k == jnid {
			k = "jnid"
		}
		if d.Get(k) != nil && g.t.G(2) == 0 {
			k = fmt.Sprintf("%s_%d", k, i)
		}
		d.Set(k, g.value(depth+1))
	}
	return d
}

func (g *docGen) arr(depth, n int) *V {
	if g.o.noEmpty && n == 0 {
		n = 1
	}
	a := &V{K: KArr}
	g.budget--
	for i := 0; i < n; i++ {
		a.A = append(a.A, g.value(depth+1))
	}
	return a
}

// genDoc draws a document. kind: -1 any, KDict or KArr forces the top kind.
func genDoc(t *Tape, o genOpt, kind int) *V {
	if o.maxDepth == 0 {
		o.maxDepth = 7
	}
	if o.maxNodes == 0 {
		o.maxNodes = 60
	}
	g := &docGen{t: t, o: &o, budget: 1 + t.Size(o.maxNodes)}
	shape := t.G(20)
	top := func() *V {
		switch {
		case kind == int(KDict):
			return g.dict(0, t.Size(min(g.budget, 20)))
		case kind == int(KArr):
			return g.arr(0, t.Size(min(g.budget, 20)))
		case t.G(8) == 7:
			return g.scalar()
		case t.G(3) == 2:
			return g.arr(0, t.Size(min(g.budget, 20)))
		default:
			return g.dict(0, t.Size(min(g.budget, 20)))
		}
	}
	rare := func(huge, small int) bool { // sizes few workloads can afford
		switch {
		case o.huge:
			return t.G(huge) == huge-1
		case o.maxNodes >= 14:
			return t.G(small) == small-1
		}
		return false
	}
	switch shape {
	case 19: // wide: one container with many small members
		n := []int{9, 10, 11, 12, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 200, 256, 300, 513}[t.G(18)]
		if rare(12, 48) {
			n = []int{600, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 4097}[t.G(14)]
		}
		var w *V
		if (kind == int(KArr) || t.G(2) == 1) && kind != int(KDict) {
			w = &V{K: KArr}
			for i := 0; i < n; i++ {
				w.A = append(w.A, g.scalar())
			}
		} else {
			w = &V{K: KDict}
			for i := 0; i < n; i++ {
				w.Set(fmt.Sprintf("m%d", i*7%n), g.scalar())
			}
			for i := 0; i < 3; i++ {
				k := genKey(t, &o)
				if k != jnid {
					w.Set(k, g.scalar())
				}
			}
		}
		return w
	case 18: // deep
		n := []int{10, 17, 33, 50, 65, 101, 130, 200}[t.G(8)]
		if o.huge && rare(12, 48) {
			n = []int{201, 256, 257, 300, 500, 513, 1000, 1001, 1025}[t.G(9)]
		}
		v := g.scalar()
		for i := 0; i < n; i++ {
			asArr := t.G(2) == 1
			if i == n-1 && kind == int(KDict) {
				asArr = false
			}
			if i == n-1 && kind == int(KArr) {
				asArr = true
			}
			if asArr {
				v = vArr(v)
				if t.G(3) == 2 {
					v.A = append(v.A, g.scalar())
				}
			} else {
				k := genKey(t, &o)
				if k == jnid {
					k = "j"
				}
				d := vDict(KV{k, v})
				if t.G(3) == 2 {
					k = genKey(t, &o)
					if k != jnid && d.Get(k) == nil {
						d.Set(k, g.scalar())
					}
				}
				v = d
			}
		}
		return v
	default:
		return top()
	}
}
