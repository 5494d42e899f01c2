package main

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C10: parameters of a query arrive in any order (those of one name in theirs).

func init() { register("C10", 200_000_000, runC10) }

type qparam struct{ key, val string }

type qgen struct {
	t      *Tape
	budget int
	params []qparam
	typed  bool // leaves of every kind, no repetitions: what a document can say
}

func (g *qgen) key(top bool) string {
	t := g.t
	k := genKey(t, &genOpt{oddKeys: t.G(3) == 2})
	if t.G(12) == 11 {
		k = []string{"1", "5", "10", "01", "00", "-1", "+1", "-0", "1e3", "12345678901234567890", "9223372036854775807", "0x1", "a0", "0a", "100", "1000", "65536", "1234567"}[t.G(18)]
	}
	k = strings.ReplaceAll(k, ".", "_")
	if k == jnid || (k == "0" && !top) {
		k = "n" + k
	}
	if k == "" && top {
		k = "e"
	}
	return k
}

func (g *qgen) value(path string, depth int) (v, want *V) {
	t := g.t
	g.budget--
	c := t.G(6)
	if g.budget <= 0 || depth > 6 {
		c = 0
	}
	if depth > 1 && depth < 7 && t.G(300) == 299 {
		// far inside
		n := []int{8, 9, 16, 17, 33, 65, 130}[t.G(7)]
		for i := 0; i < n; i++ {
			path += []string{".d", ".0"}[t.G(2)]
		}
		x, w := g.value(path, 7)
		l := strings.Split(path, ".")
		for i := len(l) - 1; i >= len(l)-n; i-- {
			if l[i] == "0" {
				x, w = vArr(x), vArr(w)
			} else {
				x, w = vDict(KV{"d", x}), vDict(KV{"d", w})
			}
		}
		return x, w
	}
	switch c {
	case 4:
		return g.dict(path, depth)
	case 5:
		v, want = &V{K: KArr}, &V{K: KArr}
		n := 1 + t.Size(14)
		if t.G(12) == 11 {
			n = 90 + t.G(50)
			if t.G(6) == 5 {
				n = 1000 + t.G(200)
			}
		}
		for i := 0; i < n; i++ {
			p := path + "." + strconv.Itoa(i)
			var x, w *V
			if n > 20 && t.G(10+n/20) < 9+n/20 {
				x = vStr(fmt.Sprintf("e%d", i))
				w = x
				g.params = append(g.params, qparam{p, x.S})
			} else {
				x, w = g.value(p, depth+1)
			}
			v.A, want.A = append(v.A, x), append(want.A, w)
		}
		return
	case 3:
		if g.typed {
			break
		}
		// the same parameter again and again
		v, want = &V{K: KArr}, &V{K: KArr}
		n := 2 + t.Size(20)
		if t.G(60) == 59 {
			n = []int{33, 64, 65, 100, 128, 129, 256, 257, 300, 1001}[t.G(10)]
		}
		for ; n > 0; n-- {
			s := "r" + strconv.Itoa(n)
			if n < 24 {
				s = genString(t)
			}
			if t.G(2) == 1 {
				s = strconv.Itoa(t.G(12))
			}
			g.params = append(g.params, qparam{path, s})
			want.A = append(want.A, vStr(s))
		}
		return v, want
	}
	x := vStr(genString(t))
	if x.S == "" {
		x.S = "v"
	}
	if g.typed {
		dg := docGen{t, &genOpt{noNull: true, noEmpty: true, f32: true}, 1}
		x = dg.scalar()
	}
	s := x.S
	if x.K != KStr {
		s = x.Text()
	}
	g.params = append(g.params, qparam{path, s})
	return x, vStr(s)
}

func (g *qgen) dict(path string, depth int) (v, want *V) {
	v, want = &V{K: KDict}, &V{K: KDict}
	if g.t.G(200) == 199 {
		// a form of very many fields
		for n := []int{16, 33, 65, 100, 129, 257, 520}[g.t.G(7)]; n > 0; n-- {
			k := "field_" + strconv.Itoa(n*7)
			p := k
			if depth > 0 {
				p = path + "." + k
			}
			x := vStr("f" + strconv.Itoa(n))
			g.params = append(g.params, qparam{p, x.S})
			v.Set(k, x)
			want.Set(k, x)
		}
	}
	for n := 1 + g.t.Size(8); n > 0; n-- {
		k := g.key(depth == 0)
		if want.Get(k) != nil {
			continue
		}
		p := k
		if depth > 0 {
			p = path + "." + k
		}
		x, w := g.value(p, depth+1)
		v.Set(k, x)
		want.Set(k, w)
	}
	return
}

// escape writes a part of a query in one of its many spellings.
func escapeQuery(t *Tape, s string, key bool) string {
	if t.G(3) == 0 {
		return url.QueryEscape(s)
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && t.G(2) == 0:
			sb.WriteByte('+')
		case c == '%' || c == '&' || c == '+' || c == ';' || c == ' ' || (c == '=' && key) || t.G(6) == 5:
			fmt.Fprintf(&sb, []string{"%%%02X", "%%%02x"}[t.G(2)], c)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

func spellQuery(t *Tape, ps []qparam) []string {
	var l []string
	for _, p := range ps {
		s := escapeQuery(t, p.key, true)
		if p.val != "" || s == "" || t.G(2) == 1 {
			s += "=" + escapeQuery(t, p.val, false)
		}
		l = append(l, s)
	}
	return l
}

// arrive puts parameters into an order of arrival in which those of one name keep theirs.
func arrive(r *Run, l []string, name func(i int) string) []string {
	t := r.T
	n := len(l)
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	switch t.F(4) {
	case 1: // the other way round
		for i := range p {
			p[i] = n - 1 - i
		}
	case 2: // a few move
		for k := 1 + t.F(3); k > 0 && n > 1; k-- {
			i, j := t.F(n), t.F(n)
			p[i], p[j] = p[j], p[i]
		}
	case 3:
		for i := n - 1; i > 0; i-- {
			j := i - t.F(i+1)
			p[i], p[j] = p[j], p[i]
		}
	}
	seen := map[string][]int{}
	for i := range l {
		seen[name(i)] = append(seen[name(i)], i)
	}
	out := make([]string, n)
	moved := false
	for i, x := range p {
		q := seen[name(x)]
		seen[name(x)] = q[1:]
		out[i] = l[q[0]]
		if q[0] != i {
			moved = true
		}
	}
	if moved {
		r.Fault("parameters_reordered")
	}
	return out
}

func joinQuery(t *Tape, l []string) string {
	if t.G(4) < 3 {
		return strings.Join(l, "&")
	}
	var sb strings.Builder
	for i, s := range l {
		if i > 0 {
			sb.WriteByte('&')
		}
		if t.G(8) == 7 {
			sb.WriteByte('&')
		}
		sb.WriteString(s)
	}
	return sb.String()
}

func parseQuery(s string) (res string) {
	p := call(func() {
		o, err := jsonutils.ParseQueryString(s)
		if err != nil {
			res = "error"
			return
		}
		res = Obs(o)
		if x := o.String(); len(x) < 2000 {
			res += "\n" + x
		}
	})
	if p != "" {
		return p
	}
	return
}

func runC10(r *Run) {
	t := r.T
	r.Nontrivial = true
	var params []string
	names := []string{}
	want, what := "", ""
	switch t.G(5) {
	case 0, 1:
		g := &qgen{t: t, budget: 40}
		_, w := g.dict("", 0)
		params = spellQuery(t, g.params)
		for _, p := range g.params {
			names = append(names, p.key)
		}
		want, what = w.Obs(), "query"
		if s := w.Text(); len(s) < 2000 {
			want += "\n" + s
		}
	case 2, 3:
		g := &qgen{t: t, budget: 40, typed: true}
		v, w := g.dict("", 0)
		q := ""
		if p := call(func() { q = v.Build().QueryString() }); p != "" {
			r.Fail("panic", "rendering %s as a query: %s", clip(v.Text(), 0), clip(p, 0))
			return
		}
		r.Log("document %s", v.Text())
		params = strings.Split(q, "&")
		for _, p := range params {
			k, _, _ := strings.Cut(p, "=")
			names = append(names, k)
		}
		want, what = w.Obs(), "rendered document"
		if s := w.Text(); len(s) < 2000 {
			want += "\n" + s
		}
	default:
		// parameters that may contradict one another: any result, but the same
		pool := []string{"a", "b", "a.b", "a.0", "a.1", "a.2", "a.10", "a.0.b", "a.0.0", "a.1.b", "a.b.c", "a.01", "a.-1", "0", "1", "a.", ".", "..", "", ".a", "a..b", "a.+1", "b.0", "b.1", "b.2", "b.9", "b.11", "12345678901234567890", "a.12345678901234567890", "a.b.0", "a.b.1"}
		m := 2 + t.G(len(pool)-2)
		off := t.G(len(pool))
		for n := 2 + t.Size(24); n > 0; n-- {
			k := pool[(off+t.G(m))%len(pool)]
			s := spellQuery(t, []qparam{{k, strconv.Itoa(t.G(30))}})
			params = append(params, s...)
			names = append(names, k)
		}
		what = "query"
	}
	first := strings.Join(params, "&")
	r.H(first)
	r.Log("%s %s", what, first)
	got := parseQuery(first)
	r.R(got)
	if want == "" {
		want = got
	}
	check := func(q string, got string) bool {
		if got != want {
			r.Fail("meaning", "%s %s\nof which the parts arrived as\n %s\nis read as\n %s\ninstead of\n %s", what, clip(first, 0), clip(q, 0), clip(got, 0), clip(want, 0))
			return false
		}
		return true
	}
	if !check(first, got) {
		return
	}
	var qs []string
	for k := 1 + t.G(4); k > 0; k-- {
		q := joinQuery(t, arrive(r, params, func(i int) string { return names[i] }))
		qs = append(qs, q)
		if !check(q, parseQuery(q)) {
			return
		}
	}
	if !simrt.RaceBuild && t.G(8) < 7 {
		return
	}
	outs := make([]string, len(qs))
	fns := make([]func(), len(qs))
	for i := range qs {
		i := i
		fns[i] = func() { outs[i] = parseQuery(qs[i]) }
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for i, s := range outs {
		if !check(qs[i], s) {
			return
		}
	}
}
