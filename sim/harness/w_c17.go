package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"simrt"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/errors"
)

// C17: requests travel from clients over gateways, which pass them on as JSON,
// as queries or as YAML and now and then change them, to servers whose handlers
// ask for their members.

func init() { register("C17", 400_000_000, runC17) }

// askKeys are member names handlers know.
var askKeys = []string{"tenant", "tenant_id", "project", "zone", "status", "limit", "offset", "ids"}

// requestDoc is a document requests are made of. What is not queryable has
// nulls, empty parts or names with dots in it.
func requestDoc(t *Tape, plain bool) *V {
	g := &qgen{t: t, budget: 24, typed: true}
	v := &V{K: KDict}
	for n := 1 + t.G(6); n > 0; n-- {
		k := askKeys[t.G(len(askKeys))]
		switch t.G(8) {
		case 7:
			k = g.key(true)
		case 6:
			k = strings.ToUpper(k[:1]) + k[1:]
		}
		x, _ := g.value(k, 1)
		v.Set(k, x)
	}
	if t.G(40) == 39 {
		// one of many members
		in := v
		for _, kv := range v.O {
			if kv.V.K == KDict && t.G(2) == 1 {
				in = kv.V
				break
			}
		}
		for n := []int{8, 16, 32, 64, 128, 300}[t.G(6)]; n >= 0; n-- {
			in.Set(fmt.Sprintf([]string{"Pad%d", "opt_%d", "x%d"}[n%3], n), vStr(strconv.Itoa(n)))
		}
	}
	return touch(t, v, plain, 0)
}

// touch makes leaves of a document say something, and with plain unset puts in
// what queries cannot say.
func touch(t *Tape, v *V, plain bool, depth int) *V {
	switch v.K {
	case KStr:
		if t.G(2) == 1 {
			v.S = driftText(t)
		}
		if v.S == "" && plain {
			v.S = "v"
		}
	case KArr:
		for i, x := range v.A {
			v.A[i] = touch(t, x, plain, depth+1)
		}
	case KDict:
		for i := range v.O {
			v.O[i].V = touch(t, v.O[i].V, plain, depth+1)
		}
	}
	if plain {
		return v
	}
	switch {
	case v.K == KDict && t.G(3) == 2:
		p := askKeys[t.G(len(askKeys))]
		n := t.G(4)
		if t.G(12) == 11 {
			n = []int{9, 10, 11, 17, 101}[t.G(5)]
		}
		for i := 0; i < n; i++ {
			if n > 8 {
				v.Set(fmt.Sprintf("%s.%d", p, i), vInt(int64(i)))
				continue
			}
			v.Set(fmt.Sprintf("%s.%d", p, i), driftDoc(t, 1))
		}
		if t.G(3) == 2 {
			v.Set(p, vDict(KV{"0", vStr(driftText(t))}, KV{"1", vInt(genInt(t))}, KV{"3", vStr("x")}))
			for i := 2; n > 8 && i < n; i++ {
				v.Get(p).Set(strconv.Itoa(i), vStr(strconv.Itoa(i)))
			}
		}
	case depth > 0 && t.G(10) == 9:
		return []*V{vNull(), vArr(), vDict(), vStr("")}[t.G(4)]
	}
	return v
}

// queryable tells whether a query can say what a document says.
func (v *V) queryable(depth int) bool {
	switch v.K {
	case KNull:
		return false
	case KStr:
		return v.S != ""
	case KArr:
		if depth == 0 || len(v.A) == 0 {
			return false
		}
		for _, x := range v.A {
			if !x.queryable(depth + 1) {
				return false
			}
		}
	case KDict:
		if len(v.O) == 0 {
			return false
		}
		for _, kv := range v.O {
			if kv.K == "" && depth == 0 || kv.K == "0" && depth > 0 || kv.K == jnid || strings.Contains(kv.K, ".") || !kv.V.queryable(depth+1) {
				return false
			}
		}
	default:
		return depth > 0
	}
	return true
}

// queried is what is left of a document after it has been a query.
func (v *V) queried() *V {
	switch v.K {
	case KArr:
		a := vArr()
		for _, x := range v.A {
			a.A = append(a.A, x.queried())
		}
		return a
	case KDict:
		d := vDict()
		for _, kv := range v.O {
			d.Set(kv.K, kv.V.queried())
		}
		return d
	case KStr:
		return v
	}
	return vStr(v.Text())
}

func yamlPlain(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if c < ' ' && c != '\n' && c != '\t' || c == 0x7f || c >= 0x80 && c < 0xa0 || c >= 0xd800 && c < 0xe000 || c == 0xfeff || c == 0x2028 || c == 0x2029 || c == utf8.RuneError || c >= 0xfff0 {
			return false
		}
	}
	return true
}

// yamlable: texts of printable characters, numbers as YAML has them.
func (v *V) yamlable() bool {
	switch v.K {
	case KStr:
		return yamlPlain(v.S)
	case KArr:
		for _, x := range v.A {
			if !x.yamlable() {
				return false
			}
		}
	case KDict:
		for _, kv := range v.O {
			if kv.K == "<<" || !yamlPlain(kv.K) || len(kv.K) > 100 || !kv.V.yamlable() {
				return false
			}
		}
	}
	return true
}

// yamlWriter writes YAML by hand.
type yamlWriter struct {
	t  *Tape
	sb strings.Builder
}

func (w *yamlWriter) str(s string, key bool) {
	plain := len(s) > 0 && len(s) < 30 && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz_") == ""
	switch s {
	case "true", "false", "yes", "no", "on", "off", "null", "y", "n":
		plain = false
	}
	single := yamlPlain(s) && !strings.ContainsAny(s, "\n\t")
	switch c := w.t.G(3); {
	case c < 2 && plain:
		w.sb.WriteString(s)
	case c == 1 && single:
		w.sb.WriteString("'" + strings.ReplaceAll(s, "'", "''") + "'")
	default:
		quoteModel(&w.sb, s)
	}
}

func (w *yamlWriter) scalar(v *V) {
	switch v.K {
	case KStr:
		w.str(v.S, false)
	case KNull:
		w.sb.WriteString([]string{"null", "~"}[w.t.G(2)])
	default:
		w.sb.WriteString(v.Text())
	}
}

func (w *yamlWriter) flow(v *V) {
	switch v.K {
	case KArr:
		w.sb.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				w.sb.WriteString(", ")
			}
			w.flow(x)
		}
		w.sb.WriteByte(']')
	case KDict:
		w.sb.WriteByte('{')
		for i, j := range perm(w.t, len(v.O)) {
			if i > 0 {
				w.sb.WriteString(", ")
			}
			w.str(v.O[j].K, true)
			w.sb.WriteString(": ")
			w.flow(v.O[j].V)
		}
		w.sb.WriteByte('}')
	default:
		w.scalar(v)
	}
}

// block writes a value that begins on a new line at an indent.
func (w *yamlWriter) block(v *V, in int) {
	pad := strings.Repeat(" ", in)
	child := func(x *V) {
		if (x.K == KDict && len(x.O) > 0 || x.K == KArr && len(x.A) > 0) && w.t.G(4) > 0 {
			w.sb.WriteByte('\n')
			w.block(x, in+1+w.t.G(3))
			return
		}
		w.sb.WriteByte(' ')
		w.flow(x)
		if w.t.G(8) == 7 {
			w.sb.WriteString(" # as it is")
		}
		w.sb.WriteByte('\n')
	}
	switch v.K {
	case KArr:
		for _, x := range v.A {
			w.sb.WriteString(pad + "-")
			child(x)
		}
	case KDict:
		for _, j := range perm(w.t, len(v.O)) {
			w.sb.WriteString(pad)
			w.str(v.O[j].K, true)
			w.sb.WriteByte(':')
			child(v.O[j].V)
		}
	}
}

// typed is JSON as people type it: bare words, either kind of quotes, yes and
// no, commas too many.
type typed struct {
	t  *Tape
	sb strings.Builder
}

func (w *typed) space() {
	w.sb.WriteString([]string{"", "", " ", "\n", "\t", "\r\n  "}[w.t.G(6)])
}

// bareWord tells whether a text can do without quotes.
func bareWord(s string, key bool) bool {
	if s == "" || len(s) > 60 || strings.ContainsAny(s, " \t\r\n:,{}[]\"'") {
		return false
	}
	if key {
		return true
	}
	if s[0] == '<' && s[len(s)-1] == '>' {
		return false // stands for another part of the document
	}
	switch strings.ToLower(s) {
	case "null", "none", "true", "yes", "false", "no":
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err != nil
}

func (w *typed) str(s string, key bool) {
	if w.t.G(3) > 0 && bareWord(s, key) {
		w.sb.WriteString(s)
		return
	}
	q := "\"'"[w.t.G(2)]
	w.sb.WriteByte(q)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c < ' ' && w.t.G(2) == 1 || w.t.G(12) == 11:
			fmt.Fprintf(&w.sb, []string{"\\x%02x", "\\x%02X"}[w.t.G(2)], c)
		case c == q || c == '\\':
			w.sb.WriteByte('\\')
			w.sb.WriteByte(c)
		case strings.IndexByte("\n\t\r", c) >= 0 && w.t.G(2) == 1:
			w.sb.WriteByte('\\')
			w.sb.WriteByte("ntr"[strings.IndexByte("\n\t\r", c)])
		default:
			w.sb.WriteByte(c)
		}
	}
	w.sb.WriteByte(q)
}

func (w *typed) val(v *V) {
	t := w.t
	one := func(l ...string) { w.sb.WriteString(l[t.G(len(l))]) }
	switch v.K {
	case KNull:
		one("null", "none", "None", "NULL", "Null")
	case KBool:
		if v.B {
			one("true", "yes", "True", "YES", "TRUE", "Yes")
		} else {
			one("false", "no", "False", "NO", "FALSE", "No")
		}
	case KStr:
		w.str(v.S, false)
	case KInt:
		if v.I >= 0 {
			one("", "", "+", "0")
		}
		w.sb.WriteString(v.Text())
	case KArr:
		w.sb.WriteByte('[')
		for i, x := range v.A {
			w.space()
			w.val(x)
			w.space()
			if i < len(v.A)-1 || t.G(4) == 3 {
				w.sb.WriteByte(',')
			}
		}
		w.space()
		w.sb.WriteByte(']')
	case KDict:
		w.sb.WriteByte('{')
		for i, j := range perm(t, len(v.O)) {
			w.space()
			w.str(v.O[j].K, true)
			w.space()
			w.sb.WriteByte(':')
			w.space()
			w.val(v.O[j].V)
			w.space()
			if i < len(v.O)-1 || t.G(4) == 3 {
				w.sb.WriteByte(',')
			}
		}
		w.space()
		w.sb.WriteByte('}')
	default:
		w.sb.WriteString(v.Text())
	}
}

// at follows a path; nothing if it leaves the document.
func (v *V) at(path []string, fold bool) (x *V, open bool) {
	for _, k := range path {
		if v.K != KDict {
			return nil, open
		}
		y := v.Get(k)
		if y == nil && fold {
			n := 0
			for _, kv := range v.O {
				if strings.EqualFold(kv.K, k) {
					y = kv.V
					n++
				}
			}
			if n > 1 {
				return nil, true // which of them is not decided here
			}
		}
		if y == nil {
			return nil, open
		}
		v = y
	}
	return v, open
}

const anyAnswer = "?"

// failure says which failure an error is.
func failure(err error) string {
	switch errors.Cause(err) {
	case jsonutils.ErrJsonDictKeyNotFound:
		return "error: not found"
	case jsonutils.ErrInvalidJsonDict:
		return "error: no dictionary"
	case jsonutils.ErrInvalidJsonArray:
		return "error: no list"
	case jsonutils.ErrInvalidJsonInt:
		return "error: no integer"
	case jsonutils.ErrInvalidJsonFloat:
		return "error: no number"
	case jsonutils.ErrInvalidJsonBoolean:
		return "error: no boolean"
	case jsonutils.ErrInvalidJsonString:
		return "error: no text"
	case jsonutils.ErrOutOfIndexRange:
		return "error: index"
	}
	return "error: another"
}

// agrees compares an answer with the one of the table; "error" there is any.
func agrees(got, want string) bool {
	return got == want || want == anyAnswer || want == "error" && strings.HasPrefix(got, "error")
}

// missing tells how looking up a path in a dictionary fails.
func (v *V) missing(path []string) string {
	if v.K != KDict || len(path) == 0 {
		return "error"
	}
	for _, k := range path {
		if v.K != KDict {
			return "error: no dictionary"
		}
		if v = v.Get(k); v == nil {
			return "error: not found"
		}
	}
	return "error"
}

func answer(s interface{}, err error) string {
	if err != nil {
		return failure(err)
	}
	return fmt.Sprintf("%T %v", s, s)
}

func (v *V) stringOf() string {
	if v.K == KStr {
		return v.S
	}
	return v.Text()
}

func wantTime(s string) string {
	if strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ ") == "" {
		return "error"
	}
	tm, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return anyAnswer
	}
	return fmt.Sprint("time ", tm.UnixNano())
}

// a question about a document and its answer
type question struct {
	name string
	ask  func(o jsonutils.JSONObject) string
	want string
}

func askPath(t *Tape, v *V) (p []string) {
	for {
		switch {
		case v != nil && v.K == KDict && len(v.O) > 0 && t.G(6) > 0:
			kv := v.O[t.G(len(v.O))]
			p = append(p, kv.K)
			v = kv.V
		case t.G(3) == 0:
			return append(p, askKeys[t.G(len(askKeys))])
		case len(p) == 0:
			return append(p, fmt.Sprint(t.G(3)))
		default:
			return p
		}
		if len(p) > 6 || v.K != KDict && t.G(6) < 5 || t.G(4) == 3 {
			return p
		}
	}
}

func scalarWant(v, x *V, path []string, kind int) string {
	if x == nil {
		return v.missing(path)
	}
	if v.K != KDict || len(path) == 0 {
		if s := scalarWant(vDict(KV{"k", x}), x, []string{"k"}, kind); !strings.HasPrefix(s, "error") {
			return s
		}
		return "error"
	}
	switch kind {
	case 0:
		switch x.K {
		case KInt:
			return answer(x.I, nil)
		case KStr:
			if i, err := strconv.ParseInt(x.S, 10, 64); err == nil {
				return answer(i, nil)
			}
			return "error: no integer"
		case KDict:
			return "error: no integer"
		}
	case 1:
		switch x.K {
		case KInt:
			return answer(float64(x.I), nil)
		case KFloat:
			return answer(x.F, nil)
		case KStr:
			if f, err := strconv.ParseFloat(x.S, 64); err == nil {
				return answer(f, nil)
			}
			return "error: no number"
		case KDict:
			return "error: no number"
		}
	case 2:
		switch x.K {
		case KBool:
			return answer(x.B, nil)
		case KStr:
			if b := boolWord(x.S); b >= 0 {
				return answer(b == 1, nil)
			}
			return "error: no boolean"
		case KDict:
			return "error: no boolean"
		}
	case 3:
		return answer(x.stringOf(), nil)
	case 4:
		if x.K == KStr {
			return wantTime(x.S)
		}
		return "error: no text"
	}
	return "error"
}

func strings2(l []string) string { return fmt.Sprintf("%d %q", len(l), l) }

func genQuestion(t *Tape, v *V) question {
	path := askPath(t, v)
	if t.G(10) == 9 {
		path = nil
	}
	if v.K != KDict && t.G(2) == 1 {
		path = nil
	}
	x, _ := v.at(path, false)
	if v.K != KDict && len(path) > 0 {
		x = nil
	}
	name := func(s string) string { return fmt.Sprintf("%s(%q)", s, path) }
	switch c := t.G(21); c {
	case 0, 1, 2, 3, 4:
		q := question{name: name([]string{"Int", "Float", "Bool", "GetString", "GetTime"}[c]), want: scalarWant(v, x, path, c)}
		q.ask = func(o jsonutils.JSONObject) string {
			switch c {
			case 0:
				return answer(o.Int(path...))
			case 1:
				return answer(o.Float(path...))
			case 2:
				return answer(o.Bool(path...))
			case 3:
				return answer(o.GetString(path...))
			}
			tm, err := o.GetTime(path...)
			if err != nil {
				return failure(err)
			}
			return fmt.Sprint("time ", tm.UnixNano())
		}
		return q
	case 5, 6:
		q := question{name: name("GetArray"), want: v.missing(path)}
		if x != nil {
			switch x.K {
			case KArr:
				q.want = "list " + x.Obs()
			case KDict:
				if len(path) > 0 {
					q.want = "error: no list"
				}
			case KNull:
			default:
				q.want = "list " + vArr(x).Obs()
			}
		}
		q.ask = func(o jsonutils.JSONObject) string {
			l, err := o.GetArray(path...)
			if err != nil {
				return failure(err)
			}
			return "list " + Obs(jsonutils.NewArray(l...))
		}
		return q
	case 7:
		q := question{name: name("GetMap"), want: v.missing(path)}
		if x != nil && x.K != KDict && v.K == KDict && len(path) > 0 {
			q.want = "error: no dictionary"
		}
		if x != nil && x.K == KDict {
			q.want = "map " + x.Obs()
		}
		q.ask = func(o jsonutils.JSONObject) string {
			m, err := o.GetMap(path...)
			if err != nil {
				return failure(err)
			}
			d := jsonutils.NewDict()
			for _, k := range mapKeys(reflect.ValueOf(m)) {
				d.Set(k.String(), m[k.String()])
			}
			return "map " + Obs(d)
		}
		return q
	case 8, 9:
		q := question{name: name("Get"), want: v.missing(path)}
		if x != nil && (v.K == KDict || len(path) > 0) {
			q.want = x.Obs()
		}
		q.ask = func(o jsonutils.JSONObject) string {
			m, err := o.Get(path...)
			if err != nil {
				return failure(err)
			}
			return Obs(m)
		}
		return q
	case 10, 11:
		p := append([]string{}, path...)
		for i, k := range p {
			switch t.G(3) {
			case 1:
				p[i] = strings.ToUpper(k)
			case 2:
				p[i] = strings.ToLower(k)
			}
		}
		x, open := v.at(p, true)
		q := question{name: fmt.Sprintf("GetIgnoreCases(%q)", p), want: "error"}
		if x != nil && (v.K == KDict) {
			q.want = x.Obs()
		}
		if open {
			q.want = anyAnswer
		}
		if c == 11 {
			q.name = fmt.Sprintf("ContainsIgnoreCases(%q)", p)
			if q.want != anyAnswer {
				q.want = fmt.Sprint(q.want != "error")
			}
			q.ask = func(o jsonutils.JSONObject) string { return fmt.Sprint(o.ContainsIgnoreCases(p...)) }
			return q
		}
		q.ask = func(o jsonutils.JSONObject) string {
			m, err := o.GetIgnoreCases(p...)
			if err != nil {
				return failure(err)
			}
			return Obs(m)
		}
		return q
	case 12:
		q := question{name: name("Contains"), want: fmt.Sprint(x != nil && v.K == KDict)}
		q.ask = func(o jsonutils.JSONObject) string { return fmt.Sprint(o.Contains(path...)) }
		return q
	case 13:
		i := t.G(12) - 5
		q := question{name: fmt.Sprintf("GetAt(%d,%q)", i, path), want: v.missing(path)}
		if x != nil && x.K != KArr && v.K == KDict && len(path) > 0 {
			q.want = "error: no list"
		}
		if x != nil && x.K == KArr {
			q.want = "error: index"
			j := i
			if j < 0 {
				j += len(x.A)
			}
			if j >= 0 && j < len(x.A) {
				q.want = x.A[j].Obs()
			}
		}
		q.ask = func(o jsonutils.JSONObject) string {
			m, err := o.GetAt(i, path...)
			if err != nil {
				return failure(err)
			}
			return Obs(m)
		}
		return q
	case 14:
		q := question{name: name("GetStringArray"), want: v.missing(path)}
		if x != nil {
			var l []string
			switch x.K {
			case KArr:
				for _, e := range x.A {
					l = append(l, e.stringOf())
				}
				q.want = strings2(l)
			case KDict, KNull:
			default:
				q.want = strings2([]string{x.stringOf()})
			}
		}
		q.ask = func(o jsonutils.JSONObject) string {
			l, err := jsonutils.GetStringArray(o, path...)
			if err != nil {
				return failure(err)
			}
			return strings2(l)
		}
		return q
	}
	// questions about one member
	key := askKeys[t.G(len(askKeys))]
	if v.K == KDict && len(v.O) > 0 && t.G(3) > 0 {
		key = v.O[t.G(len(v.O))].K
	}
	var m *V
	if v.K == KDict {
		m = v.Get(key)
	}
	switch c := t.G(6); c {
	case 0:
		q := question{name: fmt.Sprintf("GetQueryStringArray(%q)", key), want: strings2(nil)}
		if m != nil {
			var l []string
			switch m.K {
			case KStr:
				l = []string{m.S}
			case KArr:
				for _, e := range m.A {
					l = append(l, e.stringOf())
				}
			case KDict:
				for i := 0; ; i++ {
					e := m.Get(strconv.Itoa(i))
					if e == nil {
						break
					}
					l = append(l, e.stringOf())
				}
			}
			q.want = strings2(l)
		}
		q.ask = func(o jsonutils.JSONObject) string { return strings2(jsonutils.GetQueryStringArray(o, key)) }
		return q
	case 1:
		def := t.G(2) == 1
		q := question{name: fmt.Sprintf("QueryBoolean(%q,%v)", key, def), want: fmt.Sprint(def)}
		if m != nil {
			q.want = fmt.Sprint(boolWord(strings.TrimSpace(m.stringOf())) == 1)
		}
		q.ask = func(o jsonutils.JSONObject) string { return fmt.Sprint(jsonutils.QueryBoolean(o, key, def)) }
		return q
	case 2:
		fs := []string{key}
		for n := t.G(3); n > 0; n-- {
			fs = append(fs, askKeys[t.G(len(askKeys))])
		}
		q := question{name: fmt.Sprintf("CheckRequiredFields(%q)", fs), want: "<nil>"}
		if v.K != KDict {
			q.want = "error"
		} else {
			for _, f := range fs {
				if e := v.Get(f); e == nil {
					q.want = "missing " + f
					break
				} else if e.K == KNull {
					q.want = "nil " + f
					break
				}
			}
		}
		q.ask = func(o jsonutils.JSONObject) string {
			err := jsonutils.CheckRequiredFields(o, fs)
			if err == nil {
				return "<nil>"
			}
			for _, f := range fs {
				if strings.HasPrefix(err.Error(), f+": ") {
					switch errors.Cause(err) {
					case jsonutils.ErrMissingInputField:
						return "missing " + f
					case jsonutils.ErrNilInputField:
						return "nil " + f
					}
				}
			}
			return "error"
		}
		return q
	case 3, 4:
		ks := []string{key}
		for n := t.G(3); n > 0; n-- {
			ks = append(ks, askKeys[t.G(len(askKeys))])
		}
		for i, j := range perm(t, len(ks)) {
			ks[i], ks[j] = ks[j], ks[i]
		}
		want := [2]string{}
		if v.K == KDict {
			for _, k := range ks {
				if e := v.Get(k); e != nil && e.stringOf() != "" {
					want = [2]string{e.stringOf(), k}
					break
				}
			}
		}
		q := question{name: fmt.Sprintf("GetAnyString2(%q)", ks), want: fmt.Sprintf("%q", want)}
		q.ask = func(o jsonutils.JSONObject) string {
			s, k := jsonutils.GetAnyString2(o, ks)
			if s1 := jsonutils.GetAnyString(o, ks); s1 != s {
				return fmt.Sprintf("GetAnyString %q, GetAnyString2 %q", s1, s)
			}
			return fmt.Sprintf("%q", [2]string{s, k})
		}
		return q
	}
	q := question{name: fmt.Sprintf("GetArrayOfPrefix(%q)", key)}
	l := vArr()
	if v.K == KDict {
		for i := 0; ; i++ {
			e := v.Get(fmt.Sprintf("%s.%d", key, i))
			if e == nil || e.K == KNull {
				break
			}
			l.A = append(l.A, e)
		}
	}
	q.want = l.Obs()
	q.ask = func(o jsonutils.JSONObject) string {
		return Obs(jsonutils.NewArray(jsonutils.GetArrayOfPrefix(o, key)...))
	}
	return q
}

// nothingAsked asks the helpers about a request that carries no document.
func nothingAsked(k string, def bool) string {
	if l := jsonutils.GetQueryStringArray(nil, k); len(l) > 0 {
		return fmt.Sprintf("GetQueryStringArray(nil,%q) is %q", k, l)
	}
	if b := jsonutils.QueryBoolean(nil, k, def); b != def {
		return fmt.Sprintf("QueryBoolean(nil,%q,%v) is %v", k, def, b)
	}
	if s, sk := jsonutils.GetAnyString2(nil, []string{k}); s != "" || sk != "" {
		return fmt.Sprintf("GetAnyString2(nil,%q) is %q %q", k, s, sk)
	}
	if s := jsonutils.GetAnyString(nil, []string{k}); s != "" {
		return fmt.Sprintf("GetAnyString(nil,%q) is %q", k, s)
	}
	if l := jsonutils.GetArrayOfPrefix(nil, k); len(l) > 0 {
		return fmt.Sprintf("GetArrayOfPrefix(nil,%q) is %v", k, l)
	}
	return ""
}

// memberBuilt draws a member and a way a handler builds it.
func memberBuilt(t *Tape) (*V, func() jsonutils.JSONObject) {
	switch t.G(6) {
	case 5:
		l, x := []string{}, vArr()
		for n := t.G(4); n > 0; n-- {
			e := driftText(t)
			l = append(l, e)
			x.A = append(x.A, vStr(e))
		}
		return x, func() jsonutils.JSONObject { return jsonutils.NewStringArray(l) }
	case 4:
		tm := time.Unix(int64(t.Size(1<<32)), int64(t.G(1e9))).In(time.FixedZone("", (t.G(27)-12)*3600+t.G(2)*1800))
		return vStr(tm.UTC().Format(time.RFC3339)[:19] + "Z"), func() jsonutils.JSONObject { return jsonutils.NewTimeString(tm) }
	case 3:
		x := driftDoc(t, 1)
		if !strings.Contains(x.Text(), "null") { // maps leave nil members out
			return x, func() jsonutils.JSONObject { return jsonutils.Marshal(x.Go()) }
		}
		return x, x.Build
	}
	x := driftDoc(t, 1)
	return x, x.Build
}

type request struct {
	form string // json, typed, query, yaml
	text string
	v    *V
	hops int
	way  string
}

func runC17(r *Run) {
	t := r.T
	r.Nontrivial = true
	// types handlers decode requests into
	var recs []*dver
	for n := 1 + t.G(2); n > 0; n-- {
		v := &dver{id: len(recs), types: map[int]reflect.Type{}}
		var fs []reflect.StructField
		for _, i := range perm(t, len(goNames)) {
			name := snake(goNames[i])
			for _, k := range askKeys {
				if k == name && t.G(3) > 0 {
					v.types[i] = driftType(t)
					fs = append(fs, reflect.StructField{Name: goNames[i], Type: v.types[i]})
				}
			}
		}
		v.typ = reflect.StructOf(fs)
		recs = append(recs, v)
	}
	render := func(v *V, o jsonutils.JSONObject, hops int, way string) (q request, ok bool) {
		forms := []string{"json", "json"}
		if v.queryable(0) {
			forms = append(forms, "query", "query")
		}
		if v.yamlable() {
			forms = append(forms, "yaml")
		}
		q = request{form: forms[t.G(len(forms))], hops: hops}
		q.way = way + " " + q.form
		p := ""
		switch q.form {
		case "json":
			q.v = jread(v.Text()).docOf()
			if k := t.G(4); k == 3 && (v.K == KDict || v.K == KArr) {
				w := &typed{t: t}
				w.val(q.v)
				q.text, q.form = w.sb.String(), "typed"
				q.way = way + " JSON typed by hand"
				return q, true
			} else if k > 1 {
				s := &spell{t: t, ws: t.G(3), esc: t.G(4), shuf: t.G(2) == 1}
				s.val(v)
				q.text = s.sb.String()
				return q, true
			}
			pretty := t.G(3) == 2
			p = call(func() {
				if pretty {
					q.text = o.PrettyString()
				} else {
					q.text = o.String()
				}
			})
		case "query":
			q.v = v.queried()
			p = call(func() { q.text = o.QueryString() })
			l := strings.Split(q.text, "&")
			names := make([]string, len(l))
			for i, s := range l {
				names[i], _, _ = strings.Cut(s, "=")
			}
			q.text = joinQuery(t, arrive(r, l, func(i int) string { return names[i] }))
		case "yaml":
			q.v = jread(v.Text()).docOf()
			if t.G(3) == 2 && v.K == KDict && len(v.O) > 0 {
				w := &yamlWriter{t: t}
				w.block(q.v, 0)
				q.text = w.sb.String()
				return q, true
			}
			p = call(func() { q.text = o.YAMLString() })
		}
		if p != "" {
			r.Fail("panic", "rendering %s as %s: %s", clip(v.Text(), 0), q.form, clip(p, 0))
			return q, false
		}
		return q, true
	}
	client := func() (request, bool) {
		if t.G(4) == 3 {
			// a query written by hand
			g := &qgen{t: t, budget: 20}
			_, w := g.dict("", 0)
			for k := t.G(3); k > 0; k-- {
				key := askKeys[t.G(len(askKeys))]
				if w.Get(key) == nil {
					_, x := g.value(key, 1)
					w.Set(key, x)
				}
			}
			l := spellQuery(t, g.params)
			return request{form: "query", text: joinQuery(t, arrive(r, l, func(i int) string { return g.params[i].key })), v: w, way: "query by hand"}, true
		}
		v := requestDoc(t, t.G(2) == 1)
		return render(v, v.BuildShuffled(t), 0, "client")
	}
	parse := func(q request) (o jsonutils.JSONObject, bad string) {
		var err error
		if p := call(func() {
			switch q.form {
			case "json", "typed":
				if o, err = jsonutils.ParseString(q.text); err == nil && t.F(4) == 3 {
					o, _, err = jsonutils.ParseStream([]byte(q.text), 0)
				}
			case "query":
				o, err = jsonutils.ParseQueryString(q.text)
			case "yaml":
				o, err = jsonutils.ParseYAML(q.text)
			}
		}); p != "" {
			return nil, p
		}
		if err != nil {
			return nil, err.Error()
		}
		return o, ""
	}
	// deep picks a place in a document to ask from
	deep := func(o jsonutils.JSONObject, v *V) (jsonutils.JSONObject, *V) {
		for v.K == KDict && len(v.O) > 0 && t.G(4) == 3 {
			kv := v.O[t.G(len(v.O))]
			m, err := o.Get(kv.K)
			if err != nil {
				break
			}
			o, v = m, kv.V
		}
		return o, v
	}
	type handler struct {
		o    jsonutils.JSONObject
		qs   []question
		rec  *dver
		into []string
		want dstate
		st   int
	}
	prepare := func(o jsonutils.JSONObject, v *V) *handler {
		h := &handler{}
		h.o, v = deep(o, v)
		for n := 2 + t.G(6); n > 0; n-- {
			h.qs = append(h.qs, genQuestion(t, v))
		}
		if t.G(8) == 7 {
			k, def := askKeys[t.G(len(askKeys))], t.G(2) == 1
			h.qs = append(h.qs, question{name: "a request without a document", ask: func(jsonutils.JSONObject) string { return nothingAsked(k, def) }})
		}
		if v.K == KDict && t.G(2) == 1 {
			h.rec = recs[t.G(len(recs))]
			x := v
			for _, kv := range v.O {
				if kv.V.K == KDict && t.G(3) == 2 {
					h.into, x = []string{kv.K}, kv.V
					break
				}
			}
			for _, kv := range x.O {
				for _, k := range askKeys {
					if kv.K != k && strings.EqualFold(kv.K, k) {
						h.rec = nil // near-miss names
					}
				}
				if strings.ContainsAny(kv.K, "-_ ABCDEFGHIJKLMNOPQRSTUVWXYZ") && x.K == KDict && strings.Contains(strings.ToLower(kv.K), "tenant") && kv.K != "tenant_id" {
					h.rec = nil
				}
			}
			if h.rec != nil {
				h.want, h.st = h.rec.reading(x, nil)
			}
		}
		return h
	}
	handle := func(h *handler) (bad string) {
		for _, q := range h.qs {
			got := q.ask(h.o)
			if !agrees(got, q.want) {
				return fmt.Sprintf("%s answers %s instead of %s", q.name, clip(got, 0), clip(q.want, 0))
			}
		}
		if h.rec == nil {
			return ""
		}
		p := reflect.New(h.rec.typ)
		err := h.o.Unmarshal(p.Interface(), h.into...)
		if h.st == convErr && err == nil || h.st == convOK && err != nil {
			return fmt.Sprintf("Unmarshal(%q) into %s gets error %v", h.into, h.rec.typ, err)
		}
		if b := h.rec.check(p.Elem(), h.want); b != "" {
			return fmt.Sprintf("Unmarshal(%q) into %s: %s (error %v)", h.into, h.rec.typ, b, err)
		}
		return ""
	}
	sim := newSim(r, []int{0, 4, 20}[t.F(3)])
	var post func(q request)
	arrived := func(q request) {
		o, bad := parse(q)
		if bad == "" {
			if got, want := Obs(o), q.v.Obs(); got != want {
				bad = fmt.Sprintf("is read as %s instead of %s", clip(got, 0), clip(want, 0))
			}
		}
		if bad != "" {
			r.Fail("meaning", "a request that came as %s\n%s\n%s", q.way, clip(q.text, 0), clip(bad, 0))
			return
		}
		r.R(q.text)
		r.Count("requests_as_" + q.form)
		before := q.v.Obs()
		nh := 1
		if simrt.RaceBuild || t.G(4) == 3 {
			nh = 2 + t.G(2)
		}
		hs := make([]*handler, nh)
		for i := range hs {
			hs[i] = prepare(o, q.v)
		}
		outs := make([]string, nh)
		if nh == 1 {
			if p := call(func() { outs[0] = handle(hs[0]) }); p != "" {
				outs[0] = p
			}
		} else {
			fns := make([]func(), nh)
			for i := range fns {
				i := i
				fns[i] = func() { outs[i] = handle(hs[i]) }
			}
			r.Count("handlers_at_once")
			if ps := simrt.RunTasks(fns...); len(ps) > 0 {
				r.Fail("panic", "%v", ps[0])
				return
			}
			if simrt.Hung() {
				return
			}
		}
		for _, s := range outs {
			if s != "" {
				r.Fail("answer", "a request that came as %s\n%s\nmeans %s\n%s", q.way, clip(q.text, 0), clip(q.v.Text(), 0), s)
				return
			}
		}
		if got := Obs(o); got != before {
			r.Fail("changed", "asking changed %s to %s", clip(before, 0), clip(got, 0))
			return
		}
		if q.hops >= 4 {
			return
		}
		// a gateway passes it on, now and then changed
		v := q.v
		d, ok := o.(*jsonutils.JSONDict)
		if ok && t.G(3) == 2 {
			v = v.Clone()
			k := askKeys[t.G(len(askKeys))]
			if v.Get(k) != nil && t.G(2) == 1 {
				v.Del(k)
				if p := call(func() { d.Remove(k) }); p != "" {
					r.Fail("panic", "%s", clip(p, 0))
					return
				}
			} else {
				x, build := memberBuilt(t)
				v.Set(k, x)
				if p := call(func() { d.Set(k, build()) }); p != "" {
					r.Fail("panic", "%s", clip(p, 0))
					return
				}
			}
			q.way += " changed"
		}
		if n, ok := render(v, o, q.hops+1, q.way); ok {
			post(n)
		}
	}
	post = func(q request) {
		if sim.fault("message_lost", 1, 12) {
			sim.after(50*ms, func() { post(q) })
			return
		}
		if q.form == "json" && sim.fault("members_reordered", 1, 3) {
			var sb strings.Builder
			if p := call(func() { jread(q.text).respell(t, &sb) }); p == "" {
				q.text = sb.String()
			}
		}
		if sim.fault("message_duplicated", 1, 8) {
			sim.after(int64(1+t.F(60))*ms, func() { arrived(q) })
		}
		sim.after(int64(1+t.F(60))*ms, func() { arrived(q) })
	}
	for k := 1 + t.G(2); k > 0; k-- {
		q, ok := client()
		if !ok {
			return
		}
		r.Log("client sends %s %s", q.form, clip(q.text, 0))
		r.H(q.text)
		post(q)
	}
	if !sim.run(300) {
		r.Count("unfinished")
	}
}
