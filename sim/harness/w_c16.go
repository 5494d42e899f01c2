package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"simrt"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// C16: nodes of different versions, which are upgraded and rolled back, pass
// on and store records whose fields have other types in other versions.

func init() { register("C16", 400_000_000, runC16) }

const (
	convOK = iota
	convErr
	convAny // not decided here
)

type amountForm struct{ text, plain string }

// amounts of money in the US and the European form
var amountForms = []amountForm{{"1,234", "1234"}, {"12,345,678", "12345678"}, {"1,234.50", "1234.50"}, {"-1,234.5", "-1234.5"}, {"1.234.567", "1234567"}, {"1.234,50", "1234.50"}, {"0,5", "0.5"}, {"-12.345.678,9", "-12345678.9"}, {"+1,000", "+1000"}, {"12,50", "12.50"}}

func plainNumber(s string) string {
	for _, a := range amountForms {
		if a.text == s {
			return a.plain
		}
	}
	return s
}

// oddAmount tells texts whose reading as an amount is not decided here.
func oddAmount(s string) bool {
	for _, a := range amountForms {
		if a.text == s {
			return false
		}
	}
	return strings.Contains(s, ",") || strings.Count(s, ".") > 1
}

func boolWord(s string) int {
	switch strings.ToLower(s) {
	case "true", "yes", "on", "1":
		return 1
	case "false", "no", "off", "0":
		return 0
	}
	return -1
}

func isDoc(t reflect.Type) bool {
	switch t {
	case tDictP, tArrP, tStrP, tIntP, tBoolP, tFloatP, tDictP.Elem(), tArrP.Elem(), tStrP.Elem(), tIntP.Elem(), tBoolP.Elem(), tFloatP.Elem():
		return true
	}
	return false
}

// convDoc makes the document type t, a value or a pointer, hold o.
func convDoc(t reflect.Type, o jsonutils.JSONObject) (reflect.Value, int) {
	x := reflect.ValueOf(o)
	if t.Kind() != reflect.Ptr {
		x = x.Elem()
	}
	if x.Type() != t {
		return reflect.Value{}, convErr
	}
	return x, convOK
}

// conv is the table of what a value becomes in a field of some type. prev is
// what the field held; it counts only where the value says nothing.
func conv(v *V, t reflect.Type, prev reflect.Value) (reflect.Value, int) {
	none := reflect.Value{}
	out := reflect.New(t).Elem()
	if v.K == KNull {
		return out, convOK
	}
	base := t
	if t.Kind() == reflect.Ptr {
		base = t.Elem()
	}
	switch {
	case t == tObj:
		out.Set(reflect.ValueOf(v.Build()))
		return out, convOK
	case t == tTime:
		if v.K != KStr {
			return none, convErr
		}
		if v.S == "" {
			return out, convOK
		}
		tm, err := time.Parse(time.RFC3339Nano, v.S)
		if err != nil {
			return none, convAny
		}
		out.Set(reflect.ValueOf(tm))
		return out, convOK
	case t == tTri:
		b := false
		switch v.K {
		case KInt:
			b = v.I != 0
		case KBool:
			b = v.B
		case KFloat:
			if v.F != 0 && math.Abs(v.F) < 1 {
				return none, convAny
			}
			b = v.F != 0
		case KStr:
			w := boolWord(v.S)
			if w < 0 {
				return out, convOK // none of them
			}
			b = w == 1
		default:
			return none, convErr
		}
		out.Set(reflect.ValueOf(tristate.NewFromBool(b)))
		return out, convOK
	case isDoc(t):
		switch v.K {
		case KInt:
			if base == tStrP.Elem() {
				return convDoc(t, jsonutils.NewString(strconv.FormatInt(v.I, 10)))
			}
		case KBool:
			if base == tStrP.Elem() {
				return convDoc(t, jsonutils.NewString(strconv.FormatBool(v.B)))
			}
		case KFloat:
			switch base {
			case tStrP.Elem():
				return convDoc(t, jsonutils.NewString(v.stringOf()))
			case tIntP.Elem():
				if v.F < -(1<<63) || v.F >= 1<<63 {
					return none, convErr
				}
				return convDoc(t, jsonutils.NewInt(int64(v.F)))
			case tBoolP.Elem():
				return none, convAny
			}
		case KStr:
			if base == tBoolP.Elem() {
				if boolWord(strings.TrimSpace(v.S)) >= 0 && boolWord(v.S) < 0 {
					return none, convAny
				}
				return convDoc(t, jsonutils.NewBool(boolWord(v.S) == 1))
			}
		}
		return convDoc(t, v.Build())
	}
	switch t.Kind() {
	case reflect.Ptr:
		k := base.Kind()
		switch v.K {
		case KArr:
			if k != reflect.Array && k != reflect.Slice && k != reflect.Ptr {
				return none, convIf(k == reflect.String || base == tAny || base == tObj)
			}
		case KDict:
			if k != reflect.Struct && k != reflect.Map && k != reflect.Ptr {
				return none, convIf(k == reflect.String || base == tAny || base == tObj)
			}
		}
		if base == tTime && v.K == KStr && v.S == "" {
			return none, convAny
		}
		if prev.IsValid() && !prev.IsNil() {
			prev = prev.Elem()
		} else {
			prev = reflect.Value{}
		}
		x, st := conv(v, base, prev)
		if st != convOK {
			return none, st
		}
		out.Set(reflect.New(base))
		out.Elem().Set(x)
		return out, convOK
	case reflect.Interface:
		if t != tAny {
			return none, convAny
		}
		switch v.K {
		case KInt:
			out.Set(reflect.ValueOf(v.I))
		case KBool:
			out.Set(reflect.ValueOf(v.B))
		case KFloat:
			out.Set(reflect.ValueOf(v.F))
		case KStr:
			out.Set(reflect.ValueOf(v.S))
		case KArr:
			l := make([]jsonutils.JSONObject, len(v.A))
			for i, x := range v.A {
				l[i] = x.Build()
			}
			out.Set(reflect.ValueOf(l))
		default:
			return none, convErr
		}
		return out, convOK
	case reflect.String:
		switch v.K {
		case KInt:
			out.SetString(strconv.FormatInt(v.I, 10))
		case KBool:
			out.SetString(strconv.FormatBool(v.B))
		case KFloat:
			out.SetString(v.stringOf())
		case KStr:
			out.SetString(v.S)
		default:
			out.SetString(v.Text())
		}
		return out, convOK
	case reflect.Bool:
		switch v.K {
		case KInt:
			out.SetBool(v.I != 0)
		case KBool:
			out.SetBool(v.B)
		case KFloat:
			out.SetBool(v.F != 0)
		case KStr:
			s := strings.TrimSpace(v.S)
			out.SetBool(boolWord(s) == 1)
		default:
			return none, convErr
		}
		return out, convOK
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := int64(0)
		switch v.K {
		case KInt:
			i = v.I
		case KBool:
			if v.B {
				i = 1
			}
		case KFloat:
			if v.F < -(1<<63) || v.F >= 1<<63 {
				return none, convErr
			}
			i = int64(v.F)
		case KStr:
			if v.S == "" {
				return orPrev(out, prev), convOK
			}
			if oddAmount(v.S) {
				return none, convAny
			}
			var err error
			if i, err = strconv.ParseInt(plainNumber(v.S), 10, 64); err != nil {
				return none, convErr
			}
		default:
			return none, convErr
		}
		if out.OverflowInt(i) {
			return none, convErr
		}
		out.SetInt(i)
		return out, convOK
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i := uint64(0)
		switch v.K {
		case KInt:
			if v.I < 0 && t.Bits() == 64 {
				return none, convAny // how unsigned integers over the range of int64 are written
			}
			i = uint64(v.I)
		case KBool:
			if v.B {
				i = 1
			}
		case KFloat:
			if v.F <= -1 || v.F >= 1<<64 {
				return none, convErr
			}
			if v.F > 0 {
				i = uint64(v.F)
			}
		case KStr:
			if v.S == "" {
				return orPrev(out, prev), convOK
			}
			if oddAmount(v.S) {
				return none, convAny
			}
			var err error
			if i, err = strconv.ParseUint(plainNumber(v.S), 10, 64); err != nil {
				if strings.HasPrefix(v.S, "+") {
					return none, convAny
				}
				return none, convErr
			}
		default:
			return none, convErr
		}
		if out.OverflowUint(i) {
			return none, convErr
		}
		out.SetUint(i)
		return out, convOK
	case reflect.Float32, reflect.Float64:
		f := 0.0
		switch v.K {
		case KInt:
			f = float64(v.I)
		case KBool:
			if v.B {
				f = 1
			}
		case KFloat:
			f = v.F
		case KStr:
			if v.S == "" {
				return orPrev(out, prev), convOK
			}
			if oddAmount(v.S) {
				return none, convAny
			}
			var err error
			if f, err = strconv.ParseFloat(plainNumber(v.S), 64); err != nil {
				return none, convErr
			}
		default:
			return none, convErr
		}
		if t.Kind() == reflect.Float32 && math.IsInf(float64(float32(f)), 0) && !math.IsInf(f, 0) {
			return none, convErr
		}
		out.SetFloat(f)
		return out, convOK
	case reflect.Slice:
		var l []*V
		switch v.K {
		case KArr:
			l = v.A
		case KStr:
			l = []*V{v}
		default:
			return none, convErr
		}
		out.Set(reflect.MakeSlice(t, len(l), len(l)))
		return elements(out, l)
	case reflect.Array:
		if v.K != KArr || len(v.A) != t.Len() {
			return none, convErr
		}
		return elements(out, v.A)
	case reflect.Map:
		if v.K != KDict {
			return none, convErr
		}
		out.Set(reflect.MakeMap(t))
		res := convOK
		for _, kv := range v.O {
			x, st := conv(kv.V, t.Elem(), none)
			if st != convOK {
				if res = max(res, st); st == convErr {
					return none, convErr
				}
				continue
			}
			out.SetMapIndex(reflect.ValueOf(kv.K).Convert(t.Key()), x)
		}
		return out, res
	case reflect.Struct:
		if v.K != KDict {
			return none, convErr
		}
		res := convOK
		for _, kv := range v.O {
			if strings.Trim(kv.K, "abcdefghijklmnopqrstuvwxyz0123456789") != "" {
				res = convAny // near misses of names are not decided here
			}
		}
		for i := 0; i < t.NumField(); i++ {
			m := v.Get(snake(t.Field(i).Name))
			if m == nil {
				continue
			}
			x, st := conv(m, t.Field(i).Type, none)
			if st == convErr {
				res = convErr
			}
			if st != convOK {
				res = worse(res, st)
				continue
			}
			out.Field(i).Set(x)
		}
		return out, res
	}
	return none, convAny
}

func convIf(open bool) int {
	if open {
		return convAny
	}
	return convErr
}

// worse: one error decides, whatever else is open.
func worse(a, b int) int {
	if a == convErr || b == convErr {
		return convErr
	}
	return max(a, b)
}

func orPrev(out, prev reflect.Value) reflect.Value {
	if prev.IsValid() {
		out.Set(prev)
	}
	return out
}

func elements(out reflect.Value, l []*V) (reflect.Value, int) {
	res := convOK
	for i, e := range l {
		x, st := conv(e, out.Index(i).Type(), reflect.Value{})
		if st != convOK {
			res = worse(res, st)
			continue
		}
		out.Index(i).Set(x)
	}
	return out, res
}

// docOf reads a text written by the library.
func (n *jnode) docOf() *V {
	switch n.kind {
	case '{':
		v := vDict()
		for i, k := range n.keys {
			v.Set(unquoteKey(k), n.kids[i].docOf())
		}
		return v
	case '[':
		v := vArr()
		for _, k := range n.kids {
			v.A = append(v.A, k.docOf())
		}
		return v
	case '"':
		return vStr(unquoteKey(n.raw))
	}
	switch n.raw {
	case "null":
		return vNull()
	case "true", "false":
		return vBool(n.raw == "true")
	}
	if i, err := strconv.ParseInt(n.raw, 10, 64); err == nil {
		return vInt(i)
	}
	f, _ := strconv.ParseFloat(n.raw, 64)
	return vFloat(f)
}

// types fields have in one version or another
var driftScalars = []reflect.Type{tString, tInt, tInt64, tF64, tBool, tTri, tInt8, tInt16, tInt32, tUint, tUint8, tUint16, tUint32, tUint64, tF32, tTime, tAny, tObj,
	reflect.TypeOf(nStr("")), reflect.TypeOf(nInt(0)), reflect.TypeOf(nU8(0)), reflect.TypeOf(nBool(false)), reflect.TypeOf(nF(0)), reflect.TypeOf(time.Duration(0)),
	reflect.TypeOf((*string)(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf((*bool)(nil)), reflect.TypeOf((*float64)(nil)), reflect.TypeOf((*uint8)(nil)), reflect.TypeOf((**int)(nil)), reflect.TypeOf((*time.Time)(nil)), reflect.TypeOf((*tristate.TriState)(nil)),
	tStrP, tIntP, tFloatP, tBoolP, tStrP.Elem(), tIntP.Elem(), tBoolP.Elem(), tFloatP.Elem()}

type driftAB struct {
	A int
	B string
}

type driftBA struct {
	B float64
	A string
	C bool
}

var driftParts = []reflect.Type{reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]uint8{}), reflect.TypeOf([]*int{}), reflect.TypeOf([2]int{}), reflect.TypeOf([2]string{}), reflect.TypeOf((*[]int)(nil)),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[nStr]float64{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string][]string{}), reflect.TypeOf((*map[string]bool)(nil)),
	reflect.TypeOf(driftAB{}), reflect.TypeOf(driftBA{}), reflect.TypeOf((*driftAB)(nil)), reflect.TypeOf([]driftAB{}), reflect.TypeOf([]driftBA{}), reflect.TypeOf([]*driftBA{}), reflect.TypeOf(map[string]driftAB{}), reflect.TypeOf(map[string]driftBA{}),
	tDictP, tArrP, tDictP.Elem(), tArrP.Elem(), reflect.TypeOf([]jsonutils.JSONObject{})}

func driftType(t *Tape) reflect.Type {
	if t.G(4) == 3 {
		return driftParts[t.G(len(driftParts))]
	}
	if t.G(2) == 0 {
		return driftScalars[t.G(8)]
	}
	return driftScalars[t.G(len(driftScalars))]
}

// driftText is a text that means something to fields of other types, or nearly.
func driftText(t *Tape) string {
	s := driftText1(t)
	if f, err := strconv.ParseFloat(s, 64); err == nil && (f != f || math.IsInf(f, 0)) {
		return "infinite" // no JSON number
	}
	return s
}

func driftText1(t *Tape) string {
	switch t.G(10) {
	case 0, 1:
		s := strconv.FormatInt(genInt(t), 10)
		if t.G(8) == 7 && s[0] != '-' {
			s = "+" + s
		}
		return s
	case 2:
		return strconv.FormatFloat(genFloat(t), []byte{'g', 'f', 'e'}[t.G(3)], -1, 64)
	case 3, 4:
		w := []string{"true", "false", "yes", "no", "on", "off", "1", "0", "none", "True", "FALSE", "Yes", "oN"}[t.G(13)]
		if t.G(6) == 5 {
			w = " " + w + "\t"
		}
		return w
	case 5:
		return genTime(t).UTC().Format([]string{"2006-01-02T15:04:05.000000Z07:00", time.RFC3339, "2006-01-02T15:04:05.000Z07:00", time.RFC3339Nano}[t.G(4)])
	case 6:
		return amountForms[t.G(len(amountForms))].text
	case 7:
		return []string{"", "0", "abc", "12x", "0x10", "1_000", "--1", " 5", "5 ", "1e3", "1e30", "0.0", "nil", "null", "{}", "[1]", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "256", "-1", "1.0", "1e400", "enabled", "t", "y", "1e39", "-3.4028235677973366e38"}[t.G(29)]
	case 8:
		return genString(t)
	}
	return []string{"", "a", "b"}[t.G(3)]
}

// driftDoc is a document such as fields have.
func driftDoc(t *Tape, depth int) *V {
	n := 7
	if depth <= 0 {
		n = 5
	}
	switch t.G(n) {
	case 0:
		if t.G(4) == 3 {
			return vInt(int64(t.G(3)) - 1)
		}
		return vInt(genInt(t))
	case 1:
		return vStr(driftText(t))
	case 2:
		f := genFloat(t)
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			f += 0.25
		}
		if t.G(6) == 5 { // around what the shorter kinds of number hold
			f = []float64{3.4028234663852886e38, 3.4028235677973362e38, 3.4028235677973366e38, 1e39, -1e39, -3.5e38, 1e-46, 1 << 62, 1<<63 - 1024, 1 << 63, -1 << 63, -1<<63 - 2048, 1<<64 - 2048, 1 << 64, -1 << 64}[t.G(15)]
		}
		return vFloat(f)
	case 3:
		return vBool(t.G(2) == 1)
	case 4:
		return vNull()
	case 5:
		v := vArr()
		k := t.G(4)
		if t.G(8) == 7 {
			// many alike, but perhaps one
			words := t.G(2) == 1
			for n := []int{9, 17, 33, 65, 130}[t.G(5)]; n > 0; n-- {
				x := vInt(int64(n))
				if words {
					x = vStr(strconv.Itoa(n))
				}
				v.A = append(v.A, x)
			}
			if t.G(2) == 1 {
				v.A[len(v.A)-1-t.G(len(v.A))] = []*V{driftDoc(t, depth-1), vDict(), vArr(), vStr("abc")}[t.G(4)]
			}
			return v
		}
		for i := 0; i < k; i++ {
			v.A = append(v.A, driftDoc(t, depth-1))
		}
		return v
	}
	v := vDict()
	for k := t.G(4); k > 0; k-- {
		v.Set([]string{"a", "b", "c", "x"}[t.G(4)], driftDoc(t, depth-1))
	}
	return v
}

// driftFill gives a value something to say.
func driftFill(t *Tape, v reflect.Value) {
	switch v.Type() {
	case tTime, tTri:
		fillValue(t, v, false)
		return
	case tObj:
		v.Set(reflect.ValueOf(driftDoc(t, 2).Build()))
		return
	}
	if isDoc(v.Type()) {
		fillValue(t, v, false)
		switch v.Type() {
		case tStrP:
			v.Set(reflect.ValueOf(jsonutils.NewString(driftText(t))))
		case tStrP.Elem():
			v.Set(reflect.ValueOf(jsonutils.NewString(driftText(t))).Elem())
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(driftText(t))
	case reflect.Ptr:
		if t.G(6) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			driftFill(t, v.Elem())
		}
	case reflect.Interface:
		if x := driftDoc(t, 0).Go(); x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Slice:
		n := t.G(4)
		if e := v.Type().Elem(); t.G(40) == 39 && (e == tTime || !isDoc(e) && (e.Kind() == reflect.String || canForceString(e.Kind()))) {
			n = []int{9, 17, 33, 65, 130}[t.G(5)]
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			driftFill(t, v.Index(i))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := t.G(4); n > 0; n-- {
			x := reflect.New(v.Type().Elem()).Elem()
			driftFill(t, x)
			v.SetMapIndex(reflect.ValueOf([]string{"a", "b", "c", "x"}[t.G(4)]).Convert(v.Type().Key()), x)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			driftFill(t, v.Field(i))
		}
	default:
		fillValue(t, v, false)
	}
}

type dver struct {
	id    int
	types map[int]reflect.Type
	typ   reflect.Type
	dep   map[int]int // fields deprecated by others of this version
}

func (v *dver) String() string { return fmt.Sprintf("v%d%s", v.id, v.typ) }

// what the fields of a record are; none: not decided
type dstate map[int]dfield

type dfield struct {
	st  int
	val reflect.Value
	doc *V // what it was read from
}

// reading is the state after a document has been read by v into a record of a state.
// plainList tells whether a value read into a list takes the place of all the
// list held: none of its elements keeps something of the element before it.
func plainList(t reflect.Type, m *V) bool {
	if t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
		return false
	}
	if t.Elem() != tTime && !isDoc(t.Elem()) {
		switch t.Elem().Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Struct, reflect.Array, reflect.Interface:
			return false
		}
	}
	l := []*V{m}
	if m.K == KArr {
		l = m.A
	}
	for _, e := range l {
		if e.K == KStr && e.S == "" || e.K == KDict && isDoc(t.Elem()) {
			return false
		}
	}
	return true
}

func (v *dver) reading(doc *V, before dstate) (s dstate, st int) {
	s = dstate{}
	for n := range goNames {
		typ := v.types[n]
		if typ == nil {
			continue
		}
		m := doc.Get(snake(goNames[n]))
		b, held := before[n]
		if m == nil {
			if !held && before == nil {
				b = dfield{val: reflect.Zero(typ)}
			} else if !held {
				b = dfield{st: convAny}
			}
			s[n] = b
			continue
		}
		var w int
		s[n], w = readInto(m, typ, b, held, before != nil)
		st = worse(st, w)
	}
	// a renamed field's old name is read for the new one, too, whatever their types
	into := map[int]int{}
	for n := range goNames {
		to, ok := v.dep[n]
		if !ok || doc.Get(snake(goNames[n])) == nil {
			continue
		}
		into[to]++
		m := doc.Get(snake(goNames[n]))
		b, held := before[to]
		f, w := readInto(m, v.types[to], b, held, before != nil)
		switch {
		case s[n].st != convOK: // in vain, at least for the old name
			f.st = convAny
			if st == convOK {
				st = convAny
			}
		case doc.Get(snake(goNames[to])) != nil || into[to] > 1:
			if f.st != convErr && w != convErr {
				w = worse(w, convAny)
			}
			f.st = convAny
			st = worse(st, w)
		default:
			st = worse(st, w)
		}
		s[to] = f
	}
	return s, st
}

// readInto is what reading m makes of a field.
func readInto(m *V, typ reflect.Type, b dfield, held, again bool) (f dfield, st int) {
	f = dfield{doc: m}
	var prev reflect.Value
	if held && b.st == convOK {
		prev = b.val
	}
	f.val, f.st = conv(m, typ, prev)
	st = f.st
	if again {
		// what becomes of the members a container had is decided elsewhere
		x := typ
		for x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		switch x.Kind() {
		case reflect.Map, reflect.Slice, reflect.Struct, reflect.Array:
			if x != tTime && f.st == convOK && m.K != KNull && !plainList(x, m) {
				f.st = convAny
				if m.K == KStr || m.K == KDict { // elements that say nothing keep what was there
					st = worse(st, convAny)
				}
			}
		}
		if held && b.st != convOK && f.st == convOK && m.K == KStr && m.S == "" {
			f.st = convAny
		}
	}
	return f, st
}

// check compares a record with a state.
func (v *dver) check(rec reflect.Value, s dstate) string {
	for n := range goNames {
		f, ok := s[n]
		if !ok || f.st != convOK {
			continue
		}
		x := rec.FieldByName(goNames[n])
		got, want := canon(x, fieldOpt{}), canon(f.val, fieldOpt{})
		if got == want {
			continue
		}
		if f.doc != nil && sameText(x, f) {
			continue
		}
		from := "nothing"
		if f.doc != nil {
			from = clip(f.doc.Text(), 0)
		}
		return fmt.Sprintf("%s, a %s, is %s and not %s, read from %s", snake(goNames[n]), x.Type(), clip(got, 0), clip(want, 0), from)
	}
	return ""
}

// sameText: texts of containers and fractions may be written in other ways.
func sameText(x reflect.Value, f dfield) bool {
	for x.Kind() == reflect.Ptr && !x.IsNil() {
		if d, ok := x.Interface().(*jsonutils.JSONString); ok {
			x = reflect.ValueOf(d.Value())
			break
		}
		x = x.Elem()
	}
	if d, ok := x.Interface().(jsonutils.JSONString); ok {
		x = reflect.ValueOf(d.Value())
	}
	if x.Kind() != reflect.String {
		return false
	}
	switch f.doc.K {
	case KFloat:
		g, err := strconv.ParseFloat(x.String(), 64)
		return err == nil && math.Abs(g-f.doc.F) <= 5e-7
	case KArr, KDict:
		same := false
		if p := call(func() { same = jread(x.String()).docOf().Obs() == f.doc.Obs() }); p != "" {
			return false
		}
		return same
	}
	return false
}

type dmsg struct {
	text  string
	doc   *V
	shape int
	hops  int
	from  string
}

func runC16(r *Run) {
	t := r.T
	r.Nontrivial = true
	order := perm(t, len(goNames))[:1+t.G(5)]
	var vers []*dver
	pool := map[int][]reflect.Type{}
	for nv := 2 + t.G(4); nv > 0; nv-- {
		v := &dver{id: len(vers), types: map[int]reflect.Type{}, dep: map[int]int{}}
		var fs []reflect.StructField
		var known []int
		for _, i := range perm(t, len(order)) {
			n := order[i]
			if t.G(8) == 7 {
				continue // does not know it
			}
			typ := driftType(t)
			if len(pool[n]) > 0 && t.G(3) == 0 {
				typ = pool[n][t.G(len(pool[n]))]
			}
			pool[n] = append(pool[n], typ)
			v.types[n] = typ
			f := reflect.StructField{Name: goNames[n], Type: typ}
			opt := []string{"", "", "", ",omitempty", ",allowempty", ",string", ",omitzero", ",allowzero"}[t.G(8)]
			if opt == ",string" && !canForceString(typ.Kind()) {
				opt = ""
			}
			if opt != "" {
				f.Tag = reflect.StructTag(fmt.Sprintf("json:%q", opt))
			}
			fs = append(fs, f)
			known = append(known, n)
		}
		if len(fs) > 1 && t.G(4) == 3 {
			to := t.G(len(fs))
			for k := 1 + t.G(2); k > 0; k-- {
				if i := t.G(len(fs)); i != to {
					if _, ok := v.dep[known[i]]; ok {
						continue
					}
					v.dep[known[i]] = known[to]
					fs[i].Tag += reflect.StructTag(fmt.Sprintf(` yunion-deprecated-by:%q`, snake(goNames[known[to]])))
				}
			}
		}
		v.typ = reflect.StructOf(fs)
		vers = append(vers, v)
		r.Log("%s", v)
	}
	newRecord := func(v *dver) reflect.Value {
		rec := reflect.New(v.typ).Elem()
		for i := 0; i < rec.NumField(); i++ {
			if t.G(8) > 0 {
				driftFill(t, rec.Field(i))
			}
		}
		return rec
	}
	write := func(v *dver, rec reflect.Value, hops int, from string) (m dmsg, ok bool) {
		m = dmsg{hops: hops, shape: t.G(6), from: from + fmt.Sprintf(" v%d", v.id)}
		all, pretty := t.G(2) == 1, t.G(4) == 3
		if p := call(func() {
			o := encode(all, wrap(rec, m.shape).Interface())
			if pretty {
				m.text = o.PrettyString()
			} else {
				m.text = o.String()
			}
		}); p != "" {
			r.Fail("panic", "writing %s: %s", dump(rec), clip(p, 0))
			return m, false
		}
		if t.F(3) > 0 {
			var sb strings.Builder
			jread(m.text).respell(t, &sb)
			m.text = sb.String()
			r.Fault("members_reordered")
		}
		d := jread(m.text).docOf()
		switch m.shape {
		case 2, 4:
			d = d.A[0]
		case 3:
			d = d.Get("k")
		case 5:
			d = d.Get("spec")
			if d == nil {
				d = vDict()
			}
		}
		m.doc = d
		return m, true
	}
	// strange replaces a field by something a foreign node might send
	strange := func(m *dmsg) {
		n := jread(m.text)
		root := n
		switch m.shape {
		case 2, 4:
			n = n.kids[0]
		case 3:
			n = n.kids[0]
		case 5:
			for i, k := range n.keys {
				if k == `"spec"` {
					n = n.kids[i]
				}
			}
			if n == root {
				return
			}
		}
		key := snake(goNames[order[t.F(len(order))]])
		x := driftDoc(t, 2)
		if t.G(10) == 9 {
			for x.K != KArr {
				if x = driftDoc(t, 2); t.G(30) == 29 {
					break
				}
			}
		}
		nn := jread(x.Text())
		if t.G(8) == 7 { // integers as others spell them
			nn = &jnode{raw: []string{"-1.0", "1.0", "0.0", "2e0", "1e2", "255.0", "256.0", "-129.0", "-0.5", "0.5", "1.0E+2", "1.8446744073709552e19", "9.223372036854775807e18", "-9.2233720368547758e+18"}[t.G(14)]}
			x = nn.docOf()
		}
		for i, k := range n.keys {
			if k == strconv.Quote(key) {
				n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
				n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
				break
			}
		}
		n.keys = append(n.keys, strconv.Quote(key))
		n.kids = append(n.kids, nn)
		d := m.doc.Clone()
		d.Set(key, nn.docOf())
		m.doc = d
		var sb strings.Builder
		root.respell(t, &sb)
		m.text = sb.String()
		m.from += fmt.Sprintf(" with %s made %s", key, clip(x.Text(), 0))
	}
	decode := func(text string, p reflect.Value) (err error, pn string) {
		pn = call(func() {
			var o jsonutils.JSONObject
			if o, err = jsonutils.ParseString(text); err == nil {
				err = o.Unmarshal(p.Interface())
			}
		})
		return
	}
	read := func(v *dver, m dmsg, twice bool, earlier *dmsg) (rec reflect.Value, s dstate, good bool, bad string) {
		p := reflect.New(wrapType(v.typ, m.shape))
		var before dstate
		if earlier != nil {
			err, pn := decode(earlier.text, p)
			if pn != "" {
				return rec, s, false, fmt.Sprintf("%s reading %s: %s", v, clip(earlier.text, 0), clip(pn, 0))
			}
			var st int
			before, st = v.reading(earlier.doc, nil)
			if (err != nil) != (st == convErr) && st != convAny {
				return rec, s, false, fmt.Sprintf("%s reading %s gets error %v", v, clip(earlier.text, 0), err)
			}
			m.from += " over what was written by" + earlier.from + " as " + clip(earlier.text, 0)
		}
		s, st := v.reading(m.doc, before)
		n := 1
		if twice {
			n = 2
		}
		var err error
		for ; n > 0; n-- {
			var pn string
			if err, pn = decode(m.text, p); pn != "" {
				return rec, s, false, fmt.Sprintf("%s reading %s: %s", v, clip(m.text, 0), clip(pn, 0))
			}
			if st == convErr && err == nil {
				return rec, s, false, fmt.Sprintf("%s reading %s gets no error but %s\n written by%s", v, clip(m.text, 0), clip(dump(p), 0), m.from)
			}
			if st == convOK && err != nil {
				return rec, s, false, fmt.Sprintf("%s reading %s gets %v\n written by%s", v, clip(m.text, 0), err, m.from)
			}
		}
		if err != nil && m.shape >= 2 && m.shape <= 4 {
			return rec, s, false, "" // a list or a map of them stops at the first
		}
		rec, ok := unwrap(p, m.shape)
		if !ok {
			return rec, s, false, fmt.Sprintf("%s reading the %s %s gets %s", v, wrapNames[m.shape], clip(m.text, 0), clip(dump(p), 0))
		}
		if twice {
			for n, f := range s {
				if k := v.types[n].Kind(); k == reflect.Slice || k == reflect.Ptr {
					f.st = max(f.st, convAny)
					s[n] = f
				}
			}
		}
		if b := v.check(rec, s); b != "" {
			return rec, s, false, fmt.Sprintf("record written by%s\n read by %s\n %s: %s (error %v)\n text %s", m.from, v, wrapNames[m.shape], b, err, clip(m.text, 0))
		}
		return rec, s, err == nil, ""
	}
	// alone reads one member of a record that a handler took out of it
	alone := func(v *dver, doc *V) string {
		n := order[t.G(len(order))]
		m := doc.Get(snake(goNames[n]))
		typ := v.types[n]
		if m == nil || typ == nil || typ.Kind() == reflect.Interface || typ.Kind() == reflect.Ptr || t.G(2) == 1 {
			return ""
		}
		if t.G(2) == 1 {
			typ = reflect.PtrTo(typ)
		}
		m = jread(m.Text()).docOf()
		want, st := conv(m, typ, reflect.Value{})
		p := reflect.New(typ)
		err, pn := decode(m.Text(), p)
		if pn != "" {
			return fmt.Sprintf("a bare %s read from %s: %s", typ, clip(m.Text(), 0), clip(pn, 0))
		}
		if st == convErr && err == nil || st == convOK && err != nil {
			return fmt.Sprintf("a bare %s read from %s: error %v", typ, clip(m.Text(), 0), err)
		}
		if st != convOK {
			return ""
		}
		if got, w := canon(p.Elem(), fieldOpt{}), canon(want, fieldOpt{}); got != w && !sameText(p.Elem(), dfield{st: st, val: want, doc: m}) {
			return fmt.Sprintf("a bare %s read from %s is %s and not %s", typ, clip(m.Text(), 0), clip(got, 0), clip(w, 0))
		}
		return ""
	}
	// migrate moves a record from one version's type to another's in one process
	migrate := func(v *dver, rec reflect.Value, w *dver) (reflect.Value, bool) {
		var o jsonutils.JSONObject
		p := reflect.New(w.typ)
		var err error
		if pn := call(func() {
			o = jsonutils.Marshal(rec.Addr().Interface())
			err = jsonutils.Update(p.Interface(), rec.Addr().Interface())
		}); pn != "" {
			r.Fail("panic", "updating %s from %s: %s", w, v, clip(pn, 0))
			return p.Elem(), false
		}
		s, st := w.reading(modelOf(o, 0), nil)
		if st == convErr && err == nil || st == convOK && err != nil {
			r.Fail("shown", "%s updated from %s, %s: error %v", w, v, clip(o.String(), 0), err)
			return p.Elem(), false
		}
		for n, f := range s {
			if f.doc != nil && f.doc.K == KFloat && (w.types[n] == tObj || isDoc(w.types[n])) && (v.types[n] == tF32 || len(v.dep)+len(w.dep) > 0) {
				f.st = max(f.st, convAny) // keeps being a short one
				s[n] = f
			}
		}
		if b := w.check(p.Elem(), s); b != "" {
			r.Fail("shown", "%s updated from %s: %s", w, v, b)
			return p.Elem(), false
		}
		return p.Elem(), err == nil
	}
	sim := newSim(r, []int{0, 4, 20}[t.F(3)])
	type node struct {
		ver *dver
		rec reflect.Value // what it stores
	}
	nodes := make([]*node, 2+t.G(3))
	for i := range nodes {
		nodes[i] = &node{ver: vers[t.G(len(vers))]}
	}
	var all []dmsg
	var post func(to int, m dmsg)
	arrive := func(to int, m dmsg) {
		nd := nodes[to]
		if sim.fault("node_upgraded_or_rolled_back", 1, 3) {
			w := vers[t.F(len(vers))]
			if nd.rec.IsValid() {
				rec, ok := migrate(nd.ver, nd.rec, w)
				if r.Failed() {
					return
				}
				if nd.rec = rec; !ok {
					nd.rec = reflect.Value{}
				}
			}
			nd.ver = w
		}
		if sim.fault("field_of_another_kind", 1, 3) {
			strange(&m)
		}
		var earlier *dmsg
		if e := &all[t.F(len(all))]; e.shape == m.shape && (m.shape < 2 || m.shape == 5) && sim.fault("delivered_over_another", 1, 2) {
			earlier = e
		}
		rec, _, good, bad := read(nd.ver, m, sim.fault("delivered_twice_into_one_value", 1, 8), earlier)
		if bad != "" {
			r.Fail("shown", "%s", bad)
			return
		}
		r.R(m.text)
		if bad := alone(nd.ver, m.doc); bad != "" {
			r.Fail("shown", "%s", bad)
			return
		}
		if !good {
			r.Count("rejected")
			return
		}
		r.Count("accepted")
		if !rec.CanAddr() { // out of a map
			x := reflect.New(rec.Type()).Elem()
			x.Set(rec)
			rec = x
		}
		nd.rec = rec
		if m.hops >= 5 {
			return
		}
		if n, ok := write(nd.ver, rec, m.hops+1, m.from); ok {
			all = append(all, n)
			post(t.G(len(nodes)), n)
		}
	}
	post = func(to int, m dmsg) {
		if sim.fault("message_lost", 1, 12) {
			sim.after(50*ms, func() { post(to, m) })
			return
		}
		if sim.fault("message_duplicated", 1, 8) {
			sim.after(int64(1+t.F(60))*ms, func() { arrive(to, m) })
		}
		sim.after(int64(1+t.F(60))*ms, func() { arrive(to, m) })
	}
	for k := 1 + t.G(3); k > 0; k-- {
		v := nodes[t.G(len(nodes))].ver
		rec := newRecord(v)
		m, ok := write(v, rec, 0, "")
		if !ok {
			return
		}
		r.Log("written by %s: %s", v, m.text)
		r.H(m.text)
		all = append(all, m)
		post(t.G(len(nodes)), m)
		if t.G(3) == 2 {
			if migrate(v, rec, vers[t.G(len(vers))]); r.Failed() {
				return
			}
		}
	}
	if !sim.run(400) {
		r.Count("unfinished")
	}
	if r.Failed() {
		return
	}
	if !simrt.RaceBuild && t.G(4) < 3 {
		return
	}
	// many at once
	nt := 2 + t.G(2)
	outs := make([]string, nt)
	fns := make([]func(), nt)
	for i := range fns {
		i := i
		m := all[t.G(len(all))]
		v := vers[t.G(len(vers))]
		fns[i] = func() { _, _, _, outs[i] = read(v, m, false, nil) }
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for _, s := range outs {
		if s != "" {
			r.Fail("shown", "at once: %s", s)
			return
		}
	}
}
