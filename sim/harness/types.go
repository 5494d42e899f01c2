package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"yunion.io/x/jsonutils"
	"yunion.io/x/pkg/tristate"
)

// ---- named types ----

type nStr string
type nKey string
type nInt int32
type nU8 uint8
type nBool bool
type nF float64

// what these print as is not what they are
func (nStr) String() string               { return "a text" }
func (nStr) MarshalText() ([]byte, error) { return []byte("a text"), nil }
func (nKey) String() string               { return "a key" }
func (nInt) String() string               { return "an integer" }
func (nU8) String() string                { return "1" }
func (nBool) String() string              { return "on" }
func (nF) String() string                 { return "1.5" }
func (nF) GoString() string               { return "1.5" }

type nMap map[string]int
type nList []string

type E1 struct {
	EaNum  int
	EbText string `json:"eb,omitempty"`
}

type E2 struct {
	E1
	EcList []string
	EdMap  map[string]int64 `json:"ed-map"`
}

type E3 struct {
	*E1
	EfNum float64 `json:"ef,string"`
}

type E4 struct {
	E2   `json:"ignored_tag"`
	EgP  *int64 `json:"eg,omitzero"`
	EhOk bool   `json:"eh,omitfalse"`
	skip int
	Drop string `json:"-"`
}

type E5 struct {
	Id        string `json:"id"`
	CreatedAt time.Time
	Enabled   tristate.TriState `json:"enabled"`
	E3
	Inner E1 `json:"inner"`
	Ptr   *E2
	Empty string `json:"empty,allowempty"`
}

type Tree struct {
	Val   int
	Name  string           `json:"name,omitempty"`
	Kids  []*Tree          `json:"kids"`
	Left  *Tree            `json:"left"`
	Named map[string]*Tree `json:"named"`
	Vals  []Tree           `json:"vals"`
}

// hookU is decoded by its own hook, which keeps the text it was given and
// fails for some texts.
type hookU struct {
	Raw string
}

var errHook = errors.New("hook refuses")

func (h *hookU) UnmarshalJSON(b []byte) error {
	h.Raw = string(b)
	if n := len(b); n%5 == 3 {
		return errHook
	}
	return nil
}

// hookRT has both hooks.
type hookRT struct{ S string }

func (h hookRT) MarshalJSON() ([]byte, error) {
	var sb strings.Builder
	sb.WriteString(`{"h":`)
	quoteModel(&sb, h.S)
	sb.WriteString(`}`)
	return []byte(sb.String()), nil
}

func (h *hookRT) UnmarshalJSON(b []byte) error {
	o, err := jsonutils.Parse(b)
	if err != nil {
		return err
	}
	s, err := o.GetString("h")
	if err != nil {
		return err
	}
	h.S = s
	return nil
}

// afterT counts and derives in its after-decoding hook.
type afterT struct {
	A    int
	B    string
	Sum  string `json:"-"`
	Runs int    `json:"-"`
}

func (a *afterT) AfterUnmarshal() {
	a.Runs++
	a.Sum = fmt.Sprintf("%d/%s", a.A, a.B)
}

var (
	tInt       = reflect.TypeOf(int(0))
	tInt8      = reflect.TypeOf(int8(0))
	tInt16     = reflect.TypeOf(int16(0))
	tInt32     = reflect.TypeOf(int32(0))
	tInt64     = reflect.TypeOf(int64(0))
	tUint      = reflect.TypeOf(uint(0))
	tUint8     = reflect.TypeOf(uint8(0))
	tUint16    = reflect.TypeOf(uint16(0))
	tUint32    = reflect.TypeOf(uint32(0))
	tUint64    = reflect.TypeOf(uint64(0))
	tF32       = reflect.TypeOf(float32(0))
	tF64       = reflect.TypeOf(float64(0))
	tBool      = reflect.TypeOf(false)
	tString    = reflect.TypeOf("")
	tTime      = reflect.TypeOf(time.Time{})
	tTri       = reflect.TypeOf(tristate.True)
	tAny       = reflect.TypeOf((*interface{})(nil)).Elem()
	tObj       = reflect.TypeOf((*jsonutils.JSONObject)(nil)).Elem()
	tDictP     = reflect.TypeOf((*jsonutils.JSONDict)(nil))
	tArrP      = reflect.TypeOf((*jsonutils.JSONArray)(nil))
	tStrP      = reflect.TypeOf((*jsonutils.JSONString)(nil))
	tIntP      = reflect.TypeOf((*jsonutils.JSONInt)(nil))
	tBoolP     = reflect.TypeOf((*jsonutils.JSONBool)(nil))
	tFloatP    = reflect.TypeOf((*jsonutils.JSONFloat)(nil))
	tErrorType = reflect.TypeOf((*error)(nil)).Elem()

	scalarTypes = []reflect.Type{tInt, tString, tBool, tF64, tInt64, tInt8, tInt16, tInt32, tUint, tUint8, tUint16, tUint32, tUint64, tF32,
		reflect.TypeOf(nStr("")), reflect.TypeOf(nInt(0)), reflect.TypeOf(nU8(0)), reflect.TypeOf(nBool(false)), reflect.TypeOf(nF(0)), reflect.TypeOf(time.Duration(0))}
	docTypes    = []reflect.Type{tObj, tDictP, tArrP, tStrP, tIntP, tBoolP, tFloatP, tDictP.Elem(), tArrP.Elem(), tStrP.Elem(), tIntP.Elem(), tBoolP.Elem(), tFloatP.Elem()}
	staticTypes = []reflect.Type{reflect.TypeOf(E1{}), reflect.TypeOf(E2{}), reflect.TypeOf(E3{}), reflect.TypeOf(E4{}), reflect.TypeOf(E5{}), reflect.TypeOf(Tree{}),
		reflect.TypeOf(nMap{}), reflect.TypeOf(nList{}), reflect.TypeOf(hookRT{})}
)

// ---- random types and values (for round trips) ----

type typOpt struct {
	fields   int
	nilElems bool // pointers in lists may be nil (complete form only)
}

// genTyp draws a type a value of which must survive encoding.
func genTyp(t *Tape, depth int, elem bool) reflect.Type {
	if depth <= 0 {
		switch t.G(10) {
		case 8:
			return tTime
		case 9:
			if !elem {
				return tTri
			}
			return tString
		}
		return scalarTypes[t.G(len(scalarTypes))]
	}
	switch t.G(16) {
	default:
		return scalarTypes[t.G(len(scalarTypes))]
	case 3:
		return tTime
	case 4:
		if elem {
			return tString
		}
		return tTri
	case 5, 6:
		return reflect.SliceOf(genTyp(t, depth-1, true))
	case 7:
		return reflect.MapOf([]reflect.Type{tString, reflect.TypeOf(nKey(""))}[t.G(2)], genTyp(t, depth-1, true))
	case 8:
		return reflect.ArrayOf([]int{1, 2, 3, 5}[t.G(4)], genTyp(t, depth-1, true))
	case 9:
		et := genTyp(t, depth-1, elem)
		for et.Kind() == reflect.Ptr || et.Kind() == reflect.Interface || et.Kind() == reflect.Array {
			et = genTyp(t, depth-1, elem)
			if t.replay {
				break
			}
		}
		if et.Kind() == reflect.Ptr || et.Kind() == reflect.Interface || et.Kind() == reflect.Array || et == tDictP.Elem() {
			et = tInt
		}
		if t.G(6) == 5 {
			et = reflect.PtrTo(et)
		}
		return reflect.PtrTo(et)
	case 10, 11:
		return genStruct(t, depth-1, 1+t.Size(7))
	case 12, 13:
		return staticTypes[t.G(len(staticTypes))]
	case 14:
		return docTypes[t.G(len(docTypes))]
	case 15:
		return tAny
	}
}

func canForceString(k reflect.Kind) bool {
	return k >= reflect.Bool && k <= reflect.Float64 && k != reflect.Uintptr
}

// genStruct draws a struct type with n fields.
func genStruct(t *Tape, depth, n int) reflect.Type {
	var fs []reflect.StructField
	if t.G(4) == 3 {
		e := []reflect.Type{reflect.TypeOf(E1{}), reflect.TypeOf(E2{}), reflect.TypeOf(E4{}), reflect.TypeOf(&E1{})}[t.G(4)]
		name := e.Name()
		if e.Kind() == reflect.Ptr {
			name = e.Elem().Name()
		}
		fs = append(fs, reflect.StructField{Name: name, Type: e, Anonymous: true})
	}
	for i := 0; i < n; i++ {
		ft := genTyp(t, depth, false)
		name := fmt.Sprintf("%s%d", []string{"F", "Field", "UserName", "ID", "F_x", "LongFieldName"}[t.G(6)], i)
		var tag string
		switch t.G(8) {
		case 0, 1:
		case 2:
			tag = fmt.Sprintf(`json:"n%d"`, i)
		case 3:
			tag = fmt.Sprintf(`json:"%s_%d,omitempty"`, []string{"name", "a-b", "x.y", "Cap", "中"}[t.G(5)], i)
		case 4:
			if canForceString(ft.Kind()) || (ft.Kind() == reflect.Ptr && canForceString(ft.Elem().Kind())) {
				tag = fmt.Sprintf(`json:"s%d,string"`, i)
			}
		case 5:
			tag = fmt.Sprintf(`json:"z%d,%s"`, i, []string{"omitzero", "omitfalse", "allowempty", "allowzero", "allowfalse"}[t.G(5)])
		case 6:
			tag = fmt.Sprintf(`name:"tagged%d"`, i)
		case 7:
			if i > 0 {
				tag = `json:"-"`
			}
		}
		fs = append(fs, reflect.StructField{Name: name, Type: ft, Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fs)
}

func genTime(t *Tape) time.Time {
	switch t.G(6) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(int64(t.G(2000000000)), int64(t.G(1000000))*1000)
	case 2:
		return time.Unix(int64(t.G(2000000000)), 0).UTC()
	case 3:
		return time.Unix(int64(t.G(2000000000)), int64(t.G(1000000000))).In(zones[t.G(len(zones))])
	case 4:
		return time.Date(1+t.G(9998), time.Month(1+t.G(12)), 1+t.G(28), t.G(24), t.G(60), t.G(60), t.G(1000)*1000000, time.UTC)
	default:
		return []time.Time{time.Unix(0, 0), time.Unix(0, 1000), time.Unix(0, 999999999), time.Date(1999, 12, 31, 23, 59, 59, 999999000, time.UTC), time.Date(2000, 2, 29, 0, 0, 0, 100000, zones[1]), time.Unix(-1, 0), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)}[t.G(7)]
	}
}

type filler struct {
	t      *Tape
	budget int
	nils   bool // nil list elements allowed
}

// pinTimes keeps times held by pointer out of the local zone: the standard form they
// are written in names the zone they are held in.
var pinTimes bool

func fillValue(t *Tape, v reflect.Value, nils bool) {
	f := &filler{t: t, budget: 120, nils: nils}
	f.fill(v, 5, false)
}

func (f *filler) length(max int) int {
	if f.budget <= 0 {
		return 0
	}
	return f.t.Size(min(max, f.budget))
}

// long is now and then a length beyond what anyone would reserve space for.
func (f *filler) long(n, depth int, elem reflect.Type) int {
	t := f.t
	if depth < 4 || f.budget < 60 || t.G(50) != 49 {
		return n
	}
	f.budget -= 60
	switch elem.Kind() {
	case reflect.Struct, reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map, reflect.Interface:
		if elem != tTime {
			return []int{11, 16, 17, 32, 33, 64, 65}[t.G(7)]
		}
	}
	return []int{16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 513, 1025}[t.G(14)]
}

func (f *filler) fill(v reflect.Value, depth int, elem bool) {
	t := f.t
	f.budget--
	switch v.Type() {
	case tTime:
		v.Set(reflect.ValueOf(genTime(t)))
		return
	case tTri:
		n := 3
		v.Set(reflect.ValueOf([]tristate.TriState{tristate.True, tristate.False, tristate.None}[t.G(n)]))
		return
	case tObj:
		if t.G(5) == 4 && !elem {
			return
		}
		v.Set(reflect.ValueOf(genDoc(t, genOpt{oddKeys: true, maxNodes: 10, maxDepth: 4, f32: true}, -1).Build()))
		return
	case tDictP, tDictP.Elem(), tArrP, tArrP.Elem():
		k := KDict
		if v.Type() == tArrP || v.Type() == tArrP.Elem() {
			k = KArr
		}
		if t.G(5) == 4 && !elem {
			return
		}
		o := reflect.ValueOf(genDoc(t, genOpt{oddKeys: true, maxNodes: 8, maxDepth: 3}, int(k)).Build())
		if v.Kind() == reflect.Ptr {
			v.Set(o)
		} else {
			v.Set(o.Elem())
		}
		return
	case tStrP, tStrP.Elem(), tIntP, tIntP.Elem(), tBoolP, tBoolP.Elem(), tFloatP, tFloatP.Elem():
		if t.G(5) == 4 && !elem && v.Type() != tFloatP.Elem() {
			return
		}
		var o reflect.Value
		switch v.Type() {
		case tStrP, tStrP.Elem():
			o = reflect.ValueOf(jsonutils.NewString(genString(t)))
		case tIntP, tIntP.Elem():
			o = reflect.ValueOf(jsonutils.NewInt(genInt(t)))
		case tBoolP, tBoolP.Elem():
			o = reflect.ValueOf(jsonutils.NewBool(t.G(2) == 1))
		default:
			o = reflect.ValueOf(jsonutils.NewFloat(float64(t.G(1000)) + 0.5))
		}
		if v.Kind() == reflect.Ptr {
			v.Set(o)
		} else {
			v.Set(o.Elem())
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(t.G(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(t))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if t.G(8) == 7 {
			v.SetUint(t.Bits())
		} else {
			v.SetUint(uint64(genInt(t)))
		}
	case reflect.Float32:
		v.SetFloat(genFloat32(t))
	case reflect.Float64:
		v.SetFloat(genFloat(t))
	case reflect.String:
		v.SetString(genString(t))
	case reflect.Interface:
		switch t.G(5) {
		case 0:
			v.Set(reflect.ValueOf(genString(t)))
		case 1:
			v.Set(reflect.ValueOf(genInt(t)))
		case 2:
			v.Set(reflect.ValueOf(t.G(2) == 1))
		case 3:
			v.Set(reflect.ValueOf(float64(t.G(1000)) + 0.25))
		default:
			if elem {
				v.Set(reflect.ValueOf("x"))
			}
		}
	case reflect.Slice:
		n := f.length(10)
		if depth <= 0 {
			n = 0
		}
		n = f.long(n, depth, v.Type().Elem())
		if n == 0 && !elem && t.G(2) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n+t.G(3))
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth-1, true)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), depth-1, true)
		}
	case reflect.Map:
		n := f.length(8)
		if depth <= 0 {
			n = 0
		}
		n = f.long(n, depth, v.Type().Elem())
		if n == 0 && !elem && t.G(2) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := genKey(t, &genOpt{oddKeys: true})
			if k == jnid {
				k = "j"
			}
			if n > 10 && i%8 != 0 {
				k = fmt.Sprintf("%s%d", plainKeys[i%len(plainKeys)], i)
			}
			e := reflect.New(v.Type().Elem()).Elem()
			f.fill(e, depth-1, true)
			m.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), e)
		}
		v.Set(m)
	case reflect.Ptr:
		if elem && f.nils && t.G(4) == 3 {
			return
		}
		if (depth <= 0 || f.budget <= 0 || t.G(4) == 3) && !elem {
			return
		}
		p := reflect.New(v.Type().Elem())
		if p.Elem().Kind() == reflect.Ptr && p.Elem().Type().Elem().Kind() != reflect.Struct {
			// nothing behind a pointer is the same as no pointer
			p.Elem().Set(reflect.New(p.Elem().Type().Elem()))
			if depth > -4 {
				f.fill(p.Elem().Elem(), depth-1, elem)
			}
		} else if depth > -4 {
			f.fill(p.Elem(), depth-1, elem)
		}
		if x, ok := p.Interface().(*time.Time); ok && pinTimes && x.Location() == time.Local {
			*x = x.UTC()
		}
		v.Set(p)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(hookRT{}) {
			v.Field(0).SetString(genString(t))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			f.fill(v.Field(i), depth-1, false)
		}
	}
}

// ---- observing Go values ----

type fieldOpt struct{ omitZero, omitFalse, allowEmpty bool }

const absent = "~"

// canon is the content of a value with the distinctions removed that the
// encoding does not promise to keep: nil, empty and absent are one (for
// fields whose tags allow omission), times have microseconds, -0 is 0.
func canon(v reflect.Value, o fieldOpt) string {
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			if x.IsZero() {
				return absent
			}
			return strconv.FormatInt(x.Truncate(time.Microsecond).UnixMicro(), 10) + "us"
		case tristate.TriState:
			if x == "" {
				return absent
			}
			return "tri-" + string(x)
		case jsonutils.JSONDict:
			return canonHeld(&x)
		case jsonutils.JSONArray:
			return canonHeld(&x)
		case jsonutils.JSONString:
			return canonHeld(&x)
		case jsonutils.JSONInt:
			return canonHeld(&x)
		case jsonutils.JSONFloat:
			return canonHeld(&x)
		case jsonutils.JSONBool:
			return canonHeld(&x)
		case jsonutils.JSONObject:
			if v.Kind() == reflect.Ptr && v.IsNil() {
				return absent
			}
			return canonDoc(x)
		case hookRT:
			return "hook" + strconv.Quote(x.S)
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if !v.Bool() && o.omitFalse {
			return absent
		}
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 && o.omitZero {
			return absent
		}
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 0 && o.omitZero {
			return absent
		}
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		if v.Float() == 0 && o.omitZero {
			return absent
		}
		if v.Float() == 0 {
			return "0"
		}
		return strconv.FormatUint(math.Float64bits(v.Float()), 16) + "f"
	case reflect.String:
		if v.Len() == 0 && !o.allowEmpty {
			return absent
		}
		return strconv.Quote(v.String())
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return absent
		}
		var sb strings.Builder
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(canon(v.Index(i), fieldOpt{}))
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
		return sb.String()
	case reflect.Map:
		if v.Len() == 0 {
			return absent
		}
		var l []string
		for _, k := range mapKeys(v) { // in order: reading documents takes simulated steps
			l = append(l, strconv.Quote(k.String())+":"+canon(v.MapIndex(k), fieldOpt{}))
		}
		sort.Strings(l)
		return "map{" + strings.Join(l, ",") + "}"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return absent
		}
		return canon(v.Elem(), o)
	case reflect.Struct:
		var sb strings.Builder
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if sf.PkgPath != "" {
				continue
			}
			j := sf.Tag.Get("json")
			if j == "-" && !sf.Anonymous {
				continue
			}
			var fo fieldOpt
			for k, x := range strings.Split(j, ",") {
				if k > 0 {
					switch x {
					case "omitzero":
						fo.omitZero = true
					case "omitfalse":
						fo.omitFalse = true
					case "allowempty":
						fo.allowEmpty = true
					}
				}
			}
			fv := v.Field(i)
			if sf.Anonymous && fv.Kind() == reflect.Ptr && fv.IsNil() {
				fv = reflect.New(fv.Type().Elem())
			}
			c := canon(fv, fo)
			if c == absent {
				continue
			}
			sb.WriteString(sf.Name + ":" + c + ";")
		}
		if sb.Len() == 0 {
			return absent
		}
		return "{" + sb.String() + "}"
	}
	return "?" + v.Type().String()
}

// canonHeld is for documents held by value: they count as absent when empty.
func canonHeld(o jsonutils.JSONObject) string {
	c := canonDoc(o)
	switch c {
	case canonDoc(jsonutils.NewDict()), canonDoc(jsonutils.NewArray()), canonDoc(jsonutils.NewString("")), canonDoc(jsonutils.NewInt(0)), canonDoc(jsonutils.NewFloat64(0)), canonDoc(jsonutils.JSONFalse):
		return absent
	}
	return c
}

func canonDoc(o jsonutils.JSONObject) string {
	s := ObsNorm(o)
	if s == "N" {
		return absent
	}
	return "doc" + s
}

// dump is the complete content of a Go value, for before/after comparisons.
func dump(v reflect.Value) string {
	d := dumper{seen: map[uintptr]int{}}
	d.val(v)
	return d.sb.String()
}

func dumpI(x interface{}) string { return dump(reflect.ValueOf(x)) }

type dumper struct {
	sb   strings.Builder
	seen map[uintptr]int
}

func (d *dumper) doc(o jsonutils.JSONObject) { obsObj(&d.sb, o, false, 0) }

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.sb.WriteString("nil!")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			fmt.Fprintf(&d.sb, "time%d", x.UnixNano())
			if x.IsZero() {
				d.sb.WriteString("z")
			}
			return
		case jsonutils.JSONDict:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONArray:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONString:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONInt:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONFloat:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONBool:
			d.sb.WriteString("v")
			d.doc(&x)
			return
		case jsonutils.JSONObject:
			if v.Kind() == reflect.Ptr && v.IsNil() {
				d.sb.WriteString("nildoc")
				return
			}
			d.doc(x)
			return
		case error:
			if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
				d.sb.WriteString("err(" + x.Error() + ")")
				return
			}
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(&d.sb, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		d.sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.String:
		d.sb.WriteString(strconv.Quote(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			d.sb.WriteString("nils")
			return
		}
		fallthrough
	case reflect.Array:
		d.sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			d.sb.WriteString("nilm")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(&d.sb, "^%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		type kv struct {
			k string
			v reflect.Value
		}
		var l []kv
		for _, k := range mapKeys(v) {
			l = append(l, kv{dump(k), v.MapIndex(k)})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		d.sb.WriteString("map{")
		for _, e := range l {
			d.sb.WriteString(e.k + ":")
			d.val(e.v)
			d.sb.WriteByte(',')
		}
		d.sb.WriteByte('}')
	case reflect.Ptr:
		if v.IsNil() {
			d.sb.WriteString("nilp")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok && v.Elem().Kind() == reflect.Struct {
			fmt.Fprintf(&d.sb, "^%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.sb.WriteByte('&')
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nili")
			return
		}
		d.sb.WriteString("i:")
		d.val(v.Elem())
	case reflect.Struct:
		d.sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.sb.WriteString(v.Type().Field(i).Name + ":")
			d.val(v.Field(i))
			d.sb.WriteByte(';')
		}
		d.sb.WriteByte('}')
	default:
		fmt.Fprintf(&d.sb, "?%s", v.Type())
	}
}

// ---- types to decode a document into ----

func tagKey(k string) bool {
	if k == "" || k == "-" || len(k) > 40 {
		return false
	}
	for i := 0; i < len(k); i++ {
		c := k[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return true
}

var anyTarget = []reflect.Type{tObj, tAny, tString, tInt, tUint8, tF32, tBool, tTime, tTri, reflect.TypeOf(&E1{}), reflect.TypeOf(E5{}), reflect.TypeOf(Tree{}),
	reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[int]string{}),
	reflect.TypeOf(hookU{}), reflect.TypeOf(&hookU{}), reflect.TypeOf(hookRT{}), reflect.TypeOf(afterT{}), reflect.TypeOf([3]int{}), reflect.TypeOf([]byte{}),
	reflect.TypeOf(map[string]jsonutils.JSONObject{}), reflect.TypeOf([]jsonutils.JSONObject{}), reflect.TypeOf((**E1)(nil)), reflect.TypeOf(make(chan int)), reflect.TypeOf(complex(1, 1)),
	tErrorType, reflect.TypeOf(json.RawMessage{}), reflect.TypeOf([]Tree{}), reflect.TypeOf(map[string]*Tree{}), reflect.TypeOf((func())(nil)), reflect.TypeOf(struct{}{}), reflect.TypeOf((*int)(nil))}

// typeFor draws a type to decode v into: usually one that fits.
func typeFor(t *Tape, v *V, depth int) reflect.Type {
	if t.G(14) == 13 {
		return anyTarget[t.G(len(anyTarget))]
	}
	switch t.G(10) {
	case 8:
		return tObj
	case 9:
		return docTypes[t.G(len(docTypes))]
	}
	if depth <= 0 {
		return tObj
	}
	switch v.K {
	case KNull:
		return []reflect.Type{tObj, reflect.TypeOf((*int)(nil)), tString, reflect.TypeOf(&E1{}), reflect.TypeOf([]int{})}[t.G(5)]
	case KBool:
		return []reflect.Type{tBool, tTri, tString, tInt, tAny, tBoolP, tBoolP.Elem(), reflect.TypeOf((*bool)(nil)), reflect.TypeOf(nBool(false)), tUint8, tF64}[t.G(11)]
	case KInt:
		return []reflect.Type{tInt, tInt64, tString, tF64, tBool, tAny, tIntP, tIntP.Elem(), reflect.TypeOf((*int)(nil)), tUint8, tInt8, tUint64, tF32, tStrP, tTri, reflect.TypeOf(nInt(0))}[t.G(16)]
	case KFloat:
		return []reflect.Type{tF64, tF32, tString, tInt, tAny, tFloatP, tFloatP.Elem(), tIntP, tBool, tBoolP.Elem(), tUint, tStrP, reflect.TypeOf((*float64)(nil))}[t.G(13)]
	case KStr:
		return []reflect.Type{tString, reflect.TypeOf(nStr("")), tAny, tStrP, tStrP.Elem(), reflect.TypeOf((*string)(nil)), tTime, tInt, tF64, tBool, tBoolP, tTri, reflect.TypeOf([]string{}), tUint16, reflect.TypeOf(hookU{}), reflect.TypeOf(&hookU{})}[t.G(16)]
	case KArr:
		et := tObj
		if len(v.A) > 0 {
			et = typeFor(t, v.A[t.G(len(v.A))], depth-1)
		}
		switch t.G(7) {
		case 0, 1, 2, 3:
			return reflect.SliceOf(et)
		case 4:
			if len(v.A) < 40 {
				return reflect.ArrayOf(len(v.A), et)
			}
			return reflect.SliceOf(et)
		case 5:
			return []reflect.Type{tArrP, tArrP.Elem(), tString, tAny}[t.G(4)]
		default:
			return reflect.PtrTo(reflect.SliceOf(et))
		}
	default:
		switch t.G(8) {
		case 0:
			et := tObj
			if len(v.O) > 0 {
				et = typeFor(t, v.O[t.G(len(v.O))].V, depth-1)
			}
			return reflect.MapOf([]reflect.Type{tString, reflect.TypeOf(nKey(""))}[t.G(2)], et)
		case 1:
			return []reflect.Type{tDictP, tDictP.Elem(), tString, reflect.TypeOf(map[string]string{}), reflect.TypeOf(afterT{}), reflect.TypeOf(hookU{})}[t.G(6)]
		}
		var fs []reflect.StructField
		for i, kv := range v.O {
			if !tagKey(kv.K) || t.G(6) == 5 {
				continue
			}
			if len(fs) >= 12 {
				break
			}
			key, more := kv.K, ""
			ft := typeFor(t, kv.V, depth-1)
			switch t.G(12) {
			case 9: // found by the less strict match only
				key = strings.ToUpper(key)
			case 10: // renamed, the new name is that of another member or of none
				to := v.O[t.G(len(v.O))].K
				if !tagKey(to) {
					to = "fresh"
				}
				more = ` yunion-deprecated-by:"` + to + `"`
			case 11: // renamed, to a field of its own
				to := fmt.Sprintf("to%d", i)
				more = ` yunion-deprecated-by:"` + to + `"`
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("T%d", i), Type: ft, Tag: reflect.StructTag(`json:"` + to + `"`)})
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(`json:"` + key + `"` + more)})
		}
		st := reflect.StructOf(fs)
		if t.G(3) == 2 {
			return reflect.PtrTo(st)
		}
		return st
	}
}
