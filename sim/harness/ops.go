package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"yunion.io/x/jsonutils"
)

// A reading operation on a document. It returns observers of what it handed
// out, which are evaluated at once and again after all tasks have ended.
type readOp struct {
	name string
	f    func(d jsonutils.JSONObject) func() string
}

func txt(s string) func() string { return func() string { return s } }

func errText(e error) string {
	if e == nil {
		return "ok"
	}
	return "err:" + e.Error()
}

// path draws a path of keys: mostly existing ones.
func genPath(t *Tape, v *V) []string {
	var p []string
	for depth := 0; depth < 4; depth++ {
		switch v.K {
		case KDict:
			if len(v.O) == 0 || t.G(5) == 4 {
				return p
			}
			kv := v.O[t.G(len(v.O))]
			k := kv.K
			switch t.G(12) {
			case 10:
				k = strings.ToUpper(k)
			case 11:
				k = k + "x"
			}
			p = append(p, k)
			v = kv.V
		case KArr:
			if len(v.A) == 0 || t.G(5) == 4 {
				return p
			}
			i := t.G(len(v.A))
			p = append(p, fmt.Sprint(i))
			v = v.A[i]
		default:
			if t.G(10) == 9 {
				p = append(p, "zz")
			}
			return p
		}
	}
	return p
}

func lookup(v *V, p []string) *V {
	for _, k := range p {
		if v == nil || v.K != KDict {
			return nil
		}
		v = v.Get(k)
	}
	return v
}

// scribble overwrites everything reachable in a Go value the caller owns,
// except through documents.
func scribble(v reflect.Value, depth int) {
	if depth > 30 || !v.IsValid() {
		return
	}
	if v.CanInterface() {
		if _, ok := v.Interface().(jsonutils.JSONObject); ok && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Map:
		var held []reflect.Value
		for _, k := range mapKeys(v) {
			held = append(held, v.MapIndex(k))
		}
		// after this map, which may be reached again from what it held
		defer func() {
			for _, x := range held {
				scribble(x, depth+1)
			}
		}()
		if !v.IsNil() {
			if v.Type().Key().Kind() == reflect.String {
				v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
			}
			for _, k := range mapKeys(v) {
				v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
			if v.Index(i).CanSet() {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
		// also what lies between length and capacity
		if v.Cap() > v.Len() {
			w := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				w.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i), depth+1)
				if v.Type().Field(i).Type.Kind() != reflect.Struct {
					v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
				}
			}
		}
	default:
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

func sortedMapDump(m map[string]jsonutils.JSONObject) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q:%s,", k, Obs(m[k]))
	}
	return sb.String()
}

func listDump(l []jsonutils.JSONObject) string {
	var sb strings.Builder
	for _, x := range l {
		sb.WriteString(Obs(x) + ",")
	}
	return sb.String()
}

// genReadOp draws an operation for a document with content v. other builds a
// document of the caller's own. scr allows the caller to overwrite what it was
// given for its own.
func genReadOp(t *Tape, v *V, other *V, scr bool) readOp {
	p := genPath(t, v)
	ps := fmt.Sprintf("%q", p)
	at := t.G(6)
	num := func(name string, f func(d jsonutils.JSONObject) (interface{}, error)) readOp {
		return readOp{name + ps, func(d jsonutils.JSONObject) func() string {
			x, err := f(d)
			return txt(fmt.Sprintf("%v %s", x, errText(err)))
		}}
	}
	doc := func(name string, f func(d jsonutils.JSONObject) (jsonutils.JSONObject, error)) readOp {
		return readOp{name + ps, func(d jsonutils.JSONObject) func() string {
			x, err := f(d)
			if err != nil {
				return txt(errText(err))
			}
			return func() string { return Obs(x) }
		}}
	}
	dict := func(d jsonutils.JSONObject) *jsonutils.JSONDict {
		if x, ok := d.(*jsonutils.JSONDict); ok {
			return x
		}
		x := jsonutils.NewDict()
		x.Set("top", d)
		return x
	}
	scrib := scr && t.G(3) == 2
	switch t.G(50) {
	case 46, 47, 48, 49:
		k, self := t.G(20), t.G(2)
		return readOp{fmt.Sprintf("sweep%d", k), func(d jsonutils.JSONObject) func() string {
			var sb strings.Builder
			n := 0
			sweep(d, 0, func(o jsonutils.JSONObject) {
				if n++; n <= 80 {
					probeNode(&sb, o, d, k, self == 1)
				}
			})
			return txt(sb.String())
		}}
	default:
		return readOp{"String", func(d jsonutils.JSONObject) func() string { return txt(d.String()) }}
	case 1:
		return readOp{"PrettyString", func(d jsonutils.JSONObject) func() string { return txt(d.PrettyString()) }}
	case 2:
		return readOp{"YAMLString", func(d jsonutils.JSONObject) func() string { return txt(yamlText(d)) }}
	case 3:
		return readOp{"QueryString", func(d jsonutils.JSONObject) func() string { return txt(d.QueryString()) }}
	case 4, 5:
		return doc("Get", func(d jsonutils.JSONObject) (jsonutils.JSONObject, error) { return d.Get(p...) })
	case 6:
		return doc("GetIgnoreCases", func(d jsonutils.JSONObject) (jsonutils.JSONObject, error) { return d.GetIgnoreCases(p...) })
	case 7:
		return num("Contains", func(d jsonutils.JSONObject) (interface{}, error) {
			return fmt.Sprint(d.Contains(p...), d.ContainsIgnoreCases(p...)), nil
		})
	case 8:
		return num("GetString", func(d jsonutils.JSONObject) (interface{}, error) { return d.GetString(p...) })
	case 9:
		return num("Int", func(d jsonutils.JSONObject) (interface{}, error) { return d.Int(p...) })
	case 10:
		return num("Float", func(d jsonutils.JSONObject) (interface{}, error) { return d.Float(p...) })
	case 11:
		return num("Bool", func(d jsonutils.JSONObject) (interface{}, error) { return d.Bool(p...) })
	case 12:
		return num("GetTime", func(d jsonutils.JSONObject) (interface{}, error) {
			x, err := d.GetTime(p...)
			return x.UnixNano(), err
		})
	case 13, 14:
		return readOp{"GetArray" + ps, func(d jsonutils.JSONObject) func() string {
			l, err := d.GetArray(p...)
			if err != nil {
				return txt(errText(err))
			}
			s := listDump(l)
			if scrib {
				scribble(reflect.ValueOf(l), 0)
				return txt(s)
			}
			return func() string { return listDump(l) }
		}}
	case 15, 16:
		return readOp{"GetMap" + ps, func(d jsonutils.JSONObject) func() string {
			m, err := d.GetMap(p...)
			if err != nil {
				return txt(errText(err))
			}
			s := sortedMapDump(m)
			if scrib {
				for k := range m {
					m[k] = jsonutils.NewString("mine")
				}
				m["mine"] = nil
				return txt(s)
			}
			return func() string { return sortedMapDump(m) }
		}}
	case 17:
		return doc(fmt.Sprintf("GetAt%d", at), func(d jsonutils.JSONObject) (jsonutils.JSONObject, error) { return d.GetAt(at, p...) })
	case 18:
		return readOp{"Interface", func(d jsonutils.JSONObject) func() string {
			x := d.Interface()
			s := dumpI(x)
			if scrib {
				scribble(reflect.ValueOf(x), 0)
				return txt(s)
			}
			return func() string { return dumpI(x) }
		}}
	case 19:
		return readOp{"IsZero,Length,Size", func(d jsonutils.JSONObject) func() string {
			s := fmt.Sprint(d.IsZero())
			switch x := d.(type) {
			case *jsonutils.JSONDict:
				s += fmt.Sprint(x.Length(), x.Size())
			case *jsonutils.JSONArray:
				s += fmt.Sprint(x.Length(), x.Size())
			case *jsonutils.JSONString:
				s += fmt.Sprint(x.Length())
			}
			return txt(s)
		}}
	case 20:
		return readOp{"SortedKeys", func(d jsonutils.JSONObject) func() string {
			l := dict(d).SortedKeys()
			s := fmt.Sprintf("%q", l)
			if scrib {
				scribble(reflect.ValueOf(l), 0)
				return txt(s)
			}
			return func() string { return fmt.Sprintf("%q", l) }
		}}
	case 21, 22:
		return readOp{"Value", func(d jsonutils.JSONObject) func() string {
			switch x := d.(type) {
			case *jsonutils.JSONDict:
				m := x.Value()
				s := sortedMapDump(m)
				if scrib {
					for k := range m {
						delete(m, k)
					}
					m["mine"] = jsonutils.JSONNull
					return txt(s)
				}
				return func() string { return sortedMapDump(m) }
			case *jsonutils.JSONArray:
				l := x.Value()
				s := listDump(l)
				if scrib {
					scribble(reflect.ValueOf(l), 0)
					return txt(s)
				}
				return func() string { return listDump(l) }
			}
			return txt(Obs(d))
		}}
	case 23, 24:
		return readOp{"DeepCopy", func(d jsonutils.JSONObject) func() string {
			c := jsonutils.DeepCopy(d)
			s := Obs(c)
			if scrib {
				editDeep(c, 0)
				return txt(s)
			}
			return func() string { return Obs(c) + c.String() }
		}}
	case 25, 26:
		return readOp{"Copy", func(d jsonutils.JSONObject) func() string {
			switch x := d.(type) {
			case *jsonutils.JSONDict:
				c := x.Copy()
				s := Obs(c)
				if scrib {
					editTop(c)
					return txt(s)
				}
				return func() string { return Obs(c) }
			case *jsonutils.JSONArray:
				c := x.Copy()
				s := Obs(c)
				if scrib {
					editTop(c)
					return txt(s)
				}
				return func() string { return Obs(c) }
			}
			return txt("")
		}}
	case 27:
		var ex []string
		for i := 0; i < 1+t.G(3) && len(v.O) > 0; i++ {
			ex = append(ex, v.O[t.G(len(v.O))].K)
		}
		k := t.G(3)
		return readOp{fmt.Sprintf("CopyPart%d%q", k, ex), func(d jsonutils.JSONObject) func() string {
			x := dict(d)
			var c *jsonutils.JSONDict
			switch k {
			case 0:
				c = x.Copy(ex...)
			case 1:
				c = x.CopyIncludes(ex...)
			default:
				c = x.CopyExcludes(ex...)
			}
			s := Obs(c)
			if scrib {
				editTop(c)
				return txt(s)
			}
			return func() string { return Obs(c) }
		}}
	case 28, 29:
		swap := t.G(2) == 1
		same := t.G(2) == 1
		return readOp{fmt.Sprintf("Equals swap=%v same=%v", swap, same), func(d jsonutils.JSONObject) func() string {
			var o jsonutils.JSONObject
			if same {
				o = v.Build()
			} else {
				o = other.Build()
			}
			if swap {
				return txt(fmt.Sprint(o.Equals(d)))
			}
			return txt(fmt.Sprint(d.Equals(o), d.Equals(d)))
		}}
	case 30, 31:
		k := t.G(3)
		return readOp{fmt.Sprintf("Diff%d", k), func(d jsonutils.JSONObject) func() string {
			x := dict(d)
			o := dict(other.Build())
			var a, b, c, e *jsonutils.JSONDict
			switch k {
			case 0:
				a, b, c, e = jsonutils.Diff(x, o)
			case 1:
				a, b, c, e = jsonutils.Diff(o, x)
			default:
				a, b, c, e = jsonutils.Diff(x, x)
			}
			f := func() string { return Obs(a) + Obs(b) + Obs(c) + Obs(e) }
			s := f()
			if scrib {
				editTop(a)
				editTop(b)
				editTop(c)
				editTop(e)
				return txt(s)
			}
			return f
		}}
	case 32, 33, 34, 35, 36:
		typ := typeFor(t, v, 4)
		return readOp{"Unmarshal " + clip(typ.String(), 0), func(d jsonutils.JSONObject) func() string {
			q := reflect.New(typ)
			err := d.Unmarshal(q.Interface())
			s := dump(q) + errText(err)
			if scrib {
				scribble(q, 0)
				return txt(s)
			}
			return func() string { return dump(q) + errText(err) }
		}}
	case 37:
		typ := tObj
		if sub := lookup(v, p); sub != nil {
			typ = typeFor(t, sub, 3)
		}
		return readOp{"Unmarshal" + ps + clip(typ.String(), 0), func(d jsonutils.JSONObject) func() string {
			q := reflect.New(typ)
			err := d.Unmarshal(q.Interface(), p...)
			return func() string { return dump(q) + errText(err) }
		}}
	case 38, 39, 40, 41:
		k := t.G(9)
		all := t.G(2) == 1
		return readOp{fmt.Sprintf("embed%d all=%v", k, all), func(d jsonutils.JSONObject) func() string {
			var x interface{}
			switch k {
			case 0:
				x = d
			case 1:
				x = struct {
					Doc jsonutils.JSONObject
					N   int
				}{d, 1}
			case 2:
				x = map[string]jsonutils.JSONObject{"x": d, "y": d}
			case 3:
				x = []jsonutils.JSONObject{d, d, jsonutils.NewInt(1)}
			case 4:
				switch y := d.(type) {
				case *jsonutils.JSONDict:
					x = *y
				case *jsonutils.JSONArray:
					x = *y
				default:
					x = d
				}
			case 5:
				switch y := d.(type) {
				case *jsonutils.JSONDict:
					x = struct{ Held *jsonutils.JSONDict }{y}
				case *jsonutils.JSONArray:
					x = struct{ Held *jsonutils.JSONArray }{y}
				default:
					x = &struct{ Held interface{} }{d}
				}
			case 6:
				x = map[string]interface{}{"i": d, "s": []interface{}{d}}
			case 7:
				switch y := d.(type) {
				case *jsonutils.JSONDict:
					x = struct{ Held jsonutils.JSONDict }{*y}
				default:
					x = &d
				}
			default:
				x = struct {
					A, B jsonutils.JSONObject
					P    *jsonutils.JSONObject
				}{d, d, &d}
			}
			m := encode(all, x)
			s := Obs(m) + m.String()
			if scrib {
				// a part of the new document of the caller's own; the shared
				// document itself may be the result
				if m != d && k != 0 {
					editTop(m)
				}
				return txt(s)
			}
			return func() string { return Obs(m) + m.String() }
		}}
	case 42, 43:
		k := t.G(6)
		return readOp{fmt.Sprintf("into own %d", k), func(d jsonutils.JSONObject) func() string {
			own := dict(other.Build())
			switch k {
			case 0:
				own.Update(d)
			case 1:
				own.UpdateDefault(d)
			case 2:
				own.Set("held", d)
				own.Add(d, "deep", "held")
			case 3:
				a := jsonutils.NewArray(d, d)
				a.Add(d)
				own.Set("list", a)
			case 4:
				own.Set("target", dict(other.Build()))
				up := jsonutils.NewDict()
				up.Set("target", d)
				own.Update(up)
			default:
				l, err := d.GetArray()
				if err == nil {
					own.Set("list", jsonutils.NewArray(l...))
				}
			}
			s := Obs(own)
			if scrib {
				editTop(own)
				return txt(s)
			}
			return func() string { return Obs(own) }
		}}
	case 44:
		k := t.G(6)
		key := "zz"
		if len(p) > 0 {
			key = p[0]
		}
		return readOp{fmt.Sprintf("helper%d %q", k, key), func(d jsonutils.JSONObject) func() string {
			switch k {
			case 0:
				return txt(errText(jsonutils.CheckRequiredFields(d, []string{key, "id"})))
			case 1:
				a, b := jsonutils.GetAnyString2(d, []string{"nope", key})
				return txt(jsonutils.GetAnyString(d, []string{"nope", key}) + "/" + a + "/" + b)
			case 2:
				return txt(fmt.Sprintf("%q", jsonutils.GetQueryStringArray(d, key)))
			case 3:
				l, err := jsonutils.GetStringArray(d, key)
				return txt(fmt.Sprintf("%q %s", l, errText(err)))
			case 4:
				return txt(fmt.Sprint(jsonutils.QueryBoolean(d, key, true)))
			default:
				l := jsonutils.GetArrayOfPrefix(d, key)
				return func() string { return listDump(l) }
			}
		}}
	case 45:
		typ := typeFor(t, v, 3)
		return readOp{"Update " + clip(typ.String(), 0), func(d jsonutils.JSONObject) func() string {
			q := reflect.New(typ)
			err := jsonutils.Update(q.Interface(), d)
			return func() string { return dump(q) + errText(err) }
		}}
	}
}

// editTop changes the members of a container the caller owns.
func editTop(o jsonutils.JSONObject) {
	switch x := o.(type) {
	case *jsonutils.JSONDict:
		if ks := x.SortedKeys(); len(ks) > 0 {
			x.Remove(ks[0])
			x.Set(ks[len(ks)-1], jsonutils.NewString("edited"))
			x.Set(ks[len(ks)/2], jsonutils.NewInt(7))
		}
		x.Set("aaa_edit", jsonutils.JSONTrue)
		x.Set("zzz_edit", jsonutils.JSONTrue)
	case *jsonutils.JSONArray:
		if n := x.Length(); n > 0 {
			x.SetAt(0, jsonutils.NewString("edited"))
			x.SetAt(n-1, jsonutils.NewString("edited"))
		}
		x.Add(jsonutils.JSONFalse)
	}
}

// editDeep changes every container below a document the caller owns alone.
func editDeep(o jsonutils.JSONObject, depth int) {
	if depth > 400 {
		return
	}
	switch x := o.(type) {
	case *jsonutils.JSONDict:
		for _, k := range x.SortedKeys() {
			if c, err := x.Get(k); err == nil {
				editDeep(c, depth+1)
			}
		}
	case *jsonutils.JSONArray:
		for i := 0; i < x.Length(); i++ {
			if c, err := x.GetAt(i); err == nil {
				editDeep(c, depth+1)
			}
		}
	}
	editTop(o)
}

// sweep visits every node of a document.
func sweep(o jsonutils.JSONObject, depth int, f func(o jsonutils.JSONObject)) {
	if depth > 400 || o == nil {
		return
	}
	f(o)
	switch x := o.(type) {
	case *jsonutils.JSONDict:
		for _, k := range x.SortedKeys() {
			if c, err := x.Get(k); err == nil {
				sweep(c, depth+1, f)
			}
		}
	case *jsonutils.JSONArray:
		for i := 0; i < x.Length(); i++ {
			if c, err := x.GetAt(i); err == nil {
				sweep(c, depth+1, f)
			}
		}
	}
}

// probeNode applies one accessor to a node.
func probeNode(sb *strings.Builder, o, top jsonutils.JSONObject, k int, self bool) {
	var x interface{}
	var err error
	switch k {
	default:
		tm, e := o.GetTime()
		x, err = tm.UnixNano(), e
	case 1:
		x, err = o.Int()
	case 2:
		x, err = o.Float()
	case 3:
		x, err = o.Bool()
	case 4:
		x, err = o.GetString()
	case 5:
		x = o.IsZero()
	case 6:
		x = o.String()
	case 7:
		x = o.PrettyString()
	case 8:
		x = o.QueryString()
	case 9:
		x = dumpI(o.Interface())
	case 10:
		l, e := o.GetArray()
		x, err = listDump(l), e
	case 11:
		m, e := o.GetMap()
		x, err = sortedMapDump(m), e
	case 12:
		other := top
		if self {
			other = o
		}
		x = fmt.Sprint(o.Equals(other), other.Equals(o))
	case 13:
		x = Obs(jsonutils.DeepCopy(o))
	case 14:
		switch y := o.(type) {
		case *jsonutils.JSONDict:
			x = fmt.Sprint(y.Length(), y.Size(), y.SortedKeys())
		case *jsonutils.JSONArray:
			x = fmt.Sprint(y.Length(), y.Size())
		case *jsonutils.JSONString:
			x = fmt.Sprint(y.Length(), y.Value())
		case *jsonutils.JSONInt:
			x = y.Value()
		case *jsonutils.JSONFloat:
			x = y.Value()
		case *jsonutils.JSONBool:
			x = y.Value()
		}
	case 15:
		x = jsonutils.Marshal(o).String()
	case 16:
		var v interface{}
		err = o.Unmarshal(&v)
		x = dumpI(v)
	case 17:
		var v string
		err = o.Unmarshal(&v)
		x = v
	case 18:
		var v struct {
			Name   string
			Status []string
			ID     jsonutils.JSONObject
		}
		err = o.Unmarshal(&v)
		x = dumpI(v)
	}
	fmt.Fprintf(sb, "%v %s;", x, errText(err))
}
