package main

import (
	"fmt"
	"reflect"
	"time"

	"yunion.io/x/jsonutils"
)

// C14: typed records are encoded, rendered, carried over a faulty network or
// a log re-read after crashes, and decoded into fresh values of their type.

func init() { register("C14", 400_000_000, runC14) }

type typedRec struct {
	typ  reflect.Type
	want string
	text string
}

// docReader reads documents incrementally; it hands each on exactly once.
type docReader struct {
	r     *Run
	ends  []int
	next  int
	pos   int
	base  int
	keep  int
	onDoc func(i int, o jsonutils.JSONObject)
}

func (s *docReader) Crash() int {
	s.base = s.pos
	if s.keep > 0 {
		s.base -= s.r.T.F(min(s.keep, s.pos) + 1)
	}
	return s.base
}

func (s *docReader) Data(buf []byte, end bool) {
	for !s.r.Failed() {
		off := s.pos - s.base
		if off >= len(buf) || off < 0 || s.next >= len(s.ends) {
			return
		}
		var o jsonutils.JSONObject
		var n int
		var err error
		if p := call(func() { o, n, err = jsonutils.ParseStream(buf, off) }); p != "" {
			s.r.Fail("panic", "ParseStream(%q, %d) %s", clip(string(buf), off), off, p)
			return
		}
		if err != nil {
			if s.base+len(buf) >= s.ends[s.next] {
				s.r.Fail("lost", "record %d has arrived but reading %q from %d fails: %v", s.next, clip(string(buf), off), off, err)
			}
			return
		}
		if s.base+n != s.ends[s.next] {
			s.r.Fail("position", "record %d ends at %d but the reader returned %d", s.next, s.ends[s.next], s.base+n)
			return
		}
		i := s.next
		s.next++
		s.pos = s.base + n
		s.onDoc(i, o)
	}
}

func encode(all bool, x interface{}) jsonutils.JSONObject {
	if all {
		return jsonutils.MarshalAll(x)
	}
	return jsonutils.Marshal(x)
}

func runC14(r *Run) {
	t := r.T
	defer func() { time.Local = localZones[0] }()
	setZone(r, t.F(len(localZones)))
	var recs []typedRec
	var stream []byte
	var ends []int
	n := 1 + t.G(4)
	var typ reflect.Type
	for i := 0; i < n; i++ {
		if typ == nil || t.G(3) == 0 {
			switch t.G(4) {
			case 3:
				typ = staticTypes[t.G(6)]
			default:
				typ = genStruct(t, 1+t.G(4), 1+t.Size(10))
			}
		}
		all := t.G(3) == 2
		if t.G(4) == 3 && !bareValue(r, all) {
			return
		}
		p := reflect.New(typ)
		fillValue(t, p.Elem(), all)
		before := dump(p)
		want := canon(p.Elem(), fieldOpt{})
		var doc jsonutils.JSONObject
		var text string
		byValue := t.G(4) == 3
		if pn := call(func() {
			if byValue {
				doc = encode(all, p.Elem().Interface())
			} else {
				doc = encode(all, p.Interface())
			}
			if t.G(3) == 2 {
				text = doc.PrettyString()
			} else {
				text = doc.String()
			}
		}); pn != "" {
			r.Fail("panic", "encoding a %s %s: %s", typ, before, pn)
			return
		}
		if after := dump(p); after != before {
			r.Fail("changed", "encoding changed the %s value from %s to %s", typ, before, after)
			return
		}
		r.Log("record %d: %s all=%v value %s text %q", i, typ, all, want, text)
		r.H(text)
		if len(text) > 30000 {
			r.Count("skipped_long")
			continue
		}
		if _, ok := doc.(*jsonutils.JSONDict); !ok {
			r.Fail("kind", "a %s was encoded as %T: %s", typ, doc, text)
			return
		}
		// in-memory decode first: document to fresh value
		if !checkDecode(r, "directly", doc, typ, want, text) {
			return
		}
		if i > 0 {
			stream = append(stream, []string{"", "\n", " "}[t.G(3)]...)
		}
		stream = append(stream, text...)
		ends = append(ends, len(stream))
		recs = append(recs, typedRec{typ, want, text})
	}
	r.Nontrivial = len(stream) > 10
	rd := &docReader{r: r, ends: ends, keep: []int{0, 0, 5, 1000}[t.F(4)]}
	rd.onDoc = func(i int, o jsonutils.JSONObject) {
		setZone(r, t.F(len(localZones)))
		checkDecode(r, fmt.Sprintf("record %d from the wire", i), o, recs[i].typ, recs[i].want, recs[i].text)
	}
	if !transfer(r, stream, []int{0, 10, 60}[t.F(3)], rd) {
		r.Count("unfinished")
		return
	}
	if !r.Failed() && rd.next != len(recs) {
		r.Fail("liveness", "only %d of %d records were read", rd.next, len(recs))
	}
}

// bareValue sends a value that is not in a structure.
func bareValue(r *Run, all bool) bool {
	t := r.T
	typ := genTyp(t, t.G(3), true)
	if typ.Kind() == reflect.Interface || typ.Kind() == reflect.Struct && isDoc(typ) {
		typ = tInt
	}
	p := reflect.New(typ)
	fillValue(t, p.Elem(), all)
	want := canon(p.Elem(), fieldOpt{})
	var doc, back jsonutils.JSONObject
	var text string
	var err error
	if pn := call(func() {
		if t.G(2) == 1 {
			doc = encode(all, p.Elem().Interface())
		} else {
			doc = encode(all, p.Interface())
		}
		text = doc.String()
		back, err = jsonutils.ParseString(text)
	}); pn != "" || err != nil {
		r.Fail("panic", "encoding a bare %s %s as %s: %v %s", typ, want, clip(text, 0), err, pn)
		return false
	}
	r.Log("bare %s: %s", typ, clip(text, 0))
	r.H(text)
	r.Count("bare_" + typ.Kind().String())
	return checkDecode(r, "bare", doc, typ, want, text) && checkDecode(r, "bare from text", back, typ, want, text)
}

func checkDecode(r *Run, how string, o jsonutils.JSONObject, typ reflect.Type, want, text string) bool {
	q := reflect.New(typ)
	var err error
	if pn := call(func() { err = o.Unmarshal(q.Interface()) }); pn != "" {
		r.Fail("panic", "%s: decoding %q into %s: %s", how, clip(text, 0), typ, pn)
		return false
	}
	if err != nil {
		r.Fail("error", "%s: decoding %q into %s: %v", how, clip(text, 0), typ, err)
		return false
	}
	if got := canon(q.Elem(), fieldOpt{}); got != want {
		r.Fail("content", "%s: %s\n was %s\n now %s\n text %s", how, typ, want, got, clip(text, 0))
		return false
	}
	return true
}
