package main

import (
	"fmt"
	"strings"

	"yunion.io/x/jsonutils"
)

// C06: a writer sends documents one after another; a reader parses them
// incrementally from what has arrived so far, over a faulty connection or from
// a log that grows, with crashes and restarts on both sides.

func init() { register("C06", 400_000_000, runC06) }

type record struct {
	v          *V
	text       string
	start, end int // in the stream
}

func isScalar(v *V) bool { return v.K != KDict && v.K != KArr && v.K != KStr }

// genStream draws documents and writes them in drawn spellings.
func genStream(r *Run, n int) (recs []record, stream []byte) {
	t := r.T
	for i := 0; i < n; i++ {
		v := genDoc(t, genOpt{oddKeys: true, maxNodes: 50, f32: true, huge: true}, -1)
		form := t.G(4)
		var text string
		if p := call(func() {
			switch form {
			case 0:
				text = v.Build().String()
			case 1:
				text = v.BuildShuffled(t).PrettyString()
			case 2:
				text = v.Spell(t)
			default:
				text = v.Text()
			}
		}); p != "" {
			r.Fail("render", "rendering %s: %s", v.Text(), p)
			return
		}
		if len(text) > 20000 {
			r.Count("skipped_long")
			continue
		}
		if p := []string{"", " ", "\n", "\r\n\t ", "\n\n"}[t.G(5)]; i > 0 || t.G(4) == 3 {
			stream = append(stream, p...)
		}
		if n := len(recs); n > 0 && isScalar(recs[n-1].v) && len(stream) == recs[n-1].end {
			stream = append(stream, '\n')
		}
		rec := record{v: v, text: text, start: len(stream)}
		stream = append(stream, text...)
		rec.end = len(stream)
		recs = append(recs, rec)
		r.Log("record %d at %d..%d: %q", len(recs)-1, rec.start, rec.end, text)
	}
	if t.G(2) == 1 || (len(recs) > 0 && isScalar(recs[len(recs)-1].v)) {
		stream = append(stream, '\n')
	}
	return
}

// streamReader reads documents incrementally.
type streamReader struct {
	r    *Run
	recs []record
	next int // durable: records handed on
	pos  int // durable: position of the next read
	base int // stream position of buf[0]
	keep int // how much of the past a restarted reader sees again
}

func (s *streamReader) Crash() int {
	s.base = s.pos
	if s.keep > 0 {
		s.base -= s.r.T.F(min(s.keep, s.pos) + 1)
	}
	return s.base
}

// Data tries to read on with all bytes received since the last restart.
func (s *streamReader) Data(buf []byte, end bool) {
	r := s.r
	input := string(buf)
	for !r.Failed() {
		off := s.pos - s.base
		if off >= len(buf) || off < 0 {
			break
		}
		var o jsonutils.JSONObject
		var n int
		var err error
		if p := call(func() { o, n, err = jsonutils.ParseStream(buf, off) }); p != "" {
			r.Fail("panic", "ParseStream(%q, %d) %s", clip(input, off), off, p)
			return
		}
		if err != nil {
			// must be for want of bytes
			if s.next < len(s.recs) && s.base+len(buf) >= s.recs[s.next].end {
				r.Fail("lost", "record %d (%q) has arrived completely but reading from %d fails: %v", s.next, s.recs[s.next].text, off, err)
			}
			if o != nil {
				r.Fail("both", "ParseStream returned a document with error %v", err)
			}
			break
		}
		if s.next >= len(s.recs) {
			r.Fail("extra", "reading %q from %d gives %s after the last record", clip(input, off), off, Obs(o))
			return
		}
		rec := s.recs[s.next]
		if n >= len(buf) && !end && isScalar(rec.v) {
			break // a number may go on in the next packet
		}
		if s.base+len(buf) < rec.end {
			r.Fail("early", "record %d accepted with only %d of %d bytes: %q gives %s", s.next, s.base+len(buf)-rec.start, len(rec.text), clip(input, off), Obs(o))
			return
		}
		if got, want := ObsNorm(o), rec.v.Norm(); got != want {
			r.Fail("content", "record %d written as %q is read as %s, want %s", s.next, rec.text, got, want)
			return
		}
		if s.base+n != rec.end {
			r.Fail("position", "record %d (%q at %d) ends at %d but the reader returned position %d", s.next, rec.text, rec.start, rec.end, s.base+n)
			return
		}
		r.H(rec.text)
		r.Log("read record %d, position %d", s.next, s.base+n)
		s.next++
		s.pos = s.base + n
	}
	if string(buf) != input {
		r.Fail("input", "the reader changed its input %q to %q", input, buf)
	}
}

func clip(s string, off int) string {
	if len(s) > 600 {
		if off > 100 {
			s = "..." + s[off-100:]
		}
		if len(s) > 600 {
			s = s[:600] + "..."
		}
	}
	return s
}

// crowd reads one record holding very many small containers, within one document or over
// a whole log: what a reader counts while it descends it has to give back on the way out.
func crowd(r *Run) {
	t := r.T
	small := make([]*V, 1+t.G(4))
	for i := range small {
		small[i] = []*V{{K: KArr}, {K: KDict}, {K: KArr, A: []*V{vInt(1)}}, vDict(KV{"a", vInt(1)}), {K: KArr, A: []*V{{K: KArr}}}, vDict(KV{"", vDict()})}[t.G(6)]
	}
	v := &V{K: KArr}
	dict := t.G(2) == 1
	if dict {
		v = &V{K: KDict}
	}
	n := []int{130, 1100, 4200, 10500, 33000}[t.G(5)]
	for i := 0; i < n; i++ {
		c := small[i%len(small)]
		if dict {
			v.O = append(v.O, KV{fmt.Sprintf("%06d", i), c})
		} else {
			v.A = append(v.A, c)
		}
	}
	if t.G(3) == 2 {
		// or of one long text, with every kind of character at every place
		units := []string{"x", "0123456789", "line\n", "\n", "\x01", "\"", "\\", "é", "😀", "\xff", "\t\t", "</", "\x7f", "\u2028"}
		unit := units[t.G(len(units))]
		if t.G(2) == 1 {
			unit = strings.Repeat(unit, 1+t.G(5)) + units[t.G(len(units))]
		}
		n = []int{512, 1024, 4096, 8192, 16384, 32768, 65536, 131072}[t.G(8)] + t.G(4) + t.G(2)*t.G(5000)
		text := strings.Repeat(unit, n/len(unit)+1)[:n]
		v = vArr(vStr(text), vInt(1))
		if t.G(2) == 1 {
			v = vDict(KV{text, vArr()}, KV{"b", vStr(text[1:])})
		}
		r.Count("long_text")
	}
	var text string
	if p := call(func() { text = []func() string{v.Text, v.Build().String, v.Build().PrettyString}[t.G(3)]() }); p != "" {
		r.Fail("render", "rendering a large record %s", p)
		return
	}
	log := text + "\n" + text + "\n"
	r.Count("crowd")
	r.Log("a record of %d small containers", n)
	pos := 0
	for i := 0; i < 2; i++ {
		var o jsonutils.JSONObject
		var err error
		from := pos
		if p := call(func() { o, pos, err = jsonutils.ParseStream([]byte(log), from) }); p != "" {
			r.Fail("panic", "ParseStream of a record of %d containers %s", n, p)
			return
		}
		if err != nil {
			r.Fail("lost", "a record of %d containers side by side cannot be read from %d: %v", n, from, err)
			return
		}
		if got, want := ObsNorm(o), v.Norm(); got != want {
			r.Fail("content", "a record of %d containers or bytes %s is read as %s", n, clip(text, 0), clip(got, 0))
			return
		}
		if pos != from+len(text) && pos != from+len(text)+1 {
			r.Fail("position", "a record of %d containers ends at %d, the reader says %d", n, from+len(text), pos)
			return
		}
	}
}

func runC06(r *Run) {
	t := r.T
	if t.G(150) == 1 {
		crowd(r)
		if r.Failed() {
			return
		}
	}
	recs, stream := genStream(r, 1+t.Size(12))
	if r.Failed() {
		return
	}
	r.Nontrivial = len(recs) > 0
	rd := &streamReader{r: r, recs: recs, keep: []int{0, 0, 3, 1000}[t.F(4)]}
	if !transfer(r, stream, []int{0, 10, 60, 300}[t.F(4)], rd) {
		r.Count("unfinished")
		return
	}
	if r.Failed() {
		return
	}
	if rd.next != len(recs) {
		r.Fail("liveness", "all %d bytes have arrived and faults have stopped, but only %d of %d records were read", len(stream), rd.next, len(recs))
	}
	// the log once more from the start, and each document alone
	again := &streamReader{r: r, recs: recs}
	again.Data(stream, true)
	if !r.Failed() && again.next != len(recs) {
		r.Fail("reread", "reading the log again stops after record %d of %d", again.next, len(recs))
	}
	for i, rec := range recs {
		if r.Failed() {
			return
		}
		if p := call(func() {
			o, err := jsonutils.ParseString(rec.text)
			if err != nil {
				r.Fail("alone", "record %d %q alone: %v", i, rec.text, err)
			} else if got := ObsNorm(o); got != rec.v.Norm() {
				r.Fail("content", "record %d %q alone is read as %s, want %s", i, rec.text, got, rec.v.Norm())
			}
		}); p != "" {
			r.Fail("panic", "Parse(%q) %s", rec.text, p)
		}
	}
}
