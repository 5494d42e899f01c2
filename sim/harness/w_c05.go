package main

import (
	"fmt"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C05: a writer appends documents to a log; a crash leaves any prefix of the
// last write (followed by whatever blank fill the storage put there).

func init() { register("C05", 600_000_000, runC05) }

const callBudget = 300_000_000

// call runs f with a step budget of its own and turns a panic into text.
func call(f func()) (p string) { return callN(callBudget, f) }

func callN(budget uint64, f func()) (p string) {
	simrt.Extend(budget)
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

func runC05(r *Run) {
	t := r.T
	o := genOpt{oddKeys: true, maxNodes: 40, f32: true, huge: true}
	v := genDoc(t, o, -1)
	if v.K != KDict && v.K != KArr {
		v = vStr(genString(t))
	}
	doc := v.Build()
	form := t.G(3)
	text := doc.String()
	switch {
	case form == 1:
		text = doc.PrettyString()
	case form == 2:
		if d, ok := doc.(*jsonutils.JSONDict); ok {
			// a rendering with node references
			inner := jsonutils.NewDict()
			inner.Set("in", d)
			text = inner.PrettyString()
		}
	}
	if len(text) > 6000 {
		text = v.Text()
		if len(text) > 6000 {
			r.Count("skipped_long")
			return
		}
	}
	// earlier complete records of the same log
	log := ""
	var first []string
	for n := t.G(3); n > 0; n-- {
		e := genDoc(t, genOpt{maxNodes: 6, oddKeys: true}, int([]Kind{KDict, KArr}[t.G(2)]))
		log += e.Text() + []string{"", "\n", " "}[t.G(3)]
		first = append(first, e.Norm())
	}
	r.Log("log prefix %q, record %q", log, text)
	fill := []string{"", " ", "\n", "\r\n", "\t \n", strings.Repeat(" ", 64), "\n\n\n\n"}[t.F(7)]
	// the set of cut points: every byte for short texts, every byte of both
	// ends and a drawn stride in between for long ones
	stride := 1
	if len(text) > 1200 {
		stride = 1 + t.F(7)
	}
	r.Nontrivial = len(text) > 2
	for cut := 0; cut < len(text); cut++ {
		if stride > 1 && cut > 150 && cut < len(text)-150 && cut%stride != 0 {
			continue
		}
		r.Fault("torn_write")
		if fill != "" {
			r.Fault("blank_fill")
		}
		in := text[:cut] + fill
		var o1 jsonutils.JSONObject
		var e1 error
		if p := call(func() { o1, e1 = jsonutils.ParseString(in) }); p != "" {
			r.Fail("panic", "cut at %d of %d: Parse(%q) %s", cut, len(text), in, p)
			return
		}
		if e1 == nil {
			r.Fail("accepted", "cut at %d of %d: Parse(%q) returned %s and no error", cut, len(text), in, Obs(o1))
			return
		}
		if o1 != nil {
			r.Fail("accepted", "cut at %d of %d: Parse(%q) returned a document along with error %v", cut, len(text), in, e1)
			return
		}
		if log == "" || cut%3 != 0 {
			continue
		}
		// the same cut at the end of a log, scanned as well at some places
		whole := []byte(log + in)
		off := 0
		for i := range first {
			d, n, err := jsonutils.ParseStream(whole, off)
			if err != nil {
				r.Fail("log", "complete record %d at %d of %q: %v", i, off, whole, err)
				return
			}
			if ObsNorm(d) != first[i] {
				r.Fail("log", "record %d at %d of %q reads %s, want %s", i, off, whole, ObsNorm(d), first[i])
				return
			}
			off = n
		}
		var o2 jsonutils.JSONObject
		var e2 error
		if p := call(func() { o2, _, e2 = jsonutils.ParseStream(whole, off) }); p != "" {
			r.Fail("panic", "ParseStream(%q,%d) %s", whole, off, p)
			return
		}
		if e2 == nil || o2 != nil {
			r.Fail("accepted", "ParseStream(%q,%d) accepted a torn record as %s", whole, off, Obs(o2))
			return
		}
		if len(text) > 1200 || cut%(1+len(text)/8) > 2 {
			continue
		}
		// scanning the log finds the complete records and, after them, nothing
		// that cannot be read from a bracket onwards
		var l []jsonutils.JSONObject
		if p := call(func() { l, _ = jsonutils.ParseJsonStreams(whole) }); p != "" {
			r.Fail("panic", "ParseJsonStreams(%q) %s", whole, p)
			return
		}
		r.Count("torn_log_scanned")
		var readable map[string]bool
		for i, d := range l {
			s := ObsNorm(d)
			if i < len(first) {
				if s != first[i] {
					r.Fail("log", "document %d of scanning %q is %s, want %s", i, whole, s, first[i])
					return
				}
				continue
			}
			if readable == nil {
				readable = map[string]bool{}
				for at := off; at < len(whole); at++ {
					if whole[at] == '{' || whole[at] == '[' {
						call(func() {
							if d, _, err := jsonutils.ParseStream(whole, at); err == nil {
								readable[ObsNorm(d)] = true
							}
						})
					}
				}
			}
			if !readable[s] {
				r.Fail("accepted", "scanning %q, whose last record is cut at %d of %d, returns %s", whole, cut, len(text), s)
				return
			}
		}
		if len(l) < len(first) {
			r.Fail("log", "scanning %q returns %d documents, %d are complete", whole, len(l), len(first))
			return
		}
	}
	r.H(text)
	// the complete text is accepted
	if d, err := jsonutils.ParseString(text + fill); err != nil {
		r.Fail("complete", "complete text %q rejected: %v", text+fill, err)
	} else {
		r.H(Obs(d))
	}
}
