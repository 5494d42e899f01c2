package main

import (
	"fmt"
	"strings"

	"yunion.io/x/jsonutils"
)

// C08: a process appends records to a log, one per line, and crashes again and
// again; only a prefix of what it was writing is on disk afterwards. The log is
// scanned at several points of its life.

const scanBudget = 4_000_000_000 // scanning reads on from every bracket of a record cut short

func init() { register("C08", scanBudget, runC08) }

// logString draws a string free of quotes and brackets.
func logString(t *Tape) string {
	s := genString(t)
	return strings.Map(func(c rune) rune {
		if strings.ContainsRune("\"'`{}[]", c) {
			return '_'
		}
		return c
	}, s)
}

func logKey(t *Tape) string {
	n := 1 + t.G(8)
	b := make([]byte, n)
	for i := range b {
		const c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
		if i == 0 {
			b[i] = c[t.G(53)]
		} else {
			b[i] = c[t.G(len(c))]
		}
	}
	if t.G(4) == 0 {
		return []string{"id", "null", "true", "no", "None", "e1", "E", "nan", "inf", "_"}[t.G(10)]
	}
	return string(b)
}

// item of the log that a scan may or must return
type logItem struct {
	norm string
	must bool
	from int // segment
	at   int // where its record begins
}

// insides lists the containers inside text[:cut] of a record that are complete,
// outer ones before those inside them.
func insides(text string, cut int) []string {
	var l []string
	n := jspans(text)
	for _, s := range n {
		if s.from > 0 && s.to <= cut {
			l = append(l, text[s.from:s.to])
		}
	}
	return l
}

type jspan struct{ from, to int }

// jspans finds where the containers of a rendered document begin and end, in
// the order in which they begin.
func jspans(text string) []jspan {
	var l []jspan
	var open []int
	in := false
	for i := 0; i < len(text); i++ {
		switch c := text[i]; {
		case in && c == '\\':
			i++
		case c == '"':
			in = !in
		case in:
		case c == '{' || c == '[':
			open = append(open, len(l))
			l = append(l, jspan{i, -1})
		case c == '}' || c == ']':
			k := open[len(open)-1]
			open = open[:len(open)-1]
			l[k].to = i + 1
		}
	}
	return l
}

func runC08(r *Run) {
	t := r.T
	r.Nontrivial = true
	var disk []byte
	var items []logItem
	segs := 0
	scan := func(when string, data []byte, items []logItem) bool {
		var l []jsonutils.JSONObject
		var err error
		if p := callN(scanBudget, func() { l, err = jsonutils.ParseJsonStreams(data) }); p != "" {
			r.Fail("panic", "scanning %q: %s", clip(string(data), 0), p)
			return false
		}
		must := 0
		for _, it := range items {
			if it.must {
				must++
			}
		}
		if err != nil {
			if must > 0 {
				r.Fail("lost", "%s: %d intact records and scanning reports only %v\n log %q", when, must, clip(err.Error(), 0), clip(string(data), 0))
				return false
			}
			return true
		}
		var got []string
		for _, o := range l {
			var s string
			call(func() { s = ObsNorm(o) })
			got = append(got, s)
		}
		r.H(strings.Join(got, "\n"))
		// match: state i means items up to i are dealt with
		reach := make([]bool, len(items)+1)
		reach[0] = true
		skip := func() {
			for i := 0; i < len(items); i++ {
				if reach[i] && !items[i].must {
					reach[i+1] = true
				}
			}
		}
		skip()
		for k, g := range got {
			next := make([]bool, len(items)+1)
			any := false
			for i := range items {
				if reach[i] && items[i].norm == g {
					next[i+1] = true
					any = true
				}
			}
			if !any {
				last := 0
				for i, ok := range reach {
					if ok {
						last = i
					}
				}
				want := "the end"
				for _, it := range items[last:] {
					if it.must {
						want = it.norm
						break
					}
				}
				r.Fail("wrong", "%s: the %d-th document returned is %s, which is neither the next intact record\n %s\n nor inside a record cut short\n log %q", when, k+1, clip(g, 0), clip(want, 0), clip(string(data), 0))
				return false
			}
			reach = next
			skip()
		}
		if !reach[len(items)] {
			last := 0
			for i, ok := range reach {
				if ok {
					last = i
				}
			}
			r.Fail("lost", "%s: the intact record %s is not returned\n returned %s\n log %q", when, clip(items[last].norm, 0), clip(strings.Join(got, " "), 0), clip(string(data), 0))
			return false
		}
		return true
	}
	torn := false  // the disk ends inside a line
	noise := false // of noise
	n, small, every, tear := 2+t.Size(14), 12, 3, 2
	if t.G(16) == 15 {
		// a long life in which it hardly ever gets a record done
		n, small, every = 60+t.G(140), 3, 20
	}
	most := 12000
	if t.G(200) == 199 {
		// a log of months
		n, small, every, tear, most = 500+t.G(1500), 3, 60, 58, 120000
		r.Count("long_log")
	}
	for ; n > 0 && len(disk) < most; n-- {
		segs++
		same := torn && !noise && t.F(4) == 3
		if torn && !same {
			disk = append(disk, '\n')
			torn = false
		}
		if t.G(8) == 7 {
			// another program's output
			var sb strings.Builder
			for k := 1 + t.G(6); k > 0; k-- {
				sb.WriteString([]string{"restarting", "12:30:01", "WARN", "a=1,", "b:2,", "100%", ",", ":", "null", "disk-full", "é", "<1>", "\\", "x\\u00", "- "}[t.G(15)])
				sb.WriteString([]string{" ", "", "\t"}[t.G(3)])
			}
			if t.G(12) == 11 {
				sb.WriteString(strings.Repeat([]string{"#", "-- ", "a=1,", "é", "."}[t.G(5)], []int{20, 100, 300, 1100, 2100}[t.G(5)]))
				r.Fault("long_noise_line")
			}
			r.Fault("noise_line")
			disk = append(disk, sb.String()...)
			torn, noise = true, true
			continue
		}
		v := genDoc(t, genOpt{maxNodes: small, keyGen: logKey, strGen: logString}, int(KDict))
		text := v.Text()
		if strings.Count(text, "{")+strings.Count(text, "[") > 60 {
			continue // scanning costs the third power of it
		}
		if most > 12000 && len(text) > 150 && t.G(100) > 0 {
			continue
		}
		at := len(disk)
		if same {
			// the next writer goes on where the last one stopped
			if len(v.O) == 0 {
				disk = append(disk, '\n')
			} else {
				r.Fault("line_continued")
			}
			torn = false
		}
		if t.F(every) >= tear {
			cut := 1 + t.F(len(text))
			if t.F(4) == 3 {
				// near the end or near a place where something begins
				if i := strings.LastIndexAny(text[:cut], "{[:,\"\\"); i > 0 {
					cut = i + 1
				}
			}
			if cut < len(text) {
				r.Fault("torn_write")
				disk = append(disk, text[:cut]...)
				torn, noise = true, false
				for _, s := range insides(text, cut) {
					o, err := jsonutils.ParseString(s)
					if err != nil {
						r.Count("inside_unreadable")
						continue
					}
					items = append(items, logItem{norm: ObsNorm(o), from: segs, at: at})
				}
				r.Log("record %d cut at %d of %q", segs, cut, text)
				if t.F(every) == 2 && !scan(fmt.Sprintf("after crash in record %d", segs), append([]byte{}, disk...), items) {
					return
				}
				continue
			}
			r.Fault("newline_lost")
			disk = append(disk, text...)
			items = append(items, logItem{norm: v.Norm(), must: true, from: segs, at: at})
			continue
		}
		r.Log("record %d: %q", segs, text)
		disk = append(disk, text...)
		disk = append(disk, '\n')
		items = append(items, logItem{norm: v.Norm(), must: true, from: segs, at: at})
	}
	if fill := []string{"", "\n", " ", "\r\n", strings.Repeat(" ", 64)}[t.F(5)]; fill != "" && t.F(2) == 1 {
		r.Fault("blank_fill")
		disk = append(disk, fill...)
	}
	if !scan("at the end", disk, items) {
		return
	}
	// a reader that sees part of the file only starts at some line
	if t.F(3) == 2 && len(disk) > 0 {
		at := t.F(len(disk))
		for at < len(disk) && disk[at] != '\n' {
			at++
		}
		// what lies wholly behind it is returned as if the rest did not exist
		var rest []logItem
		for _, it := range items {
			if it.at >= at {
				rest = append(rest, it)
			}
		}
		r.Fault("head_of_log_rotated_away")
		scan(fmt.Sprintf("from byte %d on", at), disk[at:], rest)
	}
}
