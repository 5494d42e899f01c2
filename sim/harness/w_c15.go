package main

import (
	"fmt"
	"reflect"
	"strings"

	"simrt"

	"yunion.io/x/jsonutils"
)

// C15: nodes of different versions, which are upgraded and rolled back, pass
// records on to one another whose fields have been renamed.

func init() { register("C15", 400_000_000, runC15) }

var goNames = []string{"Tenant", "TenantId", "Project", "ProjectId", "OwnerId", "DomainId", "Zone", "AvailabilityZone", "Az", "Hypervisor", "Provider", "Brand", "CloudEnv", "IsPublic", "Vendor", "Region", "RegionId", "Status", "Phase", "Memo"}

var entityTypes = []reflect.Type{tString, tInt, tInt64, tF64, tBool, tTime, tUint8, tTri, reflect.TypeOf((*string)(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf((*bool)(nil)), reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[string]int{}), tObj, reflect.TypeOf(E1{}), reflect.TypeOf(&E1{}), reflect.TypeOf(nStr("")), tDictP, reflect.TypeOf([]E1{}), reflect.TypeOf(map[string]E1{})}

// an entity has had several names; chg[i] tells its type
type entity struct {
	typ   reflect.Type
	names []int // into goNames
	fold  int   // names[fold] and the next one differ only in case; a version knows both or none
}

type vfield struct {
	name   int
	entity int
	dep    int // name it is declared deprecated by, -1 none
}

type version struct {
	id     int
	fields map[int]*vfield // by name
	typ    reflect.Type    // of the record
	desc   string
}

type renames struct {
	ents  []*entity
	texts []string // text of each name
}

func (g *renames) text(n int) string { return g.texts[n] }

// typed makes the record type of a version.
func (g *renames) typed(t *Tape, v *version) {
	type part struct {
		fs   []reflect.StructField
		tags []string // declared where it is embedded
	}
	parts := []*part{{}}
	for n := t.G(3); n > 0; n-- {
		parts = append(parts, &part{})
	}
	var ns []int
	for n := range goNames {
		if v.fields[n] != nil {
			ns = append(ns, n)
		}
	}
	var ds []string
	for _, i := range perm(t, len(ns)) {
		f := v.fields[ns[i]]
		k := t.G(len(parts))
		p := parts[k]
		tag := ""
		custom := g.text(f.name) != snake(goNames[f.name])
		opt := []string{"", "", ",omitempty", ",allowempty", ",string", ",omitzero"}[t.G(6)]
		if ft := g.ents[f.entity].typ; opt == ",string" && !canForceString(ft.Kind()) {
			opt = ""
		}
		switch {
		case t.G(3) == 2 && opt == "":
			tag = fmt.Sprintf("name:%q", g.text(f.name))
		case custom || t.G(2) == 1:
			tag = fmt.Sprintf("json:%q", g.text(f.name)+opt)
		case opt != "":
			tag = fmt.Sprintf("json:%q", opt)
		}
		if f.dep >= 0 {
			d := fmt.Sprintf("yunion-deprecated-by:%q", g.text(f.dep))
			if k > 0 && t.G(4) == 3 && !strings.ContainsAny(g.text(f.name), ".@-\" ") {
				p.tags = append(p.tags, g.text(f.name)+"->"+d)
			} else if tag == "" {
				tag = d
			} else {
				tag += " " + d
			}
			ds = append(ds, g.text(f.name)+" is now "+g.text(f.dep))
		} else {
			ds = append(ds, g.text(f.name))
		}
		p.fs = append(p.fs, reflect.StructField{Name: goNames[f.name], Type: g.ents[f.entity].typ, Tag: reflect.StructTag(tag)})
	}
	if t.G(5) == 4 {
		// and many fields that were never renamed
		for n := 4 + t.G(24); n > 0; n-- {
			p := parts[t.G(len(parts))]
			f := reflect.StructField{Name: fmt.Sprintf("%sPad%d", []string{"A", "M", "Z"}[t.G(3)], n), Type: []reflect.Type{tString, tInt, tBool}[n%3]}
			if t.G(2) == 1 {
				p.fs = append(p.fs, f)
			} else {
				p.fs = append([]reflect.StructField{f}, p.fs...)
			}
		}
	}
	for i := len(parts) - 1; i > 0; i-- {
		p := parts[i]
		if len(p.fs) == 0 {
			continue
		}
		et := reflect.StructOf(p.fs)
		tag := reflect.StructTag(strings.Join(p.tags, " "))
		if t.G(3) == 2 && (i == 1 || len(parts) < 3) {
			et = reflect.PtrTo(et)
		}
		into := parts[0]
		e := reflect.StructField{Name: fmt.Sprintf("Base%d", i), Type: et, Anonymous: true, Tag: tag}
		if t.G(2) == 1 {
			into.fs = append([]reflect.StructField{e}, into.fs...)
		} else {
			into.fs = append(into.fs, e)
		}
	}
	v.typ = reflect.StructOf(parts[0].fs)
	v.desc = fmt.Sprintf("v%d{%s}", v.id, strings.Join(ds, ", "))
}

func (g *renames) zero(e int) string { return canon(reflect.New(g.ents[e].typ).Elem(), fieldOpt{}) }

func fieldOf(v reflect.Value, name int) (reflect.Value, bool) {
	sf, ok := v.Type().FieldByName(goNames[name])
	if !ok {
		return reflect.Value{}, false
	}
	f, err := v.FieldByIndexErr(sf.Index)
	if err != nil {
		return reflect.Zero(sf.Type), true
	}
	return f, true
}

// newRecord makes an empty record whose fields can be set.
func (v *version) newRecord() reflect.Value {
	r := reflect.New(v.typ).Elem()
	for i := 0; i < r.NumField(); i++ {
		if f := r.Field(i); v.typ.Field(i).Anonymous && f.Kind() == reflect.Ptr {
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
	return r
}

// final follows the declarations from a name to the newest one, -1 if there is none.
func (v *version) final(n int) int {
	seen := map[int]bool{}
	for {
		f := v.fields[n]
		if f == nil || seen[n] {
			return -1
		}
		if f.dep < 0 {
			return n
		}
		seen[n] = true
		n = f.dep
	}
}

// a state says which values a name may have; nothing: none was set
type vstate map[int]map[string]bool

func (s vstate) add(n int, vals map[string]bool) {
	if s[n] == nil {
		s[n] = map[string]bool{}
	}
	for x := range vals {
		s[n][x] = true
	}
}

// written is the document a record with this state becomes.
func (v *version) written(s vstate, g *renames) vstate {
	d := vstate{}
	for n := range v.fields {
		if e := v.final(n); e >= 0 {
			if len(s[e]) == 0 {
				s.add(e, map[string]bool{g.zero(v.fields[e].entity): true})
			}
			d.add(n, s[e])
		}
	}
	return d
}

// read is the state of a record read from a document.
func (v *version) read(d vstate) vstate {
	s := vstate{}
	for n, vals := range d {
		seen := map[int]bool{}
		for v.fields[n] != nil && !seen[n] {
			seen[n] = true
			s.add(n, vals)
			n = v.fields[n].dep
		}
	}
	return s
}

// over is the state of a record that had a state when a message was read into
// it. What the message does not mention stays; what becomes of a dictionary or
// structure in place of another one is not decided here.
func (v *version) over(before vstate, m vmsg, g *renames) vstate {
	n := jread(m.text)
	if m.shape == 5 {
		whole := n
		n = &jnode{} // an empty record is left out
		for i, k := range whole.keys {
			if k == `"spec"` {
				n = whole.kids[i]
				break
			}
		}
	}
	has := map[string]string{}
	for i, k := range n.keys {
		has[unquoteKey(k)] = n.kids[i].raw
	}
	unknown := map[string]bool{"one": true, "or another": true}
	d := vstate{}
	for n, vals := range m.doc {
		raw, ok := has[g.text(n)]
		if !ok {
			continue
		}
		if raw == "null" {
			vals = unknown
		}
		d.add(n, vals)
	}
	s := v.read(d)
	for n := range goNames {
		f := v.fields[n]
		if f == nil {
			continue
		}
		if s[n] == nil {
			s[n] = before[n]
			continue
		}
		switch et := g.ents[f.entity].typ; et.Kind() {
		case reflect.Map, reflect.Struct:
			if et != tTime && et != tTri {
				s[n] = unknown
			}
		case reflect.Ptr, reflect.Slice:
			if k := et.Elem().Kind(); k == reflect.Struct || k == reflect.Map {
				s[n] = unknown
			}
		}
	}
	return s
}

func (g *renames) check(v *version, rec reflect.Value, s vstate) string {
	for n := range goNames {
		f := v.fields[n]
		if f == nil {
			continue
		}
		x, ok := fieldOf(rec, n)
		if !ok {
			return "field missing: " + goNames[n]
		}
		got := canon(x, fieldOpt{})
		want := s[n]
		if len(want) > 1 {
			continue // contradicting declarations
		}
		if len(want) == 0 {
			want = map[string]bool{g.zero(f.entity): true}
		}
		if !want[got] {
			for w := range want {
				return fmt.Sprintf("%s is %s and not %s", g.text(n), clip(got, 0), clip(w, 0))
			}
		}
	}
	return ""
}

// shapes of messages records come in
var wrapNames = []string{"record", "pointer", "list", "map", "list of pointers", "member"}

func wrapType(typ reflect.Type, w int) reflect.Type {
	switch w {
	case 2:
		return reflect.SliceOf(typ)
	case 3:
		return reflect.MapOf(tString, typ)
	case 4:
		return reflect.SliceOf(reflect.PtrTo(typ))
	case 5:
		return reflect.StructOf([]reflect.StructField{{Name: "Kind", Type: tString}, {Name: "Spec", Type: typ}, {Name: "Memo", Type: tString, Tag: `json:"memo"`}})
	}
	return typ
}

func wrap(rec reflect.Value, w int) reflect.Value {
	t := wrapType(rec.Type(), w)
	p := reflect.New(t)
	switch w {
	case 2:
		p.Elem().Set(reflect.Append(p.Elem(), rec))
	case 3:
		p.Elem().Set(reflect.MakeMap(t))
		p.Elem().SetMapIndex(reflect.ValueOf("k"), rec)
	case 4:
		x := reflect.New(rec.Type())
		x.Elem().Set(rec)
		p.Elem().Set(reflect.Append(p.Elem(), x))
	case 5:
		p.Elem().Field(0).SetString("kind")
		p.Elem().Field(1).Set(rec)
		p.Elem().Field(2).SetString("memo")
	default:
		p.Elem().Set(rec)
	}
	if w == 0 {
		return p.Elem()
	}
	return p
}

func unwrap(p reflect.Value, w int) (rec reflect.Value, ok bool) {
	v := p.Elem()
	switch w {
	case 2, 4:
		if v.Len() != 1 {
			return v, false
		}
		rec = v.Index(0)
		if w == 4 {
			if rec.IsNil() {
				return v, false
			}
			rec = rec.Elem()
		}
	case 3:
		rec = v.MapIndex(reflect.ValueOf("k"))
		if v.Len() != 1 || !rec.IsValid() {
			return v, false
		}
	case 5:
		if v.Field(0).String() != "kind" || v.Field(2).String() != "memo" {
			return v, false
		}
		rec = v.Field(1)
	default:
		rec = v
	}
	return rec, true
}

type vmsg struct {
	text  string
	doc   vstate
	hops  int
	shape int
	from  string
	log   string
}

func runC15(r *Run) {
	t := r.T
	r.Nontrivial = true
	g := &renames{}
	for _, n := range goNames {
		text := snake(n)
		if t.G(6) == 5 {
			text = []string{"old." + text, text + "@v1", "名" + text, "x-" + text, strings.ToUpper(text), text + " "}[t.G(6)]
		}
		g.texts = append(g.texts, text)
	}
	order := perm(t, len(goNames))
	tangled := t.G(4) == 3
	for ne, k := 1+t.G(3), 0; ne > 0; ne-- {
		e := &entity{typ: entityTypes[t.G(len(entityTypes))], fold: -2}
		for n := 1 + t.G(6); n > 0 && k < len(order); n-- {
			e.names = append(e.names, order[k])
			k++
		}
		if len(e.names) > 1 && t.G(6) == 5 {
			e.fold = t.G(len(e.names) - 1)
			a, b := e.names[e.fold], e.names[e.fold+1]
			g.texts[a] = snake(goNames[a])
			g.texts[b] = []string{strings.ToUpper(g.texts[a]), goNames[a], strings.ToUpper(g.texts[a][:1]) + g.texts[a][1:]}[t.G(3)]
			if t.G(2) == 1 {
				g.texts[a], g.texts[b] = g.texts[b], g.texts[a]
			}
		}
		g.ents = append(g.ents, e)
	}
	// the versions: each knows some of the names an entity has had so far
	var vers []*version
	nv := 2 + t.G(4)
	for i := 0; i < nv; i++ {
		v := &version{id: i, fields: map[int]*vfield{}}
		for ei, e := range g.ents {
			last := len(e.names) - 1
			if i < nv-1 {
				last = t.G(len(e.names))
			}
			if last == e.fold {
				last++
			}
			var known []int
			for j := 0; j <= last; j++ {
				if j == e.fold+1 || j == e.fold && j+1 == last {
					if j == e.fold || len(known) > 0 && known[len(known)-1] == e.names[j-1] {
						known = append(known, e.names[j])
					}
					continue
				}
				if j == last || t.G(5) > 0 || tangled {
					known = append(known, e.names[j])
				}
			}
			style := t.G(3)
			for j, n := range known {
				f := &vfield{name: n, entity: ei, dep: -1}
				if tangled {
					// any declaration at all, loops and unknown names among them
					if t.G(5) > 0 {
						f.dep = e.names[t.G(len(e.names))]
					}
				} else if j < len(known)-1 {
					switch style {
					case 0: // one after the other
						f.dep = known[j+1]
					case 1: // all by the newest
						f.dep = known[len(known)-1]
					default:
						f.dep = known[j+1+t.G(len(known)-1-j)]
					}
				}
				v.fields[n] = f
			}
		}
		g.typed(t, v)
		vers = append(vers, v)
		r.Log("%s %s", v.desc, v.typ)
	}
	// a record of one version begins its way
	value := func(e *entity) reflect.Value {
		x := reflect.New(e.typ).Elem()
		for k := 0; k < 6; k++ {
			fillValue(t, x, false)
			y := x
			if y.Kind() == reflect.Ptr && !y.IsNil() {
				y = y.Elem()
			}
			if canon(y, fieldOpt{}) != canon(reflect.New(y.Type()).Elem(), fieldOpt{}) {
				return x
			}
		}
		return reflect.New(e.typ).Elem() // a pointer to an empty value may count as none
	}
	write := func(v *version, rec reflect.Value, s vstate, shape, hops int, from string) (m vmsg, ok bool) {
		m = vmsg{doc: v.written(s, g), hops: hops, shape: shape, from: from}
		all := t.G(3) == 2
		pretty := t.G(4) == 3
		if p := call(func() {
			o := encode(all, wrap(rec, shape).Interface())
			if pretty {
				m.text = o.PrettyString()
			} else {
				m.text = o.String()
			}
		}); p != "" {
			r.Fail("panic", "writing %s as %s: %s", dump(rec), v.desc, clip(p, 0))
			return m, false
		}
		if t.F(3) > 0 {
			var sb strings.Builder
			jread(m.text).respell(t, &sb)
			m.text = sb.String()
			r.Fault("members_reordered")
		}
		m.from += " " + v.desc
		return m, true
	}
	read := func(v *version, m vmsg, twice bool, earlier *vmsg) (rec reflect.Value, s vstate, bad string) {
		p := reflect.New(wrapType(v.typ, m.shape))
		var err error
		var before vstate
		if earlier != nil {
			// the value holds what another message said
			if pn := call(func() {
				var o jsonutils.JSONObject
				if o, err = jsonutils.ParseString(earlier.text); err == nil {
					err = o.Unmarshal(p.Interface())
				}
			}); pn != "" || err != nil {
				return rec, s, fmt.Sprintf("%s cannot read %s: %v %s", v.desc, clip(earlier.text, 0), err, clip(pn, 0))
			}
			before = v.read(earlier.doc)
			m.from += " over what was written by" + earlier.from + " as " + clip(earlier.text, 0)
		}
		n := 1
		if twice {
			n = 2
		}
		for ; n > 0; n-- {
			if pn := call(func() {
				var o jsonutils.JSONObject
				if o, err = jsonutils.ParseString(m.text); err == nil {
					err = o.Unmarshal(p.Interface())
				}
			}); pn != "" {
				return rec, s, fmt.Sprintf("%s cannot read %s: %s", v.desc, clip(m.text, 0), clip(pn, 0))
			}
			if err != nil {
				return rec, s, fmt.Sprintf("%s reading %s gets %v", v.desc, clip(m.text, 0), err)
			}
		}
		rec, ok := unwrap(p, m.shape)
		if !ok {
			return rec, s, fmt.Sprintf("%s reading the %s %s gets %s", v.desc, wrapNames[m.shape], clip(m.text, 0), dump(p))
		}
		s = v.read(m.doc)
		if earlier != nil {
			s = v.over(before, m, g)
		}
		if b := g.check(v, rec, s); b != "" {
			return rec, s, fmt.Sprintf("record written by%s\n read by %s\n %s: %s\n text %s", m.from, v.desc, wrapNames[m.shape], b, clip(m.text, 0))
		}
		return rec, s, ""
	}
	sim := newSim(r, []int{0, 4, 20}[t.F(3)])
	nodes := make([]*version, 2+t.G(3))
	for i := range nodes {
		nodes[i] = vers[t.G(len(vers))]
	}
	var all []vmsg
	var post func(to int, m vmsg)
	arrive := func(to int, m vmsg) {
		if sim.fault("node_upgraded_or_rolled_back", 1, 3) {
			nodes[to] = vers[t.F(len(vers))]
		}
		v := nodes[to]
		var earlier *vmsg
		if e := &all[t.F(len(all))]; e.shape == m.shape && (m.shape < 2 || m.shape == 5) && sim.fault("delivered_over_another", 1, 2) {
			earlier = e
		}
		rec, s, bad := read(v, m, sim.fault("delivered_twice_into_one_value", 1, 8), earlier)
		if bad != "" {
			r.Fail("shown", "%s", bad)
			return
		}
		r.R(m.text)
		if m.hops >= 5 || earlier != nil {
			return
		}
		if !rec.CanAddr() { // out of a map
			x := reflect.New(rec.Type()).Elem()
			x.Set(rec)
			rec = x
		}
		n, ok := write(v, rec, s, t.G(6), m.hops+1, m.from)
		if ok {
			all = append(all, n)
			post(t.G(len(nodes)), n)
		}
	}
	post = func(to int, m vmsg) {
		if sim.fault("message_lost", 1, 12) {
			sim.after(50*ms, func() { post(to, m) })
			return
		}
		if sim.fault("message_duplicated", 1, 8) {
			sim.after(int64(1+t.F(60))*ms, func() { arrive(to, m) })
		}
		sim.after(int64(1+t.F(60))*ms, func() { arrive(to, m) })
	}
	for k := 1 + t.G(2); k > 0; k-- {
		v := nodes[t.G(len(nodes))]
		rec := v.newRecord()
		s := vstate{}
		vals := make([]reflect.Value, len(g.ents))
		for i, e := range g.ents {
			vals[i] = value(e)
		}
		for n := range goNames {
			f := v.fields[n]
			if f == nil {
				continue
			}
			x, _ := fieldOf(rec, n)
			switch {
			case f.dep < 0:
				y := vals[f.entity]
				if tangled {
					y = value(g.ents[f.entity])
				}
				x.Set(y)
				s.add(n, map[string]bool{canon(y, fieldOpt{}): true})
			case t.G(3) == 1:
				x.Set(vals[f.entity])
			case t.G(3) == 2:
				x.Set(value(g.ents[f.entity])) // left over, means nothing
			}
		}
		m, ok := write(v, rec, s, t.G(6), 0, "")
		if !ok {
			return
		}
		r.Log("written by %s: %s", v.desc, m.text)
		r.H(m.text)
		all = append(all, m)
		post(t.G(len(nodes)), m)
		if t.G(3) == 2 {
			// within one process, from one version's type to another's
			w := vers[t.G(len(vers))]
			p := reflect.New(w.typ)
			var err error
			if pn := call(func() { err = jsonutils.Update(p.Interface(), rec.Addr().Interface()) }); pn != "" || err != nil {
				r.Fail("panic", "updating %s from %s: %v %s", w.desc, v.desc, err, clip(pn, 0))
				return
			}
			if b := g.check(w, p.Elem(), w.read(v.written(s, g))); b != "" {
				r.Fail("shown", "%s updated from %s: %s", w.desc, v.desc, b)
				return
			}
		}
	}
	if !sim.run(400) {
		r.Count("unfinished")
	}
	if r.Failed() {
		return
	}
	if !simrt.RaceBuild && t.G(4) < 3 {
		return
	}
	// many at once
	nt := 2 + t.G(2)
	outs := make([]string, nt)
	fns := make([]func(), nt)
	for i := range fns {
		i := i
		m := all[t.G(len(all))]
		v := vers[t.G(len(vers))]
		fns[i] = func() { _, _, outs[i] = read(v, m, false, nil) }
	}
	if ps := simrt.RunTasks(fns...); len(ps) > 0 {
		r.Fail("panic", "%v", ps[0])
		return
	}
	if simrt.Hung() {
		return
	}
	for _, s := range outs {
		if s != "" {
			r.Fail("shown", "at once: %s", s)
			return
		}
	}
}

// snake is the name a field has by default.
func snake(s string) string {
	var sb strings.Builder
	for i, c := range s {
		if c >= 'A' && c <= 'Z' {
			if i > 0 {
				sb.WriteByte('_')
			}
			c += 'a' - 'A'
		}
		sb.WriteRune(c)
	}
	return sb.String()
}
