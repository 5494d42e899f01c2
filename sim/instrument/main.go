// instrument rewrites, in place, a scratch copy of Go packages so that every
// source of nondeterminism goes through package simrt. Only insertions and
// replacements inside lines are made; line numbers stay as they are.
//
// usage: instrument -mod DIR -prefix yunion.io/x/jsonutils,yunion.io/x/pkg -sites OUT.json
//
// DIR is a module directory from which the packages are reachable; packages
// whose import path has one of the prefixes are rewritten.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	Dir        string
	ImportPath string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool

	order bool
}

type edit struct {
	off, end int // replace [off,end) with text
	seq      int
	text     string
}

type fileEd struct {
	name  string
	src   []byte
	edits []edit
	f     *ast.File
	fset  *token.FileSet
}

func (e *fileEd) off(p token.Pos) int { return e.fset.Position(p).Offset }
func (e *fileEd) ins(p token.Pos, text string) {
	o := e.off(p)
	e.edits = append(e.edits, edit{o, o, len(e.edits), text})
}
func (e *fileEd) repl(a, b token.Pos, text string) {
	e.edits = append(e.edits, edit{e.off(a), e.off(b), len(e.edits), text})
}

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"fn"`
}

var sites = []site{{}}

const rt = "simrtX"

type instr struct {
	*fileEd
	info   *types.Info
	fn     string
	nIter  int
	timeId map[string]bool
	stats  map[string]int
	rel    string
	order  bool // only map orders and clocks
}

func (in *instr) newSite(p token.Pos) int {
	if len(sites) >= 65000 {
		return 0
	}
	sites = append(sites, site{in.rel, in.fset.Position(p).Line, in.fn})
	return len(sites) - 1
}

func (in *instr) y(p token.Pos) {
	if in.order {
		return
	}
	in.ins(p, fmt.Sprintf("%s.Y(%d); ", rt, in.newSite(p)))
	in.stats["yield"]++
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		in.y(s.Pos())
	}
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (in *instr) Visit(n ast.Node) ast.Visitor {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Body == nil {
			return nil
		}
		old := in.fn
		name := n.Name.Name
		if n.Recv != nil && len(n.Recv.List) > 0 {
			name = types.ExprString(n.Recv.List[0].Type) + "." + name
		}
		in.fn = name
		ast.Walk(in, n.Body)
		in.fn = old
		return nil
	case *ast.BlockStmt:
		if in.order {
			break
		}
		if len(n.List) == 0 {
			in.ins(n.Lbrace+1, fmt.Sprintf(" %s.Y(%d) ", rt, in.newSite(n.Lbrace)))
		} else {
			in.stmts(n.List)
		}
	case *ast.CaseClause:
		in.stmts(n.Body)
	case *ast.CommClause:
		in.stmts(n.Body)
	case *ast.SwitchStmt:
		in.clauses(n.Body)
		in.walk(n.Init, n.Tag)
		return nil
	case *ast.TypeSwitchStmt:
		in.clauses(n.Body)
		in.walk(n.Init, n.Assign)
		return nil
	case *ast.SelectStmt:
		in.clauses(n.Body)
		return nil
	case *ast.RangeStmt:
		in.rangeStmt(n)
	case *ast.CallExpr:
		in.call(n)
	case *ast.SelectorExpr:
		in.selector(n)
	case *ast.GoStmt:
		if !in.order {
			in.goStmt(n)
		}
	}
	return in
}

// clauses walks the clauses of a switch/select body without treating the body
// itself as a statement list.
func (in *instr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		ast.Walk(in, c)
	}
}

func (in *instr) walk(ns ...ast.Node) {
	for _, n := range ns {
		switch v := n.(type) {
		case nil:
		case ast.Expr:
			if v != nil {
				ast.Walk(in, v)
			}
		case ast.Stmt:
			if v != nil {
				ast.Walk(in, v)
			}
		}
	}
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

func (in *instr) rangeStmt(n *ast.RangeStmt) {
	t := in.info.TypeOf(n.X)
	if !isMap(t) {
		return
	}
	m := t.Underlying().(*types.Map)
	if n.Tok == token.ASSIGN {
		for _, p := range []struct {
			e ast.Expr
			t types.Type
		}{{n.Key, m.Key()}, {n.Value, m.Elem()}} {
			if !blank(p.e) {
				if _, isIdx := p.e.(*ast.IndexExpr); isIdx || !types.Identical(in.info.TypeOf(p.e), p.t) {
					in.stats["map_range_skipped"]++
					return
				}
			}
		}
	}
	in.nIter++
	it := fmt.Sprintf("simIt%d", in.nIter)
	nm := func(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }
	var head, tail string
	if n.Tok == token.DEFINE {
		switch {
		case !blank(n.Key) && !blank(n.Value):
			head = fmt.Sprintf(" %s, %s, %s := %s.MapIterKV(", nm(n.Key), nm(n.Value), it, rt)
			tail = fmt.Sprintf("); %s.Next(&%s, &%s); ", it, nm(n.Key), nm(n.Value))
		case !blank(n.Key):
			head = fmt.Sprintf(" %s, %s := %s.MapIterK(", nm(n.Key), it, rt)
			tail = fmt.Sprintf("); %s.Next(&%s, nil); ", it, nm(n.Key))
		case !blank(n.Value):
			head = fmt.Sprintf(" %s, %s := %s.MapIterV(", nm(n.Value), it, rt)
			tail = fmt.Sprintf("); %s.Next(nil, &%s); ", it, nm(n.Value))
		default:
			head = fmt.Sprintf(" %s := %s.MapIter0(", it, rt)
			tail = fmt.Sprintf("); %s.Next(nil, nil); ", it)
		}
	} else {
		head = fmt.Sprintf(" %s := %s.MapIter0(", it, rt)
		k, v := "nil", "nil"
		if !blank(n.Key) {
			k = "&(" + nm(n.Key) + ")"
		}
		if !blank(n.Value) {
			v = "&(" + nm(n.Value) + ")"
		}
		tail = fmt.Sprintf("); %s.Next(%s, %s); ", it, k, v)
	}
	in.repl(n.For+3, n.X.Pos(), head)
	in.ins(n.X.End(), tail)
	in.stats["map_range"]++
}

func (in *instr) call(n *ast.CallExpr) {
	sel, ok := n.Fun.(*ast.SelectorExpr)
	if !ok || len(n.Args) != 0 {
		return
	}
	if sel.Sel.Name != "MapKeys" && sel.Sel.Name != "MapRange" {
		return
	}
	t := in.info.TypeOf(sel.X)
	if t == nil || t.String() != "reflect.Value" {
		return
	}
	in.ins(sel.X.Pos(), rt+"."+sel.Sel.Name+"(")
	in.repl(sel.X.End(), n.End(), ")")
	in.stats["reflect_map"]++
}

var timeFns = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}

func (in *instr) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	if pn.Imported().Path() == "time" && timeFns[n.Sel.Name] {
		in.repl(id.Pos(), id.End(), rt)
		in.timeId[id.Name] = true
		in.stats["clock"]++
	}
	if p := pn.Imported().Path(); (p == "math/rand" || p == "math/rand/v2") && in.info.Uses[n.Sel] != nil {
		in.stats["rand_use"]++
	}
}

func (in *instr) goStmt(n *ast.GoStmt) {
	in.stats["go_stmt"]++
	if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
		_ = fl
		in.repl(n.Pos(), n.Call.Pos(), rt+".Go(")
		// go func(){...}()  ->  simrtX.Go(func(){...})
		in.repl(n.Call.Fun.End(), n.Call.End(), ")")
		return
	}
	// evaluate function value and arguments now, call later
	var pre, names, vals []string
	nm := func(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }
	in.nIter++
	add := func(i int, e ast.Expr) {
		if tv, ok := in.info.Types[e]; ok && (tv.IsNil() || (tv.Value != nil && tv.Value.Kind() != constant.Unknown)) {
			names = append(names, nm(e))
			return
		}
		v := fmt.Sprintf("simGo%d_%d", in.nIter, i)
		pre = append(pre, v)
		vals = append(vals, nm(e))
		names = append(names, v)
	}
	add(0, n.Call.Fun)
	for i, a := range n.Call.Args {
		add(i+1, a)
	}
	txt := "{ "
	if len(pre) > 0 {
		txt += strings.Join(pre, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	ell := ""
	if n.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	txt += fmt.Sprintf("%s.Go(func() { %s(%s%s) }) }", rt, names[0], strings.Join(names[1:], ", "), ell)
	in.repl(n.Pos(), n.End(), txt)
}

func apply(e *fileEd) []byte {
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// pure insertions come before a replacement at the same place
		ai, bi := a.end == a.off, b.end == b.off
		if ai != bi {
			return ai
		}
		return a.seq < b.seq
	})
	var out []byte
	pos := 0
	for _, d := range e.edits {
		if d.off < pos {
			// inside an already replaced range: drop
			continue
		}
		out = append(out, e.src[pos:d.off]...)
		out = append(out, d.text...)
		pos = d.end
	}
	return append(out, e.src[pos:]...)
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func under(path, prefixes string) bool {
	for _, pre := range strings.Split(prefixes, ",") {
		if pre != "" && (path == pre || strings.HasPrefix(path, pre+"/")) {
			return true
		}
	}
	return false
}

func main() {
	mod := flag.String("mod", ".", "module directory")
	prefixes := flag.String("prefix", "", "comma separated import path prefixes")
	order := flag.String("order", "", "comma separated import path prefixes of packages in which only map orders and clocks are taken over")
	out := flag.String("sites", "", "site table")
	pat := flag.String("pkgs", "./...", "package patterns")
	flag.Parse()
	cmd := exec.Command("go", append([]string{"list", "-e", "-deps", "-export", "-json=Dir,ImportPath,Export,GoFiles,CgoFiles,Standard"}, strings.Fields(*pat)...)...)
	cmd.Dir = *mod
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var todo []listPkg
	dec := json.NewDecoder(strings.NewReader(string(data)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Standard || len(p.CgoFiles) > 0 {
			continue
		}
		if under(p.ImportPath, *prefixes) {
			todo = append(todo, p)
		} else if under(p.ImportPath, *order) {
			p.order = true
			todo = append(todo, p)
		}
	}
	stats := map[string]int{}
	for _, p := range todo {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f := exports[path]
			if f == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(f)
		})
		var files []*ast.File
		var eds []*fileEd
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("parse %s: %v", fn, err)
			}
			files = append(files, f)
			eds = append(eds, &fileEd{name: fn, src: src, f: f, fset: fset})
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("typecheck %s: %v", p.ImportPath, err)
		}
		for _, e := range eds {
			in := &instr{fileEd: e, info: info, order: p.order, timeId: map[string]bool{}, stats: stats, rel: p.ImportPath + "/" + filepath.Base(e.name)}
			e.ins(e.f.Name.End(), "; import "+rt+" \"simrt\"")
			for _, im := range e.f.Imports {
				if p.order {
					break
				}
				switch im.Path.Value {
				case `"sync"`:
					e.repl(im.Path.Pos(), im.Path.End(), `"simrt/ssync"`)
					stats["sync_import"]++
				case `"sync/atomic"`:
					e.repl(im.Path.Pos(), im.Path.End(), `"simrt/satomic"`)
					stats["atomic_import"]++
				}
			}
			for _, d := range e.f.Decls {
				ast.Walk(in, d)
			}
			res := apply(e)
			res = append(res, "\nvar _ = "+rt+".Y\n"...)
			for id := range in.timeId {
				res = append(res, "\nvar _ = "+id+".Unix\n"...)
			}
			if err := os.WriteFile(e.name, res, 0o644); err != nil {
				die("%v", err)
			}
			stats["files"]++
		}
		stats["packages"]++
	}
	if *out != "" {
		b, _ := json.Marshal(map[string]interface{}{"sites": sites, "stats": stats})
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			die("%v", err)
		}
	}
	b, _ := json.Marshal(stats)
	fmt.Printf("instrument: %s\n", b)
}
