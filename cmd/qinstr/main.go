// qinstr puts the simulator's seam into the library under test without
// touching it: it writes instrumented copies of every non-test Go file below
// -src into -out, together with a `go build -overlay` file mapping the originals
// onto them. Insertions are made inside existing lines, so positions in stack
// traces and race reports stay those of the original source.
//
// mode tick: a tick at every function entry and loop iteration (simulated time).
// mode full: a tick and a preemption point before every statement; the sync
//
//	package and go statements are replaced by simulated counterparts.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insert struct {
	off  int
	del  int // bytes removed at off before inserting
	text string
	seq  int
}

type site struct {
	ID   int
	Pos  string
	Func string
	Kind string
}

type sites struct {
	Mode     string
	Sites    []site
	Channels bool
}

var accessor = map[string]bool{"Gradient": true, "GradContext": true, "Shape": true, "NElems": true, "At": true, "ResetGradContext": true}

func main() {
	src := flag.String("src", "/repo", "module root")
	out := flag.String("out", "", "output directory")
	mode := flag.String("mode", "tick", "tick or full")
	flag.Parse()
	if *out == "" {
		fmt.Fprintln(os.Stderr, "qinstr: -out required")
		os.Exit(2)
	}
	must(os.MkdirAll(*out, 0o755))

	var files []string
	must(filepath.Walk(*src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != *src && (strings.HasPrefix(b, ".") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)

	tab := sites{Mode: *mode}
	replace := map[string]string{}
	ty := newTyper(*src, files)
	for i, f := range files {
		data, err := os.ReadFile(f)
		must(err)
		text, ok := instrument(f, strings.TrimPrefix(f, *src+"/"), data, *mode, &tab, ty)
		if !ok {
			continue
		}
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", i, filepath.Base(f)))
		must(os.WriteFile(dst, text, 0o644))
		replace[f] = dst
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
	js, _ = json.Marshal(tab)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644))
	fmt.Printf("qinstr: %d files, %d sites, mode %s\n", len(replace), len(tab.Sites), *mode)
}

func instrument(path, rel string, src []byte, mode string, tab *sites, ty *typer) ([]byte, bool) {
	fset := ty.fset
	f := ty.file[path]
	full := mode == "full"
	var ins []insert
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o int, text string) { ins = append(ins, insert{off: o, text: text, seq: len(ins)}) }
	used := false
	mark := func(fn string, p token.Pos, kind, fname string) string {
		id := len(tab.Sites)
		tab.Sites = append(tab.Sites, site{ID: id, Pos: fmt.Sprintf("%s:%d", rel, fset.Position(p).Line), Func: fname, Kind: kind})
		used = true
		return fmt.Sprintf("verifsimrt.%s(%d); ", fn, id)
	}

	stmts := func(list []ast.Stmt, fname string) {
		if !full {
			return
		}
		for _, s := range list {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			add(off(s.Pos()), mark("P", s.Pos(), "stmt", fname))
			t := s
			for {
				l, ok := t.(*ast.LabeledStmt)
				if !ok {
					break
				}
				t = l.Stmt
			}
			if x, ok := t.(*ast.SelectStmt); ok && waits(x) {
				add(off(s.Pos()), "verifsimrt.SelectEnter(); ")
				for _, c := range x.Body.List {
					add(off(c.(*ast.CommClause).Colon)+1, " verifsimrt.SelectExit(); ")
				}
			}
		}
	}
	nocopy := func(body *ast.BlockStmt, fn, kind, fname string) {
		if body == nil {
			return
		}
		add(off(body.Lbrace)+1, mark(fn, body.Lbrace, kind, fname))
	}

	comm := map[ast.Node]bool{} // channel operations a select decides on
	pair := map[ast.Node]bool{} // receives with two results
	chanOps := func(n ast.Node) {
		recv2 := func(lhs int, rhs []ast.Expr) {
			if lhs == 2 && len(rhs) == 1 {
				if u, ok := ast.Unparen(rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					pair[u] = true
				}
			}
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.AssignStmt:
				recv2(len(x.Lhs), x.Rhs)
			case *ast.ValueSpec:
				recv2(len(x.Names), x.Values)
			case *ast.CommClause:
				switch c := x.Comm.(type) {
				case *ast.SendStmt:
					comm[c] = true
				case *ast.ExprStmt:
					comm[ast.Unparen(c.X)] = true
				case *ast.AssignStmt:
					comm[ast.Unparen(c.Rhs[0])] = true
				}
			}
			return true
		})
	}
	if full {
		chanOps(f)
	}
	put := func(o, del int, text string) {
		ins = append(ins, insert{off: o, del: del, text: text, seq: len(ins)})
		used = true
	}

	var walk func(n ast.Node, fname string)
	walk = func(n ast.Node, fname string) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncDecl:
				name := x.Name.Name
				fn := "P"
				if x.Recv != nil && len(x.Recv.List) == 1 {
					name = recvName(x.Recv.List[0].Type) + "." + name
					if strings.HasPrefix(rel, "tensor/internal/") && ast.IsExported(x.Name.Name) && !accessor[x.Name.Name] && ty.isTensor[filepath.Dir(path)+"."+recvName(x.Recv.List[0].Type)] {
						fn = "A"
					}
				}
				if m != n {
					walk(x, name)
					return false
				}
				if x.Body != nil && !hasNoInstr(x) {
					nocopy(x.Body, fn, "func", name)
				}
			case *ast.FuncLit:
				if m != n {
					walk(x, fname+".func")
					return false
				}
				nocopy(x.Body, "P", "func", fname)
			case *ast.ForStmt:
				nocopy(x.Body, "P", "loop", fname)
			case *ast.RangeStmt:
				if full && ty.isChan(x.X) {
					tab.Channels = true
					// for v := range ch { -> for verifc := ch; ; { v, verifok := Recv2(verifc); if !verifok { break };
					ch := string(src[off(x.X.Pos()):off(x.X.End())])
					v, head := "_", "verifok"
					if x.Key != nil {
						v = string(src[off(x.Key.Pos()):off(x.Key.End())])
					}
					decl := fmt.Sprintf("%s, verifok := ", v)
					if x.Tok == token.ASSIGN {
						decl = fmt.Sprintf("var verifok bool; %s, verifok = ", v)
					}
					put(off(x.For), off(x.Body.Lbrace)+1-off(x.For), fmt.Sprintf("for verifc := %s; ; { %sverifsimrt.Recv2(verifc); if !%s { break }; %s", ch, decl, head, mark("P", x.Body.Lbrace, "loop", fname)))
					walk(x.Body, fname)
					return false
				}
				nocopy(x.Body, "P", "loop", fname)
			case *ast.UnaryExpr:
				if full && x.Op == token.ARROW && !comm[x] {
					tab.Channels = true
					fn := "Recv"
					if pair[x] {
						fn = "Recv2"
					}
					put(off(x.OpPos), 2, "verifsimrt."+fn+"(")
					ins = append(ins, insert{off: off(x.End()), text: ")", seq: -len(ins)})
				}
			case *ast.CallExpr:
				if full && len(x.Args) == 1 && ty.isClose(x.Fun) {
					put(off(x.Fun.Pos()), len("close"), "verifsimrt.Close")
				}
			case *ast.BlockStmt:
				stmts(x.List, fname)
			case *ast.CaseClause:
				stmts(x.Body, fname)
			case *ast.CommClause:
				stmts(x.Body, fname)
				tab.Channels = true
			case *ast.SendStmt:
				tab.Channels = true
				if full && !comm[x] {
					ins = append(ins, insert{off: off(x.Chan.Pos()), text: "verifsimrt.SendTo(", seq: len(ins)})
					put(off(x.Chan.End()), off(x.Value.Pos())-off(x.Chan.End()), ")(")
					ins = append(ins, insert{off: off(x.Value.End()), text: ")", seq: -len(ins)})
				}
			case *ast.GoStmt:
				if full {
					// go f(a, b) -> evaluate f, a, b now, run as a simulated task
					c := x.Call
					var names, vals []string
					names = append(names, "vsf")
					vals = append(vals, string(src[off(c.Fun.Pos()):off(c.Fun.End())]))
					if len(c.Args) == 0 {
						// keep text (and its insertions) in place: go F() -> verifsimrt.Go(F)
						ins = append(ins, insert{off: off(x.Go), del: 2, text: "verifsimrt.Go(", seq: len(ins)})
						ins = append(ins, insert{off: off(c.Lparen), del: off(c.Rparen) + 1 - off(c.Lparen), text: ")", seq: len(ins)})
					} else if _, lit := c.Fun.(*ast.FuncLit); lit && c.Ellipsis == token.NoPos {
						// go func(p){..}(args) -> verifsimrt.Go1(func(p){..}, args): generic wrappers up to 6 args
						ins = append(ins, insert{off: off(x.Go), del: 2, text: fmt.Sprintf("verifsimrt.Go%d(", len(c.Args)), seq: len(ins)})
						ins = append(ins, insert{off: off(c.Lparen), del: 1, text: ", ", seq: len(ins)})
					} else {
						ins = append(ins, insert{off: off(x.Go), del: 2, text: fmt.Sprintf("verifsimrt.Go%d(", len(c.Args)), seq: len(ins)})
						ins = append(ins, insert{off: off(c.Lparen), del: 1, text: ", ", seq: len(ins)})
					}
					used = true
				}
			}
			return true
		})
	}
	walk(f, "")

	if full {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				pre := "sync "
				if im.Name != nil {
					pre = ""
				}
				ins = append(ins, insert{off: off(im.Path.Pos()), del: len(im.Path.Value), text: pre + `"qeepverif/simrt/simsync"`, seq: len(ins)})
			}
		}
	}
	if len(ins) == 0 {
		return nil, false
	}
	if used {
		add(off(f.Name.End()), `; import verifsimrt "qeepverif/simrt"`)
	}
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		if (ins[i].seq < 0) != (ins[j].seq < 0) { // what ends there comes first, the inner one before the outer
			return ins[i].seq < 0
		}
		// at one offset: pure insertions first (so a go statement's P precedes its rewrite)
		if (ins[i].del == 0) != (ins[j].del == 0) {
			return ins[i].del == 0
		}
		return ins[i].seq < ins[j].seq
	})
	var b strings.Builder
	at := 0
	for _, in := range ins {
		if in.off < at { // inside a deleted region
			continue
		}
		b.Write(src[at:in.off])
		b.WriteString(in.text)
		at = in.off + in.del
	}
	b.Write(src[at:])
	return []byte(b.String()), true
}

// waits: a select without default.
func waits(x *ast.SelectStmt) bool {
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			return false
		}
	}
	return true
}

// typer knows, as far as the module's own sources tell, which expressions are channels.
type typer struct {
	fset *token.FileSet
	file map[string]*ast.File
	info *types.Info
	src  string
	mod  string
	dirs map[string][]*ast.File
	pkgs map[string]*types.Package
	// isTensor: directory and name of the types that implement tensors
	isTensor map[string]bool
}

func newTyper(src string, files []string) *typer {
	t := &typer{fset: token.NewFileSet(), file: map[string]*ast.File{}, src: src, dirs: map[string][]*ast.File{}, pkgs: map[string]*types.Package{}, isTensor: map[string]bool{},
		info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}}
	if b, err := os.ReadFile(filepath.Join(src, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if m, ok := strings.CutPrefix(strings.TrimSpace(l), "module "); ok {
				t.mod = strings.TrimSpace(m)
				break
			}
		}
	}
	for _, p := range files {
		f, err := parser.ParseFile(t.fset, p, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fmt.Fprintf(os.Stderr, "qinstr: %v\n", err)
			os.Exit(2)
		}
		t.file[p] = f
		d := filepath.Dir(p)
		for _, x := range f.Decls {
			if fd, ok := x.(*ast.FuncDecl); ok && fd.Name.Name == "GradContext" && fd.Recv != nil && len(fd.Recv.List) == 1 {
				t.isTensor[d+"."+recvName(fd.Recv.List[0].Type)] = true
			}
		}
		t.dirs[d] = append(t.dirs[d], f)
	}
	for d := range t.dirs {
		t.check(d)
	}
	return t
}

func (t *typer) check(dir string) *types.Package {
	path := strings.TrimSuffix(t.mod+"/"+strings.TrimPrefix(strings.TrimPrefix(dir, t.src), "/"), "/")
	if p := t.pkgs[path]; p != nil {
		return p
	}
	if len(t.dirs[dir]) == 0 {
		return nil
	}
	t.pkgs[path] = types.NewPackage(path, t.dirs[dir][0].Name.Name)
	c := types.Config{Importer: t, Error: func(error) {}, FakeImportC: true}
	p, _ := c.Check(path, t.fset, t.dirs[dir], t.info)
	if p != nil {
		t.pkgs[path] = p
	}
	return p
}

// Import resolves the packages of the module; of others only the name is known.
func (t *typer) Import(path string) (*types.Package, error) {
	if rel, ok := strings.CutPrefix(path, t.mod); ok {
		if p := t.check(filepath.Join(t.src, rel)); p != nil {
			return p, nil
		}
	}
	if p := t.pkgs[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	t.pkgs[path] = p
	return p, nil
}

func (t *typer) isChan(e ast.Expr) bool {
	ty := t.info.Types[e].Type
	if ty == nil {
		return false
	}
	_, ok := ty.Underlying().(*types.Chan)
	return ok
}

func (t *typer) isClose(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != "close" {
		return false
	}
	_, ok = t.info.Uses[id].(*types.Builtin)
	return ok
}

func recvName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.IndexExpr:
		return recvName(t.X)
	case *ast.IndexListExpr:
		return recvName(t.X)
	}
	return "?"
}

func hasNoInstr(x *ast.FuncDecl) bool {
	if x.Doc == nil {
		return false
	}
	for _, c := range x.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") {
			return true
		}
	}
	return false
}

func must(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "qinstr: %v\n", err)
		os.Exit(2)
	}
}
