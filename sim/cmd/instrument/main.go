// instrument copies a Go package, putting a yield point of the simulator before every statement and
// the simulator's shims in the place of sync, os, io/ioutil and time.
//
//	instrument -src DIR -dst DIR [-files a.go,b.go] [-exports FILE] [-globals] [-base N] [-sites FILE] [-notypes]
//
// It is purely textual: original text is kept and only insertions and small replacements are made, so
// that line numbers stay the same. What the code does is not changed.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replace [off,end)
	text     string
	ord      int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	edits []edit
	sites *[]string
	base  int
	n     int
	used  bool
	mut   map[*types.Var]bool

	labels map[*ast.SelectStmt]*ast.LabeledStmt
}

var shims = map[string]string{
	"sync":        "verifsim/shim/sync",
	"sync/atomic": "verifsim/shim/atomic",
	"os":          "verifsim/shim/os",
	"io/ioutil":   "verifsim/shim/ioutil",
	"time":        "verifsim/shim/time",
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *inst) add(off, end int, text string) {
	in.edits = append(in.edits, edit{off, end, text, len(in.edits)})
}
func (in *inst) y(p token.Pos) string {
	pos := in.fset.Position(p)
	*in.sites = append(*in.sites, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
	id := in.base + len(*in.sites)
	in.used = true
	return fmt.Sprintf("verifrt.Y(%d);", id)
}

func (in *inst) list(stmts []ast.Stmt) {
	for _, s := range stmts {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		y := in.y(s.Pos())
		switch in.class(s) {
		case 2:
			y = strings.Replace(y, ".Y(", ".YG(", 1)
		case 1:
			y = strings.Replace(y, ".Y(", ".YW(", 1)
		}
		y += in.accesses(s)
		in.add(in.off(s.Pos()), in.off(s.Pos()), y)
	}
}

// base is the variable that an expression selects from, indexes or slices; deep tells whether
// anything was selected on the way.
func base(e ast.Expr) (id *ast.Ident, deep bool) {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x, deep
		case *ast.SelectorExpr:
			e, deep = x.X, true
		case *ast.IndexExpr:
			e, deep = x.X, true
		case *ast.SliceExpr:
			e, deep = x.X, true
		case *ast.StarExpr:
			e, deep = x.X, true
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil, deep
		}
	}
}

func (in *inst) pkgVar(id *ast.Ident) *types.Var {
	if id == nil || in.info == nil {
		return nil
	}
	v, ok := in.info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || v.Pkg().Name() != in.file.Name.Name {
		return nil
	}
	return v
}

// mutable collects the package variables that functions (other than init) assign to, take the
// address of, slice, or call methods on.
func (in *inst) mutable(m map[*types.Var]bool) {
	note := func(e ast.Expr) {
		id, _ := base(e)
		if v := in.pkgVar(id); v != nil {
			m[v] = true
		}
	}
	for _, d := range in.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					note(l)
				}
			case *ast.IncDecStmt:
				note(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					note(n.X)
				}
			case *ast.SliceExpr:
				note(n.X)
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok {
						if v := in.pkgVar(id); v != nil {
							if _, basic := v.Type().Underlying().(*types.Interface); !basic && !strings.HasSuffix(v.Type().String(), "DxValue") {
								m[v] = true
							}
						}
					}
				}
			}
			return true
		})
	}
}

// class: 2 - the statement itself (not the blocks inside) uses a mutable package variable,
// 1 - it writes through a pointer, field or element, 0 - neither.
func (in *inst) class(s ast.Stmt) int {
	if in.info == nil {
		return 0
	}
	c := 0
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return n == ast.Node(s)
		case *ast.Ident:
			if v := in.pkgVar(n); v != nil && in.mut[v] {
				c = 2
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if _, deep := base(l); deep && c == 0 {
					c = 1
				}
			}
		case *ast.IncDecStmt:
			if _, deep := base(n.X); deep && c == 0 {
				c = 1
			}
		}
		return true
	})
	return c
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if in.info == nil {
		return nil
	}
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (in *inst) text(n ast.Node) string { return string(in.src[in.off(n.Pos()):in.off(n.End())]) }

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (in *inst) walk() {
	skipRecv := map[ast.Node]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) == 0 {
				in.add(in.off(n.Lbrace)+1, in.off(n.Lbrace)+1, in.y(n.Lbrace))
			}
			// the body of switch/select holds clauses, not statements
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			in.list(n.List)
		case *ast.CaseClause:
			in.list(n.Body)
		case *ast.CommClause:
			in.list(n.Body)
			if n.Comm != nil {
				ast.Inspect(n.Comm, func(m ast.Node) bool {
					if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						skipRecv[u] = true
					}
					if s, ok := m.(*ast.SendStmt); ok {
						skipRecv[s] = true
					}
					return true
				})
			}
		case *ast.GoStmt:
			// go f(a, b): the arguments are evaluated now, the call runs as a task
			builtin := false
			if id, ok := n.Call.Fun.(*ast.Ident); ok && in.info != nil {
				_, builtin = in.info.Uses[id].(*types.Builtin)
			}
			switch _, lit := n.Call.Fun.(*ast.FuncLit); {
			case lit && len(n.Call.Args) == 0:
				in.add(in.off(n.Go), in.off(n.Call.Pos()), "verifrt.Go(")
				in.add(in.off(n.Call.Lparen), in.off(n.Call.Rparen)+1, ")")
			case builtin:
				in.add(in.off(n.Go), in.off(n.Call.Pos()), "verifrt.Go(func() { ")
				in.add(in.off(n.End()), in.off(n.End()), " })")
			default:
				in.add(in.off(n.Go), in.off(n.Call.Pos()), "verifrt.GoCall(")
				in.add(in.off(n.Call.Lparen), in.off(n.Call.Lparen)+1, fmt.Sprintf(", %v, ", n.Call.Ellipsis.IsValid()))
				if n.Call.Ellipsis.IsValid() {
					in.add(in.off(n.Call.Ellipsis), in.off(n.Call.Ellipsis)+3, "")
				}
			}
			in.used = true
		case *ast.LabeledStmt:
			if s, ok := n.Stmt.(*ast.SelectStmt); ok {
				in.labels[s] = n
			}
		case *ast.SelectStmt:
			if in.info != nil {
				in.selects(n, skipRecv)
			}
		case *ast.RangeStmt:
			t := in.typeOf(n.X)
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				in.rangeMap(n)
			}
			if _, ok := t.Underlying().(*types.Chan); ok {
				in.rangeChan(n)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) > 1 {
				for _, a := range n.Args[1:] {
					if _, ok := a.(*ast.BasicLit); ok {
						continue
					}
					if in.info == nil {
						continue
					}
					if tv, ok := in.info.Types[a]; !ok || tv.Value != nil {
						continue
					}
					in.add(in.off(a.Pos()), in.off(a.Pos()), "verifrt.Alloc(")
					in.add(in.off(a.End()), in.off(a.End()), ")")
					in.used = true
				}
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange") && len(n.Args) == 0 {
				if t := in.typeOf(sel.X); t != nil && t.String() == "reflect.Value" {
					in.add(in.off(sel.X.Pos()), in.off(sel.X.Pos()), "verifrt."+sel.Sel.Name+"(")
					in.add(in.off(sel.X.End()), in.off(n.End()), ")")
					in.used = true
				}
			}
		case *ast.SendStmt:
			if !skipRecv[n] && in.info != nil {
				in.add(in.off(n.Pos()), in.off(n.Pos()), "verifrt.Send(")
				in.add(in.off(n.Arrow), in.off(n.Arrow)+2, ",")
				in.add(in.off(n.End()), in.off(n.End()), ")")
				in.used = true
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !skipRecv[u] && in.info != nil {
					skipRecv[u] = true
					in.add(in.off(u.Pos()), in.off(u.Pos())+2, "verifrt.Recv2(")
					in.add(in.off(u.End()), in.off(u.End()), ")")
					in.used = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skipRecv[n] && in.info != nil {
				in.add(in.off(n.Pos()), in.off(n.Pos())+2, "verifrt.Recv(")
				in.add(in.off(n.End()), in.off(n.End()), ")")
				in.used = true
			}
		}
		return true
	})
}

// rangeChan: for v := range c {  ->  for { v, ok := verifrt.Recv2(c); if !ok { break };
func (in *inst) rangeChan(n *ast.RangeStmt) {
	in.n++
	in.used = true
	ok := fmt.Sprintf("verifok%d", in.n)
	recv := "verifrt.Recv2(" + in.text(n.X) + "); if !" + ok + " { break };"
	pre := ""
	switch {
	case isBlank(n.Key):
		pre = "_, " + ok + " := " + recv
	case n.Tok == token.DEFINE:
		pre = in.text(n.Key) + ", " + ok + " := " + recv
	default:
		pre = "var " + ok + " bool; " + in.text(n.Key) + ", " + ok + " = " + recv
	}
	in.add(in.off(n.For), in.off(n.Body.Lbrace), "for ")
	in.edits = append(in.edits, edit{in.off(n.Body.Lbrace) + 1, in.off(n.Body.Lbrace) + 1, pre, -1})
}

// selects: the cases become objects, the select a switch over the one that was done.
func (in *inst) selects(n *ast.SelectStmt, skip map[ast.Node]bool) {
	in.used = true
	def := false
	pre, names := "", []string{}
	recv := func(e ast.Expr) (ast.Expr, bool) {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		u, ok := e.(*ast.UnaryExpr)
		if !ok || u.Op != token.ARROW {
			return nil, false
		}
		skip[u] = true
		return u.X, true
	}
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		in.n++
		name := fmt.Sprintf("verifc%d", in.n)
		body := "" // at the start of the clause
		var x ast.Expr
		switch s := cc.Comm.(type) {
		case nil:
			def = true
			continue
		case *ast.SendStmt:
			skip[s] = true
			pre += name + " := verifrt.CSend(" + in.text(s.Chan) + ", " + in.text(s.Value) + "); "
		case *ast.ExprStmt:
			x, _ = recv(s.X)
		case *ast.AssignStmt:
			x, _ = recv(s.Rhs[0])
			var l []string
			for _, e := range s.Lhs {
				l = append(l, in.text(e))
			}
			body = strings.Join(l, ", ") + " " + s.Tok.String() + " " + name
			if len(l) == 2 {
				body += ".V2();"
			} else {
				body += ".V();"
			}
		}
		if x != nil {
			pre += name + " := verifrt.CRecv(" + in.text(x) + "); "
		}
		in.add(in.off(cc.Comm.Pos()), in.off(cc.Comm.End()), fmt.Sprint(len(names)))
		if body != "" {
			in.edits = append(in.edits, edit{in.off(cc.Colon) + 1, in.off(cc.Colon) + 1, body, -1})
		}
		names = append(names, name)
	}
	at := n.Pos()
	if l := in.labels[n]; l != nil {
		at = l.Pos()
	}
	in.edits = append(in.edits, edit{in.off(at), in.off(at), pre, 1 << 30})
	args := append([]string{fmt.Sprint(def)}, names...)
	in.add(in.off(n.Select), in.off(n.Body.Lbrace), "switch verifrt.Select("+strings.Join(args, ", ")+") ")
	if !def {
		in.add(in.off(n.Body.Rbrace), in.off(n.Body.Rbrace), "default: panic(verifrt.Unreachable()); ")
	}
}

// rangeMap: for k, v := range m {  ->  for _, e := range verifrt.Ents(m) { if e.Gone() {continue}; k, v := e.K, e.V;
func (in *inst) rangeMap(n *ast.RangeStmt) {
	in.n++
	e := fmt.Sprintf("verife%d", in.n)
	in.used = true
	head := "for "
	pre := "if " + e + ".Gone() { continue };"
	if isBlank(n.Key) && isBlank(n.Value) {
	} else {
		tok := n.Tok.String()
		var l, r []string
		if !isBlank(n.Key) {
			l, r = append(l, in.text(n.Key)), append(r, e+".K")
		}
		if !isBlank(n.Value) {
			l, r = append(l, in.text(n.Value)), append(r, e+".V")
		}
		pre += strings.Join(l, ", ") + " " + tok + " " + strings.Join(r, ", ") + ";"
	}
	in.add(in.off(n.For), in.off(n.X.Pos()), head+"_, "+e+" := range verifrt.Ents(")
	in.add(in.off(n.X.End()), in.off(n.X.End()), ")")
	in.edits = append(in.edits, edit{in.off(n.Body.Lbrace) + 1, in.off(n.Body.Lbrace) + 1, pre, -1})
}

func (in *inst) imports() {
	for _, im := range in.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := shims[p]; ok {
			t := strconv.Quote(r)
			in.add(in.off(im.Path.Pos()), in.off(im.Path.End()), t)
		}
	}
	end := in.off(in.file.Name.End())
	in.add(end, end, `; import verifrt "verifsim/rt"; import verifunsafe "unsafe"`)
	in.add(len(in.src), len(in.src), "\nvar _ = verifrt.Y\nvar _ verifunsafe.Pointer\n")
}

func (in *inst) output() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// pure insertions before replacements at the same place; order -1 first
		ai, bi := a.end == a.off, b.end == b.off
		if ai != bi {
			return ai
		}
		return a.ord < b.ord
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range in.edits {
		if e.off < pos {
			if e.end > e.off || e.off < pos {
				continue // inside a replaced region
			}
		}
		out.Write(in.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(in.src[pos:])
	return out.Bytes()
}

func main() {
	src := flag.String("src", "", "")
	dst := flag.String("dst", "", "")
	only := flag.String("files", "", "instrument only these files, copy the others")
	exports := flag.String("exports", "", "lines 'importpath exportfile' of the dependencies")
	globals := flag.Bool("globals", false, "register package variables")
	firstSite := flag.Int("base", 0, "first site number")
	sitesFile := flag.String("sites", "", "write the table of sites")
	flag.Parse()

	fset := token.NewFileSet()
	ents, err := os.ReadDir(*src)
	must(err)
	want := map[string]bool{}
	for _, f := range strings.Split(*only, ",") {
		if f != "" {
			want[f] = true
		}
	}
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if !strings.HasSuffix(n, ".go") {
			if strings.HasSuffix(n, ".s") {
				b, err := os.ReadFile(filepath.Join(*src, n))
				must(err)
				must(os.WriteFile(filepath.Join(*dst, n), b, 0o644))
			}
			continue
		}
		b, err := os.ReadFile(filepath.Join(*src, n))
		must(err)
		if len(want) > 0 && !want[n] {
			must(os.WriteFile(filepath.Join(*dst, n), b, 0o644))
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(*src, n), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(3)
		}
		if ignored(f) {
			continue
		}
		files = append(files, f)
		names = append(names, n)
		srcs[n] = b
	}
	var info *types.Info
	if *exports != "" {
		info = check(fset, files, *exports)
	}
	var sites []string
	pkgName := ""
	var globs []string
	mut := map[*types.Var]bool{}
	for _, f := range files {
		(&inst{fset: fset, info: info, file: f}).mutable(mut)
	}
	for i, f := range files {
		in := &inst{fset: fset, info: info, src: srcs[names[i]], file: f, sites: &sites, base: *firstSite, mut: mut, labels: map[*ast.SelectStmt]*ast.LabeledStmt{}}
		in.walk()
		in.imports()
		pkgName = f.Name.Name
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						globs = append(globs, n.Name)
					}
				}
			}
		}
		must(os.WriteFile(filepath.Join(*dst, names[i]), in.output(), 0o644))
	}
	if *globals {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport verifrt \"verifsim/rt\"\n\nfunc init() {\n\tverifrt.SetSites(%d)\n", pkgName, *firstSite+len(sites)+1)
		for _, g := range globs {
			fmt.Fprintf(&b, "\tverifrt.RegisterGlobal(%q, &%s)\n", g, g)
		}
		b.WriteString("}\n")
		must(os.WriteFile(filepath.Join(*dst, "zz_verif_globals.go"), b.Bytes(), 0o644))
	}
	if *sitesFile != "" {
		j, _ := json.Marshal(map[string]any{"base": *firstSite, "sites": sites})
		must(os.WriteFile(*sitesFile, j, 0o644))
	}
	fmt.Printf("%d %d\n", len(sites), len(globs))
}

// ignored: build constraints that exclude the file here.
func ignored(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") {
				ex := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:build"))
				switch ex {
				case "ignore", "windows", "verif":
					return true
				}
			}
		}
	}
	return false
}

func check(fset *token.FileSet, files []*ast.File, exports string) *types.Info {
	tab := map[string]string{}
	ef, err := os.Open(exports)
	must(err)
	sc := bufio.NewScanner(ef)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		p := strings.Fields(sc.Text())
		if len(p) == 2 {
			tab[p[0]] = p[1]
		}
	}
	ef.Close()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if f, ok := tab[path]; ok {
			return os.Open(f)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	bad := false
	conf := types.Config{Importer: imp, Error: func(err error) { bad = true; fmt.Fprintln(os.Stderr, "instrument: type check:", err) }}
	conf.Check("sut", fset, files, info)
	if bad {
		fmt.Fprintln(os.Stderr, "instrument: the package does not type-check")
		os.Exit(3)
	}
	return info
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}
