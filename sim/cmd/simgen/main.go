// Command simgen rewrites the packages of the program under test so that they
// run under the simulator: every goroutine, channel operation, select, map
// access and shared read-modify-write becomes a scheduling point owned by
// simrt, the standard packages that meet the outside world are replaced by
// the simulated ones, and package variables can be reset. The sources are
// read from the repository's current working tree.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const prefix = "github.com/charlesetsmith/saratoga/"

var shims = map[string]bool{}

type pkg struct {
	path  string // below prefix
	dir   string
	files []*file
	imps  []string
	tp    *types.Package
	info  *types.Info
	inits []string // calls made by SimReset, in order
	vars  []string
	n     int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
}

// edit replaces src[at:end] by text.
type edit struct {
	at, end int
	text    func() string
	kind    int // 0: suffix of a node, 1: prefix of a node, 2: replacement
	depth   int
	seq     int
}

var (
	fset   = token.NewFileSet()
	pkgs   = map[string]*pkg{}
	order  []*pkg
	rtdir  string
	repo   string
	std    = map[string]bool{}
	srcpk  = map[string]*types.Package{}
	gcimp  types.Importer
	warned bool
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	out := flag.String("out", "", "module directory to write")
	copies := flag.Int("copies", 2, "number of copies")
	bridge := flag.String("bridge", "", "bridge template")
	flag.StringVar(&repo, "repo", "/repo", "repository")
	flag.StringVar(&rtdir, "rt", "", "runtime directory")
	roots := flag.String("roots", "", "root packages")
	flag.Parse()

	filepath.Walk(filepath.Join(rtdir, "shim"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(rtdir, "shim"), filepath.Dir(p))
			shims[rel] = true
		}
		return nil
	})
	for _, r := range strings.Split(*roots, ",") {
		load(r)
	}
	collectStd(filepath.Join(rtdir, "shim"))
	collectStd(filepath.Join(rtdir, "third"))
	collectStd(filepath.Join(rtdir, "simrt"))
	exports()
	for _, p := range order {
		check(p)
		for _, f := range p.files {
			rewrite(p, f)
		}
	}
	for c := 0; c < *copies; c++ {
		base := filepath.Join(*out, "n"+strconv.Itoa(c))
		for _, p := range order {
			emit(p, filepath.Join(base, p.path), c)
		}
		if *bridge != "" {
			b, err := os.ReadFile(*bridge)
			if err != nil {
				fatal("%v", err)
			}
			s := strings.ReplaceAll(string(b), "simmod/nX/", fmt.Sprintf("simmod/n%d/", c))
			var rs string
			var im string
			for i, p := range order {
				im += fmt.Sprintf("\tsimp%d %q\n", i, fmt.Sprintf("simmod/n%d/%s", c, p.path))
				rs += fmt.Sprintf("\tsimp%d.SimReset()\n", i)
			}
			os.MkdirAll(filepath.Join(base, "bridge"), 0755)
			write(filepath.Join(base, "bridge", "bridge.go"), s)
			write(filepath.Join(base, "bridge", "reset.go"), "package bridge\n\nimport (\n"+im+")\n\nfunc resetAll() {\n"+rs+"}\n")
		}
	}
}

func write(p, s string) {
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		fatal("%v", err)
	}
}

func load(path string) *pkg {
	if p := pkgs[path]; p != nil {
		return p
	}
	p := &pkg{path: path, dir: filepath.Join(repo, path)}
	pkgs[path] = p
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", false
	ents, err := os.ReadDir(p.dir)
	if err != nil {
		fatal("package %s: %v", path, err)
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(p.dir, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(p.dir, n))
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(fset, filepath.Join("/src", path, n), src, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		p.files = append(p.files, &file{name: n, src: src, ast: f})
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if strings.HasPrefix(ip, prefix) {
				load(strings.TrimPrefix(ip, prefix))
				p.imps = append(p.imps, ip)
			} else if !strings.Contains(strings.Split(ip, "/")[0], ".") && !shims[ip] {
				std[ip] = true
			}
		}
	}
	if len(p.files) == 0 {
		fatal("package %s has no files", path)
	}
	order = append(order, p)
	return p
}

func collectStd(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !strings.HasSuffix(p, ".go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ImportsOnly)
		if err != nil {
			fatal("%v", err)
		}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			if !strings.HasPrefix(ip, "simmod/") {
				std[ip] = true
			}
		}
		return nil
	})
}

func exports() {
	args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}
	var l []string
	for p := range std {
		if p != "unsafe" {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	cmd := exec.Command("go", append(args, l...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exp := map[string]string{}
	for _, x := range strings.Fields(string(b)) {
		if i := strings.Index(x, "="); i > 0 {
			exp[x[:i]] = x[i+1:]
		}
	}
	gcimp = importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		if exp[p] == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(exp[p])
	})
}

type imp struct{ repo bool }

func (i imp) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if i.repo {
		if strings.HasPrefix(path, prefix) {
			return pkgs[strings.TrimPrefix(path, prefix)].tp, nil
		}
		if shims[path] {
			return source("simmod/shim/" + path)
		}
		if path == "github.com/jroimartin/gocui" {
			return source("simmod/third/gocui")
		}
	}
	if strings.HasPrefix(path, "simmod/") {
		return source(path)
	}
	return gcimp.Import(path)
}

// source type-checks a package of the runtime.
func source(path string) (*types.Package, error) {
	if p := srcpk[path]; p != nil {
		return p, nil
	}
	dir := filepath.Join(rtdir, strings.TrimPrefix(path, "simmod/"))
	fs, _ := filepath.Glob(dir + "/*.go")
	var files []*ast.File
	for _, n := range fs {
		f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	cfg := types.Config{Importer: imp{}, Error: func(error) {}, IgnoreFuncBodies: true, Sizes: types.SizesFor("gc", "amd64")}
	p, _ := cfg.Check(path, fset, files, nil)
	srcpk[path] = p
	return p, nil
}

func check(p *pkg) {
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	cfg := types.Config{Importer: imp{repo: true}, Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) { fmt.Fprintln(os.Stderr, "simgen: type check:", err) }}
	var files []*ast.File
	for _, f := range p.files {
		files = append(files, f.ast)
	}
	p.tp, _ = cfg.Check(prefix+p.path, fset, files, p.info)
}

// ---- rewriting ----

type rw struct {
	p     *pkg
	f     *file
	depth int
	lhs   map[ast.Expr]bool // index expressions that are written
	done  map[ast.Node]bool
	nsel  int
}

func (r *rw) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rw) add(at, end, kind int, t func() string) {
	r.f.edits = append(r.f.edits, edit{at, end, t, kind, r.depth, len(r.f.edits)})
}
func lit(s string) func() string { return func() string { return s } }

func (r *rw) pre(n ast.Node, s string)  { o := r.off(n.Pos()); r.add(o, o, 1, lit(s)) }
func (r *rw) post(n ast.Node, s string) { o := r.off(n.End()); r.add(o, o, 0, lit(s)) }
func (r *rw) repl(a, b token.Pos, s string) {
	r.add(r.off(a), r.off(b), 2, lit(s))
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.p.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.p.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func isMap(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isChan(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.p.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func rewrite(p *pkg, f *file) {
	r := &rw{p: p, f: f, lhs: map[ast.Expr]bool{}, done: map[ast.Node]bool{}}
	// package clause and imports
	name := f.ast.Name.Name
	if name == "main" {
		name = "sarmain"
	}
	r.repl(f.ast.Name.Pos(), f.ast.Name.End(), name+"; import simrt \"simmod/simrt\"")
	for _, im := range f.ast.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		im := im
		np := ""
		switch {
		case strings.HasPrefix(ip, prefix):
			r.add(r.off(im.Path.Pos()), r.off(im.Path.End()), 2, func() string {
				return strconv.Quote("simmod/NODE/" + strings.TrimPrefix(ip, prefix))
			})
			continue
		case ip == "github.com/jroimartin/gocui":
			np = "simmod/third/gocui"
		case shims[ip]:
			np = "simmod/shim/" + ip
		}
		if np != "" {
			r.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(np))
		}
	}
	for _, d := range f.ast.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "main" && f.ast.Name.Name == "main" {
				r.repl(d.Name.Pos(), d.Name.End(), "SimMain")
			}
			if d.Recv == nil && d.Name.Name == "init" {
				p.n++
				nm := fmt.Sprintf("simInit%d", p.n)
				r.repl(d.Name.Pos(), d.Name.End(), nm)
				p.inits = append(p.inits, "\x00"+nm)
			}
			if d.Body != nil {
				r.walk(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name != "_" {
							p.vars = append(p.vars, n.Name)
						}
					}
					for _, v := range vs.Values {
						r.walk(v)
					}
				}
			}
		}
	}
	f.tail.WriteString("\nvar _ = simrt.Y\n")
}

func (r *rw) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.pre(s, "simrt.Y(); ")
	}
}

// shared tells whether e can be seen by another task: a package variable,
// or something reached through a field, pointer or element.
func (r *rw) shared(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if v, ok := r.p.info.Uses[e].(*types.Var); ok {
			return v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
		return false
	case *ast.SelectorExpr:
		if _, ok := r.p.info.Selections[e]; ok {
			return true
		}
		_, ok := r.p.info.Uses[e.Sel].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return !isMap(r.typ(e.X)) && r.shared(e.X)
	}
	return false
}

// simple: evaluating e twice has no effect.
func (r *rw) simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// wrappable: V(e) has the type of e in its context.
func (r *rw) wrappable(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	if !ok || tv.Type == nil || tv.Value != nil || !tv.IsValue() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			switch b.Op {
			case token.SHL, token.SHR:
				if tv := r.p.info.Types[b.X]; tv.Value != nil {
					bad = true
				}
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if tt := r.p.info.Types[e]; tt.Type != types.Typ[types.Bool] {
					bad = true
				}
			}
		}
		return !bad
	})
	return !bad
}

func (r *rw) walk(n ast.Node) {
	if n == nil || r.done[n] {
		return
	}
	r.done[n] = true
	r.depth++
	defer func() { r.depth-- }()
	switch n := n.(type) {
	case *ast.BlockStmt:
		r.stmts(n.List)
	case *ast.CaseClause:
		r.stmts(n.Body)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			r.repl(n.Body.Lbrace+1, n.Body.Lbrace+1, " simrt.Y() ")
		}
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		r.pre(n.Chan, "simrt.Send(")
		r.repl(n.Arrow, n.Arrow+2, ")(")
		r.post(n, ")")
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			fn := "simrt.Recv("
			if _, ok := r.typ(n).(*types.Tuple); ok {
				fn = "simrt.Recv2("
			}
			r.repl(n.OpPos, n.OpPos+2, fn)
			r.post(n, ")")
		}
	case *ast.CallExpr:
		r.call(n)
	case *ast.IndexExpr:
		if isMap(r.typ(n.X)) {
			fn := "simrt.MR("
			if r.lhs[n] {
				fn = "simrt.MW("
			}
			r.pre(n.X, fn)
			r.post(n.X, ")")
		}
	case *ast.AssignStmt:
		r.assign(n)
	case *ast.IncDecStmt:
		x := ast.Unparen(n.X)
		if ix, ok := x.(*ast.IndexExpr); ok {
			r.lhs[ix] = true
		}
		if r.shared(x) && r.simple(x) {
			op := " + 1"
			if n.Tok == token.DEC {
				op = " - 1"
			}
			a, b, d := r.off(n.X.Pos()), r.off(n.X.End()), r.depth
			r.add(r.off(n.TokPos), r.off(n.TokPos)+2, 2, func() string { return " = simrt.V(" + r.f.render(a, b, d) + ")" + op })
		}
	case *ast.RangeStmt:
		r.rangeStmt(n)
	case *ast.SelectStmt:
		r.selectStmt(n)
		return
	}
	children(n, r.walk)
}

func children(n ast.Node, fn func(ast.Node)) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			fn(c)
		}
		return false
	})
}

func (r *rw) goStmt(n *ast.GoStmt) {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.repl(n.Go, fl.Pos(), "simrt.Go(")
		r.repl(c.Lparen, c.Rparen+1, ")")
		r.done[c] = true
		r.walk(fl)
		return
	}
	if r.builtin(c.Fun) != "" {
		r.repl(n.Go, c.Pos(), "simrt.Go(func() { ")
		r.post(n, " })")
		return
	}
	fn := "simrt.GoCall("
	if c.Ellipsis.IsValid() {
		fn = "simrt.GoCallSlice("
		r.repl(c.Ellipsis, c.Ellipsis+3, "")
	}
	r.repl(n.Go, c.Pos(), fn)
	sep := ", "
	if len(c.Args) == 0 {
		sep = ""
	}
	r.repl(c.Lparen, c.Lparen+1, sep)
	r.done[c] = true
	r.walk(c.Fun)
	for _, a := range c.Args {
		r.walk(a)
	}
}

func (r *rw) call(c *ast.CallExpr) {
	switch r.builtin(c.Fun) {
	case "close":
		r.repl(c.Fun.Pos(), c.Fun.End(), "simrt.Close")
	case "len":
		if len(c.Args) == 1 && isChan(r.typ(c.Args[0])) {
			r.repl(c.Fun.Pos(), c.Fun.End(), "simrt.Len")
		}
	case "delete", "clear":
		if len(c.Args) > 0 && isMap(r.typ(c.Args[0])) {
			r.pre(c.Args[0], "simrt.MW(")
			r.post(c.Args[0], ")")
		}
	case "make":
		if len(c.Args) < 2 {
			return
		}
		t := r.typ(c.Args[0])
		var el types.Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Chan:
			el = u.Elem()
		case *types.Map:
			el = u.Elem()
		}
		if el == nil {
			return
		}
		size := int64(8)
		func() {
			defer func() { recover() }()
			size = types.SizesFor("gc", "amd64").Sizeof(el)
		}()
		for _, a := range c.Args[1:] {
			tv := r.p.info.Types[a]
			if tv.Value != nil || tv.Type == nil || !r.wrappable(a) {
				continue
			}
			if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			r.pre(a, "simrt.Mk(")
			r.post(a, fmt.Sprintf(", %d)", size))
		}
	}
}

func (r *rw) assign(n *ast.AssignStmt) {
	for _, l := range n.Lhs {
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
			r.lhs[ix] = true
		}
	}
	switch n.Tok {
	case token.DEFINE:
		return
	case token.ASSIGN:
		if len(n.Lhs) != len(n.Rhs) {
			return
		}
		for i, l := range n.Lhs {
			e := n.Rhs[i]
			if !r.shared(l) {
				continue
			}
			if c, ok := ast.Unparen(e).(*ast.CallExpr); ok && r.builtin(c.Fun) == "append" && len(c.Args) > 0 {
				if r.wrappable(c.Args[0]) {
					r.pre(c.Args[0], "simrt.V(")
					r.post(c.Args[0], ")")
				}
				continue
			}
			if r.wrappable(e) {
				r.pre(e, "simrt.V(")
				r.post(e, ")")
			}
		}
	default: // op=
		l := n.Lhs[0]
		if r.shared(l) && r.simple(l) {
			op := strings.TrimSuffix(n.Tok.String(), "=")
			a, b, d := r.off(l.Pos()), r.off(l.End()), r.depth
			r.add(r.off(n.TokPos), r.off(n.TokPos)+len(n.Tok.String()), 2, func() string {
				return "= simrt.V(" + r.f.render(a, b, d) + ") " + op + " ("
			})
			r.post(n, ")")
		}
	}
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rw) text(e ast.Expr, d int) string {
	return r.f.render(r.off(e.Pos()), r.off(e.End()), d)
}

func (r *rw) rangeStmt(n *ast.RangeStmt) {
	d := r.depth
	t := r.typ(n.X)
	if len(n.Body.List) == 0 {
		r.repl(n.Body.Lbrace+1, n.Body.Lbrace+1, " simrt.Y() ")
	}
	r.nsel++
	it := fmt.Sprintf("simit%d", r.nsel)
	k, v := n.Key, n.Value
	switch {
	case isMap(t):
		r.add(r.off(n.For), r.off(n.Body.Lbrace), 2, func() string {
			x := r.text(n.X, d)
			kp, vp := "nil", "nil"
			if n.Tok != token.DEFINE {
				if !blank(k) {
					kp = "&" + r.text(k, d)
				}
				if !blank(v) {
					vp = "&" + r.text(v, d)
				}
				return fmt.Sprintf("for %s := simrt.MapIter(%s); %s.Next(%s, %s); ", it, x, it, kp, vp)
			}
			names, fn := it, "simrt.MapIter"
			if !blank(k) {
				names += ", " + r.text(k, d)
				kp = "&" + r.text(k, d)
				fn += "K"
			}
			if !blank(v) {
				names += ", " + r.text(v, d)
				vp = "&" + r.text(v, d)
				fn += "V"
			}
			return fmt.Sprintf("for %s := %s(%s); %s.Next(%s, %s); ", names, fn, x, it, kp, vp)
		})
	case isChan(t):
		r.add(r.off(n.For), r.off(n.Body.Lbrace), 2, func() string {
			x := r.text(n.X, d)
			if blank(k) {
				return fmt.Sprintf("for %s := simrt.ChanIter(%s); %s.Next(nil); ", it, x, it)
			}
			if n.Tok != token.DEFINE {
				return fmt.Sprintf("for %s := simrt.ChanIter(%s); %s.Next(&%s); ", it, x, it, r.text(k, d))
			}
			return fmt.Sprintf("for %s, %s := simrt.ChanIterV(%s); %s.Next(&%s); ", it, r.text(k, d), x, it, r.text(k, d))
		})
	}
}

func (r *rw) selectStmt(n *ast.SelectStmt) {
	d := r.depth
	if len(n.Body.List) == 0 {
		r.repl(n.Pos(), n.End(), "panic(simrt.BlockForever())")
		return
	}
	def := false
	r.nsel++
	base := r.nsel
	type sc struct {
		name string
		ch   ast.Expr
		val  ast.Expr
	}
	var cs []sc
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		r.stmts(cc.Body)
		if cc.Comm == nil {
			def = true
			continue
		}
		i := len(cs)
		s := sc{name: fmt.Sprintf("simc%d_%d", base, i)}
		as := func() string { return "" }
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			s.ch, s.val = cm.Chan, cm.Value
			r.walk(cm.Chan)
			r.walk(cm.Value)
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			s.ch = u.X
			r.walk(u.X)
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			s.ch = u.X
			r.walk(u.X)
			for _, l := range cm.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					r.lhs[ix] = true
				}
				r.walk(l)
			}
			as = func() string {
				var l []string
				for _, e := range cm.Lhs {
					l = append(l, r.text(e, d))
				}
				m := ".V()"
				if len(l) == 2 {
					m = ".V2()"
				}
				return " " + strings.Join(l, ", ") + " " + cm.Tok.String() + " " + s.name + m + ";"
			}
		}
		cs = append(cs, s)
		r.repl(cc.Comm.Pos(), cc.Comm.End(), strconv.Itoa(i))
		r.add(r.off(cc.Colon)+1, r.off(cc.Colon)+1, 2, as)
	}
	for _, c := range n.Body.List {
		for _, b := range c.(*ast.CommClause).Body {
			r.walk(b)
		}
	}
	r.add(r.off(n.Select), r.off(n.Select)+len("select"), 2, func() string {
		var names, vals []string
		for _, s := range cs {
			names = append(names, s.name)
			if s.val != nil {
				vals = append(vals, "simrt.SelSend("+r.text(s.ch, d)+")("+r.text(s.val, d)+")")
			} else {
				vals = append(vals, "simrt.SelRecv("+r.text(s.ch, d)+")")
			}
		}
		init := ""
		if len(names) > 0 {
			init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		return "switch " + init + "simrt.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ")"
	})
	if !def {
		r.repl(n.Body.Rbrace, n.Body.Rbrace, "default: panic(\"unreachable\") ")
	}
}

// render is the rewritten text of src[a:b].
func (f *file) render(a, b, depth int) string {
	var es []edit
	for _, e := range f.edits {
		if e.at >= a && e.end <= b {
			// prefixes at b and suffixes at a belong to the neighbours
			if e.at == e.end && (e.at == b && e.kind == 1 && b > a || e.at == a && e.kind == 0 && b > a) {
				continue
			}
			if e.at == e.end && (e.at == a || e.at == b) && e.kind != 2 && e.depth < depth {
				continue
			}
			es = append(es, e)
		}
	}
	// A replacement of the whole range wins over what is inside it.
	sort.SliceStable(es, func(i, j int) bool {
		x, y := es[i], es[j]
		if x.at != y.at {
			return x.at < y.at
		}
		rank := func(e edit) int {
			if e.at == e.end && e.kind == 0 {
				return 0
			}
			if e.at == e.end {
				return 1
			}
			return 2
		}
		if rank(x) != rank(y) {
			return rank(x) < rank(y)
		}
		switch {
		case rank(x) == 0 && x.depth != y.depth:
			return x.depth > y.depth
		case rank(x) == 1 && x.depth != y.depth:
			return x.depth < y.depth
		case rank(x) == 2 && x.end != y.end:
			return x.end > y.end
		}
		return x.seq < y.seq
	})
	var o strings.Builder
	pos := a
	for _, e := range es {
		if e.at < pos {
			continue // inside a replaced range
		}
		o.Write(f.src[pos:e.at])
		o.WriteString(e.text())
		pos = e.end
	}
	o.Write(f.src[pos:b])
	return o.String()
}

func emit(p *pkg, dir string, c int) {
	os.MkdirAll(dir, 0755)
	node := "n" + strconv.Itoa(c)
	// package variables: where is each declared, in order of initialisation
	type iv struct {
		f    *file
		name string
		body string
	}
	var ivs []iv
	k := 0
	for _, in := range p.info.InitOrder {
		var names []string
		named := false
		for _, l := range in.Lhs {
			names = append(names, l.Name())
			named = named || l.Name() != "_"
		}
		if !named {
			continue
		}
		pos := fset.Position(in.Rhs.Pos())
		for _, f := range p.files {
			if filepath.Join("/src", p.path, f.name) == pos.Filename {
				k++
				r := &rw{p: p, f: f}
				ivs = append(ivs, iv{f, fmt.Sprintf("simVar%d", k), strings.Join(names, ", ") + " = " + r.text(in.Rhs, 0)})
			}
		}
	}
	pkgname := p.files[0].ast.Name.Name
	if pkgname == "main" {
		pkgname = "sarmain"
	}
	for _, f := range p.files {
		s := f.render(0, len(f.src), 0) + f.tail.String()
		for _, v := range ivs {
			if v.f == f {
				s += "\nfunc " + v.name + "() { " + v.body + " }\n"
			}
		}
		s = strings.ReplaceAll(s, "\"simmod/NODE/", "\"simmod/"+node+"/")
		write(filepath.Join(dir, f.name), "//line /repo/"+p.path+"/"+f.name+":1\n"+s)
	}
	var o strings.Builder
	o.WriteString("package " + pkgname + "\n\nimport \"simmod/simrt\"\n\nvar _ = simrt.Y\n\n// SimReset gives the package the state of a new process.\nfunc SimReset() {\n")
	for _, v := range p.vars {
		o.WriteString("\tsimrt.Zero(&" + v + ")\n")
	}
	for _, v := range ivs {
		o.WriteString("\t" + v.name + "()\n")
	}
	for _, v := range p.inits {
		o.WriteString("\t" + strings.TrimPrefix(v, "\x00") + "()\n")
	}
	o.WriteString("}\n")
	write(filepath.Join(dir, "zz_simreset.go"), o.String())
}
