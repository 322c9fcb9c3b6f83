// Command instrument copies a Go module (and the dependencies that take part in
// its concurrency) into a build tree, routing every source of nondeterminism
// through package simrt.  It edits text by byte offset, guided by go/ast and
// go/types, and knows nothing about the names used in the code it rewrites
// (except the runtime memhash linkname, which is the hash seam).
//
//	instrument -src /repo -out DIR -sim /verif/sim
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Export, Name string
	Standard                      bool
	GoFiles, SFiles, HFiles       []string
	CgoFiles                      []string
	Module                        *struct{ Path, Version, Dir string }
	Imports                       []string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

type edit struct {
	off, end int // replace [off,end) by text
	text     string
	prio     int // order among insertions at the same offset
	seq      int
}

type file struct {
	path, name string
	src        []byte
	ast        *ast.File
	edits      []edit
	drop       [][2]int // replaced ranges: other edits strictly inside do not apply
	tail       bytes.Buffer
}

type pkgInst struct {
	lp    *listPkg
	fset  *token.FileSet
	files []*file
	info  *types.Info
	tpkg  *types.Package
	inits []string
	zero  []string
	nfrag int
	// sitePrefix tells sites of dependencies from those of the main module
	sitePrefix string
}

var siteCount int
var siteTable []string
var stubModules = map[string]string{"github.com/lk4d4/trylock": "stub/trylock"}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	simdir := flag.String("sim", "", "directory holding simrt and stubs")
	flag.Parse()
	if *out == "" || *simdir == "" {
		die("-out and -sim are required")
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json", "./...")
	cmd.Dir = *src
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list failed: %v\n%s", err, stderr.String())
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pp := p
		pk[p.ImportPath] = &pp
		order = append(order, &pp)
	}
	mainMod := ""
	mods := map[string]*listPkg{}
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Version == "" {
			mainMod = p.Module.Path
		}
		mods[p.Module.Path] = p
	}
	if mainMod == "" {
		die("no main module")
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	var resets []string
	modDir := map[string]string{}
	for m := range mods {
		modDir[m] = filepath.Join(*out, "mod_"+strings.NewReplacer("/", "_", ".", "_").Replace(m))
	}
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		m := p.Module.Path
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, m), "/")
		dst := filepath.Join(modDir[m], rel)
		must(os.MkdirAll(dst, 0o755))
		if stub, ok := stubModules[m]; ok {
			copyDir(filepath.Join(*simdir, stub), dst)
			continue
		}
		if len(p.CgoFiles) > 0 {
			die("cgo package %s", p.ImportPath)
		}
		for _, f := range append(append([]string{}, p.SFiles...), p.HFiles...) {
			copyFile(filepath.Join(p.Dir, f), filepath.Join(dst, f))
		}
		if !instrumented(p, mainMod, pk) {
			for _, f := range p.GoFiles {
				copyFile(filepath.Join(p.Dir, f), filepath.Join(dst, f))
			}
			continue
		}
		instrument(p, dst, lookup)
		resets = append(resets, p.ImportPath)
	}
	for m, d := range modDir {
		must(os.MkdirAll(d, 0o755))
		must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module "+m+"\n\ngo 1.21\n"), 0o644))
	}
	// simrt module, plus a package that resets every instrumented package's globals
	sd := filepath.Join(*out, "simrt")
	copyDir(filepath.Join(*simdir, "simrt"), sd)
	must(os.WriteFile(filepath.Join(sd, "go.mod"), []byte("module simrt\n\ngo 1.23\n"), 0o644))
	rd := filepath.Join(*out, "simreset")
	must(os.MkdirAll(rd, 0o755))
	var b strings.Builder
	b.WriteString("package simreset\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	b.WriteString(")\n\n// Reset re-runs every package-level initialiser, dependencies first.\nfunc Reset() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
	}
	b.WriteString("}\n\nvar Packages = []string{")
	for _, r := range resets {
		fmt.Fprintf(&b, "%q, ", r)
	}
	b.WriteString("}\n\nvar Sites = []string{")
	for _, s := range siteTable {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}\n")
	must(os.WriteFile(filepath.Join(rd, "reset.go"), []byte(b.String()), 0o644))
	must(os.WriteFile(filepath.Join(rd, "go.mod"), []byte("module simreset\n\ngo 1.21\n"), 0o644))
	// harness go.mod
	hd := filepath.Join(*out, "harness")
	copyDir(filepath.Join(*simdir, "harness"), hd)
	var g strings.Builder
	g.WriteString("module harness\n\ngo 1.23\n\nrequire (\n\tsimrt v0.0.0\n\tsimreset v0.0.0\n")
	var names []string
	for m := range modDir {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		fmt.Fprintf(&g, "\t%s %s\n", m, ver(mods[m].Module.Version))
	}
	g.WriteString(")\n\nreplace (\n\tsimrt => ../simrt\n\tsimreset => ../simreset\n")
	for _, m := range names {
		fmt.Fprintf(&g, "\t%s => ../%s\n", m, filepath.Base(modDir[m]))
	}
	g.WriteString(")\n")
	must(os.WriteFile(filepath.Join(hd, "go.mod"), []byte(g.String()), 0o644))
}

func ver(v string) string {
	if v == "" {
		return "v0.0.0"
	}
	return v
}

// instrumented reports whether a package shares state between tasks: the main
// module, and every dependency that imports (or is) part of the same family,
// i.e. lies on an import path between the main module and code using sync/atomic.
func instrumented(p *listPkg, mainMod string, pk map[string]*listPkg) bool {
	if p.Module.Path == mainMod {
		return true
	}
	for _, i := range p.Imports {
		if i == "sync/atomic" || i == "sync" {
			return true
		}
	}
	return false
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}
func copyFile(a, b string) {
	d, err := os.ReadFile(a)
	must(err)
	must(os.WriteFile(b, d, 0o644))
}
func copyDir(a, b string) {
	must(os.MkdirAll(b, 0o755))
	es, err := os.ReadDir(a)
	must(err)
	for _, e := range es {
		if e.IsDir() {
			copyDir(filepath.Join(a, e.Name()), filepath.Join(b, e.Name()))
		} else {
			copyFile(filepath.Join(a, e.Name()), filepath.Join(b, e.Name()))
		}
	}
}

func instrument(lp *listPkg, dst string, lookup func(string) (io.ReadCloser, error)) {
	p := &pkgInst{lp: lp, fset: token.NewFileSet()}
	if lp.Module.Version != "" {
		p.sitePrefix = lp.Name + "/"
	} else if lp.ImportPath != lp.Module.Path {
		p.sitePrefix = "@" + lp.Name + "/"
	} else {
		p.sitePrefix = "@"
	}
	var asts []*ast.File
	for _, n := range lp.GoFiles {
		path := filepath.Join(lp.Dir, n)
		src, err := os.ReadFile(path)
		must(err)
		f, err := parser.ParseFile(p.fset, path, src, parser.ParseComments)
		if err != nil {
			die("parse %s: %v", path, err)
		}
		p.files = append(p.files, &file{path: path, name: n, src: src, ast: f})
		asts = append(asts, f)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(p.fset, "gc", lookup), GoVersion: "go1.21"}
	tp, err := conf.Check(lp.ImportPath, p.fset, asts, p.info)
	if err != nil {
		die("typecheck %s: %v", lp.ImportPath, err)
	}
	p.tpkg = tp
	for _, f := range p.files {
		p.rewrite(f)
	}
	p.globals()
	for _, f := range p.files {
		outsrc := f.render(0, len(f.src))
		if f.tail.Len() > 0 {
			outsrc = append(append(outsrc, '\n'), f.tail.Bytes()...)
		}
		must(os.WriteFile(filepath.Join(dst, f.name), outsrc, 0o644))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// SimReset restores the state the package has at program start.\nfunc SimReset() {\n", lp.Name)
	for _, z := range p.zero {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	for _, z := range p.inits {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	b.WriteString("}\n")
	must(os.WriteFile(filepath.Join(dst, "sim_reset_gen.go"), []byte(b.String()), 0o644))
}

// nested stands for the rewritten text of an expression inside of other text.
func (p *pkgInst) nested(e ast.Expr) string {
	return fmt.Sprintf("\x01%d:%d\x02", p.off(e.Pos()), p.off(e.End()))
}

var nestedRE = regexp.MustCompile("\x01([0-9]+):([0-9]+)\x02")

// render returns the rewritten text of a part of the file.
func (f *file) render(from, to int) []byte {
	return nestedRE.ReplaceAllFunc(f.renderPart(from, to), func(m []byte) []byte {
		var a, b int
		fmt.Sscanf(string(m[1:len(m)-1]), "%d:%d", &a, &b)
		return f.render(a, b)
	})
}

func (f *file) renderPart(from, to int) []byte {
	es := append([]edit{}, f.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if es[i].prio != es[j].prio {
			return es[i].prio < es[j].prio
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	pos := from
	for _, e := range es {
		if e.off < from || e.off > to || e.end > to {
			continue
		}
		inside := false
		for _, d := range f.drop {
			if d[0] <= from && to <= d[1] && to-from < d[1]-d[0] {
				continue // this part is kept inside of the replacement
			}
			if e.off > d[0] && e.end < d[1] {
				inside = true
			}
		}
		if inside {
			continue
		}
		if e.off < pos {
			die("overlapping edits in %s at %d (%q)", f.path, e.off, e.text)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:to])
	return b.Bytes()
}

func (f *file) add(off, end int, prio int, format string, a ...any) {
	f.edits = append(f.edits, edit{off, end, fmt.Sprintf(format, a...), prio, len(f.edits)})
}

func (p *pkgInst) off(pos token.Pos) int { return p.fset.Position(pos).Offset }

func (p *pkgInst) site(pos token.Pos) int {
	ps := p.fset.Position(pos)
	siteTable = append(siteTable, fmt.Sprintf("%s%s:%d", p.sitePrefix, filepath.Base(ps.Filename), ps.Line))
	siteCount++
	return siteCount - 1
}

var importShim = map[string]string{"sync": "simrt/ssync", "sync/atomic": "simrt/satomic"}

func (p *pkgInst) rewrite(f *file) {
	// a blank-proof import of simrt on the package clause line
	f.add(p.off(f.ast.Name.End()), p.off(f.ast.Name.End()), 0, `; import simrt__ "simrt"`)
	fmt.Fprintf(&f.tail, "var _ = simrt__.Enabled\n")
	imports := map[string]string{} // local name -> path
	for _, im := range f.ast.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
		if s, ok := importShim[path]; ok {
			t := fmt.Sprintf("%q", s)
			if im.Name == nil {
				t = name + " " + t
			}
			f.add(p.off(im.Path.Pos()), p.off(im.Path.End()), 0, "%s", t)
		}
	}
	usesShimmed := map[string]bool{}
	recv2 := map[ast.Expr]bool{}
	skipSend := map[ast.Stmt]bool{}
	inSelect := map[ast.Node]bool{}
	mapWrite := map[ast.Expr]bool{}
	var fn *ast.FuncDecl
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			fn = n
			_ = fn
			if n.Body == nil {
				p.linkname(f, n)
				return false
			}
			if n.Recv == nil && n.Name.Name == "init" {
				p.nfrag++
				nm := fmt.Sprintf("simInit__%d", p.nfrag)
				f.add(p.off(n.Name.Pos()), p.off(n.Name.End()), 0, "%s", nm)
				fmt.Fprintf(&f.tail, "func init() { %s() }\n", nm)
				defer func(nm string) { p.inits = append(p.inits, nm) }(nm)
			}
			if noYield(n) {
				return false
			}
		case *ast.BlockStmt:
			p.list(f, n.List, n.Lbrace)
		case *ast.CaseClause:
			p.list(f, n.Body, n.Colon)
		case *ast.CommClause:
			if n.Comm != nil {
				skipSend[n.Comm] = true
			}
			p.list(f, n.Body, n.Colon)
		case *ast.SelectStmt:
			p.selectStmt(f, n, inSelect)
		case *ast.GoStmt:
			p.goStmt(f, n)
		case *ast.SendStmt:
			if !skipSend[n] {
				f.add(p.off(n.Pos()), p.off(n.Pos()), 5, "simrt__.Send(")
				f.add(p.off(n.Arrow), p.off(n.Arrow)+2, 0, ",")
				f.add(p.off(n.End()), p.off(n.End()), -5, ")")
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
			if !recvIn(n) {
				p.split(f, n)
			}
			for _, l := range n.Lhs {
				mapWrite[unparen(l)] = true
			}
		case *ast.IncDecStmt:
			p.splitInc(f, n)
			mapWrite[unparen(n.X)] = true
		case *ast.IndexExpr:
			p.mapAccess(f, n.X, mapWrite[n])
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				k := "Recv1"
				if recv2[n] {
					k = "Recv2"
				}
				f.add(p.off(n.OpPos), p.off(n.OpPos)+2, 0, "simrt__.%s(", k)
				f.add(p.off(n.End()), p.off(n.End()), -5, ")")
			}
		case *ast.RangeStmt:
			p.rangeStmt(f, n)
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok && (se.Sel.Name == "Stop" || se.Sel.Name == "Reset") {
				if t := p.info.TypeOf(se.X); t != nil && (t.String() == "*time.Timer" || t.String() == "*time.Ticker") {
					f.add(p.off(n.Pos()), p.off(n.Pos()), 5, "simrt__.Timer%s(", se.Sel.Name)
					sep := ""
					if len(n.Args) > 0 {
						sep = ", "
					}
					f.add(p.off(se.X.End()), p.off(n.Lparen)+1, 0, "%s", sep)
				}
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && p.info.Uses[id] == types.Universe.Lookup("close") {
				f.add(p.off(id.Pos()), p.off(id.End()), 0, "simrt__.Close")
			}
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 && (id.Name == "delete" || id.Name == "clear") && p.info.Uses[id] == types.Universe.Lookup(id.Name) {
				p.mapAccess(f, n.Args[0], true)
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if pn, ok := p.info.Uses[id].(*types.PkgName); ok {
					key := pn.Imported().Path() + "." + n.Sel.Name
					if r, ok := map[string]string{"time.Sleep": "simrt__.Sleep", "time.Now": "simrt__.Now", "time.Since": "simrt__.Since", "time.After": "simrt__.After", "time.NewTimer": "simrt__.NewTimer", "time.AfterFunc": "simrt__.AfterFunc", "time.NewTicker": "simrt__.NewTicker", "time.Tick": "simrt__.Tick", "runtime.Gosched": "simrt__.Gosched",
						"math/rand.Intn": "simrt__.Intn", "math/rand.Int": "simrt__.Int", "math/rand.Int63": "simrt__.Int63", "math/rand.Uint32": "simrt__.Uint32", "math/rand.Float64": "simrt__.Float64"}[key]; ok {
						f.add(p.off(n.Pos()), p.off(n.End()), 0, "%s", r)
						usesShimmed[id.Name+"|"+pn.Imported().Path()] = true
					}
				}
			}
		}
		return true
	})
	for k := range usesShimmed {
		nm, path, _ := strings.Cut(k, "|")
		keep := map[string]string{"time": ".Duration", "runtime": ".Error", "math/rand": ".Rand"}[path]
		fmt.Fprintf(&f.tail, "var _ %s%s\n", nm, keep)
	}
}

// mapAccess watches an access to a Go map: one goroutine writing a map while
// another uses it ends the program.
func (p *pkgInst) mapAccess(f *file, x ast.Expr, write bool) {
	t := p.info.TypeOf(x)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	if _, ok := t.(*types.TypeParam); ok {
		return
	}
	call := "MapR("
	if write {
		call = fmt.Sprintf("MapW(%d, ", p.site(x.Pos()))
	}
	f.add(p.off(x.Pos()), p.off(x.Pos()), 6, "simrt__.%s", call)
	f.add(p.off(x.End()), p.off(x.End()), -4, ")")
}

// recvIn tells whether the assignment receives from a channel.
func recvIn(n *ast.AssignStmt) bool {
	for _, r := range n.Rhs {
		if u, ok := unparen(r).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return true
		}
	}
	return false
}

// shared reports whether the expression denotes memory other tasks may reach:
// a field, an element, a pointer's target, or a package-level variable.
func (p *pkgInst) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.Ident:
		if v, ok := p.info.Uses[e].(*types.Var); ok && v.Parent() == p.tpkg.Scope() {
			return true
		}
	}
	return false
}

// pure reports whether evaluating the expression twice is harmless.
func (p *pkgInst) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

// readsShared reports whether computing the expression reads shared memory or
// calls something.
func (p *pkgInst) readsShared(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		case ast.Expr:
			if p.shared(x) {
				found = true
			}
		}
		return !found
	})
	return found
}

func (p *pkgInst) typed(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() || !tv.IsValue() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	return true
}

// split makes an assignment to shared memory two events: computing the value,
// and storing it.  A plain read-modify-write is not atomic.
func (p *pkgInst) split(f *file, n *ast.AssignStmt) {
	if n.Tok == token.DEFINE || len(n.Rhs) != len(n.Lhs) || len(n.Rhs) == 0 {
		return
	}
	sh := false
	for _, l := range n.Lhs {
		sh = sh || p.shared(l)
	}
	if !sh {
		return
	}
	if n.Tok == token.ASSIGN {
		r := n.Rhs[len(n.Rhs)-1]
		if k := p.multiword(n.Lhs[0]); k != "" && len(n.Lhs) == 1 {
			o := p.off(n.TokPos)
			f.add(p.off(n.Lhs[0].Pos()), p.off(n.Lhs[0].Pos()), 4, "simrt__.Torn%s(%d, &", k, p.site(n.Pos()))
			f.add(o, o+1, 0, ").Store(")
			f.add(p.off(n.End()), p.off(n.End()), -6, ")")
			return
		}
		if p.typed(r) && p.readsShared(r) {
			f.add(p.off(r.Pos()), p.off(r.Pos()), 4, "simrt__.V(%d, ", p.site(n.Pos()))
			f.add(p.off(r.End()), p.off(r.End()), -6, ")")
		}
		return
	}
	l := n.Lhs[0]
	if !p.pure(l) || n.Tok == token.SHL_ASSIGN || n.Tok == token.SHR_ASSIGN || !p.typed(l) {
		return
	}
	lhs := string(f.src[p.off(l.Pos()):p.off(l.End())])
	op := strings.TrimSuffix(n.Tok.String(), "=")
	o := p.off(n.TokPos)
	f.add(o, o+len(n.Tok.String()), 0, "= simrt__.V(%d, %s) %s (", p.site(n.Pos()), lhs, op)
	f.add(p.off(n.End()), p.off(n.End()), -6, ")")
}

// multiword tells whether the expression is addressable shared memory of a type
// that takes several machine words: such a store is not atomic.
func (p *pkgInst) multiword(e ast.Expr) string {
	if !p.shared(e) {
		return ""
	}
	switch x := unparen(e).(type) {
	case *ast.IndexExpr:
		t := p.info.TypeOf(x.X)
		if t == nil {
			return ""
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Array); !ok {
				return ""
			}
		default:
			return ""
		}
	case *ast.SelectorExpr:
		if s := p.info.Selections[x]; s == nil {
			return "" // a variable of another package
		}
	}
	tv, ok := p.info.Types[e]
	if !ok || !tv.Addressable() {
		if id, ok := unparen(e).(*ast.Ident); !ok || !p.shared(id) {
			return ""
		}
	}
	t := p.info.TypeOf(e)
	if t == nil {
		return ""
	}
	if _, ok := t.(*types.TypeParam); ok {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Basic:
		if u.Kind() == types.String {
			return "String"
		}
	}
	return ""
}

func (p *pkgInst) splitInc(f *file, n *ast.IncDecStmt) {
	if !p.shared(n.X) || !p.pure(n.X) || !p.typed(n.X) {
		return
	}
	lhs := string(f.src[p.off(n.X.Pos()):p.off(n.X.End())])
	o := p.off(n.TokPos)
	f.add(o, o+2, 0, "= simrt__.V(%d, %s) %c 1", p.site(n.Pos()), lhs, n.Tok.String()[0])
}

// selectStmt turns a select into a switch over the case the scheduler chose.
func (p *pkgInst) selectStmt(f *file, n *ast.SelectStmt, inSelect map[ast.Node]bool) {
	var args, vars []string
	def := false
	k := 0
	text := func(e ast.Expr) string { return p.nested(e) }
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		v := fmt.Sprintf("simC%d__", k)
		from, to := p.off(cc.Case), p.off(cc.Colon)+1
		pre := fmt.Sprintf("case %d: _ = %s; ", k, v)
		recv := func(e ast.Expr) {
			u, ok := unparen(e).(*ast.UnaryExpr)
			if !ok {
				die("%s: unexpected select case", p.fset.Position(cc.Pos()))
			}
			inSelect[u] = true
			args = append(args, "simrt__.NewRecv("+text(u.X)+")")
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, fmt.Sprintf("simrt__.NewSend(%s, %s)", text(s.Chan), text(s.Value)))
		case *ast.ExprStmt:
			recv(s.X)
		case *ast.AssignStmt:
			recv(s.Rhs[0])
			l := []string{}
			for _, e := range s.Lhs {
				l = append(l, string(f.src[p.off(e.Pos()):p.off(e.End())]))
			}
			r := v + ".V"
			if len(l) == 2 {
				r += ", " + v + ".Ok"
			}
			pre += strings.Join(l, ", ") + " " + s.Tok.String() + " " + r + "; "
		default:
			die("%s: unexpected select case", p.fset.Position(cc.Pos()))
		}
		// edits inside the replaced text are dropped by render's caller
		f.drop = append(f.drop, [2]int{from, to})
		f.add(from, to, 0, "%s", pre)
		vars = append(vars, v)
		k++
	}
	if k > 8 {
		die("%s: select with more than eight cases", p.fset.Position(n.Pos()))
	}
	f.add(p.off(n.Select), p.off(n.Body.Lbrace), 0, "switch %s := simrt__.Select%d(%s); simI__ ", strings.Join(append([]string{"simI__"}, vars...), ", "), k, strings.Join(append([]string{fmt.Sprint(def)}, args...), ", "))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// functions marked nosplit must not grow the stack
func noYield(n *ast.FuncDecl) bool {
	if n.Doc == nil {
		return false
	}
	for _, c := range n.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") {
			return true
		}
	}
	return false
}

func (p *pkgInst) list(f *file, l []ast.Stmt, after token.Pos) {
	if len(l) == 0 {
		o := p.off(after) + 1
		f.add(o, o, 0, " simrt__.Y(%d); ", p.site(after))
		return
	}
	for _, s := range l {
		switch s := s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		case *ast.LabeledStmt:
			switch s.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
			default:
				o := p.off(s.Stmt.Pos())
				f.add(o, o, -1, "simrt__.Y(%d); ", p.site(s.Stmt.Pos()))
			}
			continue
		}
		o := p.off(s.Pos())
		f.add(o, o, -1, "simrt__.Y(%d); ", p.site(s.Pos()))
	}
}

func (p *pkgInst) linkname(f *file, n *ast.FuncDecl) {
	link := ""
	for _, cg := range f.ast.Comments {
		for _, c := range cg.List {
			fs := strings.Fields(c.Text)
			if len(fs) == 3 && fs[0] == "//go:linkname" && fs[1] == n.Name.Name {
				link = fs[2]
				// disable the directive, keep the byte count irrelevant
				if strings.HasPrefix(link, "runtime.memhash") || link == "runtime.strhash" {
					f.add(p.off(c.Pos()), p.off(c.End()), 0, "// sim seam for %s", link)
				}
			}
			if strings.HasPrefix(c.Text, "//go:noescape") && n.Doc != nil && c.Pos() >= n.Doc.Pos() && c.End() <= n.Doc.End() {
				f.add(p.off(c.Pos()), p.off(c.End()), 0, "//")
			}
		}
	}
	var names []string
	for _, fl := range n.Type.Params.List {
		for _, nm := range fl.Names {
			names = append(names, nm.Name)
		}
	}
	switch link {
	case "runtime.memhash":
		if len(names) != 3 {
			die("memhash declaration with unnamed parameters")
		}
		f.add(p.off(n.End()), p.off(n.End()), 0, " { return simrt__.MemHash(%s) }", strings.Join(names, ", "))
	case "runtime.strhash":
		f.add(p.off(n.End()), p.off(n.End()), 0, " { return simrt__.StrHash(%s) }", strings.Join(names, ", "))
	default:
		// some other linkname: left as it is
	}
}

func (p *pkgInst) goStmt(f *file, n *ast.GoStmt) {
	c := n.Call
	var names []string
	names = append(names, "simF__")
	for i := range c.Args {
		names = append(names, fmt.Sprintf("simA%d__", i))
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
		f.add(p.off(c.Ellipsis), p.off(c.Ellipsis)+3, 0, "")
	}
	f.add(p.off(n.Go), p.off(n.Go)+2, 0, "{ %s := ", strings.Join(names, ", "))
	sep := ""
	if len(c.Args) > 0 {
		sep = ", "
	}
	f.add(p.off(c.Lparen), p.off(c.Lparen)+1, 0, "%s", sep)
	f.add(p.off(c.Rparen), p.off(c.Rparen)+1, 0, "; simrt__.Go(func() { simF__(%s%s) }) }", strings.Join(names[1:], ", "), ell)
}

func (p *pkgInst) rangeStmt(f *file, n *ast.RangeStmt) {
	t := p.info.TypeOf(n.X)
	if t == nil {
		return
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return ""
		}
		return p.nested(e)
	}
	op := ":="
	if n.Tok == token.ASSIGN {
		op = "="
	}
	body := p.off(n.Body.Lbrace) + 1
	switch t.Underlying().(type) {
	case *types.Chan, *types.Map:
		f.drop = append(f.drop, [2]int{p.off(n.For), body})
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		x := p.nested(n.X)
		k := name(n.Key)
		f.add(p.off(n.For), p.off(n.Body.Lbrace), 0, "for simCh__ := (%s); ; ", x)
		pre := " simV__, simOk__ := simrt__.Recv2(simCh__); if !simOk__ { break }; _ = simV__; "
		if k != "" {
			pre += fmt.Sprintf("%s %s simV__; ", k, op)
		}
		f.add(body, body, -9, "%s", pre)
	case *types.Map:
		x := p.nested(n.X)
		k, v := name(n.Key), name(n.Value)
		f.add(p.off(n.For), p.off(n.Body.Lbrace), 0, "for _, simE__ := range simrt__.MapEntries(%s) ", x)
		pre := " simV__, simOk__ := simE__.M[simE__.K]; if !simOk__ { continue }; _ = simV__; "
		if k != "" {
			pre += fmt.Sprintf("%s %s simE__.K; ", k, op)
		}
		if v != "" {
			pre += fmt.Sprintf("%s %s simV__; ", v, op)
		}
		f.add(body, body, -9, "%s", pre)
	}
}

// globals emits functions that put every package-level variable back to its
// initial state, in initialisation order.
func (p *pkgInst) globals() {
	specFile := map[*ast.ValueSpec]*file{}
	identSpec := map[string]*ast.ValueSpec{}
	for _, f := range p.files {
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				specFile[vs] = f
				for _, nm := range vs.Names {
					identSpec[nm.Name] = vs
				}
				if len(vs.Values) == 0 {
					ty := f.render(p.off(vs.Type.Pos()), p.off(vs.Type.End()))
					for _, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						p.nfrag++
						fr := fmt.Sprintf("simZero__%d", p.nfrag)
						fmt.Fprintf(&f.tail, "func %s() { var z %s; %s = z }\n", fr, ty, nm.Name)
						p.zero = append(p.zero, fr)
					}
				}
			}
		}
	}
	var initFrags []string
	for _, in := range p.info.InitOrder {
		var names []string
		blank := true
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank || len(names) == 0 {
			continue
		}
		first := ""
		for _, n := range names {
			if n != "_" {
				first = n
			}
		}
		vs := identSpec[first]
		f := specFile[vs]
		p.nfrag++
		fr := fmt.Sprintf("simVar__%d", p.nfrag)
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fr, strings.Join(names, ", "), f.render(p.off(in.Rhs.Pos()), p.off(in.Rhs.End())))
		initFrags = append(initFrags, fr)
	}
	p.inits = append(initFrags, p.inits...)
}
