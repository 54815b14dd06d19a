// instr rewrites the current source of the code under test into a build
// overlay in which every statement is preceded by a yield point, package sync
// and channel operations go through the simulated scheduler, map iteration
// order is decided by the run's seed, and package-level state can be reset
// between runs. Nothing in /repo is touched: the result is an overlay file
// for "go build -overlay" plus an instrumented copy of the go-lru dependency.
//
// All edits are insertions into the original text, so line numbers and
// comments stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	repoMod  = "github.com/ilius/go-table"
	lruMod   = "github.com/ilius/go-lru"
	rtImport = "verif.local/sim/simrt"
	seams    = 32 // site numbers reserved for the harness's own seams
)

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path, Dir, GoVersion string }
	Error                         *struct{ Err string }
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder

	resets []resetFn
}

// resetFn assigns a package variable its initial value again.
type resetFn struct {
	name, lhs string
	from, to  int
}

func (f *file) ins(off int, s string) { f.edits = append(f.edits, edit{off, off, s, len(f.edits)}) }
func (f *file) rep(off, end int, s string) {
	f.edits = append(f.edits, edit{off, end, s, len(f.edits)})
}

func (f *file) render() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	f.part(&out, 0, len(f.src))
	out.WriteString("\n")
	out.WriteString(f.tail.String())
	for _, r := range f.resets {
		fmt.Fprintf(&out, "\nfunc %s() { %s = ", r.name, r.lhs)
		f.part(&out, r.from, r.to)
		out.WriteString(" }\n")
	}
	return out.Bytes()
}

// part writes the edited text of f.src[from:to].
func (f *file) part(out *bytes.Buffer, from, to int) {
	pos := from
	for _, e := range f.edits {
		if e.off < from || e.end > to || (e.off == to && to < len(f.src)) {
			continue
		}
		if e.off < pos {
			fatal("overlapping edits in %s at offset %d", f.path, e.off)
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:to])
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	f     *file
	sites *[]string
	tmp   int
	old   bool // pre-1.22 loop variable semantics
	rel   string
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) site(p token.Pos) int {
	*in.sites = append(*in.sites, fmt.Sprintf("%s:%d", in.rel, in.fset.Position(p).Line))
	return len(*in.sites) - 1 + seams
}

func (in *inst) text(n ast.Node) string { return string(in.f.src[in.off(n.Pos()):in.off(n.End())]) }

func (in *inst) stmts(list []ast.Stmt) {
	for _, s := range list {
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			continue
		}
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.f.ins(in.off(s.Pos()), fmt.Sprintf("simrt.Y(%d);", in.site(s.Pos())))
	}
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok && tv.Type != nil {
		return tv.Type.Underlying()
	}
	return types.Typ[types.Invalid]
}

func isMap(t types.Type) bool {
	if _, ok := t.(*types.Map); ok {
		return true
	}
	return false
}

func isChan(t types.Type) bool { _, ok := t.(*types.Chan); return ok }

func (in *inst) rangeMap(r *ast.RangeStmt, label *ast.LabeledStmt) {
	in.tmp++
	m, kk := fmt.Sprintf("simM%d", in.tmp), fmt.Sprintf("simK%d", in.tmp)
	start := in.off(r.For)
	lab := ""
	if label != nil {
		start = in.off(label.Pos())
		lab = label.Label.Name + ": "
	}
	in.f.rep(start, in.off(r.X.Pos()), "{ "+m+" := ")
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return in.text(e)
	}
	k, v := name(r.Key), name(r.Value)
	pre, body := "", ""
	asg := "="
	if r.Tok == token.DEFINE {
		if in.old {
			if k != "_" {
				pre += k + " := simrt.ZeroK(" + m + ");"
			}
			if v != "_" {
				pre += v + " := simrt.ZeroV(" + m + ");"
			}
		} else {
			asg = ":="
		}
	}
	if k != "_" {
		body += k + " " + asg + " " + kk + ";"
	}
	if v != "_" {
		body += v + " " + asg + " " + m + "[" + kk + "];"
	}
	in.f.rep(in.off(r.X.End()), in.off(r.Body.Lbrace)+1,
		"; "+pre+lab+"for _, "+kk+" := range simrt.Keys("+m+") { if !simrt.Has("+m+","+kk+") { continue };"+body)
	in.f.ins(in.off(r.End()), "}")
}

// replaced standard packages: sources of nondeterminism.
var replaced = map[string][2]string{
	"sync":         {"sync", "verif.local/sim/simsync"},
	"hash/maphash": {"maphash", "verif.local/sim/simmaphash"},
	"math/rand":    {"rand", "verif.local/sim/simrand"},
}

func (in *inst) file() {
	f := in.f
	// import of the runtime, on the package clause's line
	f.ins(in.off(f.ast.Name.End()), "; import simrt \""+rtImport+"\"")
	f.tail.WriteString("\nvar _ = simrt.Y\n")
	timeName, rtName := "", ""
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to := replaced[p]; to[1] != "" {
			txt := strconv.Quote(to[1])
			if im.Name == nil {
				txt = to[0] + " " + txt
			}
			f.rep(in.off(im.Path.Pos()), in.off(im.Path.End()), txt)
		}
		switch p {
		case "runtime":
			rtName = "runtime"
			if im.Name != nil {
				rtName = im.Name.Name
			}
			if rtName != "_" && rtName != "." {
				f.tail.WriteString("\nvar _ = " + rtName + ".GOOS\n")
			}
		case "time":
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
			if timeName != "_" && timeName != "." {
				f.tail.WriteString("\nvar _ " + timeName + ".Duration\n")
			}
		}
	}
	labels := map[ast.Stmt]*ast.LabeledStmt{}
	commRecv := map[ast.Node]bool{}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labels[x.Stmt] = x
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
			for _, b := range x.Body {
				ast.Inspect(b, visit)
			}
			return false
		case *ast.SelectStmt:
			in.selectStmt(x)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				f.ins(in.off(x.Body.Lbrace)+1, fmt.Sprintf("simrt.Y(%d);", in.site(x.Pos())))
			}
		case *ast.RangeStmt:
			t := in.typeOf(x.X)
			if isMap(t) {
				in.rangeMap(x, labels[x])
			} else if isChan(t) {
				in.rangeChan(x, labels[x])
			}
			if len(x.Body.List) == 0 {
				f.ins(in.off(x.Body.Lbrace)+1, fmt.Sprintf("simrt.Y(%d);", in.site(x.Pos())))
			}
		case *ast.GoStmt:
			in.goStmt(x)
		case *ast.SendStmt:
			f.ins(in.off(x.Pos()), "simrt.SendTo(")
			f.rep(in.off(x.Arrow), in.off(x.Arrow)+2, ")(")
			f.ins(in.off(x.End()), ")")
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					commRecv[u] = true
					f.rep(in.off(u.OpPos), in.off(u.OpPos)+2, "simrt.Recv2(")
					f.ins(in.off(u.End()), ")")
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := x.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					commRecv[u] = true
					f.rep(in.off(u.OpPos), in.off(u.OpPos)+2, "simrt.Recv2(")
					f.ins(in.off(u.End()), ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !commRecv[x] {
				f.rep(in.off(x.OpPos), in.off(x.OpPos)+2, "simrt.Recv(")
				f.ins(in.off(x.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 && isChan(in.typeOf(x.Args[0])) {
				f.rep(in.off(id.Pos()), in.off(id.End()), "simrt.Close")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" && len(x.Args) == 1 && isChan(in.typeOf(x.Args[0])) {
				f.rep(in.off(id.Pos()), in.off(id.End()), "simrt.Len")
			}
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && rtName != "" && sel.Sel.Name == "Gosched" {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == rtName {
					f.rep(in.off(x.Fun.Pos()), in.off(x.Fun.End()), "simrt.Poll")
				}
			}
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && timeName != "" {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == timeName && id.Obj == nil {
					switch sel.Sel.Name {
					case "Now", "Since", "Sleep", "After":
						f.rep(in.off(id.Pos()), in.off(id.End()), "simrt")
					}
				}
			}
		}
		return true
	}
	ast.Inspect(f.ast, visit)
}

// selectStmt turns a select into a switch over the case the simulator chose.
func (in *inst) selectStmt(x *ast.SelectStmt) {
	f := in.f
	if len(x.Body.List) == 0 {
		f.rep(in.off(x.Pos()), in.off(x.End()), "for { simrt.Forever() }")
		return
	}
	in.tmp++
	n := in.tmp
	var names, exprs []string
	def := false
	for i, s := range x.Body.List {
		c := s.(*ast.CommClause)
		nm := fmt.Sprintf("simC%d_%d", n, i)
		recv := func(e ast.Expr) {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok {
				fatal("%s: unexpected receive", in.fset.Position(e.Pos()))
			}
			exprs = append(exprs, "simrt.RecvCase("+in.text(u.X)+")")
		}
		hdr := fmt.Sprintf("case %d:", len(names))
		switch y := c.Comm.(type) {
		case nil:
			def = true
			continue
		case *ast.SendStmt:
			exprs = append(exprs, "simrt.SendCase("+in.text(y.Chan)+")("+in.text(y.Value)+")")
		case *ast.ExprStmt:
			recv(y.X)
		case *ast.AssignStmt:
			recv(y.Rhs[0])
			l, r := in.text(y.Lhs[0]), nm+".V"
			if len(y.Lhs) == 2 {
				l, r = l+", "+in.text(y.Lhs[1]), r+", "+nm+".OK"
			}
			hdr += " " + l + " " + y.Tok.String() + " " + r + ";"
		}
		names = append(names, nm)
		f.rep(in.off(c.Case), in.off(c.Colon)+1, hdr)
	}
	if len(names) == 0 {
		f.rep(in.off(x.Select), in.off(x.Select)+len("select"), "switch")
		return
	}
	f.rep(in.off(x.Select), in.off(x.Select)+len("select"), fmt.Sprintf("switch %s := %s; simrt.Sel(%v, %s)",
		strings.Join(names, ", "), strings.Join(exprs, ", "), def, strings.Join(names, ", ")))
	if !def {
		f.ins(in.off(x.Body.Rbrace), " default: panic(\"select\");")
	}
}

func (in *inst) rangeChan(r *ast.RangeStmt, label *ast.LabeledStmt) {
	in.tmp++
	cc, ok, v := fmt.Sprintf("simCh%d", in.tmp), fmt.Sprintf("simOk%d", in.tmp), fmt.Sprintf("simV%d", in.tmp)
	start, lab := in.off(r.For), ""
	if label != nil {
		start, lab = in.off(label.Pos()), label.Label.Name+": "
	}
	in.f.rep(start, in.off(r.X.Pos()), "{ "+cc+" := ")
	hdr := ""
	switch {
	case r.Key == nil:
		hdr = fmt.Sprintf("for _, %s := simrt.Recv2(%s); %s; _, %s = simrt.Recv2(%s) {", ok, cc, ok, ok, cc)
	case r.Tok == token.DEFINE:
		k := in.text(r.Key)
		hdr = fmt.Sprintf("for %s, %s := simrt.Recv2(%s); %s; %s, %s = simrt.Recv2(%s) {", k, ok, cc, ok, k, ok, cc)
	default:
		hdr = fmt.Sprintf("for { %s, %s := simrt.Recv2(%s); if !%s { break }; %s = %s;", v, ok, cc, ok, in.text(r.Key), v)
	}
	in.f.rep(in.off(r.X.End()), in.off(r.Body.Lbrace)+1, "; "+lab+hdr)
	in.f.ins(in.off(r.End()), "}")
}

func (in *inst) goStmt(g *ast.GoStmt) {
	f := in.f
	call := g.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		f.rep(in.off(g.Go), in.off(lit.Pos()), "simrt.Go(")
		f.rep(in.off(call.Lparen), in.off(call.Rparen)+1, ")")
		return
	}
	// go f(a, b): evaluate the operands now, run later.
	in.tmp++
	n := in.tmp
	if id, ok := call.Fun.(*ast.Ident); ok && in.info.Types[call.Fun].IsBuiltin() {
		_ = id // go close(c), go print(x), ...
		f.rep(in.off(g.Go), in.off(call.Pos()), "simrt.Go(func() { ")
		f.ins(in.off(g.End()), " })")
		return
	}
	if len(call.Args) == 1 {
		if _, ok := in.info.Types[call.Args[0]].Type.(*types.Tuple); ok {
			f.rep(in.off(g.Go), in.off(call.Pos()), "simrt.Go(func() { ")
			f.ins(in.off(g.End()), " })")
			return
		}
	}
	f.rep(in.off(g.Go), in.off(call.Fun.Pos()), fmt.Sprintf("{ simF%d := ", n))
	names := []string{}
	prev := call.Fun.End()
	for i, a := range call.Args {
		if tv := in.info.Types[a]; tv.Value != nil || tv.IsNil() {
			// a constant takes the type of the parameter
			f.rep(in.off(prev), in.off(a.End()), "")
			names = append(names, in.text(a))
			prev = a.End()
			continue
		}
		nm := fmt.Sprintf("simA%d_%d", n, i)
		names = append(names, nm)
		f.rep(in.off(prev), in.off(a.Pos()), fmt.Sprintf("; %s := ", nm))
		prev = a.End()
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	f.rep(in.off(prev), in.off(call.Rparen)+1, fmt.Sprintf("; simrt.Go(func() { simF%d(%s%s) }) }", n, strings.Join(names, ", "), ell))
}

// bigUnassigned: a large composite literal nobody in the package writes to.
func bigLiteral(e ast.Expr) bool {
	n := 0
	ast.Inspect(e, func(x ast.Node) bool {
		if c, ok := x.(*ast.CompositeLit); ok {
			n += len(c.Elts)
		}
		return true
	})
	return n > 200
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "", "directory of the sim module")
	flag.Parse()
	must := func(err error) {
		if err != nil {
			fatal("%v", err)
		}
	}
	must(os.RemoveAll(*out))
	must(os.MkdirAll(*out, 0o755))

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	must(err)
	dec := json.NewDecoder(bytes.NewReader(raw))
	var pkgs []*listPkg
	exports := map[string]string{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			must(err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, &p)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	overlay := map[string]string{}
	var sites []string
	lruDir := ""
	nfiles := 0
	var pkgPaths []string
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Name == "main" {
			continue
		}
		isRepo := p.Module.Path == repoMod
		isLru := p.Module.Path == lruMod
		if !isRepo && !isLru {
			continue
		}
		if isRepo {
			pkgPaths = append(pkgPaths, p.ImportPath)
		}
		var files []*file
		var asts []*ast.File
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(path)
			must(err)
			a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			must(err)
			files = append(files, &file{path: path, src: src, ast: a})
			asts = append(asts, a)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go" + p.Module.GoVersion}
		if p.Module.GoVersion == "" {
			conf.GoVersion = ""
		}
		tp, err := conf.Check(p.ImportPath, fset, asts, info)
		must(err)
		old := true
		if v := strings.Split(p.Module.GoVersion, "."); len(v) >= 2 {
			if n, _ := strconv.Atoi(v[1]); n >= 22 {
				old = false
			}
		}
		// which package variables are written to or have their address taken
		assigned := map[types.Object]bool{}
		mark := func(e ast.Expr) {
			for {
				switch x := e.(type) {
				case *ast.IndexExpr:
					e = x.X
					continue
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						if o := info.Uses[id]; o != nil {
							assigned[o] = true
						}
					}
					e = x.X
					continue
				case *ast.ParenExpr:
					e = x.X
					continue
				case *ast.Ident:
					if o := info.Uses[x]; o != nil {
						assigned[o] = true
					}
				}
				return
			}
		}
		for _, a := range asts {
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				}
				return true
			})
		}
		fileOf := func(pos token.Pos) *file {
			for _, f := range files {
				if fset.Position(pos).Filename == f.path {
					return f
				}
			}
			return files[0]
		}
		var reset []string
		inited := map[*types.Var]bool{}
		nr := 0
		for _, in := range info.InitOrder {
			names := []string{}
			real, keep := 0, false
			for _, v := range in.Lhs {
				inited[v] = true
				names = append(names, v.Name())
				if v.Name() != "_" {
					real++
				}
				if assigned[v] {
					keep = true
				}
			}
			if real == 0 || (bigLiteral(in.Rhs) && !keep) {
				continue
			}
			f := fileOf(in.Rhs.Pos())
			fn := fmt.Sprintf("simReset%d", nr)
			nr++
			f.resets = append(f.resets, resetFn{fn, strings.Join(names, ", "), fset.Position(in.Rhs.Pos()).Offset, fset.Position(in.Rhs.End()).Offset})
			reset = append(reset, fn+"()")
		}
		scope := tp.Scope()
		var zero []string
		for _, nm := range scope.Names() {
			if v, ok := scope.Lookup(nm).(*types.Var); ok && !inited[v] {
				zero = append(zero, "simrt.Zero(&"+nm+")")
			}
		}
		reset = append(zero, reset...)
		ni := 0
		for _, f := range files {
			for _, d := range f.ast.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Name.Name != "init" {
					continue
				}
				fn := fmt.Sprintf("simInit%d", ni)
				ni++
				o := fset.Position(fd.Name.Pos()).Offset
				f.rep(o, o+4, fn)
				fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", fn)
				reset = append(reset, fn+"()")
			}
		}
		fmt.Fprintf(&files[0].tail, "\nfunc init() { simrt.RegisterReset(func() { %s }) }\n", strings.Join(reset, "; "))
		for _, f := range files {
			rel, _ := filepath.Rel(*repo, f.path)
			if isLru {
				rel = "go-lru/" + strings.TrimPrefix(strings.TrimPrefix(f.path, p.Module.Dir), "/")
			}
			in := &inst{fset: fset, info: info, f: f, sites: &sites, old: old, rel: rel}
			in.file()
			var dst string
			if isRepo {
				dst = filepath.Join(*out, "overlay", fmt.Sprintf("%03d_%s", nfiles, filepath.Base(f.path)))
				overlay[f.path] = dst
			} else {
				lruDir = p.Module.Dir
				sub, _ := filepath.Rel(p.Module.Dir, f.path)
				dst = filepath.Join(*out, "go-lru", sub)
			}
			nfiles++
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, f.render(), 0o644))
		}
	}
	if len(overlay) == 0 {
		fatal("no packages of %s found", repoMod)
	}
	// The dependency: knob for its capacity, module files.
	useLru := lruDir != ""
	if useLru {
		opt := filepath.Join(*out, "go-lru", "options.go")
		b, err := os.ReadFile(opt)
		must(err)
		nb := bytes.Replace(b, []byte("o.capacity = capacity"), []byte("o.capacity = simrt.CapKnob(capacity)"), 1)
		if bytes.Equal(b, nb) {
			fatal("go-lru: capacity assignment not found")
		}
		must(os.WriteFile(opt, nb, 0o644))
		gm, err := os.ReadFile(filepath.Join(lruDir, "go.mod"))
		must(err)
		must(os.WriteFile(filepath.Join(*out, "go-lru", "go.mod"), gm, 0o644))
	}
	// The site table lives in the harness module.
	var sb strings.Builder
	sb.WriteString("package main\n\nimport \"verif.local/sim/simrt\"\n\nvar siteNames = [...]string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	fmt.Fprintf(&sb, "}\n\nfunc init() {\n\tsimrt.SetSites(len(siteNames)+%d, func(s int32) string {\n\t\tif int(s) >= %d && int(s)-%d < len(siteNames) {\n\t\t\treturn siteNames[int(s)-%d]\n\t\t}\n\t\treturn seamName(s)\n\t})\n}\n", seams, seams, seams, seams)
	st := filepath.Join(*out, "sites.go")
	must(os.WriteFile(st, []byte(sb.String()), 0o644))
	overlay[filepath.Join(*sim, "dst", "zz_sites.go")] = st
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644))
	// Under the race detector the standard library's pools (of package regexp
	// and fmt) order the tasks that use them, at random. There they keep
	// nothing: only what the code itself does orders the tasks.
	if root, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		pool := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
		const drop = "if runtime_randn(4) == 0 {"
		if src, err := os.ReadFile(pool); err == nil && strings.Count(string(src), drop) == 1 {
			to := filepath.Join(*out, "overlay", "pool.go")
			must(os.WriteFile(to, []byte(strings.Replace(string(src), drop, "if runtime_randn(4) < 4 {", 1)), 0o644))
			overlay[pool] = to
		} else {
			fmt.Fprintln(os.Stderr, "instr: sync.Pool of the standard library is not as expected; left alone")
		}
	}
	ob, _ = json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.race.json"), ob, 0o644))

	gm := "module verif.local/sim\n\ngo 1.23\n\nrequire " + repoMod + " v0.0.0\n\nreplace " + repoMod + " => " + *repo + "\n"
	if useLru {
		gm += "\nrequire " + lruMod + " v0.1.0\n\nreplace " + lruMod + " => " + filepath.Join(*out, "go-lru") + "\n"
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(gm), 0o644))
	sum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(os.WriteFile(filepath.Join(*out, "go.sum"), sum, 0o644))
	fmt.Printf("instr: %d files, %d yield points\n", nfiles, len(sites))
}
