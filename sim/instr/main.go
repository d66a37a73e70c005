// Command instr builds the simulated copy of the code under test: it copies the
// working tree, then rewrites the copy so that every source of nondeterminism
// goes through simrt (see ../simrt). It never touches the original.
//
//	instr -src /repo -dst SCRATCH -sim /verif/sim          whole tree
//	instr -dst SCRATCH -sim /verif/sim -only zsim/gen/...  extra packages
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/pandatix/go-abnf"
const rtPath = modPath + "/zsim/simrt"
const shimPath = modPath + "/zsim/shim/"

// Import rewriting: which standard packages are replaced where.
var libShims = []string{"sync", "maps", "math/rand", "math/rand/v2", "time"}
var cmdShims = []string{"sync", "maps", "math/rand", "math/rand/v2", "time", "os", "fmt", "log", "flag", "os/signal", "io/ioutil"}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
	Imports    []string
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

func goCmd(dir string, args ...string) []byte {
	c := exec.Command("go", args...)
	c.Dir = dir
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		die("go %s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes()
}

func list(dir string, pats ...string) map[string]*listPkg {
	out := goCmd(dir, append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Error,DepsErrors,Imports"}, pats...)...)
	dec := json.NewDecoder(bytes.NewReader(out))
	m := map[string]*listPkg{}
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		m[p.ImportPath] = &p
	}
	return m
}

func copyTree(src, dst string) {
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "testdata" || d.Name() == "node_modules" || rel == "res" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		die("copy: %v", err)
	}
}

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	edits []edit
	used  bool
	shims map[string]bool
	chans bool // rewrite channel operations and go statements
}

var siteNext = 1
var sites []string

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) ins(p token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.off(p), text: s, seq: len(r.edits)})
}
func (r *rewriter) del(from, to token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.off(from), del: r.off(to) - r.off(from), text: s, seq: len(r.edits)})
}

func hasPointer(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		if _, ok := t.(*types.TypeParam); ok {
			return true
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointer(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasPointer(u.Elem(), depth+1)
	}
	return false
}

func mapOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// constraint with a map core type
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				if u, ok := it.EmbeddedType(i).(*types.Union); ok && u.Len() == 1 {
					if m, ok := u.Term(0).Type().Underlying().(*types.Map); ok {
						return m
					}
				}
			}
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) storeKey(e ast.Expr) {
	ix, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return
	}
	m := mapOf(r.info.TypeOf(ix.X))
	if m == nil || !hasPointer(m.Key(), 0) {
		return
	}
	if tv, ok := r.info.Types[ix.Index]; ok && (tv.IsNil() || tv.Value != nil) {
		return
	}
	r.ins(ix.Index.Pos(), "zsimrt.T(")
	r.ins(ix.Index.End(), ")")
	r.used = true
}

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.ins(s.Pos(), "zsimrt.Y();")
		r.used = true
	}
}

func (r *rewriter) typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Name() == r.file.Name.Name {
			return ""
		}
		return p.Name()
	})
}

func (r *rewriter) visit(n ast.Node) bool {
	switch v := n.(type) {
	case *ast.BlockStmt:
		r.stmts(v.List)
	case *ast.CaseClause:
		r.stmts(v.Body)
	case *ast.CommClause:
		r.stmts(v.Body)
	case *ast.RangeStmt:
		t := r.info.TypeOf(v.X)
		if mapOf(t) != nil {
			site := siteNext
			siteNext++
			pos := r.fset.Position(v.Pos())
			sites = append(sites, fmt.Sprintf("%d %s:%d", site, filepath.Base(pos.Filename), pos.Line))
			r.ins(v.X.Pos(), fmt.Sprintf("zsimrt.Range(%d,", site))
			r.ins(v.X.End(), ")")
			r.used = true
		} else if isChan(t) && r.chans {
			r.ins(v.X.Pos(), "zsimrt.RangeChan(")
			r.ins(v.X.End(), ")")
			r.used = true
		}
	case *ast.AssignStmt:
		for _, l := range v.Lhs {
			r.storeKey(l)
		}
	case *ast.IncDecStmt:
		r.storeKey(v.X)
	case *ast.CompositeLit:
		if m := mapOf(r.info.TypeOf(v)); m != nil && hasPointer(m.Key(), 0) {
			for _, e := range v.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					if cl, isLit := kv.Key.(*ast.CompositeLit); isLit && cl.Type == nil {
						continue
					}
					if tv := r.info.Types[kv.Key]; tv.IsNil() || tv.Value != nil {
						continue
					}
					r.ins(kv.Key.Pos(), "zsimrt.T(")
					r.ins(kv.Key.End(), ")")
					r.used = true
				}
			}
		}
	case *ast.GoStmt:
		r.used = true
		// go f(a, b)  ->  zsimrt.GoCall(f, a, b)
		r.del(v.Go, v.Call.Fun.Pos(), "zsimrt.GoCall(")
		if len(v.Call.Args) > 0 {
			r.del(v.Call.Lparen, v.Call.Lparen+1, ",")
		} else {
			r.del(v.Call.Lparen, v.Call.Lparen+1, "")
		}
	case *ast.SelectStmt:
		if r.chans {
			r.selectStmt(v)
		}
	case *ast.UnaryExpr:
		if v.Op == token.ARROW && r.chans && !inComm[v] {
			r.used = true
			if inRecv2[v] {
				r.del(v.OpPos, v.X.Pos(), "zsimrt.Recv2(")
			} else {
				r.del(v.OpPos, v.X.Pos(), "zsimrt.Recv(")
			}
			r.ins(v.X.End(), ")")
		}
	case *ast.SendStmt:
		if r.chans && !inCommS[v] {
			r.used = true
			r.ins(v.Chan.Pos(), "zsimrt.Send(")
			r.del(v.Arrow, v.Arrow+2, ",")
			r.ins(v.Value.End(), ")")
		}
	}
	return true
}

var inComm = map[*ast.UnaryExpr]bool{}
var inRecv2 = map[*ast.UnaryExpr]bool{}
var inCommS = map[*ast.SendStmt]bool{}

// selectStmt rewrites
//
//	select { case v := <-a: A; case b <- x: B; default: C }
//
// into
//
//	switch zi, zv, zok := zsimrt.Select(hasDefault, zsimrt.RecvCase(a), zsimrt.SendCase(b, x)); zi { case 0: v := zsimrt.As[T](zv); A ... }
func (r *rewriter) selectStmt(v *ast.SelectStmt) {
	r.used = true
	hasDefault := false
	var args []string
	idx := 0
	type clause struct {
		c    *ast.CommClause
		head string
	}
	var cl []clause
	text := func(e ast.Expr) string { return string(r.src[r.off(e.Pos()):r.off(e.End())]) }
	for _, s := range v.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			cl = append(cl, clause{c, "case -1:"})
			continue
		}
		head := fmt.Sprintf("case %d:", idx)
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			inCommS[m] = true
			args = append(args, "zsimrt.SendCase("+text(m.Chan)+","+text(m.Value)+")")
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			inComm[u] = true
			args = append(args, "zsimrt.RecvCase("+text(u.X)+")")
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			inComm[u] = true
			args = append(args, "zsimrt.RecvCase("+text(u.X)+")")
			et := r.info.TypeOf(u.X).Underlying().(*types.Chan).Elem()
			rhs := fmt.Sprintf("zsimrt.As[%s](zv)", r.typeStr(et))
			lhs := text(m.Lhs[0])
			if len(m.Lhs) == 2 {
				lhs += "," + text(m.Lhs[1])
				rhs += ", zok"
			}
			head += lhs + m.Tok.String() + rhs + ";"
		}
		idx++
		cl = append(cl, clause{c, head})
	}
	r.del(v.Select, v.Body.Lbrace, fmt.Sprintf("switch zi, zv, zok := zsimrt.Select(%v,%s); zi ", hasDefault, strings.Join(args, ",")))
	first := true
	for _, c := range cl {
		h := c.head
		if first {
			h += "_,_=zv,zok;"
			first = false
		}
		r.del(c.c.Case, c.c.Colon+1, h)
	}
	if !hasDefault {
		// keeps the statement terminating, as a select without default is
		r.ins(v.Body.Rbrace, "default: _,_=zv,zok; panic(\"sim: no clause\");")
	}
}

func (r *rewriter) imports() {
	for _, im := range r.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if !r.shims[p] {
			continue
		}
		name := filepath.Base(p)
		if p == "math/rand/v2" {
			name = "rand"
		}
		np := strconv.Quote(shimPath + p)
		if im.Name == nil {
			np = name + " " + np
		}
		r.del(im.Path.Pos(), im.Path.End(), np)
	}
}

func (r *rewriter) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		// at the same offset: closing parens first, then Y(), then openers
		pi, pj := prio(r.edits[i]), prio(r.edits[j])
		if pi != pj {
			return pi < pj
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			continue // inside a deleted region
		}
		out.Write(r.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.off + e.del
	}
	out.Write(r.src[pos:])
	return out.Bytes()
}

func prio(e edit) int {
	switch {
	case e.text == ")":
		return 0
	case e.text == "zsimrt.Y();":
		return 1
	case e.del > 0:
		return 3
	}
	return 2
}

func instrument(p *listPkg, pkgs map[string]*listPkg, shims []string, rewriteBody bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, gf := range p.GoFiles {
		fn := filepath.Join(p.Dir, gf)
		b, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, f)
		srcs[f] = b
		names[f] = fn
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	if rewriteBody {
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			q := pkgs[path]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(q.Export)
		})}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("typecheck %s: %v", p.ImportPath, err)
		}
	}
	sh := map[string]bool{}
	for _, s := range shims {
		sh[s] = true
	}
	for _, f := range files {
		r := &rewriter{fset: fset, info: info, src: srcs[f], file: f, shims: sh, chans: true}
		r.imports()
		if rewriteBody {
			for _, d := range f.Decls {
				ast.Inspect(d, func(n ast.Node) bool {
					if as, ok := n.(*ast.AssignStmt); ok && len(as.Lhs) == 2 && len(as.Rhs) == 1 {
						if u, ok := ast.Unparen(as.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							inRecv2[u] = true
						}
					}
					return true
				})
				ast.Inspect(d, r.visit)
			}
			if r.used {
				r.ins(f.Name.End(), "; import zsimrt \""+rtPath+"\"")
			}
		}
		if len(r.edits) == 0 {
			continue
		}
		if err := os.WriteFile(names[f], r.apply(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

// mainToPkg turns a command into an importable package: package main -> name,
// func main -> func Main.
func mainToPkg(p *listPkg, name string) {
	for _, gf := range p.GoFiles {
		fn := filepath.Join(p.Dir, gf)
		b, _ := os.ReadFile(fn)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, b, 0)
		if err != nil {
			die("parse: %v", err)
		}
		r := &rewriter{fset: fset, src: b, file: f}
		r.del(f.Name.Pos(), f.Name.End(), name)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				r.del(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}
		if err := os.WriteFile(fn, r.apply(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func main() {
	src := flag.String("src", "", "tree under test")
	dst := flag.String("dst", "", "scratch copy")
	sim := flag.String("sim", "", "simulator sources (simrt, shim, harness)")
	only := flag.String("only", "", "comma separated extra packages inside dst to instrument")
	flag.Parse()
	if *only != "" {
		pats := strings.Split(*only, ",")
		pkgs := list(*dst, pats...)
		for _, pat := range pats {
			p := pkgs[modPath+"/"+strings.TrimPrefix(pat, "./")]
			if p == nil {
				die("no package for %s", pat)
			}
			siteNext = 5000
			instrument(p, pkgs, libShims, true)
		}
		return
	}
	if *src != "" {
		copyTree(*src, *dst)
	}
	pkgs := list(*dst, ".", "./cmd/abnf-gen", "./cmd/pap/...")
	copyTree(filepath.Join(*sim, "simrt"), filepath.Join(*dst, "zsim/simrt"))
	copyTree(filepath.Join(*sim, "harness"), filepath.Join(*dst, "zsim/harness"))
	genShims(*dst, *sim)

	papPrefix := modPath + "/cmd/pap"
	// The CLI framework is part of the simulated process: its own use of os and
	// fmt goes through the same seams (imports only; its body is not scheduled).
	cliDir := filepath.Join(*dst, "zsim/third/cli")
	var cliPath string
	for ip, p := range pkgs {
		if strings.HasPrefix(ip, "github.com/urfave/cli/v2") && p.Name == "cli" {
			cliPath = ip
			copyTree(p.Dir, cliDir)
			q := *p
			q.Dir = cliDir
			instrument(&q, pkgs, []string{"os", "fmt", "log", "flag", "os/signal", "io/ioutil"}, false)
			rewriteImport(cliDir, ip, modPath+"/zsim/third/cli")
		}
	}
	os.Remove(filepath.Join(cliDir, "go.mod"))
	os.Remove(filepath.Join(cliDir, "go.sum"))

	var done []string
	for ip, p := range pkgs {
		if p.Standard || !strings.HasPrefix(ip, modPath) || strings.HasPrefix(ip, modPath+"/zsim") {
			continue
		}
		done = append(done, ip)
	}
	sort.Strings(done)
	for _, ip := range done {
		p := pkgs[ip]
		sh := libShims
		if strings.HasPrefix(ip, modPath+"/cmd/") {
			sh = cmdShims
		}
		instrument(p, pkgs, sh, true)
	}
	for _, ip := range done {
		p := pkgs[ip]
		if !strings.HasPrefix(ip, modPath+"/cmd/") {
			continue
		}
		if cliPath != "" {
			rewriteImport(p.Dir, cliPath, modPath+"/zsim/third/cli")
		}
		if p.Name == "main" {
			n := "papmain"
			if ip != papPrefix {
				n = "genmain"
			}
			mainToPkg(p, n)
		}
	}
	// One module: cmd/pap joins the root module in the scratch copy, so the
	// third-party requirements are merged.
	mergeMods(*dst)
	os.WriteFile(filepath.Join(*dst, "zsim/sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
}

func rewriteImport(dir, from, to string) {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.IsDir() {
			rewriteImport(filepath.Join(dir, e.Name()), from, to)
			continue
		}
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		fn := filepath.Join(dir, e.Name())
		b, _ := os.ReadFile(fn)
		nb := bytes.ReplaceAll(b, []byte(strconv.Quote(from)), []byte(strconv.Quote(to)))
		if !bytes.Equal(b, nb) {
			os.WriteFile(fn, nb, 0o644)
		}
	}
}

// mergeMods removes the nested cmd/pap module and the workspace and adds its
// requirements to the root module.
func mergeMods(dst string) {
	var req []string
	for _, f := range []string{"go.mod", "cmd/pap/go.mod"} {
		b, err := os.ReadFile(filepath.Join(dst, f))
		if err != nil {
			continue
		}
		in := false
		for _, l := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "require ("):
				in = true
			case in && t == ")":
				in = false
			case in && t != "":
				req = append(req, t)
			case strings.HasPrefix(t, "require "):
				req = append(req, strings.TrimPrefix(t, "require "))
			}
		}
	}
	gov := "1.24"
	b, _ := os.ReadFile(filepath.Join(dst, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "go ") {
			gov = strings.TrimSpace(strings.TrimPrefix(l, "go "))
		}
	}
	seen := map[string]bool{}
	var out strings.Builder
	fmt.Fprintf(&out, "module %s\n\ngo %s\n\nrequire (\n", modPath, gov)
	for _, q := range req {
		f := strings.Fields(q)
		if len(f) < 2 || f[0] == modPath || seen[f[0]] {
			continue
		}
		seen[f[0]] = true
		fmt.Fprintf(&out, "\t%s %s\n", f[0], f[1])
	}
	out.WriteString(")\n")
	var sum bytes.Buffer
	for _, f := range []string{"go.sum", "cmd/pap/go.sum", "go.work.sum"} {
		b, _ := os.ReadFile(filepath.Join(dst, f))
		sum.Write(b)
	}
	os.Remove(filepath.Join(dst, "go.work"))
	os.Remove(filepath.Join(dst, "go.work.sum"))
	os.Remove(filepath.Join(dst, "cmd/pap/go.mod"))
	os.Remove(filepath.Join(dst, "cmd/pap/go.sum"))
	os.WriteFile(filepath.Join(dst, "go.mod"), []byte(out.String()), 0o644)
	os.WriteFile(filepath.Join(dst, "go.sum"), sum.Bytes(), 0o644)
}
