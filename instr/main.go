// Command instr produces instrumented copies of every non-test Go file of the
// repository's current tree, and the -overlay file with which the go command
// builds them together with the simulator and a harness.
//
// It judges nothing about the code: it only puts a scheduling point before
// every statement and around every shared-memory operation, and redirects the
// parts of the standard library through which nondeterminism enters (locks,
// channels, goroutines, clocks, network, signals, randomness, map order) to
// their simulated equivalents.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path string }
	Deps                          []string
	Error                         *struct{ Err string }
}

type edit struct {
	lo, hi int // replaced range; lo == hi for an insertion
	text   string
	class  int // 0: closes at this offset, 1: opens at this offset
	seq    int
}

type fileCtx struct {
	fset  *token.FileSet
	tf    *token.File
	f     *ast.File
	src   []byte
	info  *types.Info
	pkg   *types.Package
	edits []*edit
	n     int // helper names
	uses  map[*types.PkgName]int
	path  string
	label string
	level int
}

var (
	sites   = []string{"harness"}
	modPath string
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "scratch directory for generated files")
	modfile := flag.String("modfile", "", "go.mod to use")
	vsim := flag.String("vsim", "", "simulator sources")
	harness := flag.String("harness", "", "harness sources, one subdirectory per package")
	want := flag.String("want", "", "comma-separated harness packages to link")
	level := flag.Int("level", 2, "2: full, 1: statement-level yields only")
	flag.Parse()

	cmd := exec.Command("go", "list", "-modfile="+*modfile, "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,Deps,Error", ".", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard {
			pkgs = append(pkgs, p)
		}
	}
	gm, err := os.ReadFile(*modfile)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	replace := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	instrumented := 0
	for pi, p := range pkgs {
		if p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/") {
			continue
		}
		if p.Name == "main" && p.ImportPath != modPath {
			continue // other programs of the repository are not linked
		}
		if strings.HasSuffix(p.ImportPath, "/testutil") {
			continue // test helpers: not part of the system
		}
		var files []*ast.File
		var ctxs []*fileCtx
		for _, name := range p.GoFiles {
			path := filepath.Join(p.Dir, name)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			rel, _ := filepath.Rel(*repo, path)
			files = append(files, f)
			ctxs = append(ctxs, &fileCtx{fset: fset, tf: fset.File(f.Pos()), f: f, src: src, path: path, label: rel, level: *level})
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("type check %s: %v", p.ImportPath, err)
		}
		resets := map[*fileCtx][]string{}
		initFns := 0
		order := map[types.Object]int{}
		for i, in := range info.InitOrder {
			for _, l := range in.Lhs {
				order[l] = i
			}
		}
		for _, c := range ctxs {
			c.info, c.pkg = info, tp
			c.instrument(p.Name == "main", func(s string) { resets[c] = append(resets[c], s) }, pi, order, &initFns)
			outp := filepath.Join(*out, "i", strings.ReplaceAll(c.label, "/", "__"))
			os.MkdirAll(filepath.Dir(outp), 0o755)
			text := c.render(0, len(c.src))
			if len(resets[c]) > 0 {
				text += "\nfunc init() {\n" + strings.Join(resets[c], "\n") + "\n}\n"
			}
			if err := os.WriteFile(outp, []byte(text), 0o644); err != nil {
				fatal("%v", err)
			}
			replace[c.path] = outp
			instrumented++
		}
	}
	// simulator
	addDir := func(src, dst string) {
		ents, err := os.ReadDir(src)
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				replace[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	addDir(*vsim, filepath.Join(*repo, "internal/zzvsim"))
	var sb strings.Builder
	sb.WriteString("package zzvsim\n\nvar SiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("}\n")
	sn := filepath.Join(*out, "sites.go")
	os.WriteFile(sn, []byte(sb.String()), 0o644)
	replace[filepath.Join(*repo, "internal/zzvsim/zzsites.go")] = sn
	addDir(filepath.Join(*harness, "core"), filepath.Join(*repo, "internal/zzharness/core"))
	var mb strings.Builder
	mb.WriteString("package main\n\nimport \"" + modPath + "/internal/zzharness/core\"\n")
	for _, w := range strings.Split(*want, ",") {
		if w == "" {
			continue
		}
		addDir(filepath.Join(*harness, w), filepath.Join(*repo, "internal/zzharness", w))
		mb.WriteString("import _ \"" + modPath + "/internal/zzharness/" + w + "\"\n")
	}
	mb.WriteString("\nfunc main() { core.Main(starbowMain) }\n")
	mn := filepath.Join(*out, "zzmain.go")
	os.WriteFile(mn, []byte(mb.String()), 0o644)
	replace[filepath.Join(*repo, "zzmain.go")] = mn

	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("instr: %d files, %d scheduling sites\n", instrumented, len(sites)-1)
}

// ---------------------------------------------------------------- edits

func (c *fileCtx) off(p token.Pos) int { return c.tf.Offset(p) }

func (c *fileCtx) add(e *edit) {
	e.seq = len(c.edits)
	c.edits = append(c.edits, e)
}

// open inserts text that precedes whatever starts at p.
func (c *fileCtx) open(p token.Pos, t string) {
	c.add(&edit{lo: c.off(p), hi: c.off(p), text: t, class: 1})
}

// shut inserts text that follows whatever ends at p.
func (c *fileCtx) shut(p token.Pos, t string) {
	c.add(&edit{lo: c.off(p), hi: c.off(p), text: t, class: 0})
}

func (c *fileCtx) repl(lo, hi token.Pos, t string) {
	c.add(&edit{lo: c.off(lo), hi: c.off(hi), text: t, class: 1})
}

// render applies the edits lying inside [lo,hi). Opening edits are added outer
// first and closing edits inner first, the order in which they apply.
func (c *fileCtx) render(lo, hi int) string {
	var es []*edit
	for _, e := range c.edits {
		if e.lo < lo || e.hi > hi {
			continue
		}
		if e.lo == e.hi {
			// an insertion exactly on the boundary belongs inside only if it
			// opens at lo or closes at hi
			if e.lo == lo && e.class == 0 && lo != 0 {
				continue
			}
			if e.lo == hi && e.class == 1 && hi != len(c.src) {
				continue
			}
		}
		es = append(es, e)
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.lo != b.lo {
			return a.lo < b.lo
		}
		if a.class != b.class {
			return a.class < b.class
		}
		if a.class == 0 {
			return a.seq < b.seq
		}
		// insertions before replacements starting here
		ai, bi := a.lo == a.hi, b.lo == b.hi
		if ai != bi {
			return ai
		}
		if !ai && a.hi != b.hi {
			return a.hi > b.hi
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	pos := lo
	for _, e := range es {
		if e.lo < pos {
			continue // inside a replaced range
		}
		sb.Write(c.src[pos:e.lo])
		sb.WriteString(e.text)
		pos = e.hi
	}
	sb.Write(c.src[pos:hi])
	return sb.String()
}

// sub renders the source of a node with the edits inside it applied.
func (c *fileCtx) sub(n ast.Node, skipFrom int) string {
	lo, hi := c.off(n.Pos()), c.off(n.End())
	// only edits added for this node or below it
	save := c.edits
	var es []*edit
	for _, e := range save {
		if e.seq >= skipFrom {
			es = append(es, e)
		}
	}
	c.edits = es
	s := c.render(lo, hi)
	c.edits = save
	return s
}

func (c *fileCtx) site(p token.Pos) string {
	pos := c.fset.Position(p)
	sites = append(sites, c.label+":"+strconv.Itoa(pos.Line))
	return strconv.Itoa(len(sites) - 1)
}

func (c *fileCtx) tmp(s string) string { c.n++; return "zz" + s + strconv.Itoa(c.n) }

// ---------------------------------------------------------------- replacements

// standard library symbols redirected to the simulator
var symbols = map[string]string{
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once", "sync.Cond": "Cond",
	"sync.NewCond": "NewCond", "sync.Pool": "Pool", "sync.Map": "Map", "sync.Locker": "Locker", "sync.OnceFunc": "OnceFunc", "sync.OnceValue": "OnceValue", "sync.OnceValues": "OnceValues",
	"time.Now": "TimeNow", "time.Since": "TimeSince", "time.Until": "TimeUntil", "time.Sleep": "Sleep", "time.After": "TimeAfter",
	"time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer", "time.NewTicker": "NewTicker", "time.Tick": "Tick", "time.Timer": "Timer", "time.Ticker": "Ticker",
	"context.WithTimeout": "WithTimeout", "context.WithDeadline": "WithDeadline", "context.AfterFunc": "ContextAfterFunc",
	"context.WithTimeoutCause": "WithTimeoutCause", "context.WithDeadlineCause": "WithDeadlineCause",
	"os/signal.Notify": "SignalNotify", "os/signal.Stop": "SignalStop", "os/signal.Ignore": "SignalIgnore", "os/signal.Reset": "SignalReset", "os/signal.NotifyContext": "SignalNotifyContext",
	"net.Listen": "Listen", "net/http.Server": "HTTPServer", "net/http.ListenAndServe": "HTTPListenAndServe", "net/http.Serve": "HTTPServe", "net/http.TimeoutHandler": "TimeoutHandler",
	"net.ListenConfig": "ListenConfig",
	"os.Exit":          "OsExit", "os.Stderr": "Stderr", "os.Stdout": "Stdout",
	"log.Fatal": "Fatal", "log.Fatalf": "Fatalf", "log.Fatalln": "Fatal", "log.Print": "LogPrint", "log.Println": "LogPrint", "log.Printf": "LogPrintf",
	"fmt.Print": "FmtPrint", "fmt.Println": "FmtPrint", "fmt.Printf": "FmtPrintf",
	"math/rand.Int": "RandInt", "math/rand.Int63": "RandInt63", "math/rand.Intn": "RandIntn", "math/rand.Int63n": "RandInt63n", "math/rand.Int31n": "RandInt31n",
	"math/rand.Uint32": "RandUint32", "math/rand.Uint64": "RandUint64", "math/rand.Float64": "RandFloat64", "math/rand.Seed": "RandSeed", "math/rand.Perm": "RandPerm", "math/rand.Shuffle": "RandShuffle",
	"crypto/rand.Reader": "RandReader", "crypto/rand.Read": "RandRead", "runtime.Gosched": "Gosched", "runtime.NumGoroutine": "NumTasks",
	"math/rand/v2.Int": "RandInt", "math/rand/v2.Int64": "RandInt63", "math/rand/v2.IntN": "RandIntn", "math/rand/v2.Int64N": "RandInt63n", "math/rand/v2.Int32N": "RandInt31n",
	"math/rand/v2.Uint32": "RandUint32", "math/rand/v2.Uint64": "RandUint64", "math/rand/v2.Float64": "RandFloat64", "math/rand/v2.Perm": "RandPerm", "math/rand/v2.Shuffle": "RandShuffle",
	"math/rand/v2.Uint32N": "RandUint32N", "math/rand/v2.Uint64N": "RandUint64N", "math/rand/v2.UintN": "RandUintN", "math/rand/v2.Int32": "RandInt31", "math/rand.Int31": "RandInt31", "math/rand.Float32": "RandFloat32", "math/rand/v2.Float32": "RandFloat32",
	"hash/maphash.MakeSeed": "MakeSeed", "hash/maphash.Seed": "Seed", "hash/maphash.Hash": "MapHash", "hash/maphash.String": "MapHashString", "hash/maphash.Bytes": "MapHashBytes",
	"net/http.DefaultServeMux": "DefaultServeMux", "net/http.Handle": "HTTPHandle", "net/http.HandleFunc": "HTTPHandleFunc",
	"expvar.NewInt": "ExpvarInt", "expvar.NewFloat": "ExpvarFloat", "expvar.NewString": "ExpvarString", "expvar.NewMap": "ExpvarMap", "expvar.Publish": "ExpvarPublish",
	"flag.String": "FlagString", "flag.Int": "FlagInt", "flag.Int64": "FlagInt64", "flag.Uint": "FlagUint", "flag.Uint64": "FlagUint64", "flag.Bool": "FlagBool", "flag.Duration": "FlagDuration", "flag.Float64": "FlagFloat64",
	"flag.StringVar": "FlagStringVar", "flag.IntVar": "FlagIntVar", "flag.Int64Var": "FlagInt64Var", "flag.UintVar": "FlagUintVar", "flag.Uint64Var": "FlagUint64Var", "flag.BoolVar": "FlagBoolVar", "flag.DurationVar": "FlagDurationVar", "flag.Float64Var": "FlagFloat64Var",
	"flag.Parse": "FlagParse", "flag.Arg": "FlagArg", "flag.Args": "FlagArgs", "flag.NArg": "FlagNArg",
	"os.Getpid": "Getpid",
	"io.Pipe":   "Pipe", "io.PipeReader": "PipeReader", "io.PipeWriter": "PipeWriter",
}

const vs = "zzvsim."

func (c *fileCtx) instrument(isMain bool, reset func(string), pi int, order map[types.Object]int, initFns *int) {
	// the simulator's import, and a guard that it is used
	c.add(&edit{lo: c.off(c.f.Name.End()), hi: c.off(c.f.Name.End()), text: "; import zzvsim \"" + modPath + "/internal/zzvsim\"", class: 0})
	total := map[*types.PkgName]int{}
	redirected := map[*types.PkgName]int{}
	ast.Inspect(c.f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := c.info.Uses[id].(*types.PkgName); ok {
				total[pn]++
			}
		}
		return true
	})
	c.uses = redirected
	for _, d := range c.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if isMain && d.Recv == nil && d.Name.Name == "main" {
				c.repl(d.Name.Pos(), d.Name.End(), "starbowMain")
			}
			if d.Recv == nil && d.Name.Name == "init" {
				*initFns++
				nm := "zzinit" + strconv.Itoa(*initFns)
				c.repl(d.Name.Pos(), d.Name.End(), nm)
				reset(fmt.Sprintf("%s(); zzvsim.OnReset(%d, %d, %s)", nm, pi, 1000000+*initFns, nm))
			}
			if d.Type != nil {
				c.walk(d.Type)
			}
			if d.Recv != nil {
				c.walk(d.Recv)
			}
			if d.Body != nil {
				c.block(d.Body.List, d.Body.Lbrace)
			}
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					seq := len(c.edits)
					c.walk(v)
					if d.Tok == token.VAR {
						c.resetVar(v, reset, pi, order, seq)
					}
					continue
				}
				if _, ok := sp.(*ast.ImportSpec); ok {
					continue
				}
				c.walk(sp)
			}
		}
	}
	for _, is := range c.f.Imports {
		var pn *types.PkgName
		if is.Name != nil {
			pn, _ = c.info.Defs[is.Name].(*types.PkgName)
		} else {
			pn, _ = c.info.Implicits[is].(*types.PkgName)
		}
		if pn != nil && redirected[pn] > 0 && redirected[pn] >= total[pn] {
			c.repl(is.Pos(), is.End(), "_ "+is.Path.Value)
		}
	}
	c.add(&edit{lo: len(c.src), hi: len(c.src), text: "\nvar _ = zzvsim.Active\n", class: 0})
}

// resetVar registers the re-initialisation of package-level variables, so that
// a simulated run does not depend on the runs made before it.
func (c *fileCtx) resetVar(v *ast.ValueSpec, reset func(string), pi int, order map[types.Object]int, seq int) {
	names := []string{}
	blank := true
	for _, n := range v.Names {
		names = append(names, n.Name)
		if n.Name != "_" {
			blank = false
		}
	}
	if blank {
		return
	}
	if len(v.Values) == 0 {
		for _, n := range v.Names {
			if n.Name == "_" {
				continue
			}
			t := string(c.src[c.off(v.Type.Pos()):c.off(v.Type.End())])
			_ = t
			reset(fmt.Sprintf("zzvsim.OnReset(%d, -1, func() { zzvsim.Zero(&%s) })", pi, n.Name))
		}
		return
	}
	if len(v.Values) == len(v.Names) {
		for i, n := range v.Names {
			if n.Name == "_" {
				continue
			}
			obj := c.info.Defs[n]
			if obj == nil {
				continue
			}
			if big(v.Values[i]) {
				continue
			}
			reset(fmt.Sprintf("zzvsim.OnReset(%d, %d, func() { %s = %s })", pi, order[obj], n.Name, c.sub(v.Values[i], seq)))
		}
		return
	}
	obj := c.info.Defs[v.Names[0]]
	reset(fmt.Sprintf("zzvsim.OnReset(%d, %d, func() { %s = %s })", pi, order[obj], strings.Join(names, ", "), c.sub(v.Values[0], seq)))
}

// big reports whether re-evaluating the initialiser on every run would be too
// slow (large tables and compiled regular expressions, which are not mutated
// through their public interface).
func big(e ast.Expr) bool {
	n := 0
	re := false
	ast.Inspect(e, func(x ast.Node) bool {
		n++
		if s, ok := x.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "regexp" {
				re = true
			}
		}
		return true
	})
	return n > 4000 || re
}

// block instruments a statement list.
func (c *fileCtx) block(list []ast.Stmt, start token.Pos) {
	for _, s := range list {
		c.stmt(s, true)
	}
}

func (c *fileCtx) yieldBefore(s ast.Stmt) {
	if _, ok := s.(*ast.EmptyStmt); ok {
		return
	}
	c.open(s.Pos(), vs+"Yield("+c.site(s.Pos())+"); ")
}

func (c *fileCtx) stmt(s ast.Stmt, inList bool) {
	if s == nil {
		return
	}
	if inList {
		c.yieldBefore(s)
	}
	c.stmtBody(s, inList)
}

func (c *fileCtx) stmtBody(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		c.stmtBody(s.Stmt, false)
	case *ast.BlockStmt:
		c.block(s.List, s.Lbrace)
	case *ast.IfStmt:
		c.stmt(s.Init, false)
		c.walk(s.Cond)
		c.block(s.Body.List, s.Body.Lbrace)
		c.stmt(s.Else, false)
	case *ast.ForStmt:
		c.stmt(s.Init, false)
		c.walk(s.Cond)
		c.stmt(s.Post, false)
		c.open(s.Body.Lbrace+1, vs+"Yield("+c.site(s.Pos())+"); ")
		c.block(s.Body.List, s.Body.Lbrace)
	case *ast.RangeStmt:
		c.rangeStmt(s)
	case *ast.SwitchStmt:
		c.stmt(s.Init, false)
		c.walk(s.Tag)
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			for _, e := range cl.List {
				c.walk(e)
			}
			c.block(cl.Body, cl.Colon)
		}
	case *ast.TypeSwitchStmt:
		c.stmt(s.Init, false)
		c.walk(s.Assign)
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			for _, e := range cl.List {
				c.walk(e)
			}
			c.block(cl.Body, cl.Colon)
		}
	case *ast.SelectStmt:
		c.selectStmt(s)
	case *ast.GoStmt:
		c.goStmt(s)
	case *ast.SendStmt:
		c.open(s.Pos(), vs+"SendTo(")
		c.walk(s.Chan)
		c.repl(s.Arrow, s.Arrow+2, ")(")
		c.walk(s.Value)
		c.shut(s.End(), ")")
	case *ast.AssignStmt:
		c.assign(s, inList)
	case *ast.IncDecStmt:
		c.incdec(s, inList)
	case *ast.ExprStmt:
		c.walk(s.X)
	case *ast.DeferStmt:
		c.walk(s.Call)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			c.walk(e)
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vsp, ok := sp.(*ast.ValueSpec); ok && len(vsp.Names) == 2 && len(vsp.Values) == 1 {
					if u, ok := unparen(vsp.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						c.walkT(vsp.Type)
						c.recv(u, "Recv2")
						continue
					}
				}
				c.walk(sp)
			}
		}
	}
}

func (c *fileCtx) walkT(e ast.Expr) {
	if e != nil {
		c.walk(e)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// walk instruments expressions (and the function literals in them).
func (c *fileCtx) walk(n ast.Node) {
	if n == nil {
		return
	}
	if e, ok := n.(ast.Expr); ok && e == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			c.walk(x.Type)
			c.block(x.Body.List, x.Body.Lbrace)
			return false
		case *ast.SelectorExpr:
			return c.selector(x)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				c.recv(x, "Recv")
				return false
			}
		case *ast.CallExpr:
			return c.call(x)
		}
		return true
	})
}

func (c *fileCtx) recv(u *ast.UnaryExpr, fn string) {
	c.repl(u.OpPos, u.OpPos+2, vs+fn+"(")
	c.walk(u.X)
	c.shut(u.End(), ")")
}

// selector redirects pkg.Symbol.
func (c *fileCtx) selector(s *ast.SelectorExpr) bool {
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return true
	}
	pn, ok := c.info.Uses[id].(*types.PkgName)
	if !ok {
		return true
	}
	if r, ok := symbols[pn.Imported().Path()+"."+s.Sel.Name]; ok {
		c.repl(s.Pos(), s.End(), vs+r)
		c.uses[pn]++
	}
	return false
}

func isBuiltin(info *types.Info, e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = info.Uses[id].(*types.Builtin)
	return ok
}

func (c *fileCtx) call(x *ast.CallExpr) bool {
	if isBuiltin(c.info, x.Fun, "close") && len(x.Args) == 1 {
		c.repl(x.Fun.Pos(), x.Fun.End(), vs+"CloseChan")
		c.walk(x.Args[0])
		return false
	}
	if c.level >= 2 && isBuiltin(c.info, x.Fun, "copy") && len(x.Args) == 2 {
		fn := "Copy"
		if t := c.info.TypeOf(x.Args[1]); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				fn = "CopyStr"
			}
		}
		c.repl(x.Fun.Pos(), x.Lparen+1, vs+fn+"("+c.site(x.Pos())+", ")
		c.walk(x.Args[0])
		c.walk(x.Args[1])
		return false
	}
	if c.level >= 2 && isBuiltin(c.info, x.Fun, "append") && len(x.Args) == 2 && x.Ellipsis.IsValid() {
		if isByteSlice(c.info.TypeOf(x.Args[0])) && isByteSlice(c.info.TypeOf(x.Args[1])) {
			c.repl(x.Fun.Pos(), x.Lparen+1, vs+"Append("+c.site(x.Pos())+", ")
			c.walk(x.Args[0])
			c.walk(x.Args[1])
			c.repl(x.Ellipsis, x.Ellipsis+3, "")
			return false
		}
	}
	// allocations of computed size can fail
	if isBuiltin(c.info, x.Fun, "make") && len(x.Args) >= 2 {
		t := c.info.TypeOf(x.Args[0])
		if t != nil {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				size := sizeOf(sl.Elem())
				c.walk(x.Args[0])
				for _, a := range x.Args[1:] {
					if at := c.info.TypeOf(a); c.info.Types[a].Value != nil || at == nil || size <= 0 || !isInteger(at) {
						c.walk(a)
						continue
					}
					c.open(a.Pos(), fmt.Sprintf("%sAlloc(%d, ", vs, size))
					c.walk(a)
					c.shut(a.End(), ")")
				}
				return false
			}
		}
	}
	// sync/atomic
	if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := c.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" && len(x.Args) > 0 {
				if _, isFn := c.info.Uses[s.Sel].(*types.Func); isFn {
					c.open(x.Args[0].Pos(), vs+"P("+c.site(x.Pos())+", ")
					for _, a := range x.Args[:1] {
						c.walk(a)
					}
					c.shut(x.Args[0].End(), ")")
					for _, a := range x.Args[1:] {
						c.walk(a)
					}
					return false
				}
			}
		}
		if sel := c.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
			if fn, ok := sel.Obj().(*types.Func); ok && fn.Pkg() != nil && fn.Pkg().Path() == "sync/atomic" && len(sel.Index()) == 1 {
				amp := "&"
				if _, ok := c.info.TypeOf(s.X).Underlying().(*types.Pointer); ok {
					amp = ""
				}
				c.open(s.X.Pos(), vs+"P("+c.site(x.Pos())+", "+amp)
				c.walk(s.X)
				c.shut(s.X.End(), ")")
				for _, a := range x.Args {
					c.walk(a)
				}
				return false
			}
		}
	}
	return true
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (c *fileCtx) goStmt(g *ast.GoStmt) {
	call := g.Call
	simple := !call.Ellipsis.IsValid()
	if id, ok := unparen(call.Fun).(*ast.Ident); ok {
		if _, b := c.info.Uses[id].(*types.Builtin); b {
			simple = false
		}
	}
	if tv, ok := c.info.Types[call.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		simple = false
	}
	// a call with a multi-value argument cannot be spread through GoCall
	if len(call.Args) == 1 {
		if _, ok := c.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
			simple = false
		}
	}
	if !simple {
		c.repl(g.Go, g.Go+2, vs+"Go(func() {")
		c.walk(call)
		c.shut(g.End(), "})")
		return
	}
	c.repl(g.Go, call.Fun.Pos(), vs+"GoCall(")
	c.walk(call.Fun)
	sep := ", "
	if len(call.Args) == 0 {
		sep = ""
	}
	c.repl(call.Lparen, call.Lparen+1, sep)
	for _, a := range call.Args {
		c.walk(a)
	}
}

func (c *fileCtx) rangeStmt(r *ast.RangeStmt) {
	t := c.info.TypeOf(r.X)
	y := vs + "Yield(" + c.site(r.Pos()) + "); "
	switch t.Underlying().(type) {
	case *types.Map:
		it := c.tmp("e")
		c.repl(r.For, r.X.Pos(), "for _, "+it+" := range "+vs+"MapItems(")
		c.walk(r.X)
		c.shut(r.X.End(), ")")
		s := "if !" + it + ".Live() { continue }; "
		var lhs, rhs []string
		if r.Key != nil && !isBlank(r.Key) {
			lhs = append(lhs, c.raw(r.Key))
			rhs = append(rhs, it+".K")
		}
		if r.Value != nil && !isBlank(r.Value) {
			lhs = append(lhs, c.raw(r.Value))
			rhs = append(rhs, it+".V()")
		}
		if len(lhs) > 0 {
			s += strings.Join(lhs, ", ") + " " + r.Tok.String() + " " + strings.Join(rhs, ", ") + "; "
		}
		c.open(r.Body.Lbrace+1, s+y)
	case *types.Chan:
		ch, ok := c.tmp("c"), c.tmp("k")
		c.repl(r.For, r.X.Pos(), "for "+ch+" := ")
		c.walk(r.X)
		c.shut(r.X.End(), "; ; ")
		var s string
		switch {
		case r.Key == nil || isBlank(r.Key):
			s = "_, " + ok + " := " + vs + "Recv2(" + ch + "); "
		case r.Tok == token.DEFINE:
			s = c.raw(r.Key) + ", " + ok + " := " + vs + "Recv2(" + ch + "); "
		default:
			s = "var " + ok + " bool; " + c.raw(r.Key) + ", " + ok + " = " + vs + "Recv2(" + ch + "); "
		}
		c.open(r.Body.Lbrace+1, s+"if !"+ok+" { break }; "+y)
	default:
		c.walk(r.X)
		c.open(r.Body.Lbrace+1, y)
	}
	c.block(r.Body.List, r.Body.Lbrace)
}

func (c *fileCtx) raw(n ast.Node) string { return string(c.src[c.off(n.Pos()):c.off(n.End())]) }

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (c *fileCtx) selectStmt(s *ast.SelectStmt) {
	if len(s.Body.List) == 0 {
		c.repl(s.Pos(), s.End(), "for { "+vs+"Block(\"select{}\", func() bool { return false }) }")
		return
	}
	var names []string
	var inits []func() string
	hasDefault := false
	idx := 0
	for _, cc := range s.Body.List {
		cl := cc.(*ast.CommClause)
		if cl.Comm == nil {
			hasDefault = true
			c.block(cl.Body, cl.Colon)
			continue
		}
		nm := c.tmp("c")
		names = append(names, nm)
		pre := ""
		var recvX ast.Expr
		switch cm := cl.Comm.(type) {
		case *ast.SendStmt:
			seq := len(c.edits)
			c.walk(cm.Chan)
			c.walk(cm.Value)
			ch, v := c.sub(cm.Chan, seq), c.sub(cm.Value, seq)
			inits = append(inits, func() string { return vs + "SendCaseTo(" + ch + ")(" + v + ")" })
		case *ast.ExprStmt:
			recvX = unparen(cm.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			recvX = unparen(cm.Rhs[0]).(*ast.UnaryExpr).X
			rhs := []string{nm + ".V", nm + ".OK"}
			var l []string
			allBlank := true
			for _, e := range cm.Lhs {
				l = append(l, c.raw(e))
				if !isBlank(e) {
					allBlank = false
				}
			}
			tok := cm.Tok.String()
			if allBlank {
				tok = "="
			}
			pre = strings.Join(l, ", ") + " " + tok + " " + strings.Join(rhs[:len(l)], ", ") + "; "
		}
		if recvX != nil {
			seq := len(c.edits)
			c.walk(recvX)
			x := c.sub(recvX, seq)
			inits = append(inits, func() string { return vs + "RecvCase(" + x + ")" })
		}
		c.repl(cl.Case, cl.Colon+1, "case "+strconv.Itoa(idx)+": "+pre)
		idx++
		c.block(cl.Body, cl.Colon)
	}
	head := "switch "
	if len(names) > 0 {
		var is []string
		for _, f := range inits {
			is = append(is, f())
		}
		head += strings.Join(names, ", ") + " := " + strings.Join(is, ", ") + "; "
	}
	args := append([]string{strconv.FormatBool(hasDefault)}, names...)
	head += vs + "Select(" + strings.Join(args, ", ") + ") "
	c.repl(s.Select, s.Body.Lbrace, head)
	if !hasDefault {
		c.open(s.Body.Rbrace, "default: panic(\"zzvsim: select\") ")
	}
}

// shared reports whether assigning to e may write memory other tasks can see.
func (c *fileCtx) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		v, ok := c.info.Uses[e].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if _, ok := c.info.Selections[e]; !ok {
			return true // package variable
		}
		if _, ok := c.info.TypeOf(e.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return c.shared(e.X)
	case *ast.IndexExpr:
		switch c.info.TypeOf(e.X).Underlying().(type) {
		case *types.Array:
			return c.shared(e.X)
		}
		return true
	}
	return false
}

func (c *fileCtx) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv, isT := c.info.Types[x.Fun]; isT && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	return ok
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.UntypedInt && b.Kind() != types.UntypedRune
}

// sizeOf is the size of a type, 0 if it depends on a type parameter.
func sizeOf(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 0
		}
	}()
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

func (c *fileCtx) byteArray(t types.Type) bool {
	if t == nil {
		return false
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() < 9 {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (c *fileCtx) assign(s *ast.AssignStmt, inList bool) {
	// v, ok := <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			for _, l := range s.Lhs {
				c.walk(l)
			}
			c.recv(u, "Recv2")
			return
		}
	}
	if c.level >= 2 && inList && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		l, r := s.Lhs[0], s.Rhs[0]
		tv := c.info.Types[r]
		lt := c.info.TypeOf(l)
		switch {
		case s.Tok == token.ASSIGN && c.byteArray(lt) && c.pure(r) && c.addressable(r) && c.pure(l) && c.addressable(l):
			c.open(s.Pos(), vs+"Copy("+c.site(s.Pos())+", (")
			c.walk(l)
			c.shut(l.End(), ")[:]")
			c.repl(s.TokPos, s.TokPos+1, ", (")
			c.walk(r)
			c.shut(s.End(), ")[:])")
			return
		case s.Tok == token.DEFINE && c.byteArray(lt) && c.pure(r) && c.addressable(r) && !isBlank(l):
			if id, ok := l.(*ast.Ident); ok && c.info.Defs[id] != nil {
				c.walk(r)
				c.shut(s.End(), "; "+vs+"Copy("+c.site(s.Pos())+", "+id.Name+"[:], ("+c.raw(r)+")[:])")
				return
			}
		case s.Tok == token.ASSIGN && c.shared(l) && tv.Value == nil && !tv.IsNil() && valueType(tv.Type) && types.Identical(tv.Type, lt) && !c.shiftLike(r):
			c.walk(l)
			c.open(r.Pos(), vs+"Yv("+c.site(s.Pos())+", ")
			c.walk(r)
			c.shut(r.End(), ")")
			return
		case s.Tok != token.ASSIGN && s.Tok != token.DEFINE && c.shared(l) && c.addressable(l) && c.pure(l) && c.pure(r):
			p, v := c.tmp("p"), c.tmp("v")
			c.open(s.Pos(), "{ "+p+" := &(")
			c.walk(l)
			c.repl(l.End(), s.TokPos, "); "+v+" := *"+p+"; "+vs+"Yield("+c.site(s.Pos())+"); "+v+" ")
			c.walk(r)
			c.shut(s.End(), "; *"+p+" = "+v+" }")
			return
		}
	}
	for _, l := range s.Lhs {
		c.walk(l)
	}
	for _, r := range s.Rhs {
		c.walk(r)
	}
}

func valueType(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.Tuple); ok {
		return false
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	return true
}

// shiftLike reports whether e contains a shift or comparison whose operands
// take their type from the context.
func (c *fileCtx) shiftLike(e ast.Expr) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			switch b.Op {
			case token.SHL, token.SHR:
				bad = true
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if t, ok := c.info.TypeOf(b).(*types.Basic); !ok || t.Kind() != types.Bool {
					bad = true
				}
			}
		}
		return true
	})
	return bad
}

func (c *fileCtx) addressable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		_, ok := c.info.ObjectOf(e).(*types.Var)
		return ok && e.Name != "_"
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel, ok := c.info.Selections[e]
		if !ok {
			_, isVar := c.info.Uses[e.Sel].(*types.Var)
			return isVar
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if _, ok := c.info.TypeOf(e.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return c.addressable(e.X)
	case *ast.IndexExpr:
		switch c.info.TypeOf(e.X).Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return c.addressable(e.X)
		}
		return false
	}
	return false
}

func (c *fileCtx) incdec(s *ast.IncDecStmt, inList bool) {
	if c.level >= 2 && inList && c.shared(s.X) && c.addressable(s.X) && c.pure(s.X) {
		p, v := c.tmp("p"), c.tmp("v")
		c.open(s.Pos(), "{ "+p+" := &(")
		c.walk(s.X)
		op := "++"
		if s.Tok == token.DEC {
			op = "--"
		}
		c.repl(s.X.End(), s.End(), "); "+v+" := *"+p+"; "+vs+"Yield("+c.site(s.Pos())+"); "+v+op+"; *"+p+" = "+v+" }")
		return
	}
	c.walk(s.X)
}
