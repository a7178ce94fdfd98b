// Command instr rewrites Go packages so that every source of nondeterminism
// goes through the simulator runtime (verif.sim/simrt). It uses only the
// standard library. Usage:
//
//	instr -mode overlay -dir /repo -out .build/repo -overlay .build/overlay.json
//	instr -mode copy -dir /repo -pkgprefix github.com/x/y -src DIR -out .build/y
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const simPkg = "verif.sim/simrt"
const simName = "zzsim"

type target struct {
	pkg  string // import path of the replacement ("" = simrt)
	name string
	call bool // rewrite to a call expression
}

// overrides maps "importpath.Name" to its simulated replacement.
var overrides = map[string]target{}

func ov(pkg string, names ...string) {
	for _, n := range names {
		if i := strings.Index(n, "="); i >= 0 {
			overrides[pkg+"."+n[:i]] = target{name: n[i+1:]}
		} else {
			overrides[pkg+"."+n] = target{name: n}
		}
	}
}

func init() {
	ov("sync", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Pool", "Map", "OnceFunc")
	ov("time", "Now", "Sleep", "After", "AfterFunc", "NewTimer", "Timer", "NewTicker", "Ticker", "Tick", "Since", "Until")
	ov("net", "Listen", "ListenTCP", "ListenUnix", "Dial", "DialTCP", "DialUnix", "DialTimeout", "Dialer",
		"TCPListener", "UnixListener", "TCPConn", "UnixConn", "ResolveTCPAddr", "ResolveUnixAddr", "Pipe=NetPipe")
	ov("crypto/tls", "LoadX509KeyPair", "Server=TLSServer", "Client=TLSClient", "Listen=TLSListen", "Dial=TLSDial", "Conn=TLSConn", "NewListener=TLSNewListener", "DialWithDialer=TLSDialWithDialer", "X509KeyPair")
	ov("path/filepath", "Abs=FilepathAbs", "Glob=FilepathGlob")
	ov("os", "Stat", "Lstat=Stat", "Open", "OpenFile", "Create", "ReadFile", "WriteFile", "Remove", "RemoveAll", "Rename",
		"Mkdir", "MkdirAll", "Exit", "Getpid", "File", "Getwd", "Chdir", "TempDir=OSTempDir", "MkdirTemp", "CreateTemp", "ReadDir", "Chmod", "Truncate", "Link", "Symlink")
	overrides["os.Stdin"] = target{name: "Stdin", call: true}
	overrides["os.Stdout"] = target{name: "Stdout", call: true}
	overrides["os.Stderr"] = target{name: "Stderr", call: true}
	ov("io/ioutil", "ReadFile", "WriteFile", "TempDir=MkdirTemp", "TempFile=CreateTemp", "ReadDir=IoutilReadDir")
	ov("os/signal", "Notify=SignalNotify", "Stop=SignalStop", "Ignore=SignalIgnore", "Reset=SignalReset", "NotifyContext=SignalNotifyContext")
	ov("crypto/rand", "Read=RandRead", "Int=RandInt", "Prime=RandPrime")
	overrides["crypto/rand.Reader"] = target{name: "RandReader", call: true}
	ov("log", "Print=LogPrint", "Println=LogPrintln", "Printf=LogPrintf", "Fatal=LogFatal", "Fatalf=LogFatalf", "Fatalln=LogFatalln", "Panic=LogPanic", "Panicf=LogPanicf", "Panicln=LogPanicln")
	ov("fmt", "Print=FmtPrint", "Println=FmtPrintln", "Printf=FmtPrintf")
	ov("runtime", "SetFinalizer", "Gosched", "GC=RuntimeGC")
	ov("github.com/BurntSushi/toml", "DecodeFile=TomlDecodeFile")
	ov("go.uber.org/zap", "Config=ZapConfig", "NewProduction=ZapNewProduction", "NewDevelopment=ZapNewDevelopment")
	ov("golang.org/x/crypto/ssh/terminal", "MakeRaw=TermMakeRaw", "Restore=TermRestore", "IsTerminal=TermIsTerminal")
	ov("golang.org/x/term", "MakeRaw=TermMakeRaw", "Restore=TermRestore", "IsTerminal=TermIsTerminal")
	ov("syscall", "Flock=SysFlock", "Exit", "Getpid")
	ov("crypto/ecdsa", "GenerateKey=ECDSAGenerateKey")
	ov("crypto/x509", "CreateCertificate=X509CreateCertificate")
	ov("context", "WithTimeout=CtxWithTimeout", "WithDeadline=CtxWithDeadline")
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

func main() {
	mode := flag.String("mode", "overlay", "overlay or copy")
	dir := flag.String("dir", "", "directory to run go list in")
	overlayIn := flag.String("listoverlay", "", "overlay to pass to go list")
	pkgs := flag.String("pkgs", "./...", "comma separated package patterns")
	prefix := flag.String("prefix", "", "import path prefix of packages to instrument")
	out := flag.String("out", "", "output directory")
	overlay := flag.String("overlay", "", "overlay json to write (overlay mode)")
	noyield := flag.String("noyield", "", "comma separated import path prefixes without statement yields")
	yieldAll := flag.Bool("yield", true, "insert statement yields")
	flag.Parse()

	goBin := os.Getenv("VGO")
	if goBin == "" {
		goBin = "go"
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,ImportMap,Standard,Module"}
	if *overlayIn != "" {
		args = append(args, "-overlay="+*overlayIn)
	}
	args = append(args, strings.Split(*pkgs, ",")...)
	cmd := exec.Command(goBin, args...)
	cmd.Dir = *dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	outb, err := cmd.Output()
	if err != nil {
		fmt.Fprintf(os.Stderr, "instr: go list failed: %v\n%s\n", err, errb.String())
		os.Exit(3)
	}
	all := map[string]*pkgInfo{}
	var targets []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(outb))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pp := p
		all[p.ImportPath] = &pp
		for _, pf := range strings.Split(*prefix, ",") {
			if p.ImportPath == pf || strings.HasPrefix(p.ImportPath, pf+"/") {
				targets = append(targets, &pp)
				break
			}
		}
	}
	var skip []string
	if *noyield != "" {
		skip = strings.Split(*noyield, ",")
	}
	repl := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	failed := false
	for _, t := range targets {
		t := t
		y := *yieldAll
		for _, s := range skip {
			if t.ImportPath == s || strings.HasPrefix(t.ImportPath, s+"/") {
				y = false
			}
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			files, err := instrumentPkg(t, all, y)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				fmt.Fprintf(os.Stderr, "instr: %s: %v\n", t.ImportPath, err)
				failed = true
				return
			}
			for name, src := range files {
				var dst string
				if *mode == "overlay" {
					dst = filepath.Join(*out, strings.ReplaceAll(t.ImportPath, "/", "_"), name)
					repl[filepath.Join(t.Dir, name)] = dst
				} else {
					rel, err := filepath.Rel(t.Module.Dir, t.Dir)
					if err != nil {
						fatal(err)
					}
					dst = filepath.Join(*out, rel, name)
				}
				if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
					fatal(err)
				}
				if err := os.WriteFile(dst, src, 0644); err != nil {
					fatal(err)
				}
			}
		}()
	}
	wg.Wait()
	if failed {
		os.Exit(3)
	}
	if *overlay != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
		if err := os.WriteFile(*overlay, b, 0644); err != nil {
			fatal(err)
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

func instrumentPkg(p *pkgInfo, all map[string]*pkgInfo, yields bool) (map[string][]byte, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Sizes: types.SizesFor("gc", "amd64")}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for i, f := range files {
		r := &rewriter{info: info, yields: yields, extra: map[string]string{}}
		src, err := r.file(fset, f)
		if err != nil {
			return nil, err
		}
		out[p.GoFiles[i]] = src
	}
	return out, nil
}

type rewriter struct {
	info    *types.Info
	yields  bool
	n       int
	used    bool
	extra   map[string]string // import path -> local name
	dropped []*ast.Ident
	gone    map[*ast.Ident]bool
}

func (r *rewriter) sim(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(simName), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return "zz" + p + strconv.Itoa(r.n)
}

func (r *rewriter) file(fset *token.FileSet, f *ast.File) ([]byte, error) {
	// keep build constraints (they select the language version too)
	var buildLine string
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				buildLine = c.Text
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
	r.gone = map[*ast.Ident]bool{}
	for _, d := range f.Decls {
		r.node(d)
	}
	// find imports still in use
	inUse := map[string]bool{} // by package name object
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				inUse[pn.Name()+" "+pn.Imported().Path()] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			path, _ := strconv.Unquote(is.Path.Value)
			keep := false
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				keep = true
			} else {
				for k := range inUse {
					if strings.HasSuffix(k, " "+path) {
						keep = true
					}
				}
			}
			if path == "C" || path == "unsafe" || path == "embed" {
				keep = true
			}
			if keep {
				specs = append(specs, s)
			} else {
				// keep initialisation side effects and the dependency
				specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("_"), Path: is.Path})
			}
		}
		gd.Specs = specs
		if len(specs) > 1 {
			gd.Lparen = 1
		}
	}
	var buf bytes.Buffer
	if buildLine != "" {
		buf.WriteString(buildLine + "\n\n")
	}
	var body bytes.Buffer
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&body, token.NewFileSet(), stripPos(f)); err != nil {
		return nil, err
	}
	src := body.String()
	// insert simulator imports right after the package clause
	marker := "package " + f.Name.Name
	i := strings.Index(src, marker)
	imp := ""
	if r.used {
		imp += fmt.Sprintf("\nimport %s %q\n", simName, simPkg)
	}
	var paths []string
	for p := range r.extra {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		imp += fmt.Sprintf("\nimport %s %q\n", r.extra[p], p)
	}
	buf.WriteString(src[:i+len(marker)] + "\n" + imp + src[i+len(marker):])
	return buf.Bytes(), nil
}

// stripPos resets all token.Pos fields that would make the printer keep
// original line breaks; simplest is to print as is.
func stripPos(f *ast.File) *ast.File { return f }

// node rewrites a declaration/statement/expression tree in place.
func (r *rewriter) node(n interface{}) {
	r.walk(reflect.ValueOf(n))
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			r.walk(v.Elem())
			return
		}
		switch x := v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.Comment:
			return
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				if _, ok := x.List[0].(*ast.CaseClause); ok { // body of a switch
					for _, c := range x.List {
						r.walk(reflect.ValueOf(c))
					}
					return
				}
			}
			x.List = r.stmts(x.List)
			return
		case *ast.CaseClause:
			for i := range x.List {
				x.List[i] = r.expr(x.List[i])
			}
			x.Body = r.stmts(x.Body)
			return
		case *ast.AssignStmt:
			r.assign(x)
			return
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					x.Values[0] = r.call("Recv2", r.expr(u.X))
					x.Type = r.expr(x.Type)
					return
				}
			}
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			return
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			ft := f.Type()
			switch {
			case ft == exprType:
				if !f.IsNil() {
					ne := r.expr(f.Interface().(ast.Expr))
					f.Set(reflect.ValueOf(&ne).Elem())
				}
			case ft == stmtType:
				if !f.IsNil() {
					ns := r.stmt(f.Interface().(ast.Stmt))
					f.Set(reflect.ValueOf(&ns).Elem())
				}
			case ft.Kind() == reflect.Slice && ft.Elem() == exprType:
				for j := 0; j < f.Len(); j++ {
					if f.Index(j).IsNil() {
						continue
					}
					ne := r.expr(f.Index(j).Interface().(ast.Expr))
					f.Index(j).Set(reflect.ValueOf(&ne).Elem())
				}
			case ft.Kind() == reflect.Slice:
				for j := 0; j < f.Len(); j++ {
					if f.Index(j).Kind() == reflect.Ptr || f.Index(j).Kind() == reflect.Interface {
						r.walk(f.Index(j))
					}
				}
			case ft.Kind() == reflect.Ptr || ft.Kind() == reflect.Interface && ft.PkgPath() == "go/ast":
				r.walk(f)
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if t, ok := overrides[pn.Imported().Path()+"."+x.Sel.Name]; ok {
					var res ast.Expr
					if t.pkg != "" {
						local := "zzx" + t.pkg[strings.LastIndex(t.pkg, "/")+1:]
						r.extra[t.pkg] = local
						res = &ast.SelectorExpr{X: ast.NewIdent(local), Sel: ast.NewIdent(t.name)}
					} else {
						res = r.sim(t.name)
					}
					if t.call {
						return &ast.CallExpr{Fun: res}
					}
					return res
				}
				return x
			}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
	case *ast.CallExpr:
		if r.isBuiltin(x.Fun, "close") && len(x.Args) == 1 {
			return r.call("Close", r.expr(x.Args[0]))
		}
		if r.yields && r.isBuiltin(x.Fun, "delete") && len(x.Args) == 2 {
			x.Args[0] = r.call("MapW", r.expr(x.Args[0]))
			x.Args[1] = r.expr(x.Args[1])
			return x
		}
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			x.X = r.call("MapR", r.expr(x.X))
			x.Index = r.expr(x.Index)
			return x
		}
	case *ast.FuncLit:
		r.node(x.Type)
		x.Body.List = r.stmts(x.Body.List)
		return x
	case *ast.BasicLit, *ast.Ident:
		return e
	}
	r.walk(reflect.ValueOf(e))
	return e
}

func (r *rewriter) isMap(e ast.Expr) bool {
	if !r.yields {
		return false
	}
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	if tv, ok := r.info.Types[e]; ok && tv.IsType() {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// lhs rewrites an expression that is assigned to.
func (r *rewriter) lhs(e ast.Expr) ast.Expr {
	if x, ok := unparen(e).(*ast.IndexExpr); ok && r.isMap(x.X) {
		x.X = r.call("MapW", r.expr(x.X))
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

// field says whether e is a plain chain of selections such as a.b.c.
func field(e ast.Expr) bool {
	for {
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		if _, ok := s.X.(*ast.Ident); ok {
			return true
		}
		e = s.X
	}
}

func mentions(e ast.Expr, f string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && types.ExprString(s) == f {
			found = true
		}
		_, lit := n.(*ast.FuncLit)
		return !found && !lit
	})
	return found
}

// update splits the reading and the writing of a field that is modified.
func (r *rewriter) update(x *ast.AssignStmt) bool {
	if !r.yields || len(x.Lhs) != 1 || len(x.Rhs) != 1 || !field(x.Lhs[0]) {
		return false
	}
	f := types.ExprString(x.Lhs[0])
	switch {
	case x.Tok == token.ASSIGN && mentions(x.Rhs[0], f):
	default:
		return false
	}
	x.Lhs[0] = r.expr(x.Lhs[0])
	x.Rhs[0] = r.call("YV", r.expr(x.Rhs[0]))
	return true
}

func (r *rewriter) assign(x *ast.AssignStmt) {
	if r.update(x) {
		return
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			for i := range x.Lhs {
				x.Lhs[i] = r.lhs(x.Lhs[i])
			}
			x.Rhs[0] = r.call("Recv2", r.expr(u.X))
			return
		}
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.lhs(x.Lhs[i])
	}
	for i := range x.Rhs {
		x.Rhs[i] = r.expr(x.Rhs[i])
	}
}

func (r *rewriter) yield() ast.Stmt { return &ast.ExprStmt{X: r.call("Y")} }

func (r *rewriter) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	if r.yields && len(list) == 0 {
		// an empty body (e.g. a spin loop) still yields
		return []ast.Stmt{r.yield()}
	}
	for _, s := range list {
		if r.yields {
			switch x := s.(type) {
			case *ast.BranchStmt, *ast.EmptyStmt:
			case *ast.DeclStmt:
				_ = x
			default:
				out = append(out, r.yield())
			}
		}
		out = append(out, r.stmt(s))
	}
	return out
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		x.List = r.stmts(x.List)
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label)
		}
		if rs, ok := x.Stmt.(*ast.RangeStmt); ok {
			x.Stmt = r.rangeStmt(rs)
			return x
		}
		x.Stmt = r.stmt(x.Stmt)
		return x
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.AssignStmt:
		r.assign(x)
		return x
	case *ast.IncDecStmt:
		x.X = r.lhs(x.X)
		return x
	case *ast.DeferStmt:
		x.Call = r.expr(x.Call).(*ast.CallExpr)
		return x
	}
	r.walk(reflect.ValueOf(s))
	return s
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(x.X)
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Map:
			it := r.tmp("it")
			m := r.expr(x.X)
			var pre []ast.Stmt
			if !isBlank(x.Key) || !isBlank(x.Value) {
				var lhs, rhs []ast.Expr
				if x.Key != nil {
					lhs = append(lhs, r.expr(x.Key))
					rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("K")})
				}
				if x.Value != nil {
					lhs = append(lhs, r.expr(x.Value))
					rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("V")})
				}
				pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: rhs})
			}
			body := []ast.Stmt{&ast.BlockStmt{List: r.stmts(x.Body.List)}}
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(it)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MapIter", m)}},
				Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it), Sel: ast.NewIdent("Next")}},
				Body: &ast.BlockStmt{List: append(pre, body...)},
			}
		case *types.Chan:
			rc := r.tmp("rc")
			ch := r.expr(x.X)
			okn := r.tmp("ok")
			vn := r.tmp("v")
			var pre []ast.Stmt
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(vn), ast.NewIdent(okn)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{r.call("Recv2", ast.NewIdent(rc))}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okn)},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			if !isBlank(x.Key) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(vn)}})
			}
			body := []ast.Stmt{&ast.BlockStmt{List: r.stmts(x.Body.List)}}
			return &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(rc)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
				Body: &ast.BlockStmt{List: append(pre, body...)},
			}
		}
	}
	x.X = r.expr(x.X)
	if x.Key != nil {
		x.Key = r.expr(x.Key)
	}
	if x.Value != nil {
		x.Value = r.expr(x.Value)
	}
	x.Body.List = r.stmts(x.Body.List)
	return x
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	call := x.Call
	if len(call.Args) == 0 {
		if fl, ok := call.Fun.(*ast.FuncLit); ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: r.call("Go", r.expr(fl))}
		}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr, inline bool) ast.Expr {
		ne := r.expr(e)
		if inline {
			return ne
		}
		n := r.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{ne}})
		return ast.NewIdent(n)
	}
	inlineArg := func(e ast.Expr) bool {
		tv, ok := r.info.Types[e]
		if !ok {
			return false
		}
		if tv.Value != nil || tv.IsNil() {
			return true
		}
		_, isLit := e.(*ast.FuncLit)
		return isLit
	}
	fun := call.Fun
	isConst := false
	if tv, ok := r.info.Types[fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		isConst = true
	}
	if id, ok := unparen(fun).(*ast.Ident); ok {
		if _, isFn := r.info.Uses[id].(*types.Func); isFn {
			isConst = true
		}
	}
	if _, ok := fun.(*ast.FuncLit); ok {
		isConst = true
	}
	var nf ast.Expr
	if r.isBuiltin(fun, "close") {
		arg := bind(call.Args[0], false)
		return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: r.call("Go",
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Close", arg)}}}})})}
	}
	nf = bind(fun, isConst)
	var args []ast.Expr
	for _, a := range call.Args {
		args = append(args, bind(a, inlineArg(a)))
	}
	inner := &ast.CallExpr{Fun: nf, Args: args, Ellipsis: call.Ellipsis}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: r.call("Go", fl)})}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("BlockForever")}
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDefault := "false"
	idx := 0
	haveDef := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var bodyPre []ast.Stmt
		if cc.Comm == nil {
			hasDefault = "true"
			haveDef = true
			clauses = append(clauses, &ast.CaseClause{List: nil, Body: r.stmts(cc.Body)})
			continue
		}
		name := r.tmp("c")
		var mk ast.Expr
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = &ast.CallExpr{Fun: r.call("SendC", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			mk = r.call("RecvC", r.expr(u.X))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			mk = r.call("RecvC", r.expr(u.X))
			lhs := make([]ast.Expr, len(cm.Lhs))
			allBlank := true
			for i := range cm.Lhs {
				lhs[i] = r.expr(cm.Lhs[i])
				if !isBlank(lhs[i]) {
					allBlank = false
				}
			}
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("V")}}
			if len(lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("OK")})
			}
			if !allBlank {
				bodyPre = append(bodyPre, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: rhs})
			}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		cases = append(cases, ast.NewIdent(name))
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(bodyPre, r.stmts(cc.Body)...),
		})
		idx++
	}
	if !haveDef {
		clauses = append(clauses, &ast.CaseClause{List: nil, Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{
		Tag:  r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}
