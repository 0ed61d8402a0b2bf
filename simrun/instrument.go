package main

// Source-to-source instrumentation of the packages of /repo, written to a
// scratch directory and handed to the go tool through -overlay: /repo itself is
// never written to.
//
// What is rewritten:
//   - a scheduling point (vsim.Y) before every statement and in every loop body
//   - "sync" -> vsync (locks known to the simulated scheduler)
//   - os, io/ioutil, path/filepath entry points that reach the file system or
//     the environment -> vos (in-memory storage with injected faults)
//   - range over a map -> range over an iteration order chosen by the simulator
//   - time.Now/Since/Sleep... , math/rand -> vsim clock and seeded source
//   - go statements -> tasks of the simulated scheduler
//   - package level variables holding the state of the process get their initial
//     value at the start of every run
// The decision of what to rewrite is taken from type information, never from
// names of the repository.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listedPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Main bool }
	Error      *struct{ Err string }
}

type edit struct {
	off  int
	end  int // off==end: insertion
	text string
	seq  int
}

const rtBase = "/zz_verif/"

type instrumenter struct {
	modPath string
	fset    *token.FileSet
	vosAPI  map[string]bool // names exported by vos as "os.X", "filepath.X"...
	stats   map[string]int
}

// names of vos functions, per original package
var vosNames = map[string]map[string]string{}

func loadVosNames(rtDir string) error {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, filepath.Join(rtDir, "vos"), nil, 0)
	if err != nil {
		return err
	}
	all := map[string]bool{}
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						all[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							all[s.Name.Name] = true
						}
					}
				}
			}
		}
	}
	prefixes := map[string]string{"os": "OS_", "io/ioutil": "IO_", "path/filepath": "FP_", "time": "TM_", "math/rand": "RD_"}
	for pkg, pre := range prefixes {
		m := map[string]string{}
		for n := range all {
			if strings.HasPrefix(n, pre) {
				m[strings.TrimPrefix(n, pre)] = n
			}
		}
		vosNames[pkg] = m
	}
	return nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// buildHarness instruments repo and builds the harness binary.
func buildHarness(repo, rtDir, work string, race bool) (string, map[string]int, error) {
	if err := loadVosNames(rtDir); err != nil {
		return "", nil, err
	}
	modFile, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", nil, err
	}
	modPath := ""
	lines := strings.Split(string(modFile), "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(t, "module "))
		}
		if strings.HasPrefix(t, "go 1.") {
			var minor int
			fmt.Sscanf(t, "go 1.%d", &minor)
			if minor < 21 { // generics for the runtime; loop variables keep the old meaning
				lines[i] = "go 1.21"
			}
		}
	}
	modCopy := filepath.Join(work, "go.mod")
	if err := os.WriteFile(modCopy, []byte(strings.Join(lines, "\n")), 0o644); err != nil {
		return "", nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(work, "go.sum"), sum, 0o644); err != nil {
			return "", nil, err
		}
	}

	overlay := map[string]string{}
	// runtime and harness packages, as packages of the main module
	err = filepath.Walk(rtDir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(rtDir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		b = bytes.ReplaceAll(b, []byte("MODULE_PATH"), []byte(modPath))
		dst := filepath.Join(work, "rt", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, "zz_verif", rel)] = dst
		return nil
	})
	if err != nil {
		return "", nil, err
	}
	ovFile := filepath.Join(work, "overlay.json")
	writeOverlay := func() error {
		b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
		return os.WriteFile(ovFile, b, 0o644)
	}
	if err := writeOverlay(); err != nil {
		return "", nil, err
	}

	// list the packages the harness depends on, with export data
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Standard,Module,Error",
		"-modfile="+modCopy, "-overlay="+ovFile,
		"./fontconfig", "./fribidi", "./pango", "./pango/fcfonts")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return "", nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var targets []listedPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listedPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", nil, err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main && !strings.Contains(p.ImportPath, "/zz_verif/") {
			targets = append(targets, p)
		}
	}
	ins := &instrumenter{modPath: modPath, stats: map[string]int{}}
	for _, p := range targets {
		ins.fset = token.NewFileSet()
		imp := importer.ForCompiler(ins.fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, g := range p.GoFiles {
			full := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(full)
			if err != nil {
				return "", nil, err
			}
			f, err := parser.ParseFile(ins.fset, full, src, parser.ParseComments)
			if err != nil {
				return "", nil, err
			}
			files = append(files, f)
			names = append(names, full)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, ins.fset, files, info); err != nil {
			return "", nil, fmt.Errorf("type checking %s: %v", p.ImportPath, err)
		}
		resets := processState(files, info)
		for i, f := range files {
			res := ins.file(f, srcs[i], info, resets)
			dst := filepath.Join(work, "src", strings.TrimPrefix(names[i], repo))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return "", nil, err
			}
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return "", nil, err
			}
			overlay[names[i]] = dst
		}
		ins.stats["packages"]++
	}
	if err := writeOverlay(); err != nil {
		return "", nil, err
	}
	bin := filepath.Join(work, "vharness")
	args := []string{"build", "-buildvcs=false", "-modfile=" + modCopy, "-overlay=" + ovFile, "-o", bin}
	if race {
		// the simulator itself is left out of the race instrumentation: it must
		// neither be reported nor order the tasks it schedules
		args = append(args, "-race", "-gcflags="+modPath+"/zz_verif/...=-race=false")
	}
	args = append(args, "./zz_verif/vharness")
	cmd = exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	if race {
		// allocations made by packages without instrumentation must be known to
		// the race detector too
		cmd.Env = append(cmd.Env, "GOEXPERIMENT=nosizespecializedmalloc")
	}
	stderr.Reset()
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	if err := cmd.Run(); err != nil {
		return "", nil, fmt.Errorf("go build: %v\n%s", err, stderr.String())
	}
	return bin, ins.stats, nil
}

// processState finds the package level variables that hold the state of the
// process: those assigned by functions other than init, and those of the sync
// packages. They are given their initial value at the start of every run, which
// makes it the start of a process.
func processState(files []*ast.File, info *types.Info) map[*ast.ValueSpec]int {
	specs := map[types.Object]*ast.ValueSpec{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if o := info.Defs[n]; o != nil && n.Name != "_" {
						specs[o] = sp.(*ast.ValueSpec)
					}
				}
			}
		}
	}
	changed := map[*ast.ValueSpec]bool{}
	atInit := map[*ast.ValueSpec]bool{}
	root := func(e ast.Expr) *ast.ValueSpec {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return specs[info.Uses[x]]
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return nil
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			in := changed
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				in = atInit
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if sp := root(l); sp != nil {
							in[sp] = true
						}
					}
				case *ast.IncDecStmt:
					if sp := root(n.X); sp != nil {
						in[sp] = true
					}
				case *ast.RangeStmt:
					for _, l := range []ast.Expr{n.Key, n.Value} {
						if l != nil {
							if sp := root(l); sp != nil {
								in[sp] = true
							}
						}
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(n.Args) > 0 {
						if sp := root(n.Args[0]); sp != nil {
							in[sp] = true
						}
					}
				}
				return true
			})
		}
	}
	for o, sp := range specs {
		t := o.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil {
			switch nt.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				changed[sp] = true
			}
		}
	}
	out := map[*ast.ValueSpec]int{}
	for sp := range changed {
		if !atInit[sp] && sp.Names[0].Name != "_" {
			out[sp] = len(info.InitOrder) + 1
			if len(sp.Values) == 0 {
				out[sp] = -1
			}
		}
	}
	for i, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if sp := specs[v]; sp != nil {
				if _, ok := out[sp]; ok {
					out[sp] = i
				}
			}
		}
	}
	return out
}

func (ins *instrumenter) file(f *ast.File, src []byte, info *types.Info, resets map[*ast.ValueSpec]int) []byte {
	var edits []edit
	seq := 0
	off := func(p token.Pos) int { return ins.fset.Position(p).Offset }
	// use raw offsets: //line directives must not matter
	off = func(p token.Pos) int { return ins.fset.PositionFor(p, false).Offset }
	insert := func(p int, text string) {
		edits = append(edits, edit{p, p, text, seq})
		seq++
	}
	replace := func(a, b int, text string) {
		edits = append(edits, edit{a, b, text, seq})
		seq++
	}
	usesVos := false
	keep := map[string]string{} // import name -> blank use
	const Y = "vsim_.Y(); "
	yieldList := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			insert(off(s.Pos()), Y)
			ins.stats["yield points"]++
		}
	}
	syncName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			syncName = name
			replace(off(im.Pos()), off(im.End()), name+` "`+ins.modPath+rtBase+`vsync"`)
			ins.stats["sync imports"]++
		}
	}
	_ = syncName
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			yieldList(n.List)
		case *ast.CaseClause:
			yieldList(n.Body)
		case *ast.CommClause:
			yieldList(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				insert(off(n.Body.Lbrace)+1, " "+Y)
			}
		case *ast.GoStmt:
			insert(off(n.Call.Fun.Pos()), "vsim_.Wrap(")
			insert(off(n.Call.Fun.End()), ")")
			ins.stats["go statements"]++
		case *ast.CallExpr:
			// the panics by which the simulator stops a task are not the library's to handle
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					insert(off(n.Pos()), "vsim_.Recovered(")
					insert(off(n.End()), ")")
				}
			}
		case *ast.RangeStmt:
			t := info.Types[n.X].Type
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); ok {
				ins.rangeMap(n, src, off, insert, replace)
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			path := pn.Imported().Path()
			if repl, ok := vosNames[path][n.Sel.Name]; ok {
				replace(off(n.Pos()), off(n.End()), "vos_."+repl)
				usesVos = true
				switch path {
				case "os":
					keep[id.Name] = "var _ " + id.Name + ".FileMode"
				case "io/ioutil":
					keep[id.Name] = "var _ = " + id.Name + ".Discard"
				case "path/filepath":
					keep[id.Name] = "var _ " + id.Name + ".WalkFunc"
				case "time":
					keep[id.Name] = "var _ " + id.Name + ".Duration"
				case "math/rand":
					keep[id.Name] = "var _ " + id.Name + ".Source"
				}
				ins.stats["storage and environment calls"]++
				return false
			}
		}
		return true
	})
	// imports go right after the package clause, on the same line
	pkgEnd := off(f.Name.End())
	text := `; import vsim_ "` + ins.modPath + rtBase + `vsim"`
	if usesVos {
		text += `; import vos_ "` + ins.modPath + rtBase + `vos"`
	}
	insert(pkgEnd, text)
	tail := "\nvar _ = vsim_.Y\n"
	names := make([]string, 0, len(keep))
	for k := range keep {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		tail += keep[k] + "\n"
	}
	// apply
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	// the text of src[a:b] once edited
	render := func(a, b int) string {
		var out strings.Builder
		pos := a
		for _, e := range edits {
			if e.off < a || e.end > b {
				continue
			}
			out.Write(src[pos:e.off])
			out.WriteString(e.text)
			pos = e.end
		}
		out.Write(src[pos:b])
		return out.String()
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			sp := sp.(*ast.ValueSpec)
			order, ok := resets[sp]
			if !ok {
				continue
			}
			var names, values []string
			for i, n := range sp.Names {
				names = append(names, n.Name)
				if len(sp.Values) == 0 {
					values = append(values, "*new("+render(off(sp.Type.Pos()), off(sp.Type.End()))+")")
				} else if i < len(sp.Values) {
					values = append(values, render(off(sp.Values[i].Pos()), off(sp.Values[i].End())))
				}
			}
			tail += fmt.Sprintf("\nfunc init() { vsim_.OnReset(%q, %d, func() { %s = %s }) }\n", info.Defs[sp.Names[0]].Pkg().Path(), order, strings.Join(names, ", "), strings.Join(values, ", "))
			ins.stats["process variables"]++
		}
	}
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			panic(fmt.Sprintf("overlapping edits in %s at %d", ins.fset.Position(f.Pos()).Filename, e.off))
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	out.WriteString(tail)
	return out.Bytes()
}

// rangeMap rewrites
//
//	for k, v := range m { body }
//
// to an iteration over a snapshot of the keys in the simulator's order, entries
// deleted meanwhile being skipped, as the language allows and requires.
func (ins *instrumenter) rangeMap(n *ast.RangeStmt, src []byte, off func(token.Pos) int, insert func(int, string), replace func(int, int, string)) {
	ins.stats["map iterations"]++
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	id := ins.stats["map iterations"]
	mName := fmt.Sprintf("vm%d_", id)
	kName := fmt.Sprintf("vk%d_", id)
	vName := fmt.Sprintf("vv%d_", id)
	okName := fmt.Sprintf("vo%d_", id)
	// header "for k, v := range X {" is turned into
	// "for _, vk := range vsim.Keys(X) {", with X evaluated once inside Keys
	head := fmt.Sprintf("for _, %s := range vsim_.Entries(", kName)
	replace(off(n.For), off(n.X.Pos()), head)
	// X itself stays in place (it may contain rewritten expressions)
	body := off(n.Body.Lbrace) + 1
	insert(off(n.X.End()), ")")
	_ = mName
	var b strings.Builder
	fmt.Fprintf(&b, " %s, %s := %s.Get(); if !%s { continue };", vName, okName, kName, okName)
	tok := n.Tok.String()
	switch {
	case isBlank(n.Key) && isBlank(n.Value):
		fmt.Fprintf(&b, " _ = %s;", vName)
	case isBlank(n.Value):
		fmt.Fprintf(&b, " %s %s %s.Key(); _ = %s;", exprText(src, off, n.Key), tok, kName, vName)
	case isBlank(n.Key):
		fmt.Fprintf(&b, " %s %s %s;", exprText(src, off, n.Value), tok, vName)
	default:
		fmt.Fprintf(&b, " %s, %s %s %s.Key(), %s;", exprText(src, off, n.Key), exprText(src, off, n.Value), tok, kName, vName)
	}
	insert(body, b.String()+" ")
}

func exprText(src []byte, off func(token.Pos) int, e ast.Expr) string {
	return string(src[off(e.Pos()):off(e.End())])
}
