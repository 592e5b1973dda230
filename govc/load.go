package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	repo       string
	contracts  string
	ssa        *ssa.Program
	fset       *token.FileSet
	pkgs       []*packages.Package
	sourcePkgs map[string]bool
	byFunc     map[*ssa.Function]*Contract
	externs    map[string]*Contract
	ifaces     map[string]*Contract
	funcVals   map[string]*Contract
	lemmas     []*Contract
	all        []*Contract
	ghosts     []*ghostDecl
	ghostFn    map[*ssa.Function]*ghostDecl
	absFn      map[*ssa.Function]bool
	axioms     []*ssa.Function
	monitors   []*Monitor
	templates  []*Template
	textFn     map[string]*ssa.Function
	useInit    map[*ssa.Package]bool
	iterSeq    int
	specSeq    int
	globals    map[*ssa.Global]int64
	trusted    map[string]bool
	loopCache  map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	solver     *Solver
	problems   []string // specification problems (reported as failures of every property they touch)
	probProps  []string
	gstores    map[*ssa.Global][]ssa.Value
	gaddr      map[*ssa.Global]bool
	dropped    []string
}

func (p *Program) trust(s string) { p.trusted[s] = true }

func (p *Program) globalID(g *ssa.Global) int64 {
	if id, ok := p.globals[g]; ok {
		return id
	}
	id := int64(len(p.globals) + 1)
	p.globals[g] = id
	return id
}

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	l, ok := p.loopCache[fn]
	if !ok {
		l = findLoops(fn)
		p.loopCache[fn] = l
	}
	return l
}

func (p *Program) ghostByName(n string) *ghostDecl {
	for _, g := range p.ghosts {
		if g.name == n {
			return g
		}
	}
	return nil
}

func (p *Program) templatesFor(fn *ssa.Function) []*Template {
	var a, b []*Template
	for _, t := range p.templates {
		if t.target == fn || t.target != nil && t.target == fn.Origin() {
			a = append(a, t)
		} else if fn.Pkg != nil && t.spec.Pkg == fn.Pkg && t.any {
			b = append(b, t)
		}
	}
	return append(a, b...)
}

const baseTemplate = `package %s

type mathint int

func gvReq(cond bool)                        {}
func gvEns(label string, cond bool)          {}
func gvPanics(cond bool)                     {}
func gvMayPanic()                            {}
func gvMod(places ...any)                    {}
func gvModAny(places ...any)                 {}
func gvModGhost(name string, at any)         {}
func gvImp(a, b bool) bool                   { return !a || b }
func gvIff(a, b bool) bool                   { return a == b }
func gvSame[T any](a, b T) bool               { return true }
func gvIsInt(s string) bool                  { return true }
func gvIntVal(s string) mathint              { return 0 }
func gvIte[T any](c bool, a, b T) T          { if c { return a }; return b }
func gvModE(a, b mathint) mathint            { return 0 }
func gvDivE(a, b mathint) mathint            { return 0 }
func gvAll(f any) bool                       { return true }
func gvEx(f any) bool                        { return true }
func gvOld[T any](f func() T) T              { return f() }
func gvHolds[T any](p *T) bool { return true }
func gvAssume(why string, b bool) bool { return true }
func gvAtLock[T any](f func() T) T           { return f() }
func gvFresh(p any) bool                     { return true }
func gvAlloc(p any) bool                     { return true }
func gvVisitPos[K comparable, V any](m map[K]V, k K) int { return 0 }
func gvVisitCount[K comparable, V any](m map[K]V) int { return 0 }
func gvVisited[K comparable, V any](m map[K]V, k K) bool { return false }
func gvBacking[T any](s []T) mathint         { return 0 }
func gvOff[T any](s []T) mathint             { return 0 }
func gvMapID[K comparable, V any](m map[K]V) mathint { return 0 }
func gvInt[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](x T) mathint { return 0 }
`

type specFile struct {
	path string // overlay path in /repo
	src  []byte
	orig string
}

func loadProgram(repo, contracts string) (*Program, error) {
	p := &Program{repo: repo, contracts: contracts, sourcePkgs: map[string]bool{}, byFunc: map[*ssa.Function]*Contract{},
		externs: map[string]*Contract{}, ifaces: map[string]*Contract{}, funcVals: map[string]*Contract{}, ghostFn: map[*ssa.Function]*ghostDecl{},
		absFn: map[*ssa.Function]bool{}, textFn: map[string]*ssa.Function{}, useInit: map[*ssa.Package]bool{}, globals: map[*ssa.Global]int64{}, trusted: map[string]bool{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}}
	overlay := map[string][]byte{}
	files := map[string]*specFile{}
	var patterns []string
	err := filepath.Walk(contracts, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, path)
		dir := filepath.Dir(rel)
		rdir := filepath.Join(repo, strings.TrimPrefix(dir, "root"))
		if dir == "root" {
			rdir = repo
		}
		if _, err := os.Stat(rdir); err != nil {
			p.problems = append(p.problems, "package directory "+rdir+" is gone")
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		op := filepath.Join(rdir, "zz_govc_"+filepath.Base(path))
		files[op] = &specFile{op, src, path}
		bp := filepath.Join(rdir, "zz_govc_base.go")
		if overlay[bp] == nil {
			m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(src)
			overlay[bp] = []byte(fmt.Sprintf(baseTemplate, m[1]))
			r, _ := filepath.Rel(repo, rdir)
			patterns = append(patterns, "./"+r)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(patterns)
	patterns = append(patterns, extraSourcePkgs...)
	for op, f := range files {
		overlay[op] = f.src
	}
	goflags := "GOFLAGS=-mod=mod"
	if dir, err := os.MkdirTemp("", "govcmod"); err == nil { // the go command may tidy them: it gets its own
		defer os.RemoveAll(dir)
		m, err1 := os.ReadFile(filepath.Join(repo, "go.mod"))
		sum, err2 := os.ReadFile(filepath.Join(repo, "go.sum"))
		if err1 == nil && err2 == nil && os.WriteFile(filepath.Join(dir, "go.mod"), m, 0o644) == nil && os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644) == nil {
			goflags += " -modfile=" + filepath.Join(dir, "go.mod")
		}
	}
	cfgBase := packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), goflags, "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	for round := 0; ; round++ {
		cfg := cfgBase
		cfg.Fset = token.NewFileSet()
		pkgs, err := packages.Load(&cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := map[string][]token.Position{}
		var hard []string
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				pos := parsePos(e.Pos)
				if _, ok := files[pos.Filename]; ok {
					bad[pos.Filename] = append(bad[pos.Filename], pos)
					if len(bad[pos.Filename]) <= 3 {
						p.dropped = append(p.dropped, e.Msg+" at "+e.Pos)
					}
				} else {
					hard = append(hard, e.Error())
				}
			}
		}
		if len(bad) == 0 {
			if len(hard) > 0 {
				return nil, fmt.Errorf("load errors: %s", strings.Join(hard, "; "))
			}
			p.pkgs = pkgs
			p.fset = cfg.Fset
			break
		}
		if round > 6 {
			return nil, fmt.Errorf("specification files do not type-check: %v", bad)
		}
		for fn, ps := range bad {
			p.blank(files[fn], overlay, fn, ps)
		}
	}
	for _, pk := range p.pkgs {
		p.sourcePkgs[pk.PkgPath] = true
	}
	prog, spkgs := ssautil.Packages(p.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p.ssa = prog
	_ = spkgs
	p.scanGlobals()
	p.collect()
	return p, nil
}

var extraSourcePkgs = []string{
	"github.com/effective-security/x/values",
	"github.com/effective-security/x/slices",
	"github.com/effective-security/x/maps",
}

func parsePos(s string) token.Position {
	ps := strings.Split(s, ":")
	var t token.Position
	t.Filename = ps[0]
	if len(ps) > 1 {
		t.Line, _ = strconv.Atoi(ps[1])
	}
	return t
}

// blank removes the declarations of a spec file that contain type errors.
func (p *Program) blank(f *specFile, overlay map[string][]byte, name string, ps []token.Position) {
	src := overlay[name]
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		p.problems = append(p.problems, "specification file "+f.orig+" does not parse: "+err.Error())
		m := regexp.MustCompile(`(?m)^package (\w+)`).Find(src)
		overlay[name] = append(m, '\n')
		return
	}
	out := append([]byte(nil), src...)
	hit := false
	for _, d := range af.Decls {
		lo, hi := fs.Position(d.Pos()), fs.Position(d.End())
		bad := false
		for _, q := range ps {
			if q.Line >= lo.Line && q.Line <= hi.Line {
				bad = true
			}
		}
		if !bad {
			continue
		}
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				l := fs.Position(s.Pos()).Line
				for _, q := range ps {
					if q.Line == l {
						is := s.(*ast.ImportSpec)
						blankRange(out, fs.Position(is.Pos()).Offset, fs.Position(is.End()).Offset)
						hit = true
					}
				}
			}
			continue
		}
		hit = true
		props := ""
		nm := "?"
		if fd, ok := d.(*ast.FuncDecl); ok {
			nm = fd.Name.Name
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//govc:prop") {
						props = strings.TrimPrefix(c.Text, "//govc:prop")
					}
				}
				blankRange(out, fs.Position(fd.Doc.Pos()).Offset, fs.Position(fd.Doc.End()).Offset)
			}
		}
		p.probProps = append(p.probProps, props+" | specification "+nm+" no longer matches the code (type error)")
		blankRange(out, lo.Offset, hi.Offset)
	}
	if !hit {
		m := regexp.MustCompile(`(?m)^package (\w+)`).Find(src)
		p.problems = append(p.problems, "specification file "+f.orig+" unusable")
		out = append(append([]byte(nil), m...), '\n')
	}
	overlay[name] = out
}

func blankRange(b []byte, lo, hi int) {
	for i := lo; i < hi && i < len(b); i++ {
		if b[i] != '\n' {
			b[i] = ' '
		}
	}
}

func (p *Program) scanGlobals() {
	p.gstores = map[*ssa.Global][]ssa.Value{}
	p.gaddr = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.ssa) {
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := in.(type) {
					case *ssa.Store:
						if i.Addr == g {
							p.gstores[g] = append(p.gstores[g], i.Val)
							if !isInit {
								p.gaddr[g] = true
							}
						} else {
							p.gaddr[g] = true
						}
					case *ssa.UnOp:
					case *ssa.DebugRef:
					default:
						p.gaddr[g] = true
					}
				}
			}
		}
	}
}

// globalFunc: package variables of function type assigned once, in their declaration, with a known function
func (p *Program) globalFunc(g *ssa.Global) (*Term, bool) {
	if p.gaddr[g] {
		return nil, false
	}
	vs := p.gstores[g]
	if len(vs) != 1 {
		return nil, false
	}
	if f, ok := vs[0].(*ssa.Function); ok && f.Blocks != nil {
		return intern("closure", "Func", "", nil, nil, nil, f), true
	}
	return nil, false
}

func (p *Program) collect() {
	for _, pk := range p.pkgs {
		sp := p.ssa.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			fn := p.fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(fn), "zz_govc_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				p.directive(pk, sp, fd)
			}
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].specPkg+p.all[i].target < p.all[j].specPkg+p.all[j].target })
}

func (p *Program) directive(pk *packages.Package, sp *ssa.Package, fd *ast.FuncDecl) {
	obj, _ := pk.TypesInfo.Defs[fd.Name].(*types.Func)
	if obj == nil {
		return
	}
	spec := p.ssa.FuncValue(obj)
	if spec == nil {
		return
	}
	c := &Contract{spec: spec, specPkg: pk.PkgPath}
	isC := false
	for _, cm := range fd.Doc.List {
		t := strings.TrimSpace(cm.Text)
		if !strings.HasPrefix(t, "//govc:") {
			continue
		}
		word, rest, _ := strings.Cut(strings.TrimPrefix(t, "//govc:"), " ")
		rest = strings.TrimSpace(rest)
		switch word {
		case "contract":
			c.kind, c.target, isC = "contract", rest, true
			c.fn = p.findFunc(sp, rest)
			if c.fn == nil {
				base := rest
				if i := strings.LastIndexByte(base, '.'); i >= 0 {
					base = base[i+1:]
				}
				if ast.IsExported(base) {
					c.trusted = true
				} else {
					c.kind = "gone"
				}
			}
		case "lemma":
			c.kind, c.target, isC = "lemma", "lemma "+fd.Name.Name, true
		case "extern":
			c.kind, c.target, isC = "extern", rest, true
			p.externs[sp.Pkg.Path()+"|"+rest] = c
			if p.externs[rest] == nil {
				p.externs[rest] = c
			}
		case "iface":
			c.kind, c.target, isC = "iface", rest, true
			p.ifaces[sp.Pkg.Path()+"|"+rest] = c
			if p.ifaces[rest] == nil {
				p.ifaces[rest] = c
			}
		case "funcval":
			c.kind, c.target, isC = "funcval", rest, true
			p.funcVals[sp.Pkg.Path()+"|"+rest] = c
			if p.funcVals[rest] == nil {
				p.funcVals[rest] = c
			}
		case "prop":
			c.props = strings.Fields(rest)
		case "pure":
			c.pure = true
		case "inline":
			c.inline = true
		case "prune":
			c.prune = true
		case "mode":
			c.bv = rest == "bv"
		case "ghost":
			g := &ghostDecl{name: fd.Name.Name, ret: obj.Signature().Results().At(0).Type()}
			if obj.Signature().Params().Len() > 0 {
				g.param = obj.Signature().Params().At(0).Type()
			}
			p.ghosts = append(p.ghosts, g)
			p.ghostFn[spec] = g
		case "abstract":
			p.absFn[spec] = true
		case "text":
			p.textFn[sp.Pkg.Path()] = spec
		case "axiom":
			p.axioms = append(p.axioms, spec)
			p.trust("axiom " + fd.Name.Name)
		case "useinit":
			c.useInit = true
		case "monitor":
			// monitor T mutex field field...
			w := strings.Fields(rest)
			tn, _ := sp.Pkg.Scope().Lookup(w[0]).(*types.TypeName)
			if tn == nil {
				continue
			}
			m := &Monitor{owner: tn.Type().(*types.Named), mutex: w[1], guards: map[string]bool{}, inv: spec}
			for _, g := range w[2:] {
				m.guards[g] = true
			}
			p.monitors = append(p.monitors, m)
		case "monitorstep":
			for _, m := range p.monitors {
				if m.owner.Obj().Name() == rest {
					m.step = spec
				}
			}
		case "monitorghost":
			w := strings.Fields(rest)
			for _, m := range p.monitors {
				if m.owner.Obj().Name() == w[0] {
					for _, g := range w[1:] {
						if gd := p.ghostByName(g); gd != nil {
							m.ghosts = append(m.ghosts, gd)
						}
					}
				}
			}
		case "loop":
			t := &Template{spec: spec}
			for _, d := range []string{"outer", "inner"} {
				if r := strings.TrimSuffix(rest, " "+d); r != rest {
					rest, t.depth = strings.TrimSpace(r), d
				}
			}
			if rest == "*" || rest == "" {
				t.any = true
			} else {
				t.target = p.findFunc(sp, rest)
				if t.target == nil {
					t.any = true
				}
			}
			p.templates = append(p.templates, t)
		}
	}
	if isC {
		p.all = append(p.all, c)
		if c.fn != nil {
			p.byFunc[c.fn] = c
		}
	}
}

// findFunc resolves "Func", "T.Method" "(*T).Method" or "Func$1" in a package
func (p *Program) findFunc(sp *ssa.Package, name string) *ssa.Function {
	if j := strings.LastIndexByte(name, '/'); j >= 0 { // a function of another package with source
		if k := strings.IndexByte(name[j:], '.'); k > 0 {
			for _, q := range p.ssa.AllPackages() {
				if q.Pkg.Path() == name[:j+k] {
					return p.findFunc(q, name[j+k+1:])
				}
			}
		}
	}
	base, anon, _ := strings.Cut(name, "$")
	var fn *ssa.Function
	if strings.HasPrefix(base, "(") {
		i := strings.LastIndex(base, ").")
		tn := strings.Trim(base[1:i], "*")
		ptr := strings.HasPrefix(base[1:i], "*")
		m := base[i+2:]
		o, _ := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if o == nil {
			return nil
		}
		n, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == m {
				_, isPtr := n.Method(i).Signature().Recv().Type().(*types.Pointer)
				if isPtr != ptr {
					// receiver kind changed: still the same method
					fn = p.ssa.FuncValue(n.Method(i))
				} else {
					fn = p.ssa.FuncValue(n.Method(i))
				}
			}
		}
	} else if i := strings.IndexByte(base, '.'); i > 0 {
		return p.findFunc(sp, "("+base[:i]+")"+base[i:])
	} else {
		fn = sp.Func(base)
	}
	if fn == nil || anon == "" {
		return fn
	}
	k, _ := strconv.Atoi(anon)
	if k >= 1 && k <= len(fn.AnonFuncs) {
		return fn.AnonFuncs[k-1]
	}
	return nil
}

// runInit executes a package's variable initialisers symbolically.
func (x *Exec) runInit(st *State, pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	x.inInit = true
	x.mute++
	defer func() { x.inInit = false; x.mute-- }()
	h := st.hook
	st.hook = nil
	x.initBlocks(st, fn)
	st.hook = h
}

func (x *Exec) initBlocks(st *State, fn *ssa.Function) {
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, tup: map[ssa.Value][]*Term{}, loops: map[*ssa.BasicBlock]*loopCtx{}, iters: map[ssa.Value]*iterInfo{}}
	bad := map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
				continue
			case *ssa.Call:
				if f := v.Call.StaticCallee(); f != nil && f.Name() == "init" {
					continue
				}
			}
			skip := false
			for _, op := range in.Operands(nil) {
				if *op != nil && bad[*op] {
					skip = true
				}
			}
			if skip {
				if v, ok := in.(ssa.Value); ok {
					bad[v] = true
				}
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
						if v, ok := in.(ssa.Value); ok {
							bad[v] = true
						}
					}
				}()
				switch v := in.(type) {
				case *ssa.Call:
					ft, args := x.evalCall(fr, st, &v.Call)
					f := v.Call.StaticCallee()
					if f != nil && f.Blocks == nil && x.contractFor(f) == nil {
						o := x.unknownResult(st, v.Call.Signature())
						x.setResult(fr, v, o[0].results)
						return
					}
					outs := x.call(fr, st, &v.Call, ft, args, v.Pos())
					if len(outs) == 1 {
						*st = *outs[0].st
						x.setResult(fr, v, outs[0].results)
					} else {
						bad[v] = true
					}
				default:
					x.instr(fr, st, in)
				}
			}()
		}
	}
}

func relFile(b []byte) string { return string(bytes.TrimSpace(b)) }
