package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Clause struct {
	kind string // requires ensures panics invariant decreases
	fn   *ssa.Function
	name string
	loop int
	file string
	line int
}

type Contract struct {
	key      string // pkg-relative target name
	pkg      string
	fn       *ssa.Function
	lemma    bool
	requires []*Clause
	ensures  []*Clause
	panics   *Clause
	cases    []*Clause // proved separately under each, and under none of them
	invs     []*Clause
	decs     []*Clause
	props    []string
	mode     string
	overflow string // check, ignore
	modular  bool
	det      bool     // result is a function of the arguments and the memory they refer to
	dyn      []string // dynamic types told apart in calls of unknown interface values
	modifies []string
	trusted  bool
	bounded  int // >0: only a bounded check (unrolling depth)
	uses     []string
	reveal   []string // opaque specs unfolded in this contract
	sampled  bool     // not proved: run on generated inputs only
	noterm   bool
	timeout  int
	missing  bool
	search   string // "off" disables native random search
	assumes  []string
	gen      string // argument generator for replays
}

func (c *Contract) id() string { return c.pkg + ":" + c.key }

type Program struct {
	fset        *token.FileSet
	ssa         *ssa.Program
	pkgs        map[string]*ssa.Package // short name -> package
	tpkgs       map[string]*packages.Package
	contracts   map[string]*Contract // id -> contract
	byFn        map[*ssa.Function]*Contract
	specs       map[*ssa.Function]bool
	opaque      map[*ssa.Function]bool // specs unfolded only where revealed
	allInvs     []*Clause
	invOwner    map[*Clause]*Contract
	loopMemo    map[*ssa.Function]*loopInfo
	specFile    map[string]bool
	trivial     int
	loadErrs    []string
	dropped     []string
	consts      map[string]map[string]bool
	written     map[*ssa.Global]bool
	repo        string
	typeGens    map[string][]string // package -> generator functions
	specImports map[string]bool
}

var repoPkgs = []struct{ short, path, dir string }{
	{"ansi", "github.com/jcorbin/anansi/ansi", "ansi"},
	{"anansi", "github.com/jcorbin/anansi", "."},
	{"platform", "github.com/jcorbin/anansi/x/platform", "x/platform"},
	{"terminfo", "github.com/jcorbin/anansi/terminfo", "terminfo"},
}

func specFiles(contractDir, short string) []string {
	fs, _ := filepath.Glob(filepath.Join(contractDir, short, "*.go"))
	sort.Strings(fs)
	return fs
}

// loadProgram type-checks /repo with the contract files overlaid.
func loadProgram(repo, contractDir string, shorts []string) (*Program, error) {
	rt, err := os.ReadFile(filepath.Join(contractDir, "rt", "rt.go"))
	if err != nil {
		return nil, err
	}
	dropped := map[string]bool{}
	for attempt := 0; attempt < 6; attempt++ {
		overlay := map[string][]byte{}
		p := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{},
			contracts: map[string]*Contract{}, byFn: map[*ssa.Function]*Contract{}, specs: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{},
			invOwner: map[*Clause]*Contract{}, loopMemo: map[*ssa.Function]*loopInfo{}, specFile: map[string]bool{}, repo: repo, typeGens: map[string][]string{}}
		var pats []string
		want := map[string]bool{}
		for _, s := range shorts {
			want[s] = true
		}
		for _, rp := range repoPkgs {
			if !want[rp.short] {
				continue
			}
			pats = append(pats, rp.path)
			dir := filepath.Join(repo, rp.dir)
			fs := specFiles(contractDir, rp.short)
			if len(fs) == 0 {
				continue
			}
			rtPath := filepath.Join(dir, "zz_verif_rt.go")
			overlay[rtPath] = []byte(strings.Replace(string(rt), "package rt", "package "+rp.short, 1))
			p.specFile[rtPath] = true
			for _, f := range fs {
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				dst := filepath.Join(dir, "zz_verif_"+filepath.Base(f))
				if dropped[dst] {
					p.dropped = append(p.dropped, f)
					continue
				}
				overlay[dst] = b
				p.specFile[dst] = true
			}
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: p.fset, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var repoErr error
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				file := e.Pos
				if i := strings.Index(file, ".go:"); i >= 0 {
					file = file[:i+3]
				}
				if p.specFile[file] && !strings.HasSuffix(file, "zz_verif_rt.go") {
					dropped[file] = true
					bad = true
				} else if repoErr == nil {
					repoErr = fmt.Errorf("load %s: %s", pk.PkgPath, e.Error())
				}
				p.loadErrs = append(p.loadErrs, e.Error())
			}
		}
		if bad {
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "dropping contract files:", p.loadErrs)
			}
			continue
		}
		if repoErr != nil {
			return nil, repoErr
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
		prog.Build()
		p.ssa = prog
		for i, sp := range spkgs {
			for _, rp := range repoPkgs {
				if rp.path == pkgs[i].PkgPath {
					p.pkgs[rp.short] = sp
					p.tpkgs[rp.short] = pkgs[i]
				}
			}
		}
		// deps of the repo (e.g. anansi imports ansi)
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, rp := range repoPkgs {
				if rp.path == pk.PkgPath && p.pkgs[rp.short] == nil {
					p.pkgs[rp.short] = prog.Package(pk.Types)
					p.tpkgs[rp.short] = pk
				}
			}
		})
		if err := p.parseContracts(); err != nil {
			return nil, err
		}
		p.scanGlobals()
		return p, nil
	}
	return nil, fmt.Errorf("contract files do not type-check against the current tree")
}

func (p *Program) repoPkg(pk *ssa.Package) bool {
	if pk == nil {
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), "github.com/jcorbin/anansi")
}

func (p *Program) initPure(pk *ssa.Package) bool { return false }

// library packages whose source is executed like repository code
var inlinePkgs = map[string]bool{
	"image": true, "image/color": true, "unicode/utf8": true, "math/bits": true, "sort": true, "bytes": true, "strings": true,
}

func (p *Program) inlineable(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		if fn.Origin() != nil || fn.Synthetic != "" {
			return true
		}
		return false
	}
	return inlinePkgs[fn.Pkg.Pkg.Path()]
}

func (p *Program) loops(fn *ssa.Function) *loopInfo {
	if l := p.loopMemo[fn]; l != nil {
		return l
	}
	l := computeLoops(fn)
	if l.inner == nil {
		unsup("irreducible control flow in %s", fn)
	}
	p.loopMemo[fn] = l
	return l
}

// isSpec: the function is defined in a contract file.
func (p *Program) isSpec(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if !f.Pos().IsValid() {
		return false
	}
	return p.specFile[p.fset.Position(f.Pos()).Filename]
}

// lookupTarget finds "F", "T.M", "(*T).M" or "F$1".
func (p *Program) lookupTarget(pkg *ssa.Package, name string) *ssa.Function {
	base := name
	var anon []string
	if i := strings.Index(name, "$"); i >= 0 {
		base = name[:i]
		anon = strings.Split(name[i+1:], "$")
	}
	var fn *ssa.Function
	if i := strings.LastIndex(base, "."); i >= 0 {
		tn := strings.Trim(base[:i], "(*)")
		m := base[i+1:]
		obj := pkg.Pkg.Scope().Lookup(tn)
		if obj == nil {
			return nil
		}
		named, ok := obj.Type().(*types.Named)
		if !ok {
			return nil
		}
		for j := 0; j < named.NumMethods(); j++ {
			if named.Method(j).Name() == m {
				fn = p.ssa.FuncValue(named.Method(j))
			}
		}
	} else {
		fn = pkg.Func(base)
	}
	for _, a := range anon {
		if fn == nil {
			return nil
		}
		n, _ := strconv.Atoi(a)
		if n < 1 || n > len(fn.AnonFuncs) {
			return nil
		}
		fn = fn.AnonFuncs[n-1]
	}
	return fn
}

func (p *Program) parseContracts() error {
	for short, tp := range p.tpkgs {
		sp := p.pkgs[short]
		get := func(target string) *Contract {
			id := short + ":" + target
			c := p.contracts[id]
			if c == nil {
				c = &Contract{key: target, pkg: short, mode: "int", overflow: "check"}
				c.fn = p.lookupTarget(sp, target)
				if c.fn == nil {
					c.missing = true
				} else {
					p.byFn[c.fn] = c
				}
				p.contracts[id] = c
			}
			return c
		}
		for _, f := range tp.Syntax {
			fname := p.fset.Position(f.Pos()).Filename
			if !p.specFile[fname] {
				continue
			}
			docOf := map[*ast.Comment]*ast.FuncDecl{}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					for _, c := range fd.Doc.List {
						docOf[c] = fd
					}
				}
			}
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					if !strings.HasPrefix(cm.Text, "//vc:") {
						continue
					}
					fields := strings.Fields(strings.TrimPrefix(cm.Text, "//vc:"))
					kind := fields[0]
					fd := docOf[cm]
					pos := p.fset.Position(cm.Pos())
					var fn *ssa.Function
					if fd != nil {
						fn = sp.Func(fd.Name.Name)
						if fn == nil {
							return fmt.Errorf("%s: cannot find %s", pos, fd.Name.Name)
						}
					}
					opts := func(c *Contract, fs []string) error {
						for _, o := range fs {
							k, v, _ := strings.Cut(o, "=")
							switch k {
							case "props":
								c.props = append(c.props, strings.Split(v, ",")...)
							case "mode":
								c.mode = v
							case "overflow":
								c.overflow = v
							case "dyn":
								c.dyn = append(c.dyn, strings.Split(v, ",")...)
							case "det":
								c.det = true
							case "modular":
								c.modular = true
							case "modifies":
								c.modifies = strings.Split(v, ",")
							case "trusted":
								c.trusted = true
							case "bounded":
								c.bounded, _ = strconv.Atoi(v)
							case "uses":
								c.uses = append(c.uses, strings.Split(v, ",")...)
							case "sampled":
								c.sampled = true
							case "reveal":
								c.reveal = append(c.reveal, strings.Split(v, ",")...)
							case "noterm":
								c.noterm = true
							case "timeout":
								c.timeout, _ = strconv.Atoi(v)
							case "search":
								c.search = v
							default:
								return fmt.Errorf("%s: unknown option %q", pos, o)
							}
						}
						return nil
					}
					mk := func(loop int) *Clause {
						return &Clause{kind: kind, fn: fn, name: fd.Name.Name, loop: loop, file: fname, line: pos.Line}
					}
					if kind != "contract" && kind != "assume" && fd == nil {
						return fmt.Errorf("%s: directive %s is not attached to a function", pos, kind)
					}
					switch kind {
					case "contract":
						if err := opts(get(fields[1]), fields[2:]); err != nil {
							return err
						}
					case "assume":
						c := get(fields[1])
						c.assumes = append(c.assumes, strings.Join(fields[2:], " "))
					case "requires":
						c := get(fields[1])
						c.requires = append(c.requires, mk(0))
					case "ensures":
						c := get(fields[1])
						c.ensures = append(c.ensures, mk(0))
					case "panics":
						get(fields[1]).panics = mk(0)
					case "case":
						c := get(fields[1])
						c.cases = append(c.cases, mk(0))
					case "invariant", "decreases":
						c := get(fields[1])
						n, err := strconv.Atoi(strings.TrimPrefix(fields[2], "loop"))
						if err != nil {
							return fmt.Errorf("%s: bad loop", pos)
						}
						cl := mk(n)
						if kind == "invariant" {
							c.invs = append(c.invs, cl)
						} else {
							c.decs = append(c.decs, cl)
						}
						p.invOwner[cl] = c
						p.allInvs = append(p.allInvs, cl)
					case "lemma":
						c := get(fd.Name.Name)
						c.lemma = true
						c.fn = fn
						if err := opts(c, fields[1:]); err != nil {
							return err
						}
					case "spec":
						p.specs[fn] = true
						if len(fields) > 1 && fields[1] == "opaque" {
							p.opaque[fn] = true
						}
					case "gen":
						if len(fields) > 1 {
							get(fields[1]).gen = fd.Name.Name
						} else {
							p.typeGens[short] = append(p.typeGens[short], fd.Name.Name)
						}
					default:
						return fmt.Errorf("%s: unknown directive %q", pos, kind)
					}
				}
			}
		}
	}
	return nil
}

func (p *Program) contractFor(fn *ssa.Function) *Contract {
	c := p.byFn[fn]
	if c == nil || c.lemma {
		return nil
	}
	return c
}

// loopClauses returns the invariants and measure written for a loop.
func (p *Program) loopClauses(ex *Exec, fr *Frame, L *Loop) ([]*Clause, *Clause) {
	if ex.pure > 0 {
		return nil, nil
	}
	if ex.invAssign != nil {
		if a, ok := ex.invAssign(fr, L); ok {
			return a.invs, a.dec
		}
	}
	c := p.byFn[fr.fn]
	if c == nil {
		return nil, nil
	}
	var invs []*Clause
	var dec *Clause
	for _, i := range c.invs {
		if i.loop == L.ord {
			invs = append(invs, i)
		}
	}
	for _, i := range c.decs {
		if i.loop == L.ord {
			dec = i
		}
	}
	return invs, dec
}

// scanGlobals records globals assigned outside package initialisation.
func (p *Program) scanGlobals() {
	p.written = map[*ssa.Global]bool{}
	for _, sp := range p.pkgs {
		for fn := range ssautil.AllFunctions(p.ssa) {
			if fn.Pkg != sp || fn.Name() == "init" || p.isSpec(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							p.written[g] = true
						}
					}
				}
			}
		}
		break
	}
}

// baseState symbolically runs package initialisation of the package under
// proof (and of the repository packages it imports) to give package-level
// tables their values.
func (ex *Exec) baseState(short string) *State {
	st := ex.newState()
	order := []string{"ansi"}
	switch short {
	case "anansi":
		order = append(order, "anansi")
	case "platform":
		order = append(order, "anansi", "platform")
	case "terminfo":
		order = []string{"terminfo"}
	}
	for _, s := range order {
		sp := ex.prog.pkgs[s]
		if sp == nil {
			continue
		}
		init := sp.Func("init")
		if init == nil {
			continue
		}
		ex.pure++
		ex.tolerant = true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						ex.note("package initialisation of %s only partly evaluated: %s", s, u.msg)
						return
					}
					panic(r)
				}
			}()
			ex.runInit(st, init)
		}()
		ex.tolerant = false
		ex.pure--
	}
	ex.curFrame = nil
	ex.loopsUnrolled, ex.loopsAuto, ex.loopsUser = 0, 0, 0
	ex.inlined = map[string]bool{}
	for g, id := range ex.globals {
		if ex.prog.written[g] {
			st.cells[id] = ex.freshVal(st, "g."+g.Name(), deref(g.Type()))
		}
	}
	// allocations by init live below the watermark
	if st.w.isK() && st.w.k.Int64() < 200000 {
		st.w = IntK(200000)
	}
	return st
}

func (ex *Exec) runInit(st *State, init *ssa.Function) {
	st.vals = map[ssa.Value]Val{}
	fr := &Frame{fn: init, li: ex.prog.loops(init)}
	// straight-line: execute every block in order, ignoring the init guard
	for _, b := range fr.li.rpo {
		if fr.li.inner[b] != nil {
			continue
		}
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
			case *ssa.Call:
				if f := ins.Call.StaticCallee(); f != nil && f.Name() == "init" {
					continue
				}
				ex.initCall(fr, st, ins)
			case *ssa.Store:
				ex.tolerantInstr(fr, st, ins)
			default:
				ex.tolerantInstr(fr, st, ins)
			}
		}
	}
	st.vals = map[ssa.Value]Val{}
}

func (ex *Exec) tolerantInstr(fr *Frame, st *State, ins ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				if v, ok := ins.(ssa.Value); ok {
					st.vals[v] = &PoisonVal{"init"}
				}
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						l := ex.globalLoc(st, g)
						if types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
							return
						}
						st.cells[l.cell] = &PoisonVal{"global " + g.Name() + " initialiser not modelled"}
					}
				}
				return
			}
			panic(r)
		}
	}()
	// keep sentinel errors abstract
	if s, ok := ins.(*ssa.Store); ok {
		if g, ok := s.Addr.(*ssa.Global); ok && types.Identical(deref(g.Type()), types.Universe.Lookup("error").Type()) {
			ex.globalLoc(st, g)
			return
		}
	}
	ex.tolerant = false
	defer func() { ex.tolerant = true }()
	ex.execInstr(fr, st, ins)
}

func (ex *Exec) initCall(fr *Frame, st *State, ins *ssa.Call) {
	defer func() {
		ex.tolerant = true
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				st.vals[ins] = &PoisonVal{"init call"}
				return
			}
			panic(r)
		}
	}()
	ex.tolerant = false
	st2, v := ex.call(fr, st.clone(), &ins.Call, ins.Pos(), ins)
	if st2 == nil {
		st.vals[ins] = &PoisonVal{"init call"}
		return
	}
	if v == nil {
		v = &TupleVal{}
	}
	keep := st.vals
	*st = *st2
	st.vals = keep
	st.vals[ins] = v
}
