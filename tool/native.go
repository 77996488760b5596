package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed embed/harness.go.txt
var harnessSrc string

func nativeEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "GOSUMDB=off")
}

// fnExpr gives a Go expression denoting fn inside its package.
func fnExpr(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return ""
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return "(*" + p.Elem().(*types.Named).Obj().Name() + ")." + fn.Name()
		}
		return t.(*types.Named).Obj().Name() + "." + fn.Name()
	}
	return fn.Name()
}

func paramNames(fn *ssa.Function) []string {
	var out []string
	for _, p := range fn.Params {
		out = append(out, p.Name())
	}
	return out
}

func clauseLit(c *Clause) string {
	return fmt.Sprintf("{%q, %s, %#v}", c.name, c.fn.Name(), paramNames(c.fn))
}

func (p *Program) nativeSource(short string, cs []*Contract) (string, map[string]bool) {
	var sb strings.Builder
	sb.WriteString("package " + short + "\n\n")
	sb.WriteString(harnessSrc)
	have := map[string]bool{}
	sb.WriteString("\nvar vcTargets = []vcTarget{\n")
	ags := map[string]string{}
	for _, c := range cs {
		if c.pkg != short || c.missing || c.fn == nil {
			continue
		}
		e := fnExpr(c.fn)
		if e == "" || c.search == "off" {
			continue
		}
		have[c.id()] = true
		fmt.Fprintf(&sb, "\t{id: %q, lemma: %v, fn: %s, params: %#v,\n", c.id(), c.lemma, e, paramNames(c.fn))
		sb.WriteString("\t\trequires: []vcClause{")
		for _, r := range c.requires {
			sb.WriteString(clauseLit(r) + ", ")
		}
		sb.WriteString("},\n\t\tensures: []vcClause{")
		for _, r := range c.ensures {
			sb.WriteString(clauseLit(r) + ", ")
		}
		sb.WriteString("},\n")
		if c.panics != nil {
			sb.WriteString("\t\tpanics: &vcClause" + clauseLit(c.panics) + ",\n")
		}
		sb.WriteString("\t},\n")
		if c.gen != "" {
			ags[c.id()] = c.gen
		}
	}
	sb.WriteString("}\n\nvar vcGenerators = []interface{}{")
	for _, g := range p.typeGens[short] {
		sb.WriteString(g + ", ")
	}
	sb.WriteString("}\n\nvar vcArgGenerators = map[string]interface{}{")
	var ks []string
	for k := range ags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q: %s, ", k, ags[k])
	}
	sb.WriteString("}\n\n")
	ints, strs := p.dictionary(short)
	sb.WriteString("var vcInts = []int64{")
	for _, i := range ints {
		fmt.Fprintf(&sb, "%d, ", i)
	}
	sb.WriteString("}\n\nvar vcStrs = []string{")
	for _, s := range strs {
		fmt.Fprintf(&sb, "%q, ", s)
	}
	sb.WriteString("}\n")
	return sb.String(), have
}

// dictionary collects constants of the current source.
func (p *Program) dictionary(short string) ([]int64, []string) {
	is, ss := map[int64]bool{}, map[string]bool{}
	for sh, tp := range p.tpkgs {
		if sh != short && !(sh == "ansi") {
			continue
		}
		for _, f := range tp.Syntax {
			if p.specFile[p.fset.Position(f.Pos()).Filename] {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if b, ok := n.(*ast.BasicLit); ok {
					switch b.Kind {
					case token.INT, token.CHAR:
						v := constant.MakeFromLiteral(b.Value, b.Kind, 0)
						if i, ok := constant.Int64Val(v); ok {
							is[i] = true
						}
					case token.STRING:
						if s, err := strconv.Unquote(b.Value); err == nil && len(s) > 0 && len(s) < 12 {
							ss[s] = true
						}
					}
				}
				return true
			})
		}
		for _, o := range tp.TypesInfo.Defs {
			if c, ok := o.(*types.Const); ok && c.Val().Kind() == constant.Int {
				if i, ok := constant.Int64Val(c.Val()); ok {
					is[i] = true
				}
			}
		}
	}
	var ints []int64
	for i := range is {
		ints = append(ints, i)
	}
	sort.Slice(ints, func(a, b int) bool { return ints[a] < ints[b] })
	if len(ints) > 1500 {
		// keep the small ones and a spread of the rest
		var k []int64
		for i, v := range ints {
			if v < 2000 || i%4 == 0 {
				k = append(k, v)
			}
		}
		ints = k
	}
	var strs []string
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Strings(strs)
	return ints, strs
}

type nativeBin struct {
	short string
	bin   string
	dir   string
	have  map[string]bool
	err   error
}

type nativeReport struct {
	ID     string        `json:"id"`
	Kind   string        `json:"kind"`
	Detail string        `json:"detail"`
	Seed   uint64        `json:"seed"`
	Input  string        `json:"input"`
	Model  bool          `json:"model"`
	Args   []interface{} `json:"args,omitempty"`
	Trials int           `json:"trials"`
	Used   int           `json:"used"`
}

func pkgDir(short string) string {
	for _, rp := range repoPkgs {
		if rp.short == short {
			return rp.dir
		}
	}
	return "."
}

// buildNative compiles the replay harness of one package with go test -overlay.
func (p *Program) buildNative(work, contractDir, short string, cs []*Contract) *nativeBin {
	nb := &nativeBin{short: short}
	src, have := p.nativeSource(short, cs)
	nb.have = have
	if len(have) == 0 {
		nb.err = fmt.Errorf("no natively callable target")
		return nb
	}
	dir := filepath.Join(p.repo, pkgDir(short))
	nb.dir = dir
	rep := map[string]string{}
	put := func(name, content string) {
		f := filepath.Join(work, short+"_"+name)
		os.WriteFile(f, []byte(content), 0o644)
		rep[filepath.Join(dir, name)] = f
	}
	put("zz_verif_native_test.go", src)
	rt, _ := os.ReadFile(filepath.Join(contractDir, "rt", "rt.go"))
	put("zz_verif_rt.go", strings.Replace(string(rt), "package rt", "package "+short, 1))
	drop := map[string]bool{}
	for _, d := range p.dropped {
		drop[d] = true
	}
	// contract files of every repository package that is overlaid
	for _, rp := range repoPkgs {
		fs := specFiles(contractDir, rp.short)
		if rp.short != short && !(rp.short == "ansi" && len(fs) > 0) && !(rp.short == "anansi" && short == "platform") {
			continue
		}
		if rp.short != short {
			// the ghost functions of imported packages
			ddir := filepath.Join(p.repo, rp.dir)
			dput := func(name, content string) {
				f := filepath.Join(work, short+"_"+rp.short+"_"+name)
				os.WriteFile(f, []byte(content), 0o644)
				rep[filepath.Join(ddir, name)] = f
			}
			dput("zz_verif_rt.go", strings.Replace(string(rt), "package rt", "package "+rp.short, 1))
			for _, f := range fs {
				if !drop[f] {
					b, _ := os.ReadFile(f)
					dput("zz_verif_"+filepath.Base(f), string(b))
				}
			}
			continue
		}
		for _, f := range fs {
			if drop[f] {
				continue
			}
			b, _ := os.ReadFile(f)
			put("zz_verif_"+filepath.Base(f), string(b))
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(work, short+"_overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	nb.bin = filepath.Join(work, short+".test")
	arg := "./" + pkgDir(short)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", nb.bin, arg)
	cmd.Dir = p.repo
	cmd.Env = nativeEnv()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		nb.err = fmt.Errorf("native harness for %s does not build: %v\n%s", short, err, out.String())
	}
	return nb
}

// runNative runs the harness over targets; procs processes with different seeds.
func (nb *nativeBin) run(work string, targets []string, seed uint64, ms, procs int, model, one string) []nativeReport {
	if nb == nil || nb.err != nil || len(targets) == 0 {
		return nil
	}
	var mu sync.Mutex
	merged := map[string]*nativeReport{}
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			todo := append([]string{}, targets...)
			// a crash or hang ends the process: continue with the remaining targets
			for round := 0; round < 6 && len(todo) > 0; round++ {
				f := filepath.Join(work, fmt.Sprintf("native_%s_%d_%d_%d.json", nb.short, time.Now().UnixNano(), k, round))
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms*len(todo))*time.Millisecond*2+60*time.Second)
				sd := filepath.Join(work, fmt.Sprintf("scratch_%d", k))
				os.MkdirAll(sd, 0o755)
				cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec "+nb.bin+" -test.run '^TestVerifNative$' -test.timeout 900s")
				cmd.Dir = sd
				cmd.Env = append(nativeEnv(), "VC_OUT="+f, "VC_TARGETS="+strings.Join(todo, ","), fmt.Sprintf("VC_SEED=%d", seed*1000003+uint64(k)*7777777+uint64(round)*99991), fmt.Sprintf("VC_MS=%d", ms), "VC_MODEL="+model, "VC_ONE="+one, "GOMAXPROCS=2")
				cmd.Run()
				cancel()
				b, _ := os.ReadFile(f)
				os.Remove(f)
				done := map[string]bool{}
				for _, ln := range strings.Split(string(b), "\n") {
					var r nativeReport
					if json.Unmarshal([]byte(ln), &r) != nil || r.ID == "" {
						continue
					}
					done[r.ID] = true
					mu.Lock()
					o := merged[r.ID]
					if o == nil {
						c := r
						merged[r.ID] = &c
					} else {
						tr, us := o.Trials+r.Trials, o.Used+r.Used
						if r.Kind == "fail" && o.Kind != "fail" {
							*o = r
						}
						o.Trials, o.Used = tr, us
					}
					mu.Unlock()
				}
				var rest []string
				for _, t := range todo {
					if !done[t] {
						rest = append(rest, t)
					}
				}
				if len(rest) == len(todo) {
					rest = rest[1:] // first target crashed the process without a report
				}
				todo = rest
			}
		}()
	}
	wg.Wait()
	var out []nativeReport
	for _, t := range targets {
		if r := merged[t]; r != nil {
			out = append(out, *r)
		}
	}
	return out
}
