package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is /repo's current source (plus harness overlay) in SSA form.
type Program struct {
	prog     *ssa.Program
	sorty    *ssa.Package
	initPkgs map[*ssa.Package]bool
	sizes    types.Sizes
	fset     *token.FileSet
	W        uint8
	mu       sync.Mutex
	harnessF map[*ssa.Function]bool
	hmu      sync.RWMutex
	Dropped  map[string]string // harness file -> why it does not apply to this tree
	Files    map[string]string // harness files in use: name -> text
	goarch   string
	tags     string
}

var repoDir = "/repo"

func goEnv(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	return append(env, extra...)
}

// LoadProgram builds the SSA form of /repo with the given harness files overlaid. Harness files
// that do not type-check against this tree are dropped (and reported).
func LoadProgram(files map[string]string, goarch, tags string) (*Program, error) {
	P := &Program{Dropped: map[string]string{}, goarch: goarch, tags: tags}
	use := map[string]string{}
	for k, v := range files {
		use[k] = v
	}
	for try := 0; ; try++ {
		if try > 12 {
			return nil, fmt.Errorf("cannot type-check the harness")
		}
		ov := map[string][]byte{}
		for k, v := range use {
			ov[filepath.Join(repoDir, k)] = []byte(v)
		}
		P.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Fset: P.fset,
			Env: goEnv("GOARCH="+goarch, "CGO_ENABLED=0")}
		if tags != "" {
			cfg.BuildFlags = []string{"-tags=" + tags}
		}
		ps, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("%d packages", len(ps))
		}
		bad := false
		var other error
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				b := filepath.Base(f)
				if _, ok := use[b]; ok && b != "zz_v_intr.go" {
					if os.Getenv("VDEBUG") != "" {
						fmt.Fprintln(os.Stderr, "drop", b, e)
					}
					delete(use, b)
					P.Dropped[b] = e.Msg
					bad = true
				} else if _, ok := P.Dropped[b]; !ok {
					other = fmt.Errorf("%s", e.Error())
				}
			}
		})
		if bad {
			continue
		}
		if other != nil {
			return nil, other
		}
		prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		prog.Build()
		P.prog, P.sorty = prog, spkgs[0]
		P.initPkgs = map[*ssa.Package]bool{}
		for _, p := range prog.AllPackages() {
			switch p.Pkg.Path() {
			case "github.com/jfcg/sixb", "math/bits", "cmp", "slices":
				P.initPkgs[p] = true
			}
		}
		P.sizes = ps[0].TypesSizes
		P.W = uint8(8 * P.sizes.Sizeof(types.Typ[types.Int]))
		P.harnessF = map[*ssa.Function]bool{}
		P.Files = use
		return P, nil
	}
}

// isHarnessFn tells whether fn comes from a harness file.
func (P *Program) isHarnessFn(fn *ssa.Function) bool {
	P.hmu.RLock()
	r, ok := P.harnessF[fn]
	P.hmu.RUnlock()
	if ok {
		return r
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	pos := f.Pos()
	r = strings.HasPrefix(filepath.Base(P.fset.Position(pos).Filename), "zz_v_")
	P.hmu.Lock()
	P.harnessF[fn] = r
	P.hmu.Unlock()
	return r
}
