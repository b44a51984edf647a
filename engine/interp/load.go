package interp

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Mod = "github.com/zhiqiangxu/mondis"
const HarnessRoot = Mod + "/zzverif"

// Loaded is the program under analysis with the harness packages overlaid.
type Loaded struct {
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package
	Harnesses map[string]*ssa.Function
	Opts      map[string]map[string]string // harness -> //sym:opt directives
	Redir     map[string]*ssa.Function
	Doc       map[string]string
}

// OverlayFiles maps overlay paths below repo to files below harnessDir.
func OverlayFiles(repo, harnessDir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, err := filepath.Rel(harnessDir, p)
		if err != nil {
			return err
		}
		out[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return out, err
}

// Load type-checks and builds SSA for the given harness package (e.g. "h").
func Load(repo, harnessDir, goroot string, env []string, pats ...string) (*Loaded, error) {
	files, err := OverlayFiles(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     env,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, Mod) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld := &Loaded{Prog: prog, Pkgs: map[string]*ssa.Package{}, Harnesses: map[string]*ssa.Function{}, Opts: map[string]map[string]string{}, Redir: map[string]*ssa.Function{}, Doc: map[string]string{}}
	for _, p := range prog.AllPackages() {
		ld.Pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, HarnessRoot) {
			return
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		sp.Build()
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if r, ok := strings.CutPrefix(t, "sym:replace "); ok {
							ld.Redir[strings.TrimSpace(r)] = fn
						}
						if r, ok := strings.CutPrefix(t, "sym:opt "); ok {
							m := ld.Opts[fn.Name()]
							if m == nil {
								m = map[string]string{}
								ld.Opts[fn.Name()] = m
							}
							for _, kv := range strings.Fields(r) {
								k, v, _ := strings.Cut(kv, "=")
								m[k] = v
							}
						}
					}
					ld.Doc[fn.Name()] = fd.Doc.Text()
				}
				if len(fd.Name.Name) > 4 && fd.Name.Name[0] == 'C' && fd.Name.Name[3] == '_' && fn.Signature.Params().Len() == 0 {
					ld.Harnesses[fd.Name.Name] = fn
				}
			}
		}
	})
	return ld, nil
}

// HarnessNames lists the harnesses of one property.
func (ld *Loaded) HarnessNames(prop string) []string {
	var o []string
	for k := range ld.Harnesses {
		if strings.HasPrefix(k, prop+"_") {
			o = append(o, k)
		}
	}
	sort.Strings(o)
	return o
}

// NewEngine prepares an engine over a loaded program.
func NewEngine(ld *Loaded, cfg Config) *Engine {
	return &Engine{Prog: ld.Prog, Cfg: cfg, redir: ld.Redir, ld: ld, named: map[string]types.Type{}}
}
