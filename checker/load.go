package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kitex-contrib/xds"

// Program is the loaded repository.
type Program struct {
	values      map[string][]*ssa.Function // functions used as values, by signature
	counterMemo map[string]bool
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // repository packages by path
	fset        *token.FileSet
	root        string
	nfiles      int
	nfuncs      int
	// constant contents of package-level maps that nobody writes
	globMaps map[*ssa.Global]*Term
	globVals map[*ssa.Global]*Term
	named    []*types.Named // named types of the repository
	written  map[*ssa.Global]bool
}

type undecided struct{ msg string }

func undec(f string, a ...interface{}) { panic(undecided{fmt.Sprintf(f, a...)}) }

func loadProgram(root string, refsDirs ...string) (*Program, error) {
	env := map[string]string{
		"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=readonly", "GOPROXY": "off", "GOWORK": "off", "GOENV": "off",
		"GOSUMDB": "off", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
		"CGO_ENABLED": os.Getenv("CGO_ENABLED"),
	}
	for k, v := range env {
		if v != "" {
			os.Setenv(k, v)
		}
	}
	if !strings.HasPrefix(os.Getenv("PATH"), "/opt/veriftools/go1.23.12/bin:") {
		os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	}
	overlay := map[string][]byte{}
	for _, refs := range refsDirs {
		fs, _ := filepath.Glob(filepath.Join(refs, "*.go.txt"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			b = notifierFields(root, b)
			// the first line names the directory
			line := strings.SplitN(string(b), "\n", 2)[0]
			dir := strings.TrimSpace(strings.TrimPrefix(line, "// dir:"))
			overlay[filepath.Join(root, dir, "zz_verif_"+filepath.Base(refs)+"_"+strings.TrimSuffix(filepath.Base(f), ".txt"))] = b
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     root,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...", "slices", "maps")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset, root: root}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if strings.HasPrefix(pkgs[i].PkgPath, modPath) {
			p.pkgs[pkgs[i].PkgPath] = sp
			p.nfiles += len(pkgs[i].CompiledGoFiles)
			sc := sp.Pkg.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					if nt, ok := tn.Type().(*types.Named); ok && !tn.IsAlias() {
						p.named = append(p.named, nt)
					}
				}
			}
		}
	}
	p.foldGlobals()
	return p, nil
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		if fn.Origin() != nil {
			pk = fn.Origin().Package()
		}
		if pk == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
	}
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath)
}

// isGenerated: protobuf and rpc stubs of the repository are treated as a library.
func isGeneratedPath(path string) bool {
	return strings.Contains(path, "/kitex_gen/")
}

// function finds a package-level function or a method "(*T).m" of a repository package.
func (p *Program) function(pkg, name string) *ssa.Function {
	sp := p.pkgs[modPath+pkg]
	if sp == nil {
		return nil
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		tn := strings.Trim(name[:i], "(*)")
		m := name[i+1:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		T := o.Type()
		for _, t := range []types.Type{T, types.NewPointer(T)} {
			if s := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m); s != nil {
				f := p.prog.MethodValue(s)
				if f != nil && f.Synthetic == "" {
					return f
				}
				if f != nil && t != T {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Program) mustFunc(pkg, name string) *ssa.Function {
	f := p.function(pkg, name)
	if f == nil {
		undec("anchor not found: %s.%s", pkg, name)
	}
	return f
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.pkgs[modPath+pkg]
	if sp == nil {
		undec("package not found: %s", pkg)
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		undec("type not found: %s.%s", pkg, name)
	}
	return o.Type()
}

// allFuncs returns every source function of the repository (closures included), generated stubs excluded.
func (p *Program) allFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for path, sp := range p.pkgs {
		if isGeneratedPath(path) || strings.HasSuffix(path, "/mock") {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							visit(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// isRef: functions of the reference overlay and test helpers are not part of the program under analysis.
func (p *Program) isRef(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	pos := p.fset.Position(f.Pos())
	return strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif_")
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	x := p.fset.Position(ps)
	f := x.Filename
	if r, err := filepath.Rel(p.root, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// foldGlobals evaluates package-level variables initialised with constants or constant map literals
// and never written afterwards.
func (p *Program) foldGlobals() {
	p.globMaps = map[*ssa.Global]*Term{}
	p.globVals = map[*ssa.Global]*Term{}
	p.written = map[*ssa.Global]bool{}
	// who writes the globals outside the synthetic init
	mapUsers := map[*ssa.Global]bool{}
	for _, fn := range p.everyFunc() {
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						p.written[g] = true
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok && !isInit {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							mapUsers[g] = true
						}
					}
				}
				// the address of a global taken for anything but load/store
				if !isInit {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							switch x := in.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								if x.Val == g {
									p.written[g] = true
								}
							case *ssa.FieldAddr:
							default:
								p.written[g] = true
							}
						}
					}
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		ini := sp.Func("init")
		if ini == nil {
			continue
		}
		maps := map[ssa.Value][][2]*Term{}
		bad := map[ssa.Value]bool{}
		for _, b := range ini.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeMap:
					maps[in] = nil
				case *ssa.MapUpdate:
					k, ok1 := in.Key.(*ssa.Const)
					v, ok2 := in.Value.(*ssa.Const)
					val := in.Value
					if ct, ok := val.(*ssa.ChangeType); ok {
						val = ct.X
					}
					if g, ok := val.(*ssa.Function); ok1 && ok {
						// a table of functions
						maps[in.Map] = append(maps[in.Map], [2]*Term{tConst(k.Value, k.Type()), mkFunc(g)})
					} else if ok1 && ok2 {
						maps[in.Map] = append(maps[in.Map], [2]*Term{tConst(k.Value, k.Type()), tConst(v.Value, v.Type())})
					} else {
						bad[in.Map] = true
					}
				case *ssa.Store:
					g, ok := in.Addr.(*ssa.Global)
					if !ok || p.written[g] {
						continue
					}
					if c, ok := in.Val.(*ssa.Const); ok {
						p.globVals[g] = tConst(c.Value, c.Type())
						continue
					}
					if kvs, ok := maps[in.Val]; ok && !bad[in.Val] && !mapUsers[g] {
						base := mk("mapempty", "", in.Val.Type())
						var ops []*Term
						for _, kv := range kvs {
							ops = append(ops, mk("set", "", nil, kv[0], kv[1]))
						}
						p.globMaps[g] = mkMap(base, ops...)
					}
				}
			}
		}
	}
	_ = constant.Bool
}

func (p *Program) everyFunc() []*ssa.Function {
	out := p.allFuncs()
	for _, sp := range p.pkgs {
		if f := sp.Func("init"); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// defaultIsConst: a package-level variable whose address is never taken and that is not written is stable.
func (p *Program) globStable(g *ssa.Global) bool { return !p.written[g] }

// notifierFields: the references name two fields of the notifier by their types.
func notifierFields(root string, b []byte) []byte {
	if !bytes.Contains(b, []byte("nf.WAITERS")) && !bytes.Contains(b, []byte("nf.RES")) {
		return b
	}
	waiters, res := "waiters", "res"
	fs, _ := filepath.Glob(filepath.Join(root, "core/manager/*.go"))
	for _, f := range fs {
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			ts, ok := n.(*ast.TypeSpec)
			if !ok || ts.Name.Name != "notifier" {
				return true
			}
			if st, ok := ts.Type.(*ast.StructType); ok {
				for _, fd := range st.Fields.List {
					for _, nm := range fd.Names {
						switch t := fd.Type.(type) {
						case *ast.Ident:
							if strings.HasPrefix(t.Name, "int") || strings.HasPrefix(t.Name, "uint") {
								waiters = nm.Name
							}
						case *ast.SelectorExpr:
							if t.Sel.Name == "Resource" {
								res = nm.Name
							}
						}
					}
				}
			}
			return false
		})
	}
	b = bytes.ReplaceAll(b, []byte("nf.WAITERS"), []byte("nf."+waiters))
	return bytes.ReplaceAll(b, []byte("nf.RES"), []byte("nf."+res))
}
