package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Races: every access of a field (or a package variable) of the repository's objects, directly or through an alias of
// the map or slice it holds, with the locks held there in every context. A location that is written after its object
// can be reached by other goroutines needs one lock that is held at all its accesses, exclusively at the writes.

type access struct {
	in    ssa.Instruction
	write bool
	out   bool // handed to code that accesses it later, without any lock
	how   string
}

type raceScan struct {
	p       *Program
	w       *lockWalk
	locs    map[string][]access
	whole   map[string][]access // loads of whole structs, by type
	starts  map[*ssa.Function]map[*ssa.Function]bool
	calls   map[*ssa.Function][]ssa.CallInstruction
	n       int
	fresh_  map[string]int
	skip    map[string]bool
	esc     map[string]int
	reach   map[*ssa.Function]map[*ssa.Function]bool
	rootsOf map[*ssa.Function][]*ssa.Function
	dead    int
	guarded []string
	inits   map[string][]access // stores that follow the start of a goroutine during the construction
}

func newRaceScan(p *Program, w *lockWalk) *raceScan {
	return &raceScan{p: p, w: w, locs: map[string][]access{}, whole: map[string][]access{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, fresh_: map[string]int{}, esc: map[string]int{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}, inits: map[string][]access{}}
}

func typeKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return strings.TrimPrefix(n.Obj().Pkg().Path(), modPath) + "." + n.Obj().Name()
		}
	}
	return typeStr(t)
}

func syncPkg(p string) bool {
	return p == "sync" || p == "atomic" || strings.HasSuffix(p, "/atomic") || p == "github.com/bytedance/gopkg/lang/syncx"
}

func syncType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Chan); ok {
		return false
	}
	n, ok := derefT(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return syncPkg(n.Obj().Pkg().Path())
}

func (r *raceScan) run() {
	fs := r.p.everyFunc()
	for _, f := range fs {
		if !r.p.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range r.w.callees(ci) {
						r.calls[g] = append(r.calls[g], ci)
					}
				}
			}
		}
	}
	for _, f := range fs {
		if !r.p.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					t := derefT(in.X.Type())
					st := structOf(t)
					if st == nil || syncType(st.Field(in.Field).Type()) {
						continue
					}
					r.address(typeKey(t)+"."+st.Field(in.Field).Name(), in, in.X)
				case *ssa.UnOp:
					if in.Op == token.MUL {
						if st := structOf(in.Type()); st != nil && r.repoType(in.Type()) && !r.isFresh(in.X, in, 0) {
							k := typeKey(in.Type())
							r.whole[k] = append(r.whole[k], access{in: in, how: "copies the object"})
						}
					}
				case *ssa.Store:
					if st := structOf(in.Val.Type()); st != nil && r.repoType(in.Val.Type()) && !r.isFresh(in.Addr, in, 0) {
						if _, isGlobal := in.Addr.(*ssa.Global); !isGlobal {
							for i := 0; i < st.NumFields(); i++ {
								if !syncType(st.Field(i).Type()) {
									r.add(typeKey(in.Val.Type())+"."+st.Field(i).Name(), access{in: in, write: true, how: "replaces the object"})
								}
							}
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && len(r.w.callees(ci)) == 0 {
					r.handed(ci)
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !syncType(derefT(g.Type())) {
						r.addressUse("var "+g.Name(), g, in, nil)
					}
				}
			}
		}
	}
}

// handed: other code reads the objects it is given.
func (r *raceScan) handed(ci ssa.CallInstruction) {
	cc := ci.Common()
	if g := cc.StaticCallee(); g != nil && (g.Pkg == nil || syncPkg(g.Pkg.Pkg.Path()) || len(g.Blocks) > 0 && r.p.isRepo(g)) {
		return
	}
	for _, a := range cc.Args {
		if m, ok := a.(*ssa.MakeInterface); ok {
			a = m.X
		}
		pt, ok := a.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if st := structOf(pt.Elem()); st == nil || syncType(a.Type()) {
			continue
		}
		if !r.isFresh(a, ci, 0) {
			k := typeKey(pt.Elem())
			r.whole[k] = append(r.whole[k], access{in: ci, how: "is handed to other code"})
		}
	}
}

func (r *raceScan) repoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (r *raceScan) add(loc string, a access) {
	r.n++
	r.locs[loc] = append(r.locs[loc], a)
}

func (r *raceScan) address(loc string, a ssa.Value, base ssa.Value) {
	for _, u := range *a.Referrers() {
		r.addressUse(loc, a, u, base)
	}
}

// addressUse: one use of the address of a location; base is the object, nil for a package variable.
func (r *raceScan) addressUse(loc string, a ssa.Value, u ssa.Instruction, base ssa.Value) {
	fn := u.Parent()
	fresh := func(at ssa.Instruction) bool {
		if base == nil {
			return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		}
		return r.isFresh(base, at, 0)
	}
	switch u := u.(type) {
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return
		}
		if !fresh(u) {
			r.add(loc, access{in: u, how: "reads it"})
			r.content(loc, u, base)
		}
	case *ssa.Store:
		if u.Addr == a {
			if base != nil {
				if root := r.late(base, u); root != nil {
					r.inits[loc] = append(r.inits[loc], access{in: u, write: true, how: "sets it"})
					return
				}
			}
			if !fresh(u) {
				r.add(loc, access{in: u, write: true, how: "sets it"})
			}
		} else if u.Val == a && !fresh(u) {
			r.add(loc, access{in: u, write: true, out: true, how: "keeps its address"})
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// a part of it: a field of a nested struct is a location of its own
		if ia, ok := u.(*ssa.IndexAddr); ok && !fresh(u) {
			r.elements(loc, ia)
		}
	case ssa.CallInstruction:
		if fresh(u) {
			return
		}
		cc := u.Common()
		if g := cc.StaticCallee(); g != nil {
			if g.Pkg != nil && syncPkg(g.Pkg.Pkg.Path()) {
				return
			}
			if r.p.isRepo(g) && structOf(derefT(a.Type())) != nil {
				return // the fields of the nested object are locations of their own
			}
		}
		r.add(loc, access{in: u, write: true, how: "passes its address on"})
	case *ssa.Phi, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.ChangeType, *ssa.Return:
		if !fresh(u) && structOf(derefT(a.Type())) == nil {
			r.add(loc, access{in: u, write: true, out: true, how: "lets its address out"})
		}
	}
}

func (r *raceScan) elements(loc string, ia *ssa.IndexAddr) {
	for _, u := range *ia.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp:
			r.add(loc, access{in: u, how: "reads an element"})
		case *ssa.Store:
			if u.Addr == ia {
				r.add(loc, access{in: u, write: true, how: "sets an element"})
			}
		}
	}
}

func sharedContent(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Tuple:
		return t.Len() > 0 && sharedContent(t.At(0).Type())
	}
	return false
}

// content: the accesses of the map or slice loaded from a location, through all its aliases.
func (r *raceScan) content(loc string, v ssa.Value, base ssa.Value) {
	if !sharedContent(v.Type()) {
		return
	}
	seen := map[ssa.Value]bool{}
	carrier := map[ssa.Value]bool{} // holds the content, read when it is handed to other code
	var work []ssa.Value
	push := func(v ssa.Value) {
		if !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	push(v)
	acc := func(in ssa.Instruction, write bool, how string) {
		r.add(loc, access{in: in, write: write, how: how})
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		_, isTuple := v.Type().(*types.Tuple)
		for _, u := range *refs {
			switch u := u.(type) {
			case *ssa.MapUpdate:
				if u.Map == v && !carrier[v] {
					acc(u, true, "stores an entry")
				} else if u.Value == v {
					switch mm := u.Map.(type) {
					case *ssa.MakeMap, *ssa.Phi, *ssa.Parameter, *ssa.Call:
						carrier[mm] = true
						push(mm)
					default:
						acc(u, false, "keeps it in another map")
					}
				}
			case *ssa.Lookup:
				if u.X == v && !carrier[v] {
					acc(u, false, "looks an entry up")
					if sharedContent(u.Type()) {
						push(u)
					}
				}
			case *ssa.Extract:
				if isTuple && (sharedContent(u.Type())) {
					push(u)
				}
			case *ssa.Range:
				if !carrier[v] {
					push(u)
				}
			case *ssa.Next:
				acc(u, false, "iterates over it")
				for _, x := range *u.Referrers() {
					if e, ok := x.(*ssa.Extract); ok && e.Index == 2 && sharedContent(e.Type()) {
						push(e)
					}
				}
			case *ssa.IndexAddr:
				if u.X == v && !carrier[v] {
					r.elements(loc, u)
				}
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Convert:
				x := u.(ssa.Value)
				if carrier[v] {
					carrier[x] = true
				}
				push(x)
			case *ssa.TypeAssert:
				if sharedContent(u.Type()) || u.CommaOk {
					push(u)
				}
			case *ssa.Store:
				if u.Val != v {
					continue
				}
				switch a := u.Addr.(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					push(a)
				case *ssa.IndexAddr:
					// an element of a variadic argument
					carrier[a.X] = true
					push(a.X)
				case *ssa.FieldAddr:
					t := derefT(a.X.Type())
					k := typeKey(t) + "." + structOf(t).Field(a.Field).Name()
					if k != loc && !r.isFresh(a.X, u, 0) && !carrier[v] {
						r.add(loc, access{in: u, out: true, how: "keeps an alias in " + k})
					}
				}
			case *ssa.UnOp:
				if u.Op == token.MUL {
					if carrier[v] {
						carrier[u] = true
					}
					push(u)
				}
			case *ssa.Return:
				f := u.Parent()
				o, _ := f.Object().(*types.Func)
				if o != nil && o.Exported() && f.Parent() == nil && exportedRecv(f) {
					r.add(loc, access{in: u, out: true, how: "hands it out"})
				}
				for i, x := range u.Results {
					if x != v {
						continue
					}
					for _, ci := range r.calls[f] {
						call, ok := ci.(*ssa.Call)
						if !ok {
							continue
						}
						if f.Signature.Results().Len() == 1 {
							push(call)
							continue
						}
						for _, x := range *call.Referrers() {
							if e, ok := x.(*ssa.Extract); ok && e.Index == i {
								push(e)
							}
						}
					}
				}
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v {
						push(u.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case ssa.CallInstruction:
				cc := u.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear":
						acc(u, true, "removes entries")
					case "copy":
						acc(u, cc.Args[0] == v, "copies elements")
					case "append":
						if x := u.Value(); x != nil && cc.Args[0] == v {
							push(x)
						} else {
							acc(u, false, "copies elements")
						}
					default:
						if !carrier[v] {
							acc(u, false, b.Name())
						}
					}
					continue
				}
				gs := r.w.callees(u)
				if len(gs) == 0 {
					isArg := false
					for _, a := range cc.Args {
						isArg = isArg || a == v
					}
					if isArg {
						g := cc.StaticCallee()
						w := g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(g.Name(), "Sort"))
						if _, isGo := u.(*ssa.Go); isGo {
							r.add(loc, access{in: u, write: w, out: true, how: "is handed to a goroutine"})
						} else {
							acc(u, w, "is handed to other code")
						}
					}
					continue
				}
				for _, g := range gs {
					off := 0
					if cc.IsInvoke() || cc.StaticCallee() == nil && g.Signature.Recv() != nil {
						off = 1
					}
					for i, a := range cc.Args {
						if a == v && i+off < len(g.Params) {
							if carrier[v] {
								carrier[g.Params[i+off]] = true
							}
							push(g.Params[i+off])
						}
					}
				}
			}
		}
	}
}

func exportedRecv(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return true
	}
	return true
}

// Freshness.

// roots of a pointer value within its function.
func (r *raceScan) roots(v ssa.Value, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			r.roots(e, out, seen)
		}
	case *ssa.ChangeType:
		r.roots(v.X, out, seen)
	case *ssa.FieldAddr:
		r.roots(v.X, out, seen)
	case *ssa.IndexAddr:
		r.roots(v.X, out, seen)
	case *ssa.Slice:
		r.roots(v.X, out, seen)
	case *ssa.MakeInterface:
		r.roots(v.X, out, seen)
	case *ssa.TypeAssert:
		r.roots(v.X, out, seen)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			out[v] = true
		case *ssa.Lookup, *ssa.TypeAssert, *ssa.Next:
			r.roots(t.(ssa.Value), out, seen)
		default:
			out[v] = true
		}
	case *ssa.Lookup:
		// a value found in a map of this function: what was put in
		r.mapValues(v.X, v, out, seen)
	case *ssa.Next:
		if rg, ok := v.Iter.(*ssa.Range); ok {
			r.mapValues(rg.X, v, out, seen)
		} else {
			out[v] = true
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			out[v] = true
			return
		}
		switch a := v.X.(type) {
		case *ssa.Alloc:
			// a variable
			n := 0
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == a {
						n++
						r.roots(u.Val, out, seen)
					}
				case *ssa.MakeClosure:
					for i, b := range u.Bindings {
						if b == a {
							r.freeVarStores(u.Fn.(*ssa.Function).FreeVars[i], out, seen)
						}
					}
				}
			}
			if n == 0 {
				out[v] = true
			}
		case *ssa.FieldAddr:
			// a pointer kept in a fresh object: what was stored there
			if !r.storedIn(a, out, seen) {
				out[v] = true
			}
		case *ssa.IndexAddr:
			if !r.storedElem(a, out, seen) {
				out[v] = true
			}
		case *ssa.FreeVar:
			out[v] = true
		default:
			out[v] = true
		}
	default:
		out[v] = true
	}
}

func (r *raceScan) freeVarStores(fv *ssa.FreeVar, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	for _, u := range *fv.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == fv {
			out[s.Val] = true
		}
	}
}

func (r *raceScan) mapValues(m ssa.Value, at ssa.Value, out map[ssa.Value]bool, seen map[ssa.Value]bool) {
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		out[at] = true
		return
	}
	for _, u := range *mm.Referrers() {
		if x, ok := u.(*ssa.MapUpdate); ok && x.Map == mm {
			r.roots(x.Value, out, seen)
		}
	}
}

// storedIn: the values stored in the same field of the same fresh object in this function.
func (r *raceScan) storedIn(fa *ssa.FieldAddr, out map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	base, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	return r.storedInAlloc(base, fa.Field, out, seen, 0)
}

func (r *raceScan) storedInAlloc(base *ssa.Alloc, field int, out map[ssa.Value]bool, seen map[ssa.Value]bool, depth int) bool {
	n := 0
	for _, u := range *base.Referrers() {
		if w, ok := u.(*ssa.Store); ok && w.Addr == base {
			// a copy of another variable
			l, ok := w.Val.(*ssa.UnOp)
			if !ok || depth > 4 {
				return false
			}
			b, ok := l.X.(*ssa.Alloc)
			if !ok || !r.storedInAlloc(b, field, out, seen, depth+1) {
				return false
			}
			n++
			continue
		}
		x, ok := u.(*ssa.FieldAddr)
		if !ok || x.Field != field {
			continue
		}
		for _, s := range *x.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == x {
				n++
				r.roots(st.Val, out, seen)
			}
		}
	}
	return n > 0
}

func (r *raceScan) storedElem(ia *ssa.IndexAddr, out map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	rs := map[ssa.Value]bool{}
	r.roots(ia.X, rs, map[ssa.Value]bool{})
	n := 0
	for b := range rs {
		switch b.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
		default:
			return false
		}
		for _, u := range *b.Referrers() {
			x, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, s := range *x.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == x {
					n++
					r.roots(st.Val, out, seen)
				}
			}
		}
	}
	return n > 0
}

// isFresh: no other goroutine can reach the object v points to (or into) when in is executed.
func (r *raceScan) isFresh(v ssa.Value, in ssa.Instruction, depth int) bool {
	if depth > 8 {
		return false
	}
	out := map[ssa.Value]bool{}
	r.roots(v, out, map[ssa.Value]bool{})
	for x := range out {
		if !r.freshRoot(x, in, depth) {
			return false
		}
	}
	return true
}

func (r *raceScan) freshRoot(x ssa.Value, in ssa.Instruction, depth int) bool {
	switch y := x.(type) {
	case *ssa.Const:
		return true // nil
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return !r.published(x, in)
	case *ssa.Parameter:
		if r.constructing(y.Parent()) && r.w.roots[y.Parent()] == "entry" && len(r.calls[y.Parent()]) == 0 {
			return !r.published(x, in)
		}
		return r.freshParam(y, depth) && !r.published(x, in)
	case *ssa.Call:
		return r.freshResult(&y.Call, 0, depth) && !r.published(x, in)
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return r.freshResult(&c.Call, y.Index, depth) && !r.published(x, in)
		}
	case *ssa.UnOp:
		if !r.constructing(in.Parent()) {
			return false
		}
		switch a := y.X.(type) {
		case *ssa.FreeVar:
			return true
		case *ssa.FieldAddr:
			return r.isFresh(a.X, in, depth+1)
		}
	case *ssa.FreeVar:
		return r.constructing(in.Parent())
	}
	return false
}

// constructing: f runs only while a package-level function of the API does (constructors, options): objects that are
// not reached through package variables are still the caller's own.
func (r *raceScan) constructing(f *ssa.Function) bool {
	if r.rootsOf == nil {
		r.rootsOf = map[*ssa.Function][]*ssa.Function{}
		for g := range r.w.roots {
			for h := range r.reachable(g) {
				r.rootsOf[h] = append(r.rootsOf[h], g)
			}
		}
	}
	rs := r.rootsOf[f]
	for _, g := range rs {
		if r.w.roots[g] == "entry" && g.Signature.Recv() != nil && len(r.calls[g]) > 0 {
			continue // its callers are the repository's
		}
		if r.w.roots[g] != "entry" || g.Signature.Recv() != nil {
			return false
		}
	}
	return len(rs) > 0
}

func (r *raceScan) freshParam(q *ssa.Parameter, depth int) bool {
	f := q.Parent()
	k := fmt.Sprintf("%p/%s", f, q.Name())
	switch r.fresh_[k] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion
	}
	r.fresh_[k] = 3
	res := func() bool {
		// the repository's own calls, also of what it exports
		cs := r.calls[f]
		if why := r.w.roots[f]; len(cs) == 0 || why != "" && why != "entry" {
			return false
		}
		idx := -1
		for i, x := range f.Params {
			if x == q {
				idx = i
			}
		}
		for _, ci := range cs {
			if _, isGo := ci.(*ssa.Go); isGo {
				return false
			}
			cc := ci.Common()
			args := cc.Args
			i := idx
			if cc.IsInvoke() || cc.StaticCallee() == nil && f.Signature.Recv() != nil {
				i--
			}
			if i < 0 || i >= len(args) || !r.isFresh(args[i], ci, depth+1) {
				return false
			}
		}
		return true
	}()
	r.fresh_[k] = 2
	if res {
		r.fresh_[k] = 1
	}
	return res
}

func (r *raceScan) freshResult(cc *ssa.CallCommon, i int, depth int) bool {
	g := cc.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !r.p.isRepo(g) {
		// other code: results of constructors are new
		return g != nil && !r.p.isRepo(g)
	}
	k := fmt.Sprintf("%p#%d", g, i)
	switch r.fresh_[k] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true
	}
	r.fresh_[k] = 3
	res := true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || i >= len(ret.Results) {
				continue
			}
			if !r.isFresh(ret.Results[i], ret, depth+1) {
				res = false
			}
		}
	}
	r.fresh_[k] = 2
	if res {
		r.fresh_[k] = 1
	}
	return res
}

// reaches: b can follow a without passing the definition of x, which makes another object.
func reaches(a, b ssa.Instruction, x ssa.Value) bool {
	var def *ssa.BasicBlock
	if i, ok := x.(ssa.Instruction); ok {
		def = i.Block()
	}
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	if def == b.Block() {
		return false
	}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b.Block() {
				return true
			}
			if s == def {
				continue
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block())
}

// published: other goroutines may reach the new object x when in is executed.
func (r *raceScan) published(x ssa.Value, in ssa.Instruction) bool {
	refs := x.Referrers()
	if refs == nil {
		return false
	}
	seen := map[ssa.Value]bool{x: true}
	work := []ssa.Value{x}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		next := func(y ssa.Value) {
			if !seen[y] {
				seen[y] = true
				work = append(work, y)
			}
		}
		for _, u := range *rs {
			switch u := u.(type) {
			case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType:
				next(u.(ssa.Value))
			case *ssa.Store:
				if u.Val == v && v != nil {
					switch a := u.Addr.(type) {
					case *ssa.Alloc:
					case *ssa.FieldAddr:
						if !r.localBase(a.X) && r.before(u, in, x) {
							return true
						}
					case *ssa.IndexAddr:
						if !r.localBase(a.X) && r.before(u, in, x) {
							return true
						}
					default:
						if r.before(u, in, x) {
							return true
						}
					}
				}
			case *ssa.MapUpdate:
				if u.Value == v && !r.localBase(u.Map) && r.before(u, in, x) {
					return true
				}
			case *ssa.Send:
				if u.X == v && r.before(u, in, x) {
					return true
				}
			case *ssa.Select:
				for _, s := range u.States {
					if s.Send == v && r.before(u, in, x) {
						return true
					}
				}
			case *ssa.Go:
				if r.before(u, in, x) {
					return true
				}
			case *ssa.MakeClosure:
				for _, y := range *u.Referrers() {
					if _, isGo := y.(*ssa.Go); isGo && r.before(y, in, x) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *raceScan) before(a, b ssa.Instruction, x ssa.Value) bool {
	return a != b && a.Parent() == b.Parent() && reaches(a, b, x)
}

// localBase: the container is new in this function too.
func (r *raceScan) localBase(v ssa.Value) bool {
	out := map[ssa.Value]bool{}
	r.roots(v, out, map[ssa.Value]bool{})
	for x := range out {
		switch x.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
		default:
			return false
		}
	}
	return true
}

// late: the store completes an object that was handed to a callee which started goroutines.
func (r *raceScan) late(base ssa.Value, in ssa.Instruction) ssa.Value {
	root, ok := base.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, u := range *root.Referrers() {
		ci, ok := u.(*ssa.Call)
		if !ok || !r.before(ci, in, nil) {
			continue
		}
		if len(r.started(ci)) > 0 {
			return root
		}
	}
	return nil
}

func (r *raceScan) started(ci ssa.CallInstruction) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, g := range r.w.callees(ci) {
		for x := range r.reachable(g) {
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok {
						for _, t := range r.w.callees(gi) {
							out[t] = true
						}
					}
				}
			}
		}
	}
	return out
}

// reachable: the functions f may call, not the goroutines it starts.
func (r *raceScan) reachable(f *ssa.Function) map[*ssa.Function]bool {
	if m := r.reach[f]; m != nil {
		return m
	}
	out := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if out[g] || !r.p.inScope(g) {
			return
		}
		out[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range r.w.callees(ci) {
						walk(t)
					}
					for _, a := range ci.Common().Args {
						if t := funcValue(r.p, a); t != nil {
							walk(t)
						}
					}
				}
			}
		}
	}
	walk(f)
	r.reach[f] = out
	return out
}

// report returns the locations without a common lock.
func (r *raceScan) report() (checked int, viols map[string]string) {
	viols = map[string]string{}
	goroot := map[*ssa.Function][]*ssa.Function{} // function -> goroutine and entry roots that reach it
	for f := range r.w.roots {
		for g := range r.reachable(f) {
			goroot[g] = append(goroot[g], f)
		}
	}
	var locs []string
	for l := range r.locs {
		locs = append(locs, l)
	}
	for l := range r.inits {
		if r.locs[l] == nil {
			locs = append(locs, l)
		}
	}
	sort.Strings(locs)
	for _, l := range locs {
		if r.skip[l[:strings.LastIndexByte(l, '.')+1]] {
			continue
		}
		as := append([]access{}, r.locs[l]...)
		if i := strings.LastIndexByte(l, '.'); i > 0 {
			as = append(as, r.whole[l[:i]]...)
		}
		// completed during the construction, with goroutines running: they must not touch it
		for _, in := range r.inits[l] {
			root, _ := in.in.(*ssa.Store)
			base := root.Addr.(*ssa.FieldAddr).X
			for _, u := range *base.(*ssa.Alloc).Referrers() {
				ci, ok := u.(*ssa.Call)
				if !ok || !r.before(ci, in.in, nil) {
					continue
				}
				for g := range r.started(ci) {
					for h := range r.reachable(g) {
						for _, a := range as {
							if a.in.Parent() == h {
								viols[l] = r.p.pos(in.in.Pos()) + "\x00" + fmt.Sprintf("%s is set by %s after %s was started, which %s (%s, %s)", l, in.in.Parent(), g, a.how, h, r.p.pos(a.in.Pos()))
							}
						}
					}
				}
			}
		}
		writes := false
		live := as[:0]
		for _, a := range as {
			if len(r.w.at[a.in]) == 0 && a.in.Parent().Name() != "init" {
				r.dead++ // nothing calls the function
				continue
			}
			live = append(live, a)
			writes = writes || a.write
		}
		as = live
		if !writes {
			continue
		}
		checked++
		// confined to one goroutine
		conf := map[*ssa.Function]bool{}
		for _, a := range as {
			gs := goroot[a.in.Parent()]
			if len(gs) == 0 || a.out {
				conf[nil] = true
			}
			for _, g := range gs {
				conf[g] = true
			}
		}
		if len(conf) == 1 && !conf[nil] {
			one := false
			for g := range conf {
				n := 0
				for _, ci := range r.calls[g] {
					if _, isGo := ci.(*ssa.Go); isGo {
						n++
					} else {
						n = 2
					}
				}
				one = r.w.roots[g] == "goroutine" && n == 1
			}
			if one {
				r.guarded = append(r.guarded, l+" by confinement")
				continue
			}
		}
		// the candidate locks
		cands := map[string]bool{}
		first := true
		type ctx struct {
			a access
			h string
		}
		var all []ctx
		for _, a := range as {
			hs := r.w.at[a.in]
			if a.out {
				hs = map[string]bool{"": true}
			}
			if len(hs) == 0 {
				hs = map[string]bool{"": true}
			}
			for h := range hs {
				all = append(all, ctx{a, h})
			}
		}
		for _, c := range all {
			m := heldMap(c.h)
			if first {
				for k := range m {
					cands[k] = true
				}
				first = false
			}
			for k := range cands {
				if md, ok := m[k]; !ok || c.a.write && md != 'W' {
					delete(cands, k)
				}
			}
		}
		for k := range cands {
			for _, c := range all {
				if md := heldMap(c.h)[k]; md == 0 || c.a.write && md != 'W' {
					delete(cands, k)
					break
				}
			}
		}
		if len(cands) > 0 {
			var ks []string
			for k := range cands {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			r.guarded = append(r.guarded, l+" by "+strings.Join(ks, "+"))
			continue
		}
		// the accesses that lack the lock most others have
		count := map[string]int{}
		for _, c := range all {
			for k := range heldMap(c.h) {
				count[k]++
			}
		}
		best := ""
		for k, n := range count {
			if n > count[best] || n == count[best] && k < best {
				best = k
			}
		}
		var lack []string
		pos := ""
		for _, c := range all {
			md := heldMap(c.h)[best]
			if md == 0 || c.a.write && md != 'W' {
				s := fmt.Sprintf("%s %s (%s) with [%s]", c.a.in.Parent(), c.a.how, r.p.pos(c.a.in.Pos()), c.h)
				if pos == "" {
					pos = r.p.pos(c.a.in.Pos())
				}
				lack = append(lack, s)
			}
		}
		sort.Strings(lack)
		if len(lack) > 6 {
			lack = append(lack[:6], fmt.Sprintf("and %d more", len(lack)-6))
		}
		viols[l] = pos + "\x00" + fmt.Sprintf("%s is written when others can reach it, and no lock is held at all %d accesses (candidate %q): %s", l, len(as), best, strings.Join(lack, "; "))
	}
	return
}

// raceProp: the obligations.
func raceRules(c *Ctx) {
	var w *lockWalk
	c.guard("locks", "lockset", func() (bool, string) {
		w = newLockWalk(c.p)
		w.run()
		report(c, w.viols)
		for in := range w.at {
			c.funcs[in.Parent().String()] = true
		}
		var es []string
		for e := range w.order {
			es = append(es, e)
		}
		sort.Strings(es)
		return len(w.viols) == 0, fmt.Sprintf("%d roots, %d function contexts, %d call sites, lock order %s", len(w.roots), len(w.memo), w.calls, strings.Join(es, " "))
	})
	c.guard("races", "lockset", func() (bool, string) {
		if w == nil {
			undec("no locksets")
		}
		r := newRaceScan(c.p, w)
		r.skip = map[string]bool{"/core/manager.notifier.": true}
		r.run()
		n, vs := r.report()
		pref := map[string]string{}
		for k, v := range vs {
			pref["race:"+k] = v
		}
		report(c, pref)
		return len(vs) == 0, fmt.Sprintf("%d locations, %d accesses, %d locations written after publication, %d accesses in functions nobody calls: %s", len(r.locs), r.n, n, r.dead, strings.Join(r.guarded, "; "))
	})
}

// handlerRules: a handler has taken effect when it returns.
func handlerRules(c *Ctx) {
	c.guard("handlers", "call graph", func() (bool, string) {
		w := newLockWalk(c.p)
		w.run()
		r := newRaceScan(c.p, w)
		named := c.p.typ("/core/xdsresource", "XDSUpdateHandler")
		if named == nil {
			undec("no type XDSUpdateHandler")
		}
		hs := c.p.values[sigKey(named.Underlying().(*types.Signature))]
		n := 0
		ok := true
		for _, h := range hs {
			if !c.p.inScope(h) {
				continue
			}
			n++
			for g := range r.reachable(h) {
				c.funcs[g.String()] = true
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if gi, isGo := in.(*ssa.Go); isGo {
							ok = false
							c.viol("handler-go:"+g.Name(), c.p.pos(gi.Pos()), fmt.Sprintf("the update handler %s leaves work to a goroutine started in %s, which may not have run when the resource becomes visible", h, g))
						}
					}
				}
			}
		}
		return ok && n > 0, fmt.Sprintf("%d handlers", n)
	})
}

func report(c *Ctx, vs map[string]string) {
	var ks []string
	for k := range vs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		i := strings.IndexByte(vs[k], 0)
		c.viol(k, vs[k][:i], vs[k][i+1:])
	}
}

func init() {
	props["C07"] = &Prop{
		ID:    "C07",
		Refs:  []string{"C06", "C07"},
		Rule:  "Every field and package variable written after its object is reachable by others has one lock held at all its accesses, aliases of its map or slice included (exclusively at writes), in every calling context. Locks are acquired in one order, never twice, released where they are held, and none is held over a wait. An update is one exclusive section: the handlers of its type are called with the resources in force, then the cache exposes them; a later handler is registered and called with the cache in one section. A lookup takes effect in its sections: a value is what the cache holds then, or what the wake-up delivered.",
		Setup: lookupModels,
		Extra: []func(*Ctx){raceRules, handlerRules},
		Pair: func(ex *Exec, c *Ctx, name string) {
			switch name {
			case "deliver":
				ex.shared.fields["xdsResourceManager"] = []string{"notifierMap"}
			case "update", "register":
				ex.shared.fields = map[string][]string{"xdsResourceManager": {"cache", "xdsHandlers"}}
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			switch name {
			case "update", "register":
				keep := evNot("publish", "call:dyn")
				q.ignoreEv = func(e *Term) bool { return !isBadEv(e) && keep(e) }
				q.published = cachePublished
			default:
				q.ignoreEv = func(e *Term) bool { return !lookupEvs(e) }
			}
		},
	}
}

// cachePublished: that the cache is exposed there; what it exposes is decided for C01.
func cachePublished(e *Term) *Term {
	res := func(t types.Type) bool {
		if t == nil {
			return false
		}
		m, ok := t.Underlying().(*types.Map)
		return ok && strings.HasSuffix(typeStr(m.Elem()), "xdsresource.Resource")
	}
	var args []*Term
	cache := false
	for _, p := range e.Args {
		// (equal terms share a type: look at what the content is made of)
		if findTerm(p, func(x *Term) bool {
			return x.Typ != nil && isMapT(x.Typ) && (x.Op == "mc" || x.Op == "sym" || x.Op == "sel") && res(x.Typ)
		}) != nil {
			cache = true
			continue
		}
		if t := p.Args[1].Typ; t != nil && isMapT(t) && len(p.Args[1].Args) > 0 && p.Args[1].Args[0].Op != "mapempty" {
			if m, ok := t.Underlying().(*types.Map); ok && (res(t) || res(m.Elem())) {
				cache = true
				continue
			}
		}
		args = append(args, p)
	}
	if cache {
		args = append(args, mk("sym", "the cache", nil))
	}
	return mk(e.Op, e.Str, e.Typ, args...)
}
