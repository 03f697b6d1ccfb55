package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Who may write a field: every instruction that changes the content of a map field (or replaces it) is found by
// following the aliases of its content through the program, and each is traced up the call graph: all chains of
// callers must pass one of the functions that own the field.

type writeSite struct {
	fn  *ssa.Function
	pos token.Pos
	how string
}

type fieldEffects struct {
	other  map[string]bool
	p      *Program
	st     *types.Named
	field  int
	taint  map[ssa.Value]bool
	work   []ssa.Value
	writes []writeSite
	seen   map[ssa.Instruction]bool
	uses   int
	rets   map[*ssa.Function]map[int]bool
	calls  map[*ssa.Function][]ssa.CallInstruction
}

func mapLike(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (p *Program) fieldEffects(pkg, typ, field string) *fieldEffects {
	sp := p.pkgs[modPath+pkg]
	if sp == nil {
		undec("no package %s", pkg)
	}
	tn, _ := sp.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if tn == nil {
		undec("no type %s", typ)
	}
	named := tn.Type().(*types.Named)
	s := named.Underlying().(*types.Struct)
	k := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			k = i
		}
	}
	if k < 0 {
		undec("no field %s.%s", typ, field)
	}
	e := &fieldEffects{p: p, st: named, field: k, taint: map[ssa.Value]bool{}, seen: map[ssa.Instruction]bool{}, rets: map[*ssa.Function]map[int]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}}
	for _, f := range p.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.targets(ci) {
						e.calls[g] = append(e.calls[g], ci)
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != k || !types.Identical(derefT(fa.X.Type()), named) {
					continue
				}
				e.addr(fa)
			}
		}
	}
	for len(e.work) > 0 {
		v := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.follow(v)
	}
	return e
}

// targets of a call: the static callee, or the closures and methods the value may be.
func (p *Program) targets(ci ssa.CallInstruction) []*ssa.Function {
	var cc *ssa.CallCommon
	if ci != nil {
		cc = ci.Common()
		if g := cc.StaticCallee(); g != nil {
			return []*ssa.Function{g}
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() {
			return nil
		}
	}
	if p.values == nil {
		p.values = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for _, f := range p.everyFunc() {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					var skip *ssa.Value
					if ci, ok := i.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						skip = &ci.Common().Value
					}
					for _, op := range i.Operands(nil) {
						if op == skip {
							continue
						}
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
							if m := p.prog.FuncValue(o); m != nil && m != g && len(m.Params) > 0 {
								g = m
							}
						}
						if !seen[g] && p.isRepo(g) {
							seen[g] = true
							k := sigKey(g.Signature)
							p.values[k] = append(p.values[k], g)
						}
					}
				}
			}
		}
	}
	if cc == nil {
		return nil
	}
	return p.values[sigKey(cc.Signature())]
}

// sigKey: parameter and result types.
func sigKey(s *types.Signature) string {
	k := ""
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < t.Len(); i++ {
			k += types.TypeString(t.At(i).Type(), nil) + ","
		}
		k += ";"
	}
	return k
}

// addr: the uses of the address of the field.
func (e *fieldEffects) addr(fa *ssa.FieldAddr) {
	for _, r := range *fa.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			e.uses++
			e.add(r)
		case *ssa.Store:
			if r.Addr == fa {
				if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == fa.Parent() {
					// the object is under construction
					continue
				}
				e.write(fa.Parent(), r.Pos(), "replaces the field")
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			// go.uber.org/atomic.Value embeds the one of sync/atomic
			if n, ok := derefT(fa.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/atomic") {
				e.addr(r)
				continue
			}
			e.write(fa.Parent(), fa.Pos(), "takes the address of the field")
		case *ssa.Call:
			if atomicLoad(&r.Call) {
				e.uses++
				e.add(r)
				continue
			}
			e.write(fa.Parent(), fa.Pos(), "takes the address of the field")
		default:
			e.write(fa.Parent(), fa.Pos(), "takes the address of the field")
		}
	}
}

func atomicLoad(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Name() != "Load" {
		return false
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	o := f.Object()
	return o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "/atomic")
}

func (e *fieldEffects) write(f *ssa.Function, pos token.Pos, how string) {
	e.writes = append(e.writes, writeSite{f, pos, how})
}

func (e *fieldEffects) add(v ssa.Value) {
	if v == nil || e.taint[v] {
		return
	}
	e.taint[v] = true
	e.work = append(e.work, v)
}

func (e *fieldEffects) follow(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				e.write(r.Parent(), r.Pos(), "stores an entry")
			} else if r.Value == v && !e.taint[r.Map] && mapLike(v.Type()) {
				// kept elsewhere: follow the other map too
				e.add(r.Map)
			}
		case *ssa.Lookup:
			if r.X == v {
				if r.CommaOk {
					if mapLike(r.Type().(*types.Tuple).At(0).Type()) {
						e.add(r)
					}
				} else if mapLike(r.Type()) {
					e.add(r)
				}
			}
		case *ssa.Extract:
			if mapLike(r.Type()) {
				e.add(r)
			}
		case *ssa.Range:
			e.add(r)
		case *ssa.Next:
			e.add(r)
		case *ssa.Phi, *ssa.ChangeType, *ssa.TypeAssert:
			e.add(r.(ssa.Value))
		case *ssa.Store:
			if r.Val == v {
				e.store(r)
			}
		case *ssa.Alloc, *ssa.UnOp:
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				e.add(u)
			}
		case *ssa.Return:
			for i, x := range r.Results {
				if x == v {
					e.ret(r.Parent(), i)
				}
			}
		case ssa.CallInstruction:
			e.call(r, v)
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					e.add(r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
}

// store: a local variable (or a field) holds the map.
func (e *fieldEffects) store(s *ssa.Store) {
	switch a := s.Addr.(type) {
	case *ssa.Alloc:
		e.addrOf(a)
	case *ssa.FreeVar:
		e.addrOf(a)
	case *ssa.FieldAddr:
		if a.Field == e.field && types.Identical(derefT(a.X.Type()), e.st) {
			return
		}
		if n, ok := derefT(a.X.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !exportedField(n, a.Field) && mapLike(s.Val.Type()) && localAlloc(a.X) {
			// whatever is read from that field, of whichever object
			e.otherField(n, a.Field)
			return
		}
		e.write(s.Parent(), s.Pos(), "keeps an alias in another field")
	default:
		e.write(s.Parent(), s.Pos(), "keeps an alias")
	}
}

// localAlloc: a struct in a local variable whose address does not leave the function.
func localAlloc(x ssa.Value) bool {
	a, ok := x.(*ssa.Alloc)
	return ok && !a.Heap
}

func exportedField(n *types.Named, k int) bool {
	st, ok := n.Underlying().(*types.Struct)
	return !ok || st.Field(k).Exported()
}

// otherField: the values kept in a field of another type.
func (e *fieldEffects) otherField(n *types.Named, k int) {
	key := fmt.Sprintf("%s.%d", n, k)
	if e.other[key] {
		return
	}
	if e.other == nil {
		e.other = map[string]bool{}
	}
	e.other[key] = true
	for _, f := range e.p.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Field:
					if in.Field == k && types.Identical(in.X.Type(), n) {
						e.add(in)
					}
				case *ssa.FieldAddr:
					if in.Field != k || !types.Identical(derefT(in.X.Type()), n) {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp:
							e.add(r)
						case *ssa.Store:
							if r.Val == in {
								e.write(f, in.Pos(), "takes the address of the field")
							}
						case *ssa.DebugRef:
						default:
							e.write(f, in.Pos(), "takes the address of the field")
						}
					}
				}
			}
		}
	}
}

func (e *fieldEffects) addrOf(a ssa.Value) {
	// follow() treats the loads of a tainted address as tainted
	e.add(a)
}

func (e *fieldEffects) ret(f *ssa.Function, i int) {
	for _, ci := range e.calls[f] {
		v, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		if f.Signature.Results().Len() == 1 {
			e.add(v)
			continue
		}
		for _, r := range *v.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == i {
				e.add(x)
			}
		}
	}
}

func (e *fieldEffects) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if (b.Name() == "delete" || b.Name() == "clear") && cc.Args[0] == v {
			e.write(ci.Parent(), ci.Pos(), "deletes entries")
		}
		return
	}
	for _, g := range e.p.targets(ci) {
		if !e.p.isRepo(g) {
			continue
		}
		off := 0
		if cc.StaticCallee() == nil && g.Signature.Recv() != nil {
			off = 1
		}
		for i, a := range cc.Args {
			if a == v && i+off < len(g.Params) {
				e.add(g.Params[i+off])
			}
		}
	}
}

// callersOf: who calls or hands out a function.
func (p *Program) referrers() map[*ssa.Function]map[*ssa.Function]bool {
	in := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(g, f *ssa.Function) {
		if in[g] == nil {
			in[g] = map[*ssa.Function]bool{}
		}
		in[g][f] = true
	}
	byName := map[string][]*ssa.Function{}
	for _, f := range p.everyFunc() {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	users := map[*ssa.Global][]*ssa.Function{}
	for _, f := range p.everyFunc() {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						users[g] = append(users[g], f)
					}
				}
			}
		}
	}
	for _, f := range p.everyFunc() {
		if p.isRef(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range byName[ci.Common().Method.Name()] {
						add(g, f)
					}
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					from := []*ssa.Function{f}
					if t := keptGlobal(f, i, g); t != nil {
						// a table of functions: who looks into it
						from = users[t]
					}
					for _, f := range from {
						add(g, f)
						if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
							// a method value or expression
							if m := p.prog.FuncValue(o); m != nil && m != g {
								add(m, f)
							}
						}
					}
				}
			}
		}
	}
	return in
}

// keptGlobal: the package-level table in which the package initialiser puts a function.
func keptGlobal(f *ssa.Function, i ssa.Instruction, g *ssa.Function) *ssa.Global {
	if f.Synthetic == "" || f.Name() != "init" {
		return nil
	}
	switch i := i.(type) {
	case *ssa.MapUpdate:
		if i.Value != g {
			return nil
		}
		var t *ssa.Global
		for _, r := range *i.Map.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate, *ssa.DebugRef:
			case *ssa.Store:
				if x, ok := r.Addr.(*ssa.Global); ok && t == nil && r.Val == i.Map {
					t = x
					continue
				}
				return nil
			default:
				return nil
			}
		}
		return t
	case *ssa.Store:
		if t, ok := i.Addr.(*ssa.Global); ok && i.Val == g {
			return t
		}
	}
	return nil
}

// goTargets: the functions started as goroutines by f, directly or through its callees.
func (p *Program) goTargets(f *ssa.Function, stop map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || stop[f] || !p.isRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					if g := in.Common().StaticCallee(); g != nil {
						out[g] = true
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// only: all chains of callers of the write sites pass one of the owners.
func (c *Ctx) onlyWriters(name, pkg, typ, field string, owners func() map[*ssa.Function]bool, skip ...string) {
	c.guard(name, "effect", func() (bool, string) {
		e := c.p.fieldEffects(pkg, typ, field)
		own := owners()
		in := c.p.referrers()
		ok := true
		done := map[*ssa.Function]bool{}
		for _, w := range e.writes {
			if c.p.isRef(w.fn) || done[w.fn] || len(skip) > 0 && w.how == skip[0] {
				continue
			}
			done[w.fn] = true
			c.funcs[w.fn.String()] = true
			// up the call graph
			par := map[*ssa.Function]*ssa.Function{w.fn: nil}
			queue := []*ssa.Function{w.fn}
			for len(queue) > 0 {
				f := queue[0]
				queue = queue[1:]
				if own[f] {
					continue
				}
				up := in[f]
				obj, _ := f.Object().(*types.Func)
				if obj != nil && obj.Exported() || f.Name() == "init" {
					ok = false
					var chain []string
					for g := f; g != nil; g = par[g] {
						chain = append(chain, g.String())
					}
					c.viol(name, c.p.pos(w.pos), fmt.Sprintf("%s %s of %s.%s outside of its owners", w.fn, w.how, typ, field), "reached through "+strings.Join(chain, " -> "))
					break
				}
				for g := range up {
					if _, seen := par[g]; !seen {
						par[g] = f
						queue = append(queue, g)
					}
				}
			}
		}
		var sites []string
		for _, w := range e.writes {
			if !c.p.isRef(w.fn) {
				sites = append(sites, fmt.Sprintf("%s %s (%s)", w.fn.Name(), w.how, c.p.pos(w.pos)))
			}
		}
		sort.Strings(sites)
		return ok, fmt.Sprintf("%d loads, %d write sites: %s", e.uses, len(sites), strings.Join(sites, "; "))
	})
}

func (c *Ctx) fns(names ...string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, n := range names {
		i := strings.IndexByte(n, ':')
		out[c.p.mustFunc(n[:i], n[i+1:])] = true
	}
	return out
}

func union(ms ...map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, m := range ms {
		for f := range m {
			out[f] = true
		}
	}
	return out
}

// sweepers: the goroutines of the manager itself.
func (c *Ctx) sweepers() map[*ssa.Function]bool {
	p := c.p
	return p.goTargets(p.mustFunc("/core/manager", "NewXDSResourceManager"), c.fns("/core/manager:newXdsClient"))
}

// clientLoops: the goroutines of the client.
func (c *Ctx) clientLoops() map[*ssa.Function]bool {
	p := c.p
	return p.goTargets(p.mustFunc("/core/manager", "newXdsClient"), nil)
}
