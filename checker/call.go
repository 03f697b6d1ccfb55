package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function value and the arguments of a call (receiver first).
func (ex *Exec) callee(it *Item, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	f := ex.val(it, c.Value)
	if c.IsInvoke() {
		args = append(args, f)
		f = mk("method", c.Method.Name(), nil)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(it, a))
	}
	return f, args
}

func (ex *Exec) call(fr *Frame, it *Item, c *ssa.CallCommon, pos token.Pos) []Outcome {
	f, args := ex.callee(it, c)
	return ex.invoke(it.st, c, f, args, pos)
}

func ret(st *State, rets ...*Term) []Outcome { return []Outcome{{st: st, rets: rets}} }

// invoke calls a function value.
func (ex *Exec) invoke(st *State, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		return ex.invokeMethod(st, c.Value.Type(), c.Method, args, c.Signature(), pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, b.Name(), c, args, pos)
	}
	return ex.apply(st, f, args, c.Signature(), pos)
}

// apply calls a function term.
func (ex *Exec) apply(st *State, f *Term, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	switch f.Op {
	case "func":
		fn := funcTab[f.Str]
		return ex.callFn(st, fn, args, nil, pos)
	case "closure":
		fn := funcTab[f.Str]
		// bound method
		if strings.HasSuffix(fn.Name(), "$bound") && len(f.Args) == 1 {
			obj := fn.Object().(*types.Func)
			s := obj.Type().(*types.Signature)
			if types.IsInterface(s.Recv().Type()) {
				return ex.invokeMethod(st, s.Recv().Type(), obj, append([]*Term{f.Args[0]}, args...), s, pos)
			}
			m := ex.p.prog.FuncValue(obj)
			if m != nil {
				return ex.callFn(st, m, append([]*Term{f.Args[0]}, args...), nil, pos)
			}
		}
		return ex.callFn(st, fn, args, f.Args, pos)
	case "ite":
		if !hasFunc(f) {
			break
		}
		// one of several functions
		var outs []Outcome
		yes, no := ex.forkState(st, f.Args[0])
		if yes != nil {
			outs = append(outs, ex.apply(yes, f.Args[1], args, sig, pos)...)
		}
		if no != nil {
			outs = append(outs, ex.apply(no, f.Args[2], args, sig, pos)...)
		}
		return outs
	case "nil":
		return []Outcome{{st: st, panic: "call of a nil function at " + ex.p.pos(pos), pos: pos}}
	}
	// unknown function value: an event
	return ex.opaque(st, &Call{name: "dyn", sig: sig, args: append([]*Term{f}, args...), pos: pos}, false)
}

func hasFunc(f *Term) bool {
	return f.Op == "func" || f.Op == "closure" || f.Op == "ite" && (hasFunc(f.Args[1]) || hasFunc(f.Args[2]))
}

func fullName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, binds []*Term, pos token.Pos) []Outcome {
	name := fullName(fn)
	if !ex.p.isRef(fn) || strings.HasPrefix(fn.Name(), "refStub") {
		m, ok := ex.models[name]
		if !ok && ex.p.isRef(fn) {
			m, ok = stubs[fn.Name()]
		}
		if ok {
			if outs, ok := m(ex, st, &Call{name: name, sig: fn.Signature, args: args, fn: fn, pos: pos}); ok {
				return outs
			}
		}
	}
	repo := ex.p.isRepo(fn)
	if repo && fn.Package() != nil && isGeneratedPath(fn.Package().Pkg.Path()) {
		repo = false
	}
	if !repo || len(fn.Blocks) == 0 {
		if outs, ok := ex.libCall(st, &Call{name: name, sig: fn.Signature, args: args, fn: fn, pos: pos}); ok {
			return outs
		}
	}
	inl := repo
	if !inl && len(fn.Blocks) > 0 {
		if strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") {
			inl = true
		}
		// synthetic wrappers (bound methods, thunks, promoted methods)
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") {
			inl = true
		}
		if fn.Package() != nil && strings.HasPrefix(fn.Package().Pkg.Path(), modPath) && !isGeneratedPath(fn.Package().Pkg.Path()) {
			inl = true
		}
	}
	if ex.noInline != nil && ex.noInline(fn) {
		inl = false
	}
	if inl && len(fn.Blocks) > 0 {
		for k, s := range ex.stack {
			if s == fn {
				// recursion on a part of a known value is unfolded
				if len(args) > 0 && args[0].Op == "seq" && len(ex.stackArgs[k]) > 0 && args[0].size < ex.stackArgs[k][0].size && occurs(args[0], ex.stackArgs[k][0]) {
					continue
				}
				// recursion: opaque
				return ex.opaque(st, &Call{name: name, sig: fn.Signature, args: args, fn: fn, pos: pos}, false)
			}
		}
		base := st.F.clone()
		mark := ex.nobj
		return ex.mergeOutcomes(base, ex.runFunc(fn, args, binds, st), mark)
	}
	return ex.opaque(st, &Call{name: name, sig: fn.Signature, args: args, fn: fn, pos: pos}, false)
}

// invokeMethod calls a method of an interface value.
func (ex *Exec) invokeMethod(st *State, it types.Type, m *types.Func, args []*Term, sig *types.Signature, pos token.Pos) []Outcome {
	recv := ex.resolve(st, args[0])
	recv = st.F.simp(recv)
	mname := "(" + typeStr(types.Unalias(it)) + ")." + m.Name()
	var pre []Outcome
	if ex.panics {
		tmp := &Item{env: map[ssa.Value]*Term{}, st: st, iters: map[*Term]*Term{}}
		n, os := ex.mustNonNil(tmp, recv, pos, "method "+m.Name())
		pre = append(pre, os...)
		if n == nil {
			return pre
		}
	}
	if recv.Op == "nil" {
		return append(pre, Outcome{st: st, panic: "method call on nil interface at " + ex.p.pos(pos), pos: pos})
	}
	call := &Call{name: mname, sig: sig, args: args, pos: pos, recv: it}
	if mod, ok := ex.models[mname]; ok {
		if outs, ok := mod(ex, st, call); ok {
			return append(pre, outs...)
		}
	}
	var dyn types.Type
	if recv.Op == "iface" {
		dyn = recv.Typ
	} else if k, ok := st.F.ty[recv]; ok {
		dyn = isTypes[k]
	}
	if dyn != nil {
		rv := mkAssert(recv, dyn, "")
		sel := ex.p.prog.MethodSets.MethodSet(dyn).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			undec("no method %s on %s", m.Name(), dyn)
		}
		fn := ex.p.prog.MethodValue(sel)
		if fn == nil {
			undec("no code for method %s on %s", m.Name(), dyn)
		}
		return append(pre, ex.callFn(st, fn, append([]*Term{rv}, args[1:]...), nil, pos)...)
	}
	// interfaces declared in the repository: closed world
	if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !isGeneratedPath(n.Obj().Pkg().Path()) {
		impls := ex.implementers(it.Underlying().(*types.Interface))
		if len(impls) > 0 {
			outs := pre
			cur := st
			for _, T := range impls {
				is := mkIsType(recv, T, "")
				yes, no := ex.forkState(cur, is)
				if yes != nil {
					outs = append(outs, ex.invokeMethod(yes, it, m, append([]*Term{mkIface(mkAssert(recv, T, ""), T)}, args[1:]...), sig, pos)...)
				}
				cur = no
				if cur == nil {
					break
				}
			}
			return outs
		}
	}
	if outs, ok := ex.libCall(st, call); ok {
		return append(pre, outs...)
	}
	return append(pre, ex.opaque(st, call, false)...)
}

func (ex *Exec) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	if it.NumMethods() == 0 {
		return nil
	}
	for _, n := range ex.p.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if f := ex.p.fset.Position(n.Obj().Pos()).Filename; strings.Contains(f, "zz_verif_") {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}

// opaque is a call whose code is not analysed. Effects are an event; the results are fresh.
func (ex *Exec) opaque(st *State, c *Call, pure bool) []Outcome {
	fa := make([]*Term, len(c.args))
	for i, a := range c.args {
		fa[i] = ex.freeze(st, a, 0)
	}
	if ex.onCall != nil {
		ex.onCall(st, c)
	}
	var t *Term
	res := c.sig.Results()
	var typ types.Type = res
	if res.Len() == 1 {
		typ = res.At(0).Type()
	}
	if pure {
		t = mkCall(c.name, typ, fa)
	} else {
		ex.opaqued[c.name]++
		t = ex.fresh(st, c.name, typ, fa...)
		st.emit("call:"+c.name, fa...)
	}
	switch res.Len() {
	case 0:
		return ret(st)
	case 1:
		return ret(st, t)
	}
	rets := make([]*Term, res.Len())
	for i := range rets {
		rets[i] = mk("res", fmt.Sprint(i), res.At(i).Type(), t)
	}
	return ret(st, rets...)
}

func (ex *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []*Term, pos token.Pos) []Outcome {
	switch name {
	case "len":
		x := ex.resolve(st, args[0])
		if x.Op == "ml" {
			if st.F.evalBool(st.F.simp(mkIn(ex.content(st, x.Args[0]), x.Args[1]))) == tFalse {
				return ret(st, tZero)
			}
		}
		return ret(st, mkLen(ex.content(st, x)))
	case "cap":
		return ret(st, mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		x := ex.content(st, args[0])
		y := ex.content(st, args[1])
		typ := c.Args[0].Type()
		if isStringT(args[1].Typ) || args[1].Op == "concat" {
			return ret(st, mk("op", "appendstr", typ, x, y))
		}
		var parts []*Term
		parts = append(parts, seqParts(x)...)
		parts = append(parts, seqParts(y)...)
		r := mkSeq(typ, parts...)
		return ret(st, r)
	case "delete":
		m := ex.resolve(st, args[0])
		k := ex.freeze(st, args[1], 0)
		ex.access(st, m, true)
		ex.mapDelete(st, m, k)
		return ret(st)
	case "close":
		if ch := ex.resolve(st, args[0]); findTerm(ch, func(t *Term) bool { return t.Op == "ix" }) == nil {
			k := "$closed:" + ch.String()
			if st.occ[k] > 0 {
				return []Outcome{{st: st, panic: "close of a closed channel at " + ex.p.pos(pos), pos: pos}}
			}
			st.occ[k]++
		}
		st.emit("close", args[0])
		return ret(st)
	case "copy":
		d, s := ex.resolve(st, args[0]), ex.content(st, args[1])
		if d.Op == "obj" {
			dc := ex.content(st, d)
			if mkEq(mkLen(dc), mkLen(s)) == tTrue {
				st.heap[d] = s
				return ret(st, mkLen(s))
			}
		}
		undec("copy into a slice of different length at %s", ex.p.pos(pos))
	case "recover":
		return ret(st, mk("call", "recover", c.Signature().Results().At(0).Type()))
	case "panic":
		return []Outcome{{st: st, panic: "explicit panic at " + ex.p.pos(pos), pos: pos}}
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		return ret(st, args[0])
	case "min", "max":
		if len(args) == 2 {
			y, n := ex.forkState(st, mkLt(args[0], args[1]))
			a, b := args[0], args[1]
			if name == "max" {
				a, b = b, a
			}
			var outs []Outcome
			if y != nil {
				outs = append(outs, ret(y, a)...)
			}
			if n != nil {
				outs = append(outs, ret(n, b)...)
			}
			return outs
		}
	}
	undec("builtin %s at %s", name, ex.p.pos(pos))
	return nil
}
