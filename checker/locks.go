package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locksets: the locks held at every instruction of the repository, in every calling context, from every function
// that other code or another goroutine can enter. Locks are named by the field that holds them.

type lockState struct {
	held   string // sorted "lock:mode", modes R and W
	defers string // indices of pending deferred calls, latest last
}

type lockWalk struct {
	p      *Program
	memo   map[string]map[string]bool // function and held -> held at its exits
	roots  map[*ssa.Function]string
	queue  []*ssa.Function
	at     map[ssa.Instruction]map[string]bool // locksets at an instruction
	order  map[string]string                   // "a>b" -> where
	viols  map[string]string                   // key -> text
	steps  int
	impls  map[string][]*ssa.Function
	wanted func(in ssa.Instruction) bool
	calls  int
	static map[*ssa.Function][]ssa.CallInstruction
	dyn    map[*ssa.Function]bool
	makes  map[*ssa.Function][]*ssa.MakeClosure
}

func heldMap(s string) map[string]byte {
	m := map[string]byte{}
	if s == "" {
		return m
	}
	for _, x := range strings.Split(s, ",") {
		i := strings.LastIndexByte(x, ':')
		m[x[:i]] = x[i+1]
	}
	return m
}

func heldStr(m map[string]byte) string {
	var l []string
	for k, v := range m {
		l = append(l, k+":"+string(v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// lockOp: Lock, Unlock... of a mutex, and the name of the mutex.
func lockOp(cc *ssa.CallCommon) (op, key string) {
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(cc.Args) == 0 {
		return "", ""
	}
	switch typeStr(derefT(g.Signature.Recv().Type())) {
	case "sync.Mutex", "sync.RWMutex":
	default:
		return "", ""
	}
	return g.Name(), lockName(cc.Args[0])
}

func lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		t := derefT(v.X.Type())
		n := namedOf(t)
		if n == "" {
			n = typeStr(t)
		}
		return n + "." + structOf(t).Field(v.Field).Name()
	case *ssa.Global:
		return v.String()
	case *ssa.UnOp:
		return lockName(v.X)
	case *ssa.FreeVar:
		return "captured " + v.Name()
	case *ssa.Alloc:
		return "local " + v.Comment
	case *ssa.Parameter:
		return "parameter " + v.Name()
	}
	return v.String()
}

func (p *Program) inScope(f *ssa.Function) bool {
	if !p.isRepo(f) || p.isRef(f) {
		return false
	}
	pos := p.pos(f.Pos())
	for g := f; pos == "" || pos == "-"; g = g.Parent() {
		if g.Parent() == nil {
			break
		}
		pos = p.pos(g.Parent().Pos())
	}
	return !strings.Contains(pos, "/mock/") && !strings.Contains(pos, "kitex_gen")
}

func newLockWalk(p *Program) *lockWalk {
	return &lockWalk{p: p, memo: map[string]map[string]bool{}, roots: map[*ssa.Function]string{}, at: map[ssa.Instruction]map[string]bool{}, order: map[string]string{}, viols: map[string]string{}}
}

func (w *lockWalk) root(f *ssa.Function, why string) {
	if f == nil || w.roots[f] != "" || !w.p.inScope(f) || len(f.Blocks) == 0 {
		return
	}
	w.roots[f] = why
	w.queue = append(w.queue, f)
}

func (w *lockWalk) run() {
	for _, f := range w.p.everyFunc() {
		if !w.p.inScope(f) || f.Parent() != nil {
			continue
		}
		o, _ := f.Object().(*types.Func)
		if o != nil && o.Exported() || f.Name() == "init" || f.Name() == "main" || strings.HasPrefix(f.Name(), "init#") {
			w.root(f, "entry")
		}
	}
	for len(w.queue) > 0 {
		f := w.queue[0]
		w.queue = w.queue[1:]
		for h := range w.flow(f, "") {
			if h != "" {
				w.viol("returns-locked:"+f.Name(), f.Pos(), fmt.Sprintf("%s can return with %s held", f, h))
			}
		}
	}
	// functions that are kept as values and called from elsewhere
	for again := true; again; {
		again = false
		w.p.targets(nil)
		for _, fs := range w.p.values {
			for _, f := range fs {
				if f.Signature.Recv() == nil && f.Parent() == nil && f.Synthetic == "" && f.Object() == nil {
					continue
				}
				if len(f.Blocks) > 0 && w.at[f.Blocks[0].Instrs[0]] == nil && w.p.inScope(f) {
					w.root(f, "kept as a value")
				}
			}
		}
		for len(w.queue) > 0 {
			again = true
			f := w.queue[0]
			w.queue = w.queue[1:]
			for h := range w.flow(f, "") {
				if h != "" {
					w.viol("returns-locked:"+f.Name(), f.Pos(), fmt.Sprintf("%s can return with %s held", f, h))
				}
			}
		}
	}
	// cycles of the lock order
	next := map[string][]string{}
	for e := range w.order {
		i := strings.IndexByte(e, '>')
		next[e[:i]] = append(next[e[:i]], e[i+1:])
	}
	for e, where := range w.order {
		i := strings.IndexByte(e, '>')
		a, b := e[:i], e[i+1:]
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range next[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		if reach(b) {
			w.viols["order:"+a+">"+b] = where + "\x00" + fmt.Sprintf("%s is acquired with %s held, elsewhere the other way round", b, a)
		}
	}
}

func (w *lockWalk) viol(key string, pos token.Pos, text string) {
	if w.viols[key] == "" {
		w.viols[key] = w.p.pos(pos) + "\x00" + text
	}
}

// flow returns the locks held at the exits of f entered with the locks in held.
func (w *lockWalk) flow(f *ssa.Function, held string) map[string]bool {
	key := f.String() + "|" + fmt.Sprintf("%p", f) + "|" + held
	if r, ok := w.memo[key]; ok {
		if r == nil {
			return map[string]bool{held: true} // recursion: balanced
		}
		return r
	}
	w.memo[key] = nil
	out := map[string]bool{}
	type node struct {
		b *ssa.BasicBlock
		s lockState
	}
	seen := map[node]bool{}
	work := []node{{f.Blocks[0], lockState{held: held}}}
	var defs []*ssa.Defer
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[n] {
			continue
		}
		seen[n] = true
		states := map[lockState]bool{n.s: true}
		for _, in := range n.b.Instrs {
			w.steps++
			if w.steps > 2000000 {
				undec("lock analysis budget")
			}
			next := map[lockState]bool{}
			for s := range states {
				if w.at[in] == nil {
					w.at[in] = map[string]bool{}
				}
				w.at[in][s.held] = true
				switch in := in.(type) {
				case *ssa.Defer:
					k := -1
					for i, d := range defs {
						if d == in {
							k = i
						}
					}
					if k < 0 {
						k = len(defs)
						defs = append(defs, in)
					}
					c := string(rune('0' + k))
					if strings.HasSuffix(s.defers, c) {
						next[s] = true
					} else {
						next[lockState{s.held, s.defers + c}] = true
					}
				case *ssa.RunDefers:
					hs := map[string]bool{s.held: true}
					for i := len(s.defers) - 1; i >= 0; i-- {
						d := defs[s.defers[i]-'0']
						nh := map[string]bool{}
						for h := range hs {
							for x := range w.call(d, h) {
								nh[x] = true
							}
						}
						hs = nh
					}
					for h := range hs {
						next[lockState{h, ""}] = true
					}
				case *ssa.Go:
					for _, g := range w.callees(in) {
						w.root(g, "goroutine")
					}
					w.handOut(in)
					next[s] = true
				case *ssa.Call:
					for h := range w.call(in, s.held) {
						next[lockState{h, s.defers}] = true
					}
				case *ssa.Return:
					out[s.held] = true
				default:
					w.waits(in, s.held)
					next[s] = true
				}
			}
			states = next
		}
		for s := range states {
			for _, b := range n.b.Succs {
				work = append(work, node{b, s})
			}
		}
	}
	w.memo[key] = out
	return out
}

// syncCallers run the functions they are given before they return, in the same goroutine.
func syncCallee(g *ssa.Function) bool {
	if g == nil || g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "sort", "slices", "maps", "strings", "bytes", "github.com/cenkalti/backoff/v4", "github.com/cenkalti/backoff":
		return true
	case "sync":
		return g.Name() == "Do" || g.Name() == "Range"
	}
	return false
}

// handOut: functions given to code outside of the repository may be entered at any time.
func (w *lockWalk) handOut(ci ssa.CallInstruction) {
	cc := ci.Common()
	if cc.IsInvoke() && len(w.callees(ci)) > 0 {
		return // the repository implements it
	}
	if g := cc.StaticCallee(); g != nil && (w.p.isRepo(g) || syncCallee(g)) {
		return
	}
	if cc.StaticCallee() == nil && !cc.IsInvoke() {
		return
	}
	for _, a := range cc.Args {
		if f := funcValue(w.p, a); f != nil {
			w.root(f, "handed out")
		}
	}
}

func funcValue(p *Program, v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		if v.Synthetic != "" {
			if o, ok := v.Object().(*types.Func); ok {
				if m := p.prog.FuncValue(o); m != nil {
					return m
				}
			}
		}
		return v
	case *ssa.MakeClosure:
		return funcValue(p, v.Fn)
	case *ssa.ChangeType:
		return funcValue(p, v.X)
	case *ssa.MakeInterface:
		return funcValue(p, v.X)
	}
	return nil
}

// callees of a call within the repository.
func (w *lockWalk) callees(ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	var out []*ssa.Function
	if cc.IsInvoke() {
		it, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		if w.impls == nil {
			w.impls = map[string][]*ssa.Function{}
			for _, f := range w.p.everyFunc() {
				if f.Signature.Recv() != nil && w.p.inScope(f) && f.Parent() == nil {
					w.impls[f.Name()] = append(w.impls[f.Name()], f)
				}
			}
		}
		for _, f := range w.impls[cc.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil
		}
		fs := map[*ssa.Function]bool{}
		if w.funcs(cc.Value, fs, map[ssa.Value]bool{}) {
			for g := range fs {
				if w.p.inScope(g) && len(g.Blocks) > 0 {
					out = append(out, g)
				}
			}
			sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
			return out
		}
	}
	for _, g := range w.p.targets(ci) {
		if w.p.inScope(g) && len(g.Blocks) > 0 {
			out = append(out, g)
		}
	}
	return out
}

// funcs: the functions a value can be; false if it comes from the heap or from callers that are not known.
func (w *lockWalk) funcs(v ssa.Value, out map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if f := funcValue(w.p, v); f != nil {
		out[f] = true
		return true
	}
	all := func(vs ...ssa.Value) bool {
		for _, x := range vs {
			if !w.funcs(x, out, seen) {
				return false
			}
		}
		return len(vs) > 0
	}
	results := func(c *ssa.Call, i int) bool {
		g := c.Call.StaticCallee()
		if g == nil {
			return c.Call.IsInvoke() && !strings.Contains(typeStr(c.Call.Value.Type()), modPath)
		}
		if !w.p.isRepo(g) {
			return true // a function of other code
		}
		var vs []ssa.Value
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
					vs = append(vs, r.Results[i])
				}
			}
		}
		return all(vs...)
	}
	stores := func(a ssa.Value) []ssa.Value {
		var vs []ssa.Value
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == a {
				vs = append(vs, s.Val)
			}
		}
		return vs
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		return all(v.Edges...)
	case *ssa.Call:
		return results(v, 0)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return results(c, v.Index)
		}
	case *ssa.Parameter:
		f := v.Parent()
		w.callers()
		if w.dyn[f] || len(w.static[f]) == 0 {
			return false
		}
		if o, _ := f.Object().(*types.Func); o != nil && o.Exported() && f.Signature.Recv() == nil {
			return false
		}
		for i, q := range f.Params {
			if q != v {
				continue
			}
			for _, ci := range w.static[f] {
				if !w.funcs(ci.Common().Args[i], out, seen) {
					return false
				}
			}
		}
		return true
	case *ssa.FreeVar:
		f := v.Parent()
		w.callers()
		for i, q := range f.FreeVars {
			if q != v {
				continue
			}
			for _, mc := range w.makes[f] {
				if !w.funcs(mc.Bindings[i], out, seen) {
					return false
				}
			}
		}
		return len(w.makes[f]) > 0
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return w.funcs(v.X, out, seen)
		}
	case *ssa.Alloc:
		vs := stores(v)
		for _, u := range *v.Referrers() {
			if mc, ok := u.(*ssa.MakeClosure); ok {
				for i, b := range mc.Bindings {
					if b == v {
						vs = append(vs, stores(mc.Fn.(*ssa.Function).FreeVars[i])...)
					}
				}
			}
		}
		return all(vs...)
	}
	return false
}

// callers: static call sites, functions used as values, closures.
func (w *lockWalk) callers() {
	if w.static != nil {
		return
	}
	w.static = map[*ssa.Function][]ssa.CallInstruction{}
	w.dyn = map[*ssa.Function]bool{}
	w.makes = map[*ssa.Function][]*ssa.MakeClosure{}
	w.p.targets(nil)
	for _, fs := range w.p.values {
		for _, f := range fs {
			w.dyn[f] = true
		}
	}
	for _, f := range w.p.everyFunc() {
		if w.p.isRef(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil {
						w.static[g] = append(w.static[g], in)
					}
				case *ssa.MakeClosure:
					w.makes[in.Fn.(*ssa.Function)] = append(w.makes[in.Fn.(*ssa.Function)], in)
				}
			}
		}
	}
}

func (w *lockWalk) call(ci ssa.CallInstruction, held string) map[string]bool {
	same := map[string]bool{held: true}
	cc := ci.Common()
	w.waits(ci, held)
	if op, key := lockOp(cc); op != "" {
		h := heldMap(held)
		switch op {
		case "Lock", "RLock":
			if _, ok := h[key]; ok {
				w.viol("again:"+key, ci.Pos(), fmt.Sprintf("%s is acquired in %s with itself held", key, ci.Parent()))
				return same
			}
			for k := range h {
				if w.order[k+">"+key] == "" {
					w.order[k+">"+key] = w.p.pos(ci.Pos())
				}
			}
			h[key] = op[0]
			if op == "Lock" {
				h[key] = 'W'
			}
			return map[string]bool{heldStr(h): true}
		case "Unlock", "RUnlock":
			m, ok := h[key]
			want := byte('W')
			if op == "RUnlock" {
				want = 'R'
			}
			if !ok || m != want {
				w.viol("unlock:"+key, ci.Pos(), fmt.Sprintf("%s is released in %s where it is not held so", key, ci.Parent()))
				return same
			}
			delete(h, key)
			return map[string]bool{heldStr(h): true}
		case "TryLock", "TryRLock":
			undec("TryLock in %s", ci.Parent())
		}
		return same
	}
	w.handOut(ci)
	if g := cc.StaticCallee(); g != nil && syncCallee(g) {
		for _, a := range cc.Args {
			if f := funcValue(w.p, a); f != nil && w.p.inScope(f) && len(f.Blocks) > 0 {
				w.flow(f, held)
			}
		}
		return same
	}
	gs := w.callees(ci)
	if len(gs) == 0 {
		return same
	}
	w.calls++
	out := map[string]bool{}
	for _, g := range gs {
		if !w.p.inScope(g) || len(g.Blocks) == 0 {
			out[held] = true
			continue
		}
		for h := range w.flow(g, held) {
			out[h] = true
		}
	}
	if len(out) == 0 {
		// never returns
		return same
	}
	return out
}

// waits: operations that can wait for another goroutine or for the network, with a lock held.
func (w *lockWalk) waits(in ssa.Instruction, held string) {
	if held == "" {
		return
	}
	what := ""
	switch in := in.(type) {
	case *ssa.Select:
		if !in.Blocking {
			return
		}
		var cs []string
		for _, s := range in.States {
			d := "<-"
			if s.Dir == types.SendOnly {
				d = "->"
			}
			cs = append(cs, d+chanName(s.Chan))
		}
		sort.Strings(cs)
		what = strings.Join(cs, ",")
	case *ssa.Send:
		what = "->" + chanName(in.Chan)
	case *ssa.UnOp:
		if in.Op != token.ARROW {
			return
		}
		what = "<-" + chanName(in.X)
	case ssa.CallInstruction:
		cc := in.Common()
		switch {
		case cc.IsInvoke():
			n := namedOf(cc.Value.Type())
			switch cc.Method.Name() {
			case "Send", "Recv", "CloseSend", "SendMsg", "RecvMsg", "StreamAggregatedResources":
				what = "network call " + n + "." + cc.Method.Name()
			}
		case cc.StaticCallee() != nil:
			switch fn := cc.StaticCallee().String(); fn {
			case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "github.com/cenkalti/backoff/v4.Retry", "github.com/cenkalti/backoff.Retry":
				what = fn
			}
		}
	}
	if what == "" {
		return
	}
	for k := range heldMap(held) {
		w.viol("wait:"+k+":"+what, in.Pos(), fmt.Sprintf("%s waits (%s) with %s held", in.Parent(), what, k))
	}
}

func chanName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return chanName(v.X)
	case *ssa.FieldAddr:
		t := derefT(v.X.Type())
		return namedOf(t) + "." + structOf(t).Field(v.Field).Name()
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil {
			return g.Name() + "()"
		}
		if v.Call.IsInvoke() {
			return v.Call.Method.Name() + "()"
		}
	case *ssa.ChangeType:
		return chanName(v.X)
	}
	return "chan"
}
