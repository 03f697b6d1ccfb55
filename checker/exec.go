package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is an abstract state: path facts, memory and the trace of externally visible actions.
type State struct {
	F     *Facts
	heap  map[*Term]*Term // place -> value
	ev    []*Term
	occ   map[string]int
	alias map[*Term]*Term
}

func newState() *State {
	return &State{F: newFacts(), heap: map[*Term]*Term{}, occ: map[string]int{}, alias: map[*Term]*Term{}}
}

func (s *State) clone() *State {
	n := &State{F: s.F.clone(), heap: make(map[*Term]*Term, len(s.heap)), occ: make(map[string]int, len(s.occ)), alias: make(map[*Term]*Term, len(s.alias))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.occ {
		n.occ[k] = v
	}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	n.ev = s.ev[:len(s.ev):len(s.ev)]
	return n
}

func (s *State) emit(name string, args ...*Term) {
	s.ev = append(s.ev[:len(s.ev):len(s.ev)], mk("ev", name, nil, args...))
}

// Outcome is the end of a path through a function.
type Outcome struct {
	st    *State
	rets  []*Term
	panic string
	pos   token.Pos
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

type Item struct {
	env    map[ssa.Value]*Term
	st     *State
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	phis   bool // phis of blk already assigned
	defers []deferred
	iters  map[*Term]*Term // iterator -> current index (nil value: exhausted)
	again  []*Loop         // loops of which one element was run and other parts follow: to be entered again
}

func (it *Item) reenters(l *Loop) bool {
	for _, x := range it.again {
		if x == l {
			return true
		}
	}
	return false
}

func (it *Item) clone() *Item {
	n := *it
	n.env = make(map[ssa.Value]*Term, len(it.env)+4)
	for k, v := range it.env {
		n.env[k] = v
	}
	n.st = it.st.clone()
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	n.iters = map[*Term]*Term{}
	for k, v := range it.iters {
		n.iters[k] = v
	}
	return &n
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fn     *ssa.Function
}

type Frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*Loop
	depth int
	binds []*Term
}

// Model handles a call: returns the outcomes (nil, false) to fall through.
type Model func(ex *Exec, st *State, c *Call) ([]Outcome, bool)

type Call struct {
	name string
	sig  *types.Signature
	args []*Term // receiver first
	fn   *ssa.Function
	pos  token.Pos
	recv types.Type // static type of the receiver for interface calls
}

// Exec is the abstract interpreter.
type Exec struct {
	p         *Program
	models    map[string]Model
	panics    bool    // panic obligations become outcomes
	locks     bool    // lock operations are part of the trace
	conc      bool    // shared memory is forgotten at lock acquisitions
	nobj      int     // number of the last object made
	active    []*Term // active loop indices
	loopN     int
	steps     int
	maxSteps  int
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	stackArgs [][]*Term
	stack     []*ssa.Function
	inlined   map[string]bool // functions analysed
	opaqued   map[string]int  // library calls treated as opaque
	loopMemo  map[*Loop]*loopMemo
	nloops    int
	npaths    int
	nblob     int
	objMade   map[*Term]token.Pos
	axiom     func(*Term) bool
	objLen    map[*Term]*Term
	handler   *Term // the last update handler registered
	keyFunc   *Term
	askKey    bool
	onDeref   func(st *State, t *Term, pos token.Pos)
	obls      map[string]bool // panic obligations seen
	noInline  func(fn *ssa.Function) bool
	// what comes from the channel is never nil (what is sent is compared)
	recvNonNil func(ch *Term) bool
	onceDone   *Term // whether a sync.Once of unknown state was used, if assumed
	shared     *sharedSpec
	onAccess   func(st *State, a *Term, write bool)
	stores     func(addr *Term) bool // stores recorded in the trace
	onStore    func(st *State, addr, val *Term, pos token.Pos)
	onLoad     func(st *State, addr *Term, pos token.Pos)
	onCall     func(st *State, c *Call)
	onLock     func(st *State, m string, mu *Term)
	epoch      int
	// onSend replaces the event of a channel send
	onSend func(st *State, ch, v *Term) bool
	// neverReady: the channel operation is never ready
	neverReady func(ch *Term, send bool) bool
	// alwaysReady: the channel operation is always ready
	alwaysReady func(ch *Term, send bool) bool
	// drained: a nonblocking receive of the channel empties it
	drained func(ch *Term) bool
	script  *Script
	// onCell sees the writes to synchronised values
	onCell  func(st *State, addr, v *Term)
	lazyGet bool // a string read from a map is not split into present and absent
	// neverClosed: nobody closes the channel
	neverClosed func(ch *Term) bool
	liveMemo    map[*ssa.BasicBlock]map[ssa.Value]bool
}

func newExec(p *Program) *Exec {
	return &Exec{p: p, models: map[string]Model{}, maxSteps: 6000000, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		inlined: map[string]bool{}, opaqued: map[string]int{}, objMade: map[*Term]token.Pos{}, obls: map[string]bool{}, nobj: objCount}
}

func (ex *Exec) newObj(typ types.Type, pos token.Pos) *Term {
	objCount++
	ex.nobj = objCount
	t := mk("obj", fmt.Sprint(ex.nobj), typ)
	ex.objMade[t] = pos
	return t
}

// objCount is global: terms are shared by all executors, so an object number must never be reused.
var objCount int

func objNum(t *Term) int {
	n := 0
	for i := 0; i < len(t.Str) && t.Str[i] >= '0' && t.Str[i] <= '9'; i++ {
		n = n*10 + int(t.Str[i]-'0')
	}
	return n
}

func (ex *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := ex.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					res[s] = l
				}
				// all blocks that reach b without passing s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	ex.loops[fn] = res
	return res
}

// runFunc interprets a function.
func (ex *Exec) runFunc(fn *ssa.Function, args, binds []*Term, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		undec("function without body: %s", fn)
	}
	if len(ex.stack) > 60 {
		undec("inlining too deep at %s", fn)
	}
	ex.stack = append(ex.stack, fn)
	ex.stackArgs = append(ex.stackArgs, args)
	defer func() {
		ex.stack = ex.stack[:len(ex.stack)-1]
		ex.stackArgs = ex.stackArgs[:len(ex.stackArgs)-1]
	}()
	ex.inlined[fn.String()] = true
	fr := &Frame{fn: fn, loops: ex.loopsOf(fn), depth: len(ex.stack), binds: binds}
	env := map[ssa.Value]*Term{}
	if len(args) != len(fn.Params) {
		undec("%s: %d arguments for %d parameters", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			env[fv] = binds[i]
		} else {
			undec("%s: unbound free variable", fn)
		}
	}
	it := &Item{env: env, st: st, blk: fn.Blocks[0], iters: map[*Term]*Term{}}
	_, exits, outs := ex.run(fr, []*Item{it}, nil)
	if len(exits) > 0 {
		undec("unexpected exits in %s", fn)
	}
	if len(outs) > 4000 {
		undec("too many paths in %s", fn)
	}
	return outs
}

// run interprets items until they leave the region.
func (ex *Exec) run(fr *Frame, work []*Item, region *Loop) (conts, exits []*Item, outs []Outcome) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		// entering a block
		if it.i == 0 && !it.phis {
			b := it.blk
			if region != nil && it.prev != nil {
				if b == region.header {
					conts = append(conts, it)
					continue
				}
				if !region.blocks[b] {
					exits = append(exits, it)
					continue
				}
			}
			if l := fr.loops[b]; l != nil && l != region && (it.prev == nil || !l.blocks[it.prev] || it.reenters(l)) {
				items, os := ex.enterLoop(fr, l, it)
				outs = append(outs, os...)
				work = append(work, items...)
				continue
			}
			ex.assignPhis(it)
			if ex.script != nil && fr.loops[b] != nil {
				ex.script.spin(it.st, fr.fn)
			}
		}
		items, os := ex.step(fr, it)
		outs = append(outs, os...)
		work = append(work, items...)
		if len(outs)+len(work)+len(exits)+len(conts) > 6000 {
			undec("too many paths in %s", fr.fn)
		}
	}
	return
}

func (ex *Exec) assignPhis(it *Item) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for j, pr := range it.blk.Preds {
			if pr == it.prev {
				vals = append(vals, ex.val(it, p.Edges[j]))
				break
			}
		}
		phis = append(phis, p)
	}
	for j, p := range phis {
		it.env[p] = vals[j]
	}
}

func (ex *Exec) val(it *Item, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		t := tConst(v.Value, v.Type())
		return t
	case *ssa.Global:
		return mk("glob", v.String(), v.Type())
	case *ssa.Function:
		return ex.funcTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	t, ok := it.env[v]
	if !ok {
		undec("value %s of %s not computed", v.Name(), v.Parent())
	}
	return t
}

var funcTab = map[string]*ssa.Function{}
var globTab = map[string]*ssa.Global{}

func (ex *Exec) funcTerm(f *ssa.Function) *Term { return mkFunc(f) }

func mkFunc(f *ssa.Function) *Term {
	k := f.String()
	if o, ok := funcTab[k]; ok && o != f {
		k = fmt.Sprintf("%s#%p", k, f)
	}
	funcTab[k] = f
	return mk("func", k, f.Type())
}

// resolve follows aliases of objects (decoded messages, nested maps).
func (ex *Exec) resolve(st *State, t *Term) *Term {
	for i := 0; i < 10; i++ {
		a, ok := st.alias[t]
		if !ok {
			return t
		}
		t = a
	}
	return t
}

// ---- memory ----

func fieldName(st *types.Struct, i int) string { return st.Field(i).Name() }

func mkFA(base *Term, f string, typ types.Type) *Term { return mk("fa", f, typ, base) }

// load reads the value stored at an address; typ is the type of the value.
func (ex *Exec) load(st *State, addr *Term, typ types.Type) *Term {
	addr = ex.resolve(st, addr)
	if s := structOf(typ); s != nil {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = ex.load(st, mkFA(addr, fieldName(s, i), types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
		}
		return mkStruct(typ, typeStr(typ), args)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if ex.onLoad != nil {
		ex.onLoad(st, addr, token.NoPos)
	}
	return ex.initial(st, addr, typ)
}

// initial is the content of a place nobody wrote to.
func (ex *Exec) initial(st *State, addr *Term, typ types.Type) *Term {
	switch addr.Op {
	case "obj":
		return zeroOf(typ)
	case "fa":
		b := addr.Args[0]
		b = ex.resolve(st, b)
		if n := st.occ["$epoch"]; n > 0 && ex.shared != nil && b.Op != "obj" && ex.shared.addr(addr) {
			return mkSel(mk("at", strconv.Itoa(n), b.Typ, b), addr.Str, typ)
		}
		r := b
		for r.Op == "fa" || r.Op == "ia" {
			r = r.Args[0]
		}
		if b.Op == "obj" || r.Op == "obj" {
			return zeroOf(typ)
		}
		return ex.shadow(st, mkSel(ex.placeTerm(st, b), addr.Str, typ))
	case "ia":
		b := addr.Args[0]
		if b.Op == "obj" {
			if c, ok := st.heap[b]; ok {
				return mkIndex(c, addr.Args[1], typ)
			}
			return zeroOf(typ)
		}
		return mkIndex(ex.content(st, b), addr.Args[1], typ)
	case "glob":
		g := ex.p.globalByName(addr.Str)
		if g != nil {
			if m, ok := ex.p.globMaps[g]; ok {
				return mk("gmap", addr.Str, typ, m)
			}
			if v, ok := ex.p.globVals[g]; ok {
				return v
			}
		}
		if typ != nil && types.Identical(typ, errType) {
			return mk("err", "glob:"+addr.Str, typ)
		}
		return mk("gval", addr.Str, typ)
	}
	return mk("deref", "", typ, addr)
}

// shadow hook for concurrent mode.
func (ex *Exec) shadow(st *State, t *Term) *Term {
	return t
}

// placeTerm is the value whose field is selected: an address of an embedded struct is the selected struct value.
func (ex *Exec) placeTerm(st *State, b *Term) *Term {
	switch b.Op {
	case "fa":
		return mkSel(ex.placeTerm(st, b.Args[0]), b.Str, derefT(b.Typ))
	case "ia":
		return mkIndex(ex.content(st, b.Args[0]), b.Args[1], derefT(b.Typ))
	}
	return b
}

func (p *Program) globalByName(s string) *ssa.Global {
	if g, ok := globTab[s]; ok {
		return g
	}
	for _, sp := range p.prog.AllPackages() {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				globTab[g.String()] = g
			}
		}
	}
	return globTab[s]
}

func (ex *Exec) store(st *State, addr, v *Term, typ types.Type) {
	addr = ex.resolve(st, addr)
	if s := structOf(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			ex.store(st, mkFA(addr, fieldName(s, i), types.NewPointer(ft)), mkSel(v, fieldName(s, i), ft), ft)
		}
		return
	}
	if addr.Op == "ia" {
		b := addr.Args[0]
		if b.Op == "obj" {
			if c, ok := st.heap[b]; ok {
				st.heap[b] = seqUpdate(c, addr.Args[1], v)
				return
			}
		}
	}
	if ex.onStore != nil {
		ex.onStore(st, addr, v, token.NoPos)
	}
	if addr.Op == "fa" && v.Op == "lin" && ex.p.counters()[namedOf(addr.Args[0].Typ)+"."+addr.Str] {
		// who gives back a count has taken one before
		if c, m := toLin(v); c == -1 && len(m) == 1 {
			for t, k := range m {
				if k == 1 {
					st.F.add(mkNot(mkLt(t, tInt(1))))
				}
			}
		}
	}
	st.heap[addr] = v
}

// counters: the integer fields of unexported types that are only ever incremented and decremented by one. They count
// users, who are assumed to be there when they leave.
func (p *Program) counters() map[string]bool {
	if p.counterMemo != nil {
		return p.counterMemo
	}
	ok, no := map[string]int{}, map[string]bool{}
	for _, f := range p.everyFunc() {
		if !p.inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, isFA := in.(*ssa.FieldAddr)
				if !isFA || fa.Referrers() == nil {
					continue
				}
				if bt := basicOf(derefT(fa.Type())); bt == nil || bt.Info()&types.IsInteger == 0 {
					continue
				}
				n := namedOf(derefT(fa.X.Type()))
				if i := strings.LastIndexByte(n, '.'); n == "" || token.IsExported(n[i+1:]) {
					continue
				}
				key := n + "." + structOf(derefT(fa.X.Type())).Field(fa.Field).Name()
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
					case *ssa.Store:
						o, isOp := u.Val.(*ssa.BinOp)
						if u.Addr != fa || !isOp || o.Op != token.ADD && o.Op != token.SUB {
							no[key] = true
							continue
						}
						l, isL := o.X.(*ssa.UnOp)
						c, isC := o.Y.(*ssa.Const)
						if !isL || !isC || c.Value == nil || c.Value.ExactString() != "1" {
							no[key] = true
							continue
						}
						if la, isA := l.X.(*ssa.FieldAddr); !isA || la.Field != fa.Field || namedOf(derefT(la.X.Type())) != n {
							no[key] = true
							continue
						}
						if o.Op == token.SUB {
							ok[key] |= 2
						} else {
							ok[key] |= 1
						}
					default:
						no[key] = true
					}
				}
			}
		}
	}
	p.counterMemo = map[string]bool{}
	for k, v := range ok {
		if v == 3 && !no[k] {
			p.counterMemo[k] = true
		}
	}
	return p.counterMemo
}

// seqUpdate stores into an element of a sequence.
func seqUpdate(c, i, v *Term) *Term {
	if n, ok := i.intVal(); ok && c.Op == "seq" {
		parts := append([]*Term(nil), c.Args...)
		k := int64(0)
		for j, p := range parts {
			if p.Op == "one" {
				if k == n {
					parts[j] = mk("one", "", nil, v)
					return mkSeq(c.Typ, parts...)
				}
				k++
				continue
			}
			if p.Op == "rep" {
				if m, ok := p.Args[0].intVal(); ok && n >= k && n < k+m {
					var np []*Term
					np = append(np, parts[:j]...)
					for q := int64(0); q < m; q++ {
						e := p.Args[1]
						if k+q == n {
							e = v
						}
						np = append(np, mk("one", "", nil, e))
					}
					np = append(np, parts[j+1:]...)
					return mkSeq(c.Typ, np...)
				}
			}
			break
		}
	}
	return mk("upd", "", c.Typ, c, i, v)
}

// content is the sequence or map content of a reference.
func (ex *Exec) content(st *State, t *Term) *Term {
	t = ex.resolve(st, t)
	if v, ok := st.heap[t]; ok && (t.Op == "obj" || isMapT(t.Typ) || isSliceT(t.Typ)) {
		return v
	}
	if t.Op == "gmap" {
		return t.Args[0]
	}
	if t.Op == "obj" && isMapT(t.Typ) {
		return mk("mapempty", "", t.Typ)
	}
	if t.Op == "ml" {
		// the reference ml names the current content, mc the initial one
		return mk("mc", "", t.Typ, t.Args...)
	}
	return t
}

func isNestedMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return isMapT(m.Elem())
}

// ---- freezing: turn objects into pure values ----

// freeze replaces the objects numbered above mark by their content.
func (ex *Exec) freeze(st *State, t *Term, mark int) *Term {
	memo := map[*Term]*Term{}
	busy := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if t.isConst() {
			return t
		}
		if t.Op == "obj" {
			r := ex.resolve(st, t)
			if r != t {
				r = rec(r)
				memo[t] = r
				return r
			}
			if objNum(t) <= mark || busy[t] {
				return t
			}
			busy[t] = true
			defer delete(busy, t)
			r = t
			switch u := t.Typ.Underlying().(type) {
			case *types.Map:
				r = rec(ex.content(st, t))
			case *types.Slice:
				r = rec(ex.content(st, t))
			case *types.Pointer:
				if s := structOf(u.Elem()); s != nil {
					args := make([]*Term, s.NumFields())
					for i := range args {
						ft := s.Field(i).Type()
						fa := mkFA(t, fieldName(s, i), types.NewPointer(ft))
						args[i] = rec(ex.load(st, fa, ft))
						if v, ok := st.heap[mkFA(fa, "$v", nil)]; ok && args[i].Op != "cell" {
							// a synchronised value
							args[i] = mk("cell", "", ft, rec(v))
						}
					}
					r = mk("new", typeStr(u.Elem()), t.Typ, args...)
				} else if _, isArr := u.Elem().Underlying().(*types.Array); isArr {
					r = mk("newarr", "", t.Typ, rec(ex.arraySeq(st, t)))
				} else if !isLeafStruct(u.Elem()) {
					r = mk("newv", typeStr(u.Elem()), t.Typ, rec(ex.load(st, t, u.Elem())))
				} else {
					r = mk("newv", typeStr(u.Elem()), t.Typ, rec(ex.load(st, t, u.Elem())))
				}
			case *types.Chan:
				return t
			}
			memo[t] = r
			return r
		}
		if t.Op == "ml" && !isIxOnly(t) {
			// content of a nested map
			if v, ok := st.heap[t]; ok && v != t && !busy[t] {
				busy[t] = true
				r := rec(v)
				delete(busy, t)
				return r
			}
		}
		if len(t.Args) == 0 {
			return t
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = build(t.Op, t.Str, t.Typ, args)
		}
		if len(busy) == 0 {
			memo[t] = r
		}
		return r
	}
	return rec(t)
}

func isIxOnly(t *Term) bool { return false }

// arraySeq reads an array object as a sequence.
func (ex *Exec) arraySeq(st *State, t *Term) *Term {
	at, ok := derefT(t.Typ).Underlying().(*types.Array)
	if !ok {
		undec("array expected: %s", short(t))
	}
	if c, ok := st.heap[t]; ok {
		return c
	}
	var parts []*Term
	for i := int64(0); i < at.Len(); i++ {
		parts = append(parts, mk("one", "", nil, ex.load(st, mk("ia", "", types.NewPointer(at.Elem()), t, tInt(i)), at.Elem())))
	}
	return mkSeq(types.NewSlice(at.Elem()), parts...)
}

// ---- one block ----

func (ex *Exec) step(fr *Frame, it *Item) (items []*Item, outs []Outcome) {
	for {
		ex.steps++
		if ex.steps > ex.maxSteps {
			undec("analysis budget exhausted in %s", fr.fn)
		}
		if it.i >= len(it.blk.Instrs) {
			undec("fell off block")
		}
		in := it.blk.Instrs[it.i]
		it.i++
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return []*Item{ex.goTo(it, it.blk.Succs[0])}, outs
		case *ssa.If:
			c := ex.val(it, in.Cond)
			succs := it.blk.Succs
			for _, b := range ex.branch(it, c) {
				s := succs[0]
				if !b.val {
					s = succs[1]
				}
				items = append(items, ex.goTo(b.it, s))
			}
			return items, outs
		case *ssa.Return:
			var rets []*Term
			for _, r := range in.Results {
				rets = append(rets, ex.val(it, r))
			}
			return nil, append(outs, Outcome{st: it.st, rets: rets, pos: in.Pos()})
		case *ssa.Panic:
			return nil, append(outs, Outcome{st: it.st, panic: "explicit panic at " + ex.p.pos(in.Pos()), pos: in.Pos()})
		case *ssa.RunDefers:
			its, os := ex.runDefers(fr, it)
			outs = append(outs, os...)
			if len(its) == 1 {
				it = its[0]
				continue
			}
			return its, outs
		case *ssa.Defer:
			f, args := ex.callee(it, &in.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{&in.Call, f, args, in.Pos()})
		case *ssa.Go:
			f, args := ex.callee(it, &in.Call)
			it.st.emit("go", append([]*Term{f}, args...)...)
		case *ssa.Call:
			res := ex.call(fr, it, &in.Call, in.Pos())
			if len(res) == 1 && res[0].panic == "" {
				it.st = res[0].st
				ex.setResult(it, in, res[0].rets)
				continue
			}
			for _, o := range res {
				if o.panic != "" {
					outs = append(outs, o)
					continue
				}
				n := it.clone()
				n.st = o.st
				ex.setResult(n, in, o.rets)
				items = append(items, n)
			}
			for _, n := range items {
				n.phis = true // do not re-enter the block
			}
			return items, outs
		default:
			its, os := ex.instr(fr, it, in)
			outs = append(outs, os...)
			if len(its) == 1 {
				it = its[0]
				continue
			}
			for _, n := range its {
				n.phis = true
			}
			return its, outs
		}
	}
}

func (ex *Exec) goTo(it *Item, b *ssa.BasicBlock) *Item {
	it.prev = it.blk
	it.blk = b
	it.i = 0
	it.phis = false
	return it
}

func (ex *Exec) setResult(it *Item, in *ssa.Call, rets []*Term) {
	switch n := in.Call.Signature().Results().Len(); n {
	case 0:
	case 1:
		if len(rets) != 1 {
			undec("bad result count of %s", in)
		}
		it.env[in] = rets[0]
	default:
		it.env[in] = mk("tuple", "", in.Type(), rets...)
	}
}

type branchRes struct {
	it  *Item
	val bool
}

// branch forks on a boolean term.
func (ex *Exec) branch(it *Item, c *Term) []branchRes {
	v := it.st.F.simp(c)
	if r := it.st.F.evalBool(v); r != nil {
		return []branchRes{{it, r == tTrue}}
	}
	a := it.clone()
	var res []branchRes
	if it.st.F.add(v) {
		res = append(res, branchRes{it, true})
	}
	if a.st.F.add(mkNot(v)) {
		res = append(res, branchRes{a, false})
	}
	return res
}

// forkState forks a state on a condition.
func (ex *Exec) forkState(st *State, c *Term) (yes, no *State) {
	v := st.F.simp(c)
	if r := st.F.evalBool(v); r != nil {
		if r == tTrue {
			return st, nil
		}
		return nil, st
	}
	b := st.clone()
	if st.F.add(v) {
		yes = st
	}
	if b.F.add(mkNot(v)) {
		no = b
	}
	return
}

func (ex *Exec) runDefers(fr *Frame, it *Item) (items []*Item, outs []Outcome) {
	work := []*Item{it}
	for {
		var next []*Item
		done := true
		for _, w := range work {
			if len(w.defers) == 0 {
				next = append(next, w)
				continue
			}
			done = false
			d := w.defers[len(w.defers)-1]
			w.defers = w.defers[: len(w.defers)-1 : len(w.defers)-1]
			for _, o := range ex.invoke(w.st, d.call, d.fn, d.args, d.pos) {
				if o.panic != "" {
					outs = append(outs, o)
					continue
				}
				n := w.clone()
				n.st = o.st
				next = append(next, n)
			}
		}
		work = next
		if done {
			break
		}
	}
	for _, n := range work {
		n.phis = true
	}
	return work, outs
}

func one1(it *Item) []*Item { return []*Item{it} }

func (ex *Exec) mustNonNil(it *Item, t *Term, pos token.Pos, what string) (*Item, []Outcome) {
	r := ex.resolve(it.st, t)
	if ex.onDeref != nil {
		ex.onDeref(it.st, r, pos)
	}
	if !ex.panics {
		return it, nil
	}
	if r.Op == "fa" || r.Op == "ia" || r.Op == "obj" || r.Op == "glob" {
		return it, nil
	}
	key := ex.p.pos(pos) + " " + what
	ex.obls[key] = true
	v := it.st.F.simp(r)
	if it.st.F.nonNil(v) || it.st.F.nonNil(r) {
		return it, nil
	}
	e := mkEq(v, tNil)
	switch it.st.F.evalBool(e) {
	case tFalse:
		return it, nil
	case tTrue:
		return nil, []Outcome{{st: it.st, panic: "nil dereference at " + key + ": " + short(v), pos: pos}}
	}
	// can the value be nil at all on this path?
	p := it.clone()
	var outs []Outcome
	if p.st.F.add(e) && p.st.F.consistent(2) {
		outs = append(outs, Outcome{st: p.st, panic: "nil dereference at " + key + ": " + short(v), pos: pos})
	}
	it.st.F.neq[v] = append(it.st.F.neq[v][:len(it.st.F.neq[v]):len(it.st.F.neq[v])], tNil)
	it.st.F.memo = nil
	return it, outs
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 1600 {
		s = s[:1600] + "…"
	}
	return s
}

// instr interprets a non-control instruction.
func (ex *Exec) instr(fr *Frame, it *Item, in ssa.Instruction) (items []*Item, outs []Outcome) {
	st := it.st
	switch in := in.(type) {
	case *ssa.Alloc:
		it.env[in] = ex.newObj(in.Type(), in.Pos())
	case *ssa.FieldAddr:
		b := ex.resolve(st, ex.val(it, in.X))
		var o []Outcome
		it, o = ex.mustNonNil(it, b, in.Pos(), "field "+structOf0(in.X.Type()).Field(in.Field).Name())
		if it == nil {
			return nil, o
		}
		outs = append(outs, o...)
		b = it.st.F.rep(b)
		it.env[in] = mkFA(b, structOf0(in.X.Type()).Field(in.Field).Name(), in.Type())
	case *ssa.Field:
		s := in.X.Type().Underlying().(*types.Struct)
		it.env[in] = mkSel(ex.val(it, in.X), s.Field(in.Field).Name(), in.Type())
	case *ssa.IndexAddr:
		x := ex.resolve(st, ex.val(it, in.X))
		i := ex.val(it, in.Index)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			_ = p // array
			it.env[in] = mk("ia", "", in.Type(), x, i)
			break
		}
		var o []Outcome
		it, o = ex.bounds(it, x, i, in.Pos())
		outs = append(outs, o...)
		if it == nil {
			return nil, outs
		}
		it.env[in] = mk("ia", "", in.Type(), x, i)
	case *ssa.Index:
		x := ex.val(it, in.X)
		i := ex.val(it, in.Index)
		var o []Outcome
		it, o = ex.bounds(it, x, i, in.Pos())
		outs = append(outs, o...)
		if it == nil {
			return nil, outs
		}
		it.env[in] = mkIndex(ex.content(st, x), i, in.Type())
	case *ssa.UnOp:
		x := ex.val(it, in.X)
		switch in.Op {
		case token.MUL:
			var o []Outcome
			it, o = ex.mustNonNil(it, x, in.Pos(), "load")
			outs = append(outs, o...)
			if it == nil {
				return nil, outs
			}
			ex.access(it.st, x, false)
			it.env[in] = ex.load(it.st, x, in.Type())
		case token.NOT:
			it.env[in] = mkNot(x)
		case token.SUB:
			it.env[in] = mkAdd(tZero, x, -1, in.Type())
		case token.ARROW:
			ch := x
			elem := in.X.Type().Underlying().(*types.Chan).Elem()
			if ex.script != nil {
				if o := ex.script.wait(ex, it, ch, false, in.Pos()); o != nil {
					return nil, append(outs, *o)
				}
			}
			v := ex.fresh(st, "recv", elem, ch)
			st.emit("recv", ch, v)
			ex.yieldPoint(st)
			if in.CommaOk {
				it.env[in] = mk("tuple", "", in.Type(), v, ex.recvOK(st, ch))
			} else {
				it.env[in] = v
			}
		default:
			it.env[in] = mk("op", in.Op.String(), in.Type(), x)
		}
	case *ssa.BinOp:
		return ex.binop(it, in)
	case *ssa.Store:
		a := ex.val(it, in.Addr)
		var o []Outcome
		it, o = ex.mustNonNil(it, a, in.Pos(), "store")
		outs = append(outs, o...)
		if it == nil {
			return nil, outs
		}
		ex.access(it.st, a, true)
		ex.storeAt(it.st, a, ex.val(it, in.Val), in.Val.Type(), in.Pos())
	case *ssa.MapUpdate:
		m := ex.resolve(st, ex.val(it, in.Map))
		k := ex.freeze(st, ex.val(it, in.Key), 0)
		v := ex.val(it, in.Value)
		var o []Outcome
		it, o = ex.nilMap(it, m, in.Pos())
		outs = append(outs, o...)
		if it == nil {
			return nil, outs
		}
		ex.access(it.st, m, true)
		ex.mapUpdate(it.st, m, k, v, in.Pos())
	case *ssa.Lookup:
		x := ex.resolve(st, ex.val(it, in.X))
		ex.access(st, x, false)
		k := ex.freeze(st, ex.val(it, in.Index), 0)
		if isStringT(in.X.Type()) {
			var o []Outcome
			it, o = ex.bounds(it, x, k, in.Pos())
			outs = append(outs, o...)
			if it == nil {
				return nil, outs
			}
			it.env[in] = mkIndex(x, k, in.Type())
			break
		}
		elem := in.X.Type().Underlying().(*types.Map).Elem()
		if isMapT(elem) {
			k = st.F.simp(k)
			k2, sure := ex.mayAlias(st, x, k)
			if k2 != nil && sure {
				k = k2
			} else if k2 != nil {
				// the inner map may be one that was changed under another name
				other := it.clone()
				for _, n := range []*Item{it, other} {
					e := mkEq(k, k2)
					if n == other {
						e = mkNot(e)
					}
					if n.st.F.add(e) {
						is, os := ex.instr(fr, n, in)
						for _, y := range is {
							y.phis = true
						}
						items, outs = append(items, is...), append(outs, os...)
					}
				}
				return items, outs
			}
		}
		if in.CommaOk {
			if g := ex.constMapFork(it, in, x, k, elem); g != nil {
				return g, outs
			}
			ok := st.F.simp(mkIn(ex.content(st, x), k))
			switch st.F.evalBool(ok) {
			case tTrue:
				ok = tTrue
			case tFalse:
				ok = tFalse
			}
			if ok == tFalse {
				it.env[in] = mk("tuple", "", in.Type(), zeroOf(elem), tFalse)
				break
			}
			v := ex.mapGet(st, x, k, elem)
			if ok == tTrue {
				it.env[in] = mk("tuple", "", in.Type(), v, tTrue)
				break
			}
			// fork so that the value of a missing key is zero
			a := it.clone()
			if it.st.F.add(ok) {
				it.env[in] = mk("tuple", "", in.Type(), ex.mapGet(it.st, x, k, elem), tTrue)
				items = append(items, it)
			}
			if a.st.F.add(mkNot(ok)) {
				a.env[in] = mk("tuple", "", in.Type(), zeroOf(elem), tFalse)
				items = append(items, a)
			}
			return items, outs
		}
		if ex.lazyGet && isStringT(elem) {
			it.env[in] = st.F.simp(mkGet(ex.content(st, x), k, elem))
			break
		}
		if g := ex.constMapFork(it, in, x, k, elem); g != nil {
			return g, outs
		}
		if isMapT(elem) {
			it.env[in] = ex.mapGet(st, x, k, elem)
			break
		}
		// without comma-ok: fork as well, missing keys read as zero
		ok := st.F.simp(mkIn(ex.content(st, x), k))
		switch st.F.evalBool(ok) {
		case tTrue:
			it.env[in] = ex.mapGet(st, x, k, elem)
			return one1(it), outs
		case tFalse:
			it.env[in] = zeroOf(elem)
			return one1(it), outs
		}
		a := it.clone()
		if it.st.F.add(ok) {
			it.env[in] = ex.mapGet(it.st, x, k, elem)
			items = append(items, it)
		}
		if a.st.F.add(mkNot(ok)) {
			a.env[in] = zeroOf(elem)
			items = append(items, a)
		}
		return items, outs
	case *ssa.MakeMap:
		o := ex.newObj(in.Type(), in.Pos())
		it.env[in] = o
		st.heap[o] = mk("mapempty", "", in.Type())
	case *ssa.MakeSlice:
		o := ex.newObj(in.Type(), in.Pos())
		n := ex.val(it, in.Len)
		el := in.Type().Underlying().(*types.Slice).Elem()
		st.heap[o] = mkSeq(in.Type(), mk("rep", "", nil, n, zeroOf(el)))
		if ex.objLen == nil {
			ex.objLen = map[*Term]*Term{}
		}
		ex.objLen[o] = n
		it.env[in] = o
	case *ssa.MakeChan:
		// channels are numbered by path, two runs that make the same channels name them alike
		f := chanField(in)
		k := "$chan:" + f + in.Type().String()
		o := mk("chan", f+fmt.Sprint(st.occ[k]), in.Type())
		st.occ[k]++
		it.env[in] = o
		st.heap[mkFA(o, "cap", nil)] = ex.val(it, in.Size)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(it, b))
		}
		ft := ex.funcTerm(f)
		it.env[in] = mk("closure", ft.Str, in.Type(), bs...)
	case *ssa.MakeInterface:
		it.env[in] = mkIface(ex.val(it, in.X), in.X.Type())
	case *ssa.ChangeInterface:
		it.env[in] = ex.val(it, in.X)
	case *ssa.ChangeType:
		it.env[in] = retype(ex.val(it, in.X), in.Type())
	case *ssa.Convert:
		x := ex.val(it, in.X)
		str := ""
		if isStringT(in.X.Type()) && isSliceT(in.Type()) {
			str = "[]byte"
		}
		it.env[in] = mkConv(in.Type(), str, x)
	case *ssa.MultiConvert:
		it.env[in] = mkConv(in.Type(), "", ex.val(it, in.X))
	case *ssa.SliceToArrayPointer:
		undec("slice to array pointer in %s", fr.fn)
	case *ssa.TypeAssert:
		return ex.typeAssert(it, in)
	case *ssa.Extract:
		t := ex.val(it, in.Tuple)
		if t.Op == "tuple" {
			it.env[in] = t.Args[in.Index]
		} else {
			it.env[in] = mk("res", fmt.Sprint(in.Index), in.Type(), t)
		}
	case *ssa.Slice:
		return ex.slice(it, in)
	case *ssa.Range:
		x := ex.resolve(st, ex.val(it, in.X))
		ex.access(st, x, false)
		if isStringT(in.X.Type()) {
			it.env[in] = mk("iter", "str", nil, x)
		} else {
			it.env[in] = mk("iter", "map", in.X.Type(), x, ex.content(st, x))
		}
	case *ssa.Next:
		itr := ex.val(it, in.Iter)
		ix, known := it.iters[itr]
		tt := in.Type().(*types.Tuple)
		if !known {
			// outside of a recognised loop
			undec("iterator outside of a loop in %s", fr.fn)
		}
		if ix == nil {
			it.env[in] = mk("tuple", "", in.Type(), tFalse, zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type()))
			break
		}
		if in.IsString {
			it.env[in] = mk("tuple", "", in.Type(), tTrue, ix, mk("index", "rune", types.Typ[types.Rune], itr.Args[0], ix))
			break
		}
		mt := itr.Typ.Underlying().(*types.Map)
		k := mk("key", "", mt.Key(), ix)
		if ix.Op == "iterlist" {
			k = ix.Args[0]
			if len(ix.Args) == 1 {
				it.iters[itr] = nil
			} else {
				it.iters[itr] = mk("iterlist", "", nil, ix.Args[1:]...)
			}
		}
		cont := itr.Args[1]
		v := tNil
		if isMapT(mt.Elem()) {
			v = ex.mapGet(st, itr.Args[0], k, mt.Elem())
		} else {
			v = st.F.simp(mkLookup(cont, k, mt.Elem()))
		}
		it.env[in] = mk("tuple", "", in.Type(), tTrue, k, v)
	case *ssa.Select:
		return ex.selectInstr(it, in)
	case *ssa.Send:
		ch := ex.val(it, in.Chan)
		if ex.script != nil {
			if o := ex.script.wait(ex, it, ch, true, in.Pos()); o != nil {
				return nil, append(outs, *o)
			}
		}
		if ex.onSend == nil || !ex.onSend(st, ch, ex.val(it, in.X)) {
			st.emit("send", ch, ex.freeze(st, ex.val(it, in.X), 0))
		}
		ex.yieldPoint(st)
	default:
		undec("unsupported instruction %T in %s", in, fr.fn)
	}
	return one1(it), outs
}

func (ex *Exec) yieldPoint(st *State) { ex.waitPoint(st) }

func structOf0(t types.Type) *types.Struct {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	return t.(*types.Struct)
}

// rep: the representative of a value that is known to equal an address-like term.
func (f *Facts) rep(t *Term) *Term { return t }

func retype(t *Term, typ types.Type) *Term {
	switch t.Op {
	case "obj", "c", "nil", "seq", "sel", "lookup", "index", "call", "sym", "ml", "concat", "closure", "func", "key", "res", "self", "ph", "assert":
		return t
	}
	return t
}

func (ex *Exec) storeAt(st *State, addr, v *Term, typ types.Type, pos token.Pos) {
	ex.store(st, addr, v, typ)
}

// constMapFork forks a lookup in a constant map over its keys.
func (ex *Exec) constMapFork(it *Item, in *ssa.Lookup, x, k *Term, elem types.Type) []*Item {
	c := ex.content(it.st, x)
	if c.Op != "map" || !onlySets(c) && x.Op != "gmap" || c.Args[0].Op != "mapempty" {
		return nil
	}
	for j, o := range c.Args[1:] {
		if o.Op != "set" || x.Op == "gmap" && (!o.Args[0].isConst() || !o.Args[1].isConst()) {
			return nil
		}
		if x.Op != "gmap" {
			// the keys must be distinct, for the order of the tests not to matter
			for _, p := range c.Args[1 : 1+j] {
				if it.st.F.evalBool(it.st.F.simp(mkEq(p.Args[0], o.Args[0]))) != tFalse {
					return nil // an earlier update that is overwritten, or may be
				}
			}
		}
	}
	set := func(n *Item, v *Term, ok *Term) {
		if in.CommaOk {
			n.env[in] = mk("tuple", "", in.Type(), v, ok)
		} else {
			n.env[in] = v
		}
		n.phis = true
	}
	var items []*Item
	cur := it
	for _, o := range c.Args[1:] {
		e := cur.st.F.simp(mkEq(k, o.Args[0]))
		r := cur.st.F.evalBool(e)
		if r == tTrue {
			set(cur, o.Args[1], tTrue)
			return append(items, cur)
		}
		if r == tFalse {
			continue
		}
		y := cur.clone()
		if y.st.F.add(e) {
			set(y, o.Args[1], tTrue)
			items = append(items, y)
		}
		if !cur.st.F.add(mkNot(e)) {
			return items
		}
	}
	set(cur, zeroOf(elem), tFalse)
	return append(items, cur)
}

func (ex *Exec) access(st *State, a *Term, write bool) {
	if ex.onAccess != nil {
		ex.onAccess(st, ex.resolve(st, a), write)
	}
}

// mapGet reads a present key.
func (ex *Exec) mapGet(st *State, x, k *Term, elem types.Type) *Term {
	k = st.F.simp(k)
	if isMapT(elem) {
		return ex.mlRef(st, x, k, elem)
	}
	c := ex.content(st, x)
	return st.F.simp(mkLookup(c, k, elem))
}

// mayAlias: another key under which an inner map of x was changed, and whether it surely is the same.
func (ex *Exec) mayAlias(st *State, x, k *Term) (*Term, bool) {
	var best *Term
	for a := range st.heap {
		if a.Op != "ml" || a.Args[0] != x || a.Args[1] == k {
			continue
		}
		switch st.F.evalBool(st.F.simp(mkEq(a.Args[1], k))) {
		case tFalse:
		case tTrue:
			if st.heap[mk("ml", "", a.Typ, x, k)] == nil {
				return a.Args[1], true
			}
		default:
			if best == nil || a.Args[1].id < best.id {
				best = a.Args[1]
			}
		}
	}
	return best, false
}

// mlRef is the reference to the inner map of a nested map.
func (ex *Exec) mlRef(st *State, x, k *Term, elem types.Type) *Term {
	k = st.unbind(k)
	return mk("ml", "", elem, x, k)
}

func (ex *Exec) mapUpdate(st *State, m, k, v *Term, pos token.Pos) {
	k = st.unbind(st.F.simp(k))
	c := ex.content(st, m)
	if isNestedMap(m.Typ) {
		elem := m.Typ.Underlying().(*types.Map).Elem()
		place := ex.mlRef(st, m, k, elem)
		r := ex.resolve(st, v)
		if r == place {
			return
		}
		in := st.F.evalBool(st.F.simp(mkIn(c, k)))
		newc := ex.content(st, r)
		if !(in == tFalse && newc.Op == "mapempty") {
			// the previous content is replaced
			if r.Op == "nil" {
				newc = mk("mapempty", "", elem)
			}
			st.heap[place] = newc
		}
		if r.Op == "obj" {
			st.alias[r] = place
		}
		if in != tTrue {
			st.heap[m] = mkMap(c, mk("set", "", nil, k, mk("ml", "", elem, m, k)))
		}
		if ex.onStore != nil {
			ex.onStore(st, m, v, pos)
		}
		return
	}
	if ex.onStore != nil {
		ex.onStore(st, m, v, pos)
	}
	st.heap[m] = mkMap(c, mk("set", "", nil, k, v))
}

func (ex *Exec) mapDelete(st *State, m, k *Term) {
	m = ex.resolve(st, m)
	k = st.unbind(st.F.simp(k))
	if ex.onStore != nil {
		ex.onStore(st, m, tNil, token.NoPos)
	}
	c := ex.content(st, m)
	if c.Op == "nil" {
		return
	}
	st.heap[m] = mkMap(c, mk("del", "", nil, k))
}

func (ex *Exec) nilMap(it *Item, m *Term, pos token.Pos) (*Item, []Outcome) {
	if m.Op == "obj" || !ex.panics && m.Op != "ml" {
		return it, nil
	}
	key := ex.p.pos(pos) + " map write"
	ex.obls[key] = true
	st := it.st
	var cond *Term
	if m.Op == "ml" {
		cond = mkNot(mkIn(ex.content(st, m.Args[0]), m.Args[1]))
	} else {
		cond = mkEq(m, tNil)
	}
	cond = st.F.simp(cond)
	switch st.F.evalBool(cond) {
	case tFalse:
		return it, nil
	case tTrue:
		return nil, []Outcome{{st: st, panic: "write to a nil map at " + key, pos: pos}}
	}
	p := it.clone()
	var outs []Outcome
	if p.st.F.add(cond) && p.st.F.consistent(2) {
		outs = append(outs, Outcome{st: p.st, panic: "write to a nil map at " + key, pos: pos})
	}
	return it, outs
}

func (ex *Exec) bounds(it *Item, x, i *Term, pos token.Pos) (*Item, []Outcome) {
	if !ex.panics {
		return it, nil
	}
	key := ex.p.pos(pos) + " index"
	ex.obls[key] = true
	st := it.st
	n := mkLen(ex.content(st, x))
	if l, ok := ex.objLen[ex.resolve(st, x)]; ok {
		n = l // the length of a slice made with make never changes
	}
	ok := st.F.simp(mkAnd(mkLt(i, n), mkNot(mkLt(i, tZero))))
	switch st.F.evalBool(ok) {
	case tTrue:
		return it, nil
	}
	p := it.clone()
	var outs []Outcome
	if p.st.F.add(mkNot(ok)) && p.st.F.consistent(2) {
		outs = append(outs, Outcome{st: p.st, panic: "index out of range at " + key + ": " + short(i) + " of " + short(n), pos: pos})
	}
	return it, outs
}

func (ex *Exec) fresh(st *State, what string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(what)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	n := st.occ[k]
	st.occ[k] = n + 1
	s := what
	if ph := st.occ["$phase"]; ph > 0 {
		s += fmt.Sprintf("@%d", ph)
	}
	if n > 0 {
		s = fmt.Sprintf("%s#%d", what, n)
	}
	return mk("call", s, typ, args...)
}

func (ex *Exec) binop(it *Item, in *ssa.BinOp) ([]*Item, []Outcome) {
	st := it.st
	x, y := ex.val(it, in.X), ex.val(it, in.Y)
	xt := in.X.Type()
	b := basicOf(xt)
	isInt := b != nil && b.Info()&types.IsInteger != 0
	isStr := b != nil && b.Info()&types.IsString != 0
	var r *Term
	switch in.Op {
	case token.ADD:
		switch {
		case isInt:
			r = mkAdd(x, y, 1, in.Type())
		case isStr:
			r = mkConcat(x, y)
		default:
			r = opTerm("+", in.Type(), x, y)
		}
	case token.SUB:
		if isInt {
			r = mkAdd(x, y, -1, in.Type())
		} else {
			r = opTerm("-", in.Type(), x, y)
		}
	case token.MUL:
		if isInt {
			r = mkMul(x, y, in.Type())
		} else {
			r = opTerm("*", in.Type(), x, y)
		}
	case token.EQL, token.NEQ:
		r = ex.eqTerm(st, x, y)
		if in.Op == token.NEQ {
			r = mkNot(r)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, c := x, y
		switch in.Op {
		case token.GTR:
			a, c = y, x
		case token.LEQ:
			a, c = y, x
		}
		// now strict a<c, possibly negated
		neg := in.Op == token.LEQ || in.Op == token.GEQ
		if in.Op == token.GEQ {
			a, c = x, y
		}
		if isInt {
			r = mkLt(a, c)
		} else {
			r = mk("lt", "", types.Typ[types.Bool], a, c)
			if a.Op == "c" && c.Op == "c" {
				r = constLt(a, c)
			}
		}
		if neg {
			r = mkNot(r)
		}
	default:
		r = opTerm(in.Op.String(), in.Type(), x, y)
	}
	it.env[in] = r
	return one1(it), nil
}

func constLt(a, c *Term) *Term {
	if s, ok := a.strVal(); ok {
		if u, ok := c.strVal(); ok {
			return tBool(s < u)
		}
	}
	return mk("lt", "", types.Typ[types.Bool], a, c)
}

func opTerm(op string, typ types.Type, x, y *Term) *Term {
	if a, ok := x.intVal(); ok {
		if b, ok := y.intVal(); ok && b != 0 {
			if bb := basicOf(typ); bb != nil && bb.Info()&types.IsInteger != 0 {
				switch op {
				case "/":
					return tInt(a / b)
				case "%":
					return tInt(a % b)
				}
			}
		}
	}
	switch op {
	case "+", "*", "&", "|", "^":
		if x.id > y.id {
			x, y = y, x
		}
	}
	return mk("op", op, typ, x, y)
}

// eqTerm is the equality of two Go values.
func (ex *Exec) eqTerm(st *State, x, y *Term) *Term {
	if x == tNil || y == tNil {
		z := x
		if x == tNil {
			z = y
		}
		z = ex.resolve(st, z)
		if z.Op == "ml" {
			return mkNot(mkIn(ex.content(st, z.Args[0]), z.Args[1]))
		}
		if z.Op == "obj" || z.Op == "gmap" {
			return tFalse
		}
		return mkEq(z, tNil)
	}
	// comparison of interface values holding constants etc.
	if x.Op == "iface" && y.Op == "iface" {
		if typeStr(x.Typ) != typeStr(y.Typ) {
			return tFalse
		}
		return ex.eqTerm(st, x.Args[0], y.Args[0])
	}
	x, y = ex.resolve(st, x), ex.resolve(st, y)
	if x.Op == "obj" && y.Op == "obj" && x != y {
		return tFalse
	}
	if x.Op == "obj" || y.Op == "obj" {
		// a fresh object differs from everything that existed before
		o, z := x, y
		if y.Op == "obj" {
			o, z = y, x
		}
		if !occurs(o, z) && z.Op != "ph" && z.Op != "self" && z.Op != "fold" && z.Op != "pre" && z.Op != "lookup" {
			return tFalse
		}
		// published objects are named by the order of publication
		if id := st.heap[mkFA(o, "$pub", nil)]; id != nil {
			if o == x {
				x = id
			} else {
				y = id
			}
		}
	}
	if s := structOf(x.Typ); s != nil && (x.Op == "struct" || x.Op == "zero" || y.Op == "struct" || y.Op == "zero") {
		var cj []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			cj = append(cj, ex.eqTerm(st, mkSel(x, f.Name(), f.Type()), mkSel(y, f.Name(), f.Type())))
		}
		return mkAnd(cj...)
	}
	return mkEq(x, y)
}

func (ex *Exec) typeAssert(it *Item, in *ssa.TypeAssert) (items []*Item, outs []Outcome) {
	x := ex.val(it, in.X)
	T := in.AssertedType
	is := it.st.F.simp(mkIsType(x, T, ""))
	set := func(n *Item, ok bool) {
		v := mkAssert(x, T, "")
		if !ok {
			v = zeroOf(T)
		}
		if in.CommaOk {
			n.env[in] = mk("tuple", "", in.Type(), v, tBool(ok))
		} else {
			n.env[in] = v
		}
		n.phis = true
	}
	r := it.st.F.evalBool(is)
	if in.CommaOk {
		if r != nil {
			set(it, r == tTrue)
			return one1(it), nil
		}
		a := it.clone()
		if it.st.F.add(is) {
			set(it, true)
			items = append(items, it)
		}
		if a.st.F.add(mkNot(is)) {
			set(a, false)
			items = append(items, a)
		}
		return items, nil
	}
	key := ex.p.pos(in.Pos()) + " assertion to " + shortT(typeStr(T))
	ex.obls[key] = true
	if r == nil && ex.panics {
		p := it.clone()
		if p.st.F.add(mkNot(is)) && p.st.F.consistent(2) {
			outs = append(outs, Outcome{st: p.st, panic: "failing type assertion at " + key, pos: in.Pos()})
		}
	}
	if r == tFalse {
		return nil, []Outcome{{st: it.st, panic: "failing type assertion at " + key, pos: in.Pos()}}
	}
	if r == nil && !types.IsInterface(T) {
		it.st.F.addImp(is)
	}
	set(it, true)
	return one1(it), outs
}

func (ex *Exec) slice(it *Item, in *ssa.Slice) ([]*Item, []Outcome) {
	st := it.st
	x := ex.resolve(st, ex.val(it, in.X))
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok && in.High == nil && in.Low == nil {
			it.env[in] = ex.arraySeq(st, x)
			return one1(it), nil
		}
		undec("slicing of an array in %s", in.Parent())
	}
	lo, hi := tZero, (*Term)(nil)
	if in.Low != nil {
		lo = ex.val(it, in.Low)
	}
	if in.High != nil {
		hi = ex.val(it, in.High)
	}
	c := ex.content(st, x)
	if lo == tZero && hi == nil {
		it.env[in] = x
		return one1(it), nil
	}
	if hi == tZero && lo == tZero {
		if isStringT(in.Type()) {
			it.env[in] = tEmpty
		} else {
			it.env[in] = tNil
		}
		return one1(it), nil
	}
	// bounds obligation
	var outs []Outcome
	n := mkLen(c)
	h := hi
	if h == nil {
		h = n
	}
	if ex.panics {
		key := ex.p.pos(in.Pos()) + " slice bounds"
		ex.obls[key] = true
		ok := st.F.simp(mkAnd(mkNot(mkLt(lo, tZero)), mkNot(mkLt(h, lo)), mkNot(mkLt(n, h))))
		if st.F.evalBool(ok) != tTrue {
			p := it.clone()
			if p.st.F.add(mkNot(ok)) && p.st.F.consistent(2) {
				outs = append(outs, Outcome{st: p.st, panic: "slice bounds out of range at " + key, pos: in.Pos()})
			}
		}
	}
	it.env[in] = mkSlice(c, lo, hi, in.Type())
	return one1(it), outs
}

func mkSlice(c, lo, hi *Term, typ types.Type) *Term {
	if isStringT(typ) {
		if r := cutSlice(c, lo, hi); r != nil {
			return r
		}
	}
	if c.Op == "seq" {
		// drop constant prefixes of single elements
		if n, ok := lo.intVal(); ok {
			parts := c.Args
			for n > 0 && len(parts) > 0 && parts[0].Op == "one" {
				parts = parts[1:]
				n--
			}
			if n == 0 && hi == nil {
				return mkSeq(typ, parts...)
			}
			if n == 0 {
				if m, ok := hi.intVal(); ok {
					l0, _ := lo.intVal()
					m -= l0
					if int64(len(parts)) >= m {
						all := true
						for _, p := range parts[:m] {
							if p.Op != "one" {
								all = false
							}
						}
						if all {
							return mkSeq(typ, parts[:m]...)
						}
					}
				}
			}
		}
	}
	if s, ok := c.strVal(); ok {
		l, ok1 := lo.intVal()
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return tStr(s[l:h])
		}
	}
	if hi == nil {
		return mk("slice", "", typ, c, lo)
	}
	return mk("slice", "", typ, c, lo, hi)
}

func (ex *Exec) selectInstr(it *Item, in *ssa.Select) (items []*Item, outs []Outcome) {
	// result tuple: index, recvOk, recv values...
	st := it.st
	tt := in.Type().(*types.Tuple)
	var chans []*Term
	never := map[int]bool{}
	for i, s := range in.States {
		ch := ex.val(it, s.Chan)
		if ex.neverReady != nil && ex.neverReady(st.F.simp(ch), s.Dir == types.SendOnly) {
			never[i] = true
			continue
		}
		dir := "r"
		if s.Dir == types.SendOnly {
			dir = "s"
		}
		chans = append(chans, mk("alt", dir, nil, ch))
	}
	n := len(in.States)
	total := n
	if !in.Blocking {
		total++
	}
	if ex.script != nil {
		for i, s := range in.States {
			if ex.alwaysReady != nil && ex.alwaysReady(st.F.simp(ex.val(it, s.Chan)), s.Dir == types.SendOnly) {
				// nothing else needs to be ready
				total = n
				chans = []*Term{nil}
				for k := range in.States {
					never[k] = k != i
				}
				break
			}
		}
		if in.Blocking && len(chans) == 0 {
			return nil, []Outcome{{st: st, panic: "blocks for good at " + ex.p.pos(in.Pos()), pos: in.Pos()}}
		}
		if in.Blocking {
			if o := ex.script.spend(st); o != nil {
				return nil, []Outcome{*o}
			}
		}
		if !in.Blocking && n == 1 && !never[0] && in.States[0].Dir == types.RecvOnly && ex.drained != nil && ex.drained(st.F.simp(ex.val(it, in.States[0].Chan))) {
			if len(st.ev) == 0 || st.ev[len(st.ev)-1].Str != "drain" {
				st.emit("drain", ex.val(it, in.States[0].Chan))
			}
			never[0] = true
			chans = nil
		}
	}
	// the channel operations that can be chosen; a single blocking one is a plain operation
	single := in.Blocking && len(chans) == 1 && chans[0] != nil
	quiet := !in.Blocking && len(chans) == 0 || len(chans) == 1 && chans[0] == nil
	for k := 0; k < total; k++ {
		if never[k] {
			continue
		}
		nit := it.clone()
		vals := make([]*Term, tt.Len())
		if k < n {
			vals[0] = tInt(int64(k))
		} else {
			vals[0] = tInt(-1)
		}
		vals[1] = tFalse
		r := 0
		var chosen *Term
		for j, s := range in.States {
			if s.Dir == types.RecvOnly {
				el := s.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == k {
					v := ex.fresh(nit.st, "recv", el, ex.val(it, s.Chan))
					vals[2+r] = v
					vals[1] = ex.recvOK(nit.st, ex.val(it, s.Chan))
					if ex.recvNonNil != nil && ex.recvNonNil(st.F.simp(ex.val(it, s.Chan))) {
						nit.st.F.addImp(mkNot(mkEq(v, tNil)))
					}
					chosen = mk("chosen", "recv", nil, ex.val(it, s.Chan), v)
				} else {
					vals[2+r] = zeroOf(el)
				}
				r++
			} else if j == k {
				chosen = mk("chosen", "send", nil, ex.val(it, s.Chan), ex.freeze(st, ex.val(it, s.Send), 0))
			}
		}
		if chosen == nil {
			chosen = mk("chosen", "default", nil)
		}
		if !single && !quiet {
			// the choice is a fact of the path
			n := nit.st.occ["$choice"]
			nit.st.occ["$choice"]++
			ok := true
			for _, a := range append(append([]*Term(nil), chans...), mk("alt", "d", nil)) {
				if in.Blocking && a.Str == "d" {
					continue
				}
				mine := a.Str == "d" && k >= n0(in) || a.Str != "d" && k < n0(in) && a.Args[0] == ex.val(it, in.States[k].Chan)
				b := mkCall(fmt.Sprintf("chosen#%d", n), types.Typ[types.Bool], []*Term{a})
				if !mine {
					b = mkNot(b)
				}
				ok = ok && nit.st.F.add(b)
			}
			if !ok {
				continue
			}
		}
		name := "select"
		if !in.Blocking {
			name = "selectnb"
		}
		switch {
		case quiet:
		case len(chans) == 1 && chosen.Str == "send" && ex.onSend != nil && ex.onSend(nit.st, chosen.Args[0], ex.val(it, in.States[k].Send)):
		case len(chans) == 1 && chosen.Str == "default" && ex.onSend != nil && ex.trySend(nit.st, it, in, never):
			// an attempt that did not wait
		case single:
			nit.st.emit(chosen.Str, chosen.Args...)
		default:
			sorted := append([]*Term(nil), chans...)
			sort.Slice(sorted, func(a, b int) bool { return sorted[a].id < sorted[b].id })
			nit.st.emit(name, append([]*Term{chosen}, sorted...)...)
		}
		if !quiet && in.Blocking {
			ex.yieldPoint(nit.st)
		}
		nit.env[in] = mk("tuple", "", in.Type(), vals...)
		nit.phis = true
		items = append(items, nit)
	}
	return items, outs
}

// trySend: the only thing that could be chosen besides going on is to pass on a request.
func (ex *Exec) trySend(st *State, it *Item, in *ssa.Select, never map[int]bool) bool {
	for k, s := range in.States {
		if !never[k] {
			return s.Dir == types.SendOnly && ex.onSend(st.clone(), ex.val(it, s.Chan), ex.val(it, s.Send))
		}
	}
	return false
}

func n0(in *ssa.Select) int { return len(in.States) }

func (ex *Exec) recvOK(st *State, ch *Term) *Term {
	if ex.neverClosed != nil && ex.neverClosed(st.F.simp(ch)) {
		return tTrue
	}
	return ex.fresh(st, "recvok", types.Typ[types.Bool], ch)
}

// chanField is the field that a new channel is kept in, "" if it is not stored in a field directly.
func chanField(in *ssa.MakeChan) string {
	name := ""
	for _, r := range *in.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Val != in {
			continue
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			n := fieldName(structOf0(fa.X.Type()), fa.Field) + ":"
			if name != "" && name != n {
				return ""
			}
			name = n
		}
	}
	return name
}

// unbind names a key by the iteration it belongs to, also where the path knows its value.
func (st *State) unbind(k *Term) *Term {
	if !k.isConst() {
		return k
	}
	best := k
	for x, c := range st.F.eqc {
		if c == k && x.Op == "key" && (best == k || x.id > best.id) {
			best = x
		}
	}
	return best
}
