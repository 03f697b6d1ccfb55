package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ind struct {
	init *Term
	step int64
}

// place is something a loop changes: a phi of the header or a memory place.
type place struct {
	phi  *ssa.Phi
	addr *Term
	init *Term
	ph   *Term
	typ  types.Type
	// per continuing path
	final *Term
}

func phiEdges(l *Loop, p *ssa.Phi) (entry []ssa.Value, latch []ssa.Value) {
	for j, pr := range l.header.Preds {
		if l.blocks[pr] {
			latch = append(latch, p.Edges[j])
		} else {
			entry = append(entry, p.Edges[j])
		}
	}
	return
}

func constAdd(v ssa.Value, p *ssa.Phi) (int64, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.X != p {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	bt, ok := c.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return 0, false
	}
	n := c.Int64()
	switch b.Op {
	case token.ADD:
		return n, true
	case token.SUB:
		return -n, true
	}
	return 0, false
}

// enterLoop summarises a loop entered by an item; the result are the items behind it.
// loopMemo: what changed in a loop when it was last entered.
type loopMemo struct {
	addrs map[*Term]types.Type
	inv   map[*ssa.Phi]bool
}

func (ex *Exec) enterLoop(fr *Frame, l *Loop, it *Item) (items []*Item, outs []Outcome) {
	ex.nloops++
	if it.reenters(l) {
		var rest []*Loop
		for _, x := range it.again {
			if x != l {
				rest = append(rest, x)
			}
		}
		it.again = rest
	}
	// phi initial values
	inds := map[*ssa.Phi]ind{}
	inits := map[*ssa.Phi]*Term{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		for j, pr := range l.header.Preds {
			if pr == it.prev {
				inits[p] = ex.val(it, p.Edges[j])
			}
		}
		if b := basicOf(p.Type()); b != nil && b.Info()&types.IsInteger != 0 {
			_, latch := phiEdges(l, p)
			step := int64(0)
			ok := len(latch) > 0
			for k, e := range latch {
				n, isAdd := constAdd(e, p)
				if !isAdd || n == 0 || (k > 0 && n != step) {
					ok = false
					break
				}
				step = n
			}
			if ok {
				inds[p] = ind{inits[p], step}
			}
		}
	}
	occ := 0
	mkIx := func(dom *Term) *Term {
		occ = 0
		for _, a := range ex.active {
			if a.Args[0] == dom {
				occ++
			}
		}
		return mk("ix", fmt.Sprint(occ), types.Typ[types.Int], dom)
	}

	mark := ex.nobj
	// the places written in the body
	var places []*place
	byAddr := map[*Term]*place{}
	invariant := map[*Term]bool{} // found not to change
	phiInv := map[*ssa.Phi]bool{}
	blacklist := map[interface{}]bool{}
	ex.loopN++
	uid := ex.loopN

	// 1. the domain
	dom, iter := ex.domain(fr, l, it, phis, inds, inits, uid)
	more := false // other parts of the sequence follow
	if dom.Op == "count" {
		p, last := ex.segment(it, l, dom)
		if p != nil && p.Op != "one" && !last {
			dom, more = mk("count", "", nil, mkLen(mkSeq(nil, p))), true
		}
		if n, ok := dom.Args[0].intVal(); (ok && n <= 24) || (p != nil && p.Op == "one") {
			// constant trip count: run it
			n2 := it.clone()
			for _, p := range phis {
				n2.env[p] = inits[p]
			}
			n2.phis = true
			n2.i = firstNonPhi(l.header)
			n2.blk = l.header
			if _, known := dom.Args[0].intVal(); !known && !last {
				n2.again = append(n2.again[:len(n2.again):len(n2.again)], l)
			}
			return one1(n2), nil
		}
	}
	if dom.Op == "while" && ex.script != nil {
		// the loop of a goroutine: run it until the budget of actions is spent
		n2 := it.clone()
		for _, p := range phis {
			n2.env[p] = inits[p]
		}
		n2.phis = true
		n2.i = firstNonPhi(l.header)
		n2.blk = l.header
		return one1(n2), nil
	}
	if dom.Op == "mapdom" && iter != nil && ixEmpty(mk("ix", "0", nil, dom)) {
		n2 := it.clone()
		for _, p := range phis {
			n2.env[p] = inits[p]
		}
		n2.iters[iter] = nil
		n2.phis = true
		n2.i = firstNonPhi(l.header)
		n2.blk = l.header
		return one1(n2), nil
	}
	// a map of a few known keys: run the loop, in the order of the insertions
	if dom.Op == "mapdom" && iter != nil {
		if ks, ok := knownKeys(it.st.F, dom.Args[0]); ok {
			n2 := it.clone()
			for _, p := range phis {
				n2.env[p] = inits[p]
			}
			n2.iters[iter] = mk("iterlist", "", nil, ks...)
			n2.phis = true
			n2.i = firstNonPhi(l.header)
			n2.blk = l.header
			return one1(n2), nil
		}
	}
	ix := mkIx(dom)

	rots := ex.rotations(l, it, inds, inits)
	var conts, exits []*Item
	var pouts []Outcome
	var start *Item
	// a nested loop is entered again in each round of the loop around it: start from the places found last time
	lm := ex.loopMemo[l]
	if lm == nil {
		lm = &loopMemo{addrs: map[*Term]types.Type{}, inv: map[*ssa.Phi]bool{}}
		if ex.loopMemo == nil {
			ex.loopMemo = map[*Loop]*loopMemo{}
		}
		ex.loopMemo[l] = lm
	} else if len(ex.active) > 0 {
		for a, typ := range lm.addrs {
			if old, had := it.st.heap[a]; had && !occursFree(ix, a) {
				byAddr[a] = &place{addr: a, init: old, typ: typ, ph: mk("ph", fmt.Sprintf("%d:a%d", uid, a.id), typ)}
			}
		}
		for p := range lm.inv {
			if _, ok := inds[p]; !ok {
				phiInv[p] = true
			}
		}
	}
	for round := 0; ; round++ {
		if round > 25 {
			undec("loop in %s does not stabilise", fr.fn)
		}
		places = places[:0]
		b := it.clone()
		b.blk = l.header
		for k, p := range phis {
			if id, ok := inds[p]; ok {
				b.env[p] = mkAdd(id.init, mkMul(ix, tInt(id.step), p.Type()), 1, p.Type())
				continue
			}
			if phiInv[p] {
				b.env[p] = inits[p]
				continue
			}
			pl := &place{phi: p, init: inits[p], typ: p.Type()}
			pl.ph = mk("ph", fmt.Sprintf("%d:%d", uid, k), p.Type())
			if o, ok := isObjPlace(inits[p]); ok {
				_ = o
			}
			b.env[p] = pl.ph
			places = append(places, pl)
		}
		var addrs []*Term
		for a := range byAddr {
			addrs = append(addrs, a)
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].id < addrs[j].id })
		for _, a := range addrs {
			if invariant[a] {
				continue
			}
			pl := byAddr[a]
			b.st.heap[a] = pl.ph
			places = append(places, pl)
		}
		if iter != nil {
			b.iters[iter] = ix
		}
		b.phis = true
		b.i = firstNonPhi(l.header)
		start = b.clone()
		ex.active = append(ex.active, ix)
		conts, exits, pouts = ex.run(fr, []*Item{b}, l)
		ex.active = ex.active[:len(ex.active)-1]
		for _, r := range rots {
			conts, exits = ex.rotate(r, l, conts, exits)
		}

		// newly written places
		again := false
		for _, c := range conts {
			for a, v := range c.st.heap {
				old, had := start.st.heap[a]
				if had && old == v {
					continue
				}
				if byAddr[a] != nil {
					if invariant[a] {
						delete(invariant, a)
						blacklist[a] = true
						again = true
					}
					continue
				}
				if localTo(a, mark) || occursFree(ix, a) {
					continue
				}
				typ := derefAddrType(a)
				if !had {
					old = ex.initialPlace(it.st, a, typ)
				}
				byAddr[a] = &place{addr: a, init: old, typ: typ, ph: mk("ph", fmt.Sprintf("%d:a%d", uid, a.id), typ)}
				again = true
			}
			for _, p := range phis {
				if phiInv[p] && ex.latchVal(c, l, p) != inits[p] {
					delete(phiInv, p)
					blacklist[p] = true
					again = true
				}
			}
		}
		if again {
			continue
		}
		// invariants
		for _, pl := range places {
			same := true
			for _, c := range conts {
				if ex.after(c, l, pl) != pl.ph && ex.after(c, l, pl) != pl.init {
					same = false
					break
				}
			}
			if same {
				if pl.phi != nil && !blacklist[pl.phi] {
					phiInv[pl.phi] = true
					again = true
				}
				if pl.addr != nil && !blacklist[pl.addr] {
					invariant[pl.addr] = true
					again = true
				}
			}
		}
		if !again {
			break
		}
	}
	lm.addrs, lm.inv = map[*Term]types.Type{}, map[*ssa.Phi]bool{}
	for a, pl := range byAddr {
		if !invariant[a] {
			lm.addrs[a] = pl.typ
		}
	}
	for p := range phiInv {
		lm.inv[p] = true
	}
	for _, o := range pouts {
		if o.panic != "" && dom.Op == "mapdom" {
			// an iteration needs an entry
			if f := o.st.F.clone(); !f.add(f.simp(mkNot(mkEq(mkLen(dom.Args[0]), tZero)))) {
				continue
			}
		}
		outs = append(outs, o)
	}

	// 2. summaries
	nbase := len(it.st.F.lits)
	type cse struct {
		guard *Term
		lits  []*Term
		vals  []*Term
		evs   []*Term
		it    *Item
	}
	var cases []cse
	for _, c := range conts {
		lits := c.st.F.lits[nbase:]
		cs := cse{lits: lits, guard: mkAnd(lits...), it: c}
		for _, pl := range places {
			cs.vals = append(cs.vals, ex.freeze(c.st, ex.after(c, l, pl), mark))
		}
		cs.evs = append(cs.evs, c.st.ev[len(it.st.ev):]...)
		for i, e := range cs.evs {
			cs.evs[i] = ex.freeze(c.st, e, mark)
		}
		// stores to places that depend on the iteration
		var sas []*Term
		for a, v := range c.st.heap {
			if old, had := start.st.heap[a]; had && old == v {
				continue
			}
			if byAddr[a] != nil || localTo(a, mark) {
				continue
			}
			if occursFree(ix, a) {
				sas = append(sas, a)
			}
		}
		sort.Slice(sas, func(i, j int) bool { return sas[i].id < sas[j].id })
		for _, a := range sas {
			cs.evs = append(cs.evs, mk("ev", "store", nil, a, ex.freeze(c.st, c.st.heap[a], mark)))
		}
		cases = append(cases, cs)
	}
	// guards of the early exits
	var exitG []*Term
	for _, e := range exits {
		exitG = append(exitG, mkAnd(e.st.F.lits[nbase:]...))
	}
	for _, o := range pouts {
		exitG = append(exitG, mkAnd(o.st.F.lits[nbase:]...))
	}

	rawExit := append([]*Term(nil), exitG...)
	// dependencies between places through placeholders
	var finals = map[*Term]*Term{} // ph -> final term
	state := map[*Term]int{}
	var final func(k int) *Term
	phIdx := map[*Term]int{}
	for k, pl := range places {
		phIdx[pl.ph] = k
	}
	subPre := func(t *Term, self *Term, selfRep *Term) *Term {
		m := map[*Term]*Term{}
		for _, pl := range places {
			if pl.ph == self {
				if selfRep != nil {
					m[pl.ph] = selfRep
				}
				continue
			}
			if occurs(pl.ph, t) {
				m[pl.ph] = mkPre(ix, final(phIdx[pl.ph]), places[phIdx[pl.ph]].init, pl.typ)
			}
		}
		return subst(t, m)
	}
	final = func(k int) *Term {
		pl := places[k]
		if f, ok := finals[pl.ph]; ok {
			return f
		}
		if state[pl.ph] == 1 {
			// mutual dependency
			return mk("cyc", fmt.Sprint(k), pl.typ, ix)
		}
		state[pl.ph] = 1
		var gs, vs []*Term
		for _, c := range cases {
			gs = append(gs, c.guard)
			vs = append(vs, c.vals[k])
		}
		// exit paths take part in the partition of the iteration but do not continue
		f := ex.summary(it.st, pl, ix, gs, vs, rawExit, func(t *Term, self bool) *Term {
			if self {
				return subPre(t, pl.ph, mk("self", "", nil, ix))
			}
			return subPre(t, pl.ph, nil)
		}, len(exitG) > 0)
		state[pl.ph] = 2
		finals[pl.ph] = f
		return f
	}
	for k := range places {
		final(k)
	}
	// events
	var loopev *Term
	anyEv := false
	for _, c := range cases {
		if len(c.evs) > 0 {
			anyEv = true
		}
	}
	if anyEv {
		var raw []*Term
		for _, c := range cases {
			raw = append(raw, mk("case", "", nil, append([]*Term{c.guard}, c.evs...)...))
		}
		var gs []*Term
		var ps [][]*Term
		for _, c := range canonWithDC(raw, rawExit) {
			var es []*Term
			for _, e := range c.Args[1:] {
				es = append(es, subPre(e, nil, nil))
			}
			gs = append(gs, subPre(c.Args[0], nil, nil))
			ps = append(ps, es)
		}
		loopev = mkBinder("loopev", ix, mergeCases(gs, ps), nil)
	}
	for i, g := range exitG {
		exitG[i] = subPre(g, nil, nil)
	}

	// 3. early exits
	exists := tFalse
	var fl *flat
	if len(exitG) > 0 {
		exists = mkExists(ix, mergeGuards(exitG))
		if dom.Op == "count" {
			fl = flatOf(ix, mergeGuards(exitG))
		}
	}
	type exitItem struct {
		n     *Item
		guard *Term
		imps  []*Term
		key   string
	}
	var eis []exitItem
	for _, e := range exits {
		at := mkFirst(exists, ix)
		if dom.Op == "while" {
			at = ix
		}
		n := it.clone()
		if dom.Op != "while" {
			if !n.st.F.add(exists) {
				continue
			}
		}
		m := map[*Term]*Term{ix: at}
		sb := func(t *Term) *Term { return subst(subPre(t, nil, nil), m) }
		if fl != nil {
			// the element found is the first one of the first part that has one
			inner := mkFirst(fl.inner(mergeGuards(exitG)), fl.in)
			m = map[*Term]*Term{ix: mk("first", "flat", types.Typ[types.Int], exists)}
			sb = func(t *Term) *Term {
				t = subst(subPre(t, nil, nil), fl.elems)
				t = subst(t, map[*Term]*Term{fl.in: inner})
				return subst(subst(t, map[*Term]*Term{fl.outer: at}), m)
			}
		}
		x := exitItem{n: n}
		x.guard = sb(mkAnd(e.st.F.lits[nbase:]...))
		if n.st.F.evalBool(n.st.F.simp(x.guard)) == tFalse {
			continue
		}
		for _, l := range e.st.F.imp[len(it.st.F.imp):] {
			x.imps = append(x.imps, sb(l))
		}
		live := ex.liveIn(e.blk)
		n.env = map[ssa.Value]*Term{}
		var roots []*Term
		for v, t := range e.env {
			if !live[v] {
				continue
			}
			if o, ok := it.env[v]; ok && o == t {
				n.env[v] = t
			} else {
				n.env[v] = sb(t)
			}
			roots = append(roots, n.env[v])
		}
		n.st.heap = map[*Term]*Term{}
		for a, t := range e.st.heap {
			if o, ok := it.st.heap[a]; ok && o == t {
				n.st.heap[a] = t
				continue
			}
			n.st.heap[sb(a)] = sb(t)
		}
		for a, t := range e.st.alias {
			if _, ok := it.st.alias[a]; ok {
				n.st.alias[a] = t
			} else {
				n.st.alias[sb(a)] = sb(t)
			}
		}
		for k, v := range e.st.occ {
			n.st.occ[k] = v
		}
		if loopev != nil {
			n.st.ev = append(n.st.ev[:len(n.st.ev):len(n.st.ev)], mkPreEv(at, loopev))
		}
		for _, ev := range e.st.ev[len(it.st.ev):] {
			n.st.ev = append(n.st.ev[:len(n.st.ev):len(n.st.ev)], sb(ev))
		}
		n.blk, n.prev, n.i, n.phis = e.blk, e.prev, 0, false
		n.defers = e.defers
		n.st.F.memo = nil
		for _, d := range n.defers {
			roots = append(roots, d.fn)
			roots = append(roots, d.args...)
		}
		gc(n.st, roots, mark)
		x.key = exitKey(n)
		eis = append(eis, x)
	}
	var keys []string
	byKey := map[string][]exitItem{}
	for _, x := range eis {
		if byKey[x.key] == nil {
			keys = append(keys, x.key)
		}
		byKey[x.key] = append(byKey[x.key], x)
	}
	cond := map[string]*Term{}
	last := ""
	for _, k := range keys {
		var gs []*Term
		for _, x := range byKey[k] {
			gs = append(gs, x.guard)
		}
		cond[k] = orOf(gs)
		if last == "" || cond[k].size >= cond[last].size {
			last = k
		}
	}
	for _, k := range keys {
		g := byKey[k]
		n := g[0].n
		c := cond[k]
		if len(keys) > 1 && k == last && dom.Op != "while" && len(pouts) == 0 {
			// at the first such index one of the guards holds: the last one if none of the others does
			for _, k2 := range keys {
				if k2 != k {
					n.st.F.add(mkNot(cond[k2]))
				}
			}
			n.st.F.addImp(c)
		} else if len(keys) == 1 && dom.Op != "while" && len(pouts) == 0 {
			// the only way out: at the first such index one of the guards holds anyway
			n.st.F.addImp(c)
		} else {
			n.st.F.add(c)
		}
		if n.st.F.bad {
			continue
		}
		if len(g) == 1 {
			for _, l := range g[0].imps {
				n.st.F.addImp(l)
			}
		}
		items = append(items, n)
	}

	// 4. the complete exit
	if dom.Op != "while" {
		n := it.clone()
		ok := true
		if len(exitG) > 0 {
			ok = n.st.F.add(mkNot(exists))
		}
		if ok {
			for _, p := range phis {
				if id, isInd := inds[p]; isInd {
					if dom.Op == "count" {
						n.env[p] = mkAdd(id.init, mkMul(dom.Args[0], tInt(id.step), p.Type()), 1, p.Type())
					} else {
						n.env[p] = mkAdd(id.init, mkMul(mkLen(dom.Args[0]), tInt(id.step), p.Type()), 1, p.Type())
					}
					continue
				}
				if phiInv[p] {
					n.env[p] = inits[p]
				}
			}
			for _, pl := range places {
				f := n.st.F.simp(finals[pl.ph])
				if pl.phi != nil {
					n.env[pl.phi] = f
				} else {
					n.st.heap[pl.addr] = f
				}
			}
			for _, c := range conts {
				for k, v := range c.st.occ {
					if v > n.st.occ[k] {
						n.st.occ[k] = v
					}
				}
			}
			if loopev != nil {
				n.st.ev = append(n.st.ev[:len(n.st.ev):len(n.st.ev)], n.st.F.simp(loopev))
			}
			if iter != nil {
				n.iters[iter] = nil
			}
			n.blk = l.header
			n.phis = true
			n.i = firstNonPhi(l.header)
			if more {
				return append(items, n), outs
			}
			// run the header once more: it leaves the loop
			cs, es, os := ex.runExit(fr, n, l)
			outs = append(outs, os...)
			if len(cs) > 0 {
				undec("loop exit of %s not understood: %s", fr.fn, dom)
			}
			items = append(items, es...)
		}
	}
	return items, outs
}

// exitKey identifies exits that continue in the same way.
func exitKey(n *Item) string {
	var b strings.Builder
	if r := plainReturn(n.blk); r != nil {
		b.WriteString("ret")
		for _, v := range r.Results {
			t := n.env[v]
			if c, ok := v.(*ssa.Const); ok {
				if c.Value == nil {
					t = zeroOf(c.Type())
				} else {
					t = tConst(c.Value, c.Type())
				}
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == n.blk {
				t = nil
			}
			if t == nil {
				fmt.Fprintf(&b, ",%p/%p:%s", n.blk, n.prev, v.Name())
				continue
			}
			b.WriteString("," + strconv.Itoa(t.id))
		}
	} else {
		fmt.Fprintf(&b, "%p/%p/%d", n.blk, n.prev, len(n.defers))
		var vs []string
		for v, t := range n.env {
			vs = append(vs, v.Name()+":"+strconv.Itoa(t.id))
		}
		sort.Strings(vs)
		b.WriteString(strings.Join(vs, ","))
	}
	b.WriteByte('#')
	b.WriteString(stateKey(n.st))
	return b.String()
}

// plainReturn: a block that only returns.
func plainReturn(b *ssa.BasicBlock) *ssa.Return {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Return:
			return in
		default:
			return nil
		}
	}
	return nil
}

func isObjPlace(t *Term) (*Term, bool) { return t, t.Op == "obj" }

// runExit runs the header block in the state after the last iteration.
func (ex *Exec) runExit(fr *Frame, n *Item, l *Loop) (conts, exits []*Item, outs []Outcome) {
	work := []*Item{n}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == 0 && !it.phis {
			if !l.blocks[it.blk] {
				exits = append(exits, it)
				continue
			}
			conts = append(conts, it)
			continue
		}
		its, os := ex.step(fr, it)
		outs = append(outs, os...)
		work = append(work, its...)
	}
	return
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

// latchVal is the value of a phi at the end of an iteration.
func (ex *Exec) latchVal(c *Item, l *Loop, p *ssa.Phi) *Term {
	for j, pr := range l.header.Preds {
		if pr == c.prev {
			return ex.val(c, p.Edges[j])
		}
	}
	undec("no latch")
	return nil
}

func (ex *Exec) after(c *Item, l *Loop, pl *place) *Term {
	if pl.phi != nil {
		v := ex.latchVal(c, l, pl.phi)
		return c.st.F.simp(v)
	}
	v, ok := c.st.heap[pl.addr]
	if !ok {
		return pl.ph
	}
	return c.st.F.simp(v)
}

func localTo(a *Term, mark int) bool {
	for {
		switch a.Op {
		case "fa", "ia":
			a = a.Args[0]
			continue
		case "ml":
			a = a.Args[0]
			continue
		}
		break
	}
	return a.Op == "obj" && objNum(a) > mark
}

func derefAddrType(a *Term) types.Type {
	if a.Op == "fa" || a.Op == "ia" {
		if a.Typ == nil {
			return nil
		}
		return derefT(a.Typ)
	}
	if a.Typ == nil {
		return nil
	}
	switch a.Typ.Underlying().(type) {
	case *types.Map, *types.Slice:
		return a.Typ
	}
	return derefT(a.Typ)
}

// initialPlace is the content of a place before the loop.
func (ex *Exec) initialPlace(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.heap[a]; ok {
		return v
	}
	if a.Op == "fa" || a.Op == "ia" || a.Op == "glob" {
		return ex.load(st, a, typ)
	}
	if isMapT(a.Typ) || isSliceT(a.Typ) {
		return ex.content(st, a)
	}
	if a.Op == "obj" {
		return ex.load(st, a, typ)
	}
	return ex.load(st, a, typ)
}

// domain determines what a loop ranges over.
func (ex *Exec) domain(fr *Frame, l *Loop, it *Item, phis []*ssa.Phi, inds map[*ssa.Phi]ind, inits map[*ssa.Phi]*Term, uid int) (*Term, *Term) {
	h := l.header
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	while := mk("while", "", nil)
	if !ok {
		return while, nil
	}
	exitOn := -1
	for k, s := range h.Succs {
		if !l.blocks[s] {
			exitOn = k
		}
	}
	if exitOn < 0 {
		return while, nil
	}
	// a range over a map or a string
	if e, ok := ifi.Cond.(*ssa.Extract); ok {
		if nx, ok := e.Tuple.(*ssa.Next); ok {
			itr := ex.val(it, nx.Iter)
			if itr.Str == "map" {
				return mk("mapdom", "", nil, it.st.F.simp(itr.Args[1])), itr
			}
			return mk("strdom", "", nil, itr.Args[0]), itr
		}
	}
	// evaluate the header with a provisional index
	b := it.clone()
	b.blk = h
	tmp := mk("ix", "?", types.Typ[types.Int], mk("unk", fmt.Sprint(uid), nil))
	var phs []*Term
	for k, p := range phis {
		if id, ok := inds[p]; ok {
			b.env[p] = mkAdd(id.init, mkMul(tmp, tInt(id.step), p.Type()), 1, p.Type())
			continue
		}
		ph := mk("ph", fmt.Sprintf("%d:%d", uid, k), p.Type())
		phs = append(phs, ph)
		b.env[p] = ph
	}
	b.phis = true
	b.i = firstNonPhi(h)
	// run up to the branch
	for {
		in := h.Instrs[b.i]
		if in == ifi {
			break
		}
		switch in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef:
		case *ssa.Call:
			c := in.(*ssa.Call)
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return while, nil
			}
		default:
			return while, nil
		}
		b.i++
		save := ex.panics
		ex.panics = false
		switch in := in.(type) {
		case *ssa.Call:
			os := ex.call(fr, b, &in.Call, in.Pos())
			b.env[in] = os[0].rets[0]
		default:
			its, _ := ex.instr(fr, b, in)
			if len(its) != 1 {
				ex.panics = save
				return while, nil
			}
			b = its[0]
		}
		ex.panics = save
	}
	c := b.st.F.simp(ex.val(b, ifi.Cond))
	if exitOn == 0 {
		c = mkNot(c)
	}
	var L *Term
	switch {
	case c.Op == "gt0":
		L = c.Args[0]
	case c.Op == "not" && c.Args[0].Op == "gt0":
		L = mkAdd(tOne, c.Args[0].Args[0], -1, nil) // not(x>0) <=> 1-x > 0
	case c.Op == "not" && c.Args[0].Op == "eq":
		// i != n counting towards n
		e := c.Args[0]
		L = mkAdd(e.Args[1], e.Args[0], -1, nil)
		k, m := toLin(L)
		if m[tmp] > 0 {
			for t := range m {
				m[t] = -m[t]
			}
			L = fromLin(-k, m, nil)
		}
	case c == mkEq(tmp, tZero):
		// an index is not negative: i < 1
		L = mkAdd(tOne, tmp, -1, nil)
	case c == tTrue || c == tFalse:
		return while, nil
	default:
		return while, nil
	}
	k, m := toLin(L)
	co := m[tmp]
	if co >= 0 {
		return while, nil
	}
	delete(m, tmp)
	N := fromLin(k, m, types.Typ[types.Int])
	if co != -1 {
		n, ok := N.intVal()
		if !ok {
			return while, nil
		}
		// co*ix + n > 0  <=> ix < n/|co|
		N = tInt((n + (-co) - 1) / (-co))
	}
	if occurs(tmp, N) {
		return while, nil
	}
	for _, ph := range phs {
		if occurs(ph, N) {
			return while, nil
		}
	}
	// the bound must not depend on anything the body changes: memory reads of the header are
	// checked by evaluating it again after the body
	return mk("count", "", nil, N), nil
}

// segment is the part of the sequence at which a loop over a slice built of several parts starts.
func (ex *Exec) segment(it *Item, l *Loop, dom *Term) (part *Term, last bool) {
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	var x *Term
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		c, ok := v.(*ssa.Call)
		if !ok {
			continue
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && isSliceT(c.Call.Args[0].Type()) {
			if t, ok := it.env[c.Call.Args[0]]; ok {
				if in, isI := c.Call.Args[0].(ssa.Instruction); isI && l.blocks[in.Block()] {
					continue
				}
				x = it.st.F.simp(ex.content(it.st, t))
			}
		}
	}
	if x == nil || x.Op != "seq" || len(x.Args) < 2 {
		return nil, false
	}
	off := mkAdd(mkLen(x), dom.Args[0], -1, types.Typ[types.Int])
	at := tZero
	for i, p := range x.Args {
		if at == off {
			return p, i == len(x.Args)-1
		}
		n := tOne
		if p.Op != "one" {
			n = mkLen(mkSeq(x.Typ, p))
		}
		at = mkAdd(at, n, 1, types.Typ[types.Int])
	}
	return nil, false
}

// knownKeys lists the keys of a map built from nothing by a few updates of distinct keys.
func knownKeys(F *Facts, m *Term) ([]*Term, bool) {
	if m.Op != "map" || m.Args[0].Op != "mapempty" || len(m.Args) > 5 {
		return nil, false
	}
	var ks []*Term
	for _, o := range m.Args[1:] {
		if o.Op != "set" {
			return nil, false
		}
		k := F.simp(o.Args[0])
		known := false
		for _, j := range ks {
			if j == k || F.evalBool(F.simp(mkEq(j, k))) == tTrue {
				known = true
				break
			}
			if F.evalBool(F.simp(mkEq(j, k))) != tFalse {
				return nil, false
			}
		}
		if !known {
			ks = append(ks, k)
		}
	}
	return ks, true
}

// ---- summaries ----

func mkFirst(exists, ix *Term) *Term {
	if exists.Op != "exists" && ix == nil {
		return mk("first", "", types.Typ[types.Int], exists)
	}
	if exists.Op != "exists" {
		// the very first element
		if ix.Args[0].Op == "count" {
			return tZero
		}
		return mk("first", "", types.Typ[types.Int], mk("exists", "", types.Typ[types.Bool], ix, tTrue))
	}
	return mk("first", "", types.Typ[types.Int], exists)
}

// mkPre is the value of a place at the start of iteration at.
func mkPre(at, full, init *Term, typ types.Type) *Term {
	if full == init || full.isConst() {
		return full
	}
	dom := ixDomain(at)
	if full.Op == "lin" && dom != nil {
		c, m := toLin(full)
		n := map[*Term]int64{}
		for t, k := range m {
			if t.Op == "sum" && t.Args[0].Args[0] == dom {
				n[mk("pre", "", typ, at, t)] += k
			} else {
				n[t] += k
			}
		}
		return fromLin(c, n, typ)
	}
	return mk("pre", "", typ, at, full)
}

func mkPreEv(at, lev *Term) *Term { return mk("preev", "", nil, at, lev) }

// mergeGuards joins guards that differ in one complementary literal.
func mergeGuards(gs []*Term) []*Term {
	var ps [][]*Term
	for range gs {
		ps = append(ps, nil)
	}
	var out []*Term
	for _, c := range mergeCases(gs, ps) {
		out = append(out, c.Args[0])
	}
	return out
}

func litsOf(g *Term) []*Term {
	if g == tTrue {
		return nil
	}
	if g.Op == "and" {
		return g.Args
	}
	return []*Term{g}
}

// mergeCases brings cases into canonical form.
func mergeCases(gs []*Term, ps [][]*Term) []*Term {
	var cs []*Term
	for i := range gs {
		if gs[i] == tFalse {
			continue
		}
		cs = append(cs, mk("case", "", nil, append([]*Term{gs[i]}, ps[i]...)...))
	}
	return canonCases(cs, true)
}

// summary is the value of a place after all iterations.
func (ex *Exec) summary(st *State, pl *place, ix *Term, gs, vs, exitG []*Term, sub func(*Term, bool) *Term, partial bool) *Term {
	// grouping by value
	groupCases := func(val func(v *Term) ([]*Term, bool), self bool) ([]*Term, bool) {
		var raw []*Term
		for i := range vs {
			p, ok := val(vs[i])
			if !ok {
				return nil, false
			}
			if gs[i] == tFalse {
				continue
			}
			raw = append(raw, mk("case", "", nil, append([]*Term{gs[i]}, p...)...))
		}
		var gg []*Term
		var pp [][]*Term
		for _, c := range canonWithDC(raw, exitG) {
			g := sub(c.Args[0], self)
			if !self && (occurs(pl.ph, g)) {
				return nil, false
			}
			p := c.Args[1:]
			np := make([]*Term, len(p))
			for j, x := range p {
				np[j] = sub(x, self)
				if !self && occurs(pl.ph, np[j]) {
					return nil, false
				}
			}
			gg = append(gg, g)
			pp = append(pp, np)
		}
		return mergeCases(gg, pp), true
	}
	init := pl.init
	// integers
	if b := basicOf(pl.typ); b != nil && b.Info()&types.IsInteger != 0 {
		if cs, ok := groupCases(func(v *Term) ([]*Term, bool) {
			d := mkAdd(v, pl.ph, -1, pl.typ)
			if occurs(pl.ph, d) {
				return nil, false
			}
			return []*Term{d}, true
		}, false); ok {
			return mkAdd(init, mkSum(ix, cs, pl.typ), 1, pl.typ)
		}
	}
	// strings
	if isStringT(pl.typ) {
		if cs, ok := groupCases(func(v *Term) ([]*Term, bool) {
			if v == pl.ph {
				return nil, true
			}
			if v.Op == "concat" && v.Args[0] == pl.ph {
				return v.Args[1:], true
			}
			return nil, false
		}, false); ok {
			return mkConcat(init, mkBinder("seach", ix, cs, types.Typ[types.String]))
		}
	}
	// sequences
	if isSliceT(pl.typ) {
		sp := pl.ph.asSpread()
		if cs, ok := groupCases(func(v *Term) ([]*Term, bool) {
			if v == pl.ph {
				return nil, true
			}
			if v.Op == "seq" && v.Args[0] == sp {
				return v.Args[1:], true
			}
			return nil, false
		}, false); ok {
			ic := ex.content(st, init)
			parts := append([]*Term(nil), seqParts(ic)...)
			parts = append(parts, mkEach(ix, cs))
			return mkSeq(pl.typ, parts...)
		}
		// own index writes to a made slice; early exits leave it partially written, the complete run is what
		// counts afterwards
		if init.Op == "seq" && len(init.Args) == 1 && init.Args[0].Op == "rep" {
			zero := init.Args[0].Args[1]
			if n := domLen(ix.Args[0]); n != nil && init.Args[0].Args[0] == n {
				if cs, ok := groupCases(func(v *Term) ([]*Term, bool) {
					if v == pl.ph {
						return []*Term{mk("one", "", nil, zero)}, true
					}
					if v.Op == "upd" && v.Args[0] == pl.ph && v.Args[1] == ix {
						return []*Term{mk("one", "", nil, v.Args[2])}, true
					}
					return nil, false
				}, false); ok {
					return mkSeq(pl.typ, mkEach(ix, cs))
				}
			}
		}
	}
	// maps
	if isMapT(pl.typ) {
		ownKey := true
		key := mk("key", "", nil, ix)
		ops := func(v *Term) ([]*Term, bool) {
			if v == pl.ph {
				return nil, true
			}
			if v.Op == "map" && v.Args[0] == pl.ph {
				for _, o := range v.Args[1:] {
					if o.Op == "each" || o.Args[0] != key {
						ownKey = false
					}
				}
				return v.Args[1:], true
			}
			return nil, false
		}
		okAll := true
		for _, v := range vs {
			if _, ok := ops(v); !ok {
				okAll = false
			}
		}
		if okAll {
			ogs, ovs := gs, vs
			if ownKey {
				// each key is touched in its own iteration only: reads of the own key see the initial content
				ngs := make([]*Term, len(gs))
				for i, g := range gs {
					ngs[i] = subst(g, map[*Term]*Term{
						mk("in", "", nil, pl.ph, key):     mkIn(init, key),
						mk("lookup", "", nil, pl.ph, key): mkLookup(init, key, nil),
					})
				}
				gs = ngs
				nvs := make([]*Term, len(vs))
				for i, v := range vs {
					if v.Op == "map" {
						var nops []*Term
						for _, o := range v.Args[1:] {
							nops = append(nops, subst(o, map[*Term]*Term{
								mk("in", "", nil, pl.ph, key):     mkIn(init, key),
								mk("lookup", "", nil, pl.ph, key): mkLookup(init, key, nil),
							}))
						}
						nvs[i] = mk("map", "", pl.typ, append([]*Term{pl.ph}, nops...)...)
					} else {
						nvs[i] = v
					}
				}
				vs = nvs
			}
			// set-if-missing of a nested map is the same as set
			if isNestedMap(pl.typ) {
				gs, vs = normNested(pl, gs, vs)
			}
			if cs, ok := groupCases(ops, false); ok {
				return mkMap(init, mkEach(ix, cs))
			}
			if cs, ok := groupCases(ops, true); ok {
				return mkMap(init, mkEach(ix, cs))
			}
			gs, vs = ogs, ovs
		}
	}
	// general fold
	cs, _ := groupCases(func(v *Term) ([]*Term, bool) { return []*Term{v}, true }, true)
	return mkFold(ix, init, cs, pl.typ)
}

func mkFold(ix, init *Term, cs []*Term, typ types.Type) *Term {
	self := mk("self", "", nil, ix)
	cs = dropCases(cs, func(*Term) bool { return false })
	if ixEmpty(ix) || len(cs) == 0 {
		return init
	}
	if b := basicOf(typ); b != nil && b.Info()&types.IsBoolean != 0 {
		// a flag that is only ever set
		for _, set := range []*Term{tTrue, tFalse} {
			if init == set {
				continue
			}
			unset := mkNot(set)
			notYet := self
			if set == tTrue {
				notYet = mkNot(self)
			}
			var gs []*Term
			ok := true
			for _, c := range cs {
				g, v := c.Args[0], c.Args[1]
				switch {
				case v == self:
					continue
				case v == set:
				default:
					// self || X, or self && X
					w := v
					if set == tTrue {
						w = mkNot(v)
					}
					ok = false
					if w.Op == "and" {
						var rest []*Term
						for _, l := range w.Args {
							if l == notYet {
								ok = true
							} else {
								rest = append(rest, l)
							}
						}
						g = mkAnd(g, mkNot(mkAnd(rest...)))
					}
				}
				if !ok {
					break
				}
				g = dropSelfLits(g, self, unset)
				for _, l := range litsOf(g) {
					if l == mkNot(notYet) {
						g = tFalse // set already
					}
				}
				if g == tFalse {
					continue
				}
				if occurs(self, g) {
					ok = false
					break
				}
				gs = append(gs, g)
			}
			if ok {
				e := mkExists(ix, gs)
				if set == tTrue {
					return mkOr(init, e)
				}
				return mkAnd(init, mkNot(e))
			}
		}
	}
	if b := basicOf(typ); b != nil && b.Info()&types.IsBoolean != 0 {
		// what an iteration makes of a flag that is set, and of one that is not
		var unset, set []*Term
		for _, c := range cs {
			t, f := map[*Term]*Term{self: tTrue}, map[*Term]*Term{self: tFalse}
			if g := mkAnd(subst(c.Args[0], t), mkNot(subst(c.Args[1], t))); g != tFalse {
				unset = append(unset, g)
			}
			if g := mkAnd(subst(c.Args[0], f), subst(c.Args[1], f)); g != tFalse {
				set = append(set, g)
			}
		}
		switch {
		case len(set) == 0:
			return mkAnd(init, mkNot(mkExists(ix, unset)))
		case len(unset) == 0:
			return mkOr(init, mkExists(ix, set))
		}
	}
	cs = canonCases(dropCases(cs, func(c *Term) bool { return c.Args[1] == self }), true)
	cs = dropCases(cs, func(c *Term) bool { return c.Args[1] == self })
	ix, cs = fuseCases(ix, cs)
	if len(cs) == 0 {
		return init
	}
	return mk("fold", "", typ, append([]*Term{ix, init}, cs...)...)
}

// dropSelfLits removes "the flag is not set yet" from a guard that sets it.
func dropSelfLits(g, self, init *Term) *Term {
	var keep []*Term
	for _, l := range litsOf(g) {
		if l == self && init == tTrue || l == mkNot(self) && init == tFalse {
			continue
		}
		keep = append(keep, l)
	}
	return mkAnd(keep...)
}

// normNested: storing the reference of an inner map that is already there changes nothing.
func normNested(pl *place, gs, vs []*Term) ([]*Term, []*Term) {
	ngs := append([]*Term(nil), gs...)
	nvs := append([]*Term(nil), vs...)
	for i := range vs {
		var keep []*Term
		var add []*Term
		for _, l := range litsOf(gs[i]) {
			if l.Op == "in" && l.Args[0] == pl.ph && vs[i] == pl.ph {
				// is there a sibling that sets exactly this key when it is missing?
				found := false
				for j := range vs {
					for _, m := range litsOf(gs[j]) {
						if m == mkNot(l) && vs[j].Op == "map" {
							for _, o := range vs[j].Args[1:] {
								if o.Op == "set" && o.Args[0] == l.Args[1] {
									add = append(add, o)
									found = true
								}
							}
						}
					}
				}
				if found {
					continue
				}
			}
			if l.Op == "not" && l.Args[0].Op == "in" && l.Args[0].Args[0] == pl.ph && vs[i].Op == "map" {
				k := l.Args[0].Args[1]
				found := false
				for _, o := range vs[i].Args[1:] {
					if o.Op == "set" && o.Args[0] == k {
						found = true
					}
				}
				if found {
					continue
				}
			}
			keep = append(keep, l)
		}
		ngs[i] = mkAnd(keep...)
		if len(add) > 0 {
			nvs[i] = mk("map", "", pl.typ, append([]*Term{pl.ph}, add...)...)
		}
	}
	return ngs, nvs
}

// domLen is the number of iterations over a domain.
func domLen(d *Term) *Term {
	switch d.Op {
	case "count":
		return d.Args[0]
	case "mapdom":
		return mkLen(d.Args[0])
	}
	return nil
}

// A rotation: the loop is left at the start of an iteration by a test of a phi that its first value passes. The test
// may as well be made at the end of the iteration before.
type rotation struct {
	phi  *ssa.Phi
	b    *ssa.BasicBlock
	exit *ssa.BasicBlock
	cond func(v *Term) *Term // true: the loop goes on
}

func (ex *Exec) rotations(l *Loop, it *Item, inds map[*ssa.Phi]ind, inits map[*ssa.Phi]*Term) (out []rotation) {
	hif, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || hif == nil {
		return nil
	}
	side := func(b *ssa.BasicBlock) (stay, exit *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if l.blocks[s] {
				stay = s
			} else {
				exit = s
			}
		}
		return
	}
	b, hexit := side(l.header)
	for n := 0; n < 4 && b != nil && hexit != nil; n++ {
		if len(b.Preds) != 1 || len(b.Succs) != 2 {
			return
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return
		}
		for _, in := range b.Instrs[:len(b.Instrs)-1] {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.DebugRef, *ssa.Extract:
			case *ssa.UnOp:
				if in.Op != token.NOT {
					return
				}
			default:
				return
			}
		}
		stay, exit := side(b)
		if stay == nil || exit != hexit {
			return
		}
		for _, in := range exit.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var x, y ssa.Value
			for j, pr := range exit.Preds {
				if pr == b {
					x = p.Edges[j]
				}
				if pr == l.header {
					y = p.Edges[j]
				}
			}
			if x != y {
				return
			}
		}
		val := b.Succs[0] == stay // the condition has this value when the loop goes on
		c := iff.Cond
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, val = u.X, !val
		}
		var phi *ssa.Phi
		k := ssa.Value(nil)
		if p, ok := c.(*ssa.Phi); ok {
			phi = p
		}
		if o, ok := c.(*ssa.BinOp); ok && (o.Op == token.EQL || o.Op == token.NEQ) {
			if o.Op == token.NEQ {
				val = !val
			}
			if p, ok := o.X.(*ssa.Phi); ok {
				phi, k = p, o.Y
			} else if p, ok := o.Y.(*ssa.Phi); ok {
				phi, k = p, o.X
			}
			if _, ok := k.(*ssa.Const); !ok || !val {
				phi = nil
			}
		}
		if phi != nil && phi.Block() == l.header && inits[phi] != nil {
			if _, ind := inds[phi]; !ind {
				v := val
				cond := func(x *Term) *Term {
					if k != nil {
						return mkEq(x, ex.val(it, k))
					}
					if v {
						return x
					}
					return mkNot(x)
				}
				if it.st.F.evalBool(it.st.F.simp(cond(inits[phi]))) == tTrue {
					out = append(out, rotation{phi, b, exit, cond})
				}
			}
		}
		b = stay
	}
	return
}

func (ex *Exec) rotate(r rotation, l *Loop, conts, exits []*Item) (cs, es []*Item) {
	es = exits
	for _, c := range conts {
		v := c.st.F.simp(ex.latchVal(c, l, r.phi))
		for _, br := range ex.branch(c, r.cond(v)) {
			if br.val {
				cs = append(cs, br.it)
				continue
			}
			n := br.it
			vals := map[*ssa.Phi]*Term{}
			for _, in := range l.header.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals[p] = ex.latchVal(n, l, p)
			}
			for p, t := range vals {
				n.env[p] = t
			}
			n.prev, n.blk, n.i, n.phis = r.b, r.exit, 0, false
			es = append(es, n)
		}
	}
	return
}
