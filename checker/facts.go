package main

import (
	"go/types"
)

// Facts is a set of literals known to hold on a path.
type Facts struct {
	lits  []*Term         // in order, canonical
	imp   []*Term         // further literals, implied by the path but not part of its condition
	impM  bool            // add to imp
	set   map[*Term]bool  // membership
	eqc   map[*Term]*Term // rewriting: term -> constant / nil / representative
	neq   map[*Term][]*Term
	lo    map[*Term]int64
	hi    map[*Term]int64
	ty    map[*Term]string // known concrete dynamic type
	bad   bool
	memo  map[*Term]*Term
	axiom func(*Term) bool // extra non-nil axioms
}

func newFacts() *Facts {
	return &Facts{set: map[*Term]bool{}, eqc: map[*Term]*Term{}, neq: map[*Term][]*Term{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, ty: map[*Term]string{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	g.lits = append([]*Term(nil), f.lits...)
	g.imp = append([]*Term(nil), f.imp...)
	for k := range f.set {
		g.set[k] = true
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.neq {
		g.neq[k] = v[:len(v):len(v)]
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	for k, v := range f.ty {
		g.ty[k] = v
	}
	g.bad = f.bad
	g.axiom = f.axiom
	return g
}

// simp rewrites a term with the known equalities.
func (f *Facts) simp(t *Term) *Term {
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	return f.simp1(t, 0)
}

func (f *Facts) simp1(t *Term, depth int) *Term {
	if t.isConst() || depth > 200 || t.Op == "ix" {
		// an iteration keeps the name it got when its loop was entered
		return t
	}
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "each", "exists", "fold", "sum", "loopev", "seach":
		ix := t.Args[0]
		// do not let facts about a free occurrence of the index leak into the binder
		g := f
		if ix.Op == "ix" && f.mentions(ix) {
			g = f.without(ix)
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			if i == 0 && ix.Op == "ix" {
				// the domain may be rewritten
				args[i] = g.simpIx(ix, depth)
			} else {
				args[i] = g.simpM(a, depth+1)
			}
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			if args[0] != ix {
				m := map[*Term]*Term{ix: args[0]}
				for i := 1; i < len(args); i++ {
					args[i] = subst(args[i], m)
				}
			}
			r = build(t.Op, t.Str, t.Typ, args)
		}
	case "first":
		// the index, not the truth of the condition
		e := t.Args[0]
		if e2 := f.simpArgs(e); e2 != e {
			r = mkFirst(e2, f.simpIx(e.Args[0], depth))
		}
	default:
		if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = f.simp1(a, depth+1)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = build(t.Op, t.Str, t.Typ, args)
			}
		}
		if r.Op == "mapdom" && r.Args[0].Op != "mapempty" && (f.set[mkEq(mkLen(r.Args[0]), tZero)] || f.set[mkEq(r.Args[0], tNil)]) {
			// the keys of a map that has none
			r = build("mapdom", "", r.Typ, []*Term{mk("mapempty", "", r.Args[0].Typ)})
		}
	}
	if r.Op == "mc" && len(r.Args) == 2 && f.set[mkNot(mk("in", "", types.Typ[types.Bool], r.Args[0], r.Args[1]))] {
		// the inner map under a key that is not there
		r = mk("mapempty", "", r.Typ)
	}
	if r.Op == "each" {
		if x := f.lastWrite(r); x != nil {
			r = x
		}
	}
	// reads of an updated map, where the facts decide which update is read
	for (r.Op == "in" || r.Op == "lookup") && r.Args[0].Op == "map" {
		m, k := r.Args[0], r.Args[1]
		last := m.Args[len(m.Args)-1]
		if last.Op == "each" && r.Op == "lookup" {
			set, del := atKey(last, k)
			if set == nil {
				break
			}
			rest := m.Args[0]
			if len(m.Args) > 2 {
				rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
			}
			es, ed := f.evalBool(f.simp(set)), f.evalBool(f.simp(del))
			if es == tFalse && ed == tFalse {
				r = mkLookup(rest, k, r.Typ)
				continue
			}
			if ed == tTrue {
				r = zeroOf(r.Typ)
			} else if es == tTrue {
				if v := valueAt(f, last, k); v != nil {
					r = v
				}
			}
			break
		}
		if last.Op != "set" && last.Op != "del" {
			break
		}
		e := f.evalBool(mkEq(last.Args[0], k))
		if e != tTrue && e != tFalse {
			break
		}
		switch {
		case e == tFalse:
			rest := m.Args[0]
			if len(m.Args) > 2 {
				rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
			}
			if r.Op == "in" {
				r = mkIn(rest, k)
			} else {
				r = mkLookup(rest, k, r.Typ)
			}
		case r.Op == "in":
			r = tBool(last.Op == "set")
		case last.Op == "set":
			r = last.Args[1]
		default:
			r = zeroOf(r.Typ)
		}
	}
	for i := 0; i < 20 && r.Op == "get"; i++ {
		m, k := r.Args[0], r.Args[1]
		if m.Op == "map" {
			if last := m.Args[len(m.Args)-1]; last.Op == "set" || last.Op == "del" {
				e := f.evalBool(mkEq(last.Args[0], k))
				if e == tTrue && last.Op == "set" {
					r = last.Args[1]
					break
				}
				if e == tTrue {
					r = zeroOf(r.Typ)
					break
				}
				if e == tFalse {
					rest := m.Args[0]
					if len(m.Args) > 2 {
						rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
					}
					r = mkGet(rest, k, r.Typ)
					continue
				}
			}
		}
		switch f.evalBool(f.simp(mkIn(m, k))) {
		case tTrue:
			r = mkLookup(m, k, r.Typ)
		case tFalse:
			r = zeroOf(r.Typ)
		}
		break
	}
	r = f.simpCut(r)
	for i := 0; i < 20; i++ {
		if e, ok := f.eqc[r]; ok && e != r {
			r = e
			continue
		}
		break
	}
	if r.Typ == types.Typ[types.Bool] || isBoolOp(r.Op) {
		if v := f.evalAtom(r); v != nil {
			r = v
		}
	} else if _, ok := f.hi[r]; ok && r.Typ != nil && !r.isConst() {
		// an integer pinned by its bounds
		if b, ok := r.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if lo, hi, okl, okh := f.varBounds(r); okl && okh && lo == hi {
				r = tInt(lo)
			}
		}
	}
	f.memo[t] = r
	return r
}

func (f *Facts) simpM(t *Term, depth int) *Term {
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	return f.simp1(t, depth)
}

func (f *Facts) simpIx(ix *Term, depth int) *Term {
	if len(ix.Args) == 0 {
		return ix
	}
	d := f.simpM(ix.Args[0], depth+1)
	if d == ix.Args[0] {
		return ix
	}
	return mk("ix", ix.Str, ix.Typ, d)
}

func isBoolOp(op string) bool {
	switch op {
	case "eq", "not", "and", "gt0", "istype", "in", "exists":
		return true
	}
	return false
}

func (f *Facts) mentions(x *Term) bool {
	for _, l := range f.lits {
		if occursFree(x, l) {
			return true
		}
	}
	for _, l := range f.imp {
		if occursFree(x, l) {
			return true
		}
	}
	return false
}

// addImp asserts a literal that is not part of the path condition.
func (f *Facts) addImp(l *Term) bool {
	o := f.impM
	f.impM = true
	r := f.add(l)
	f.impM = o
	return r
}

var freeMemo = map[[2]int]bool{}

// occursFree: does ix x occur in t outside of binders of x?
func occursFree(x, t *Term) bool {
	if x == t {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	k := [2]int{x.id, t.id}
	if r, ok := freeMemo[k]; ok {
		return r
	}
	r := false
	switch t.Op {
	case "each", "exists", "fold", "sum", "loopev", "seach":
		if t.Args[0] == x {
			// only the initial value of a fold is outside; treat as bound, the domain cannot mention x
			r = false
			break
		}
		fallthrough
	default:
		for _, a := range t.Args {
			if occursFree(x, a) {
				r = true
				break
			}
		}
	}
	freeMemo[k] = r
	return r
}

func (f *Facts) without(ix *Term) *Facts {
	g := newFacts()
	g.axiom = f.axiom
	for _, l := range f.lits {
		if !occursFree(ix, l) {
			g.add(l)
		}
	}
	for _, l := range f.imp {
		if !occursFree(ix, l) {
			g.addImp(l)
		}
	}
	return g
}

// evalBool evaluates a boolean term: tTrue, tFalse or nil (unknown).
func (f *Facts) evalBool(t *Term) *Term {
	if t == tTrue || t == tFalse {
		return t
	}
	return f.evalAtom(t)
}

func (f *Facts) evalAtom(t *Term) *Term {
	if t == tTrue || t == tFalse {
		return t
	}
	if f.set[t] {
		return tTrue
	}
	if f.set[mkNot(t)] {
		return tFalse
	}
	switch t.Op {
	case "not":
		if v := f.evalAtom(t.Args[0]); v != nil {
			return mkNot(v)
		}
	case "and":
		all := true
		for _, a := range t.Args {
			v := f.evalAtom(a)
			if v == tFalse {
				return tFalse
			}
			if v == nil {
				all = false
			}
		}
		if all {
			return tTrue
		}
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if b == tNil && f.nonNil(a) {
			return tFalse
		}
		for _, c := range f.neq[a] {
			if c == b {
				return tFalse
			}
		}
		if n, ok := b.intVal(); ok {
			lo, hi, okl, okh := f.bounds(a)
			if okl && n < lo || okh && n > hi {
				return tFalse
			}
			if okl && okh && lo == hi && lo == n {
				return tTrue
			}
		}
	case "gt0":
		lo, hi, okl, okh := f.bounds(t.Args[0])
		if okl && lo > 0 {
			return tTrue
		}
		if okh && hi <= 0 {
			return tFalse
		}
	case "istype":
		T := isTypes[t.Str]
		if k, ok := f.ty[t.Args[0]]; ok {
			if T != nil && !types.IsInterface(T) {
				return tBool(k == t.Str)
			}
			if kt := isTypes[k]; kt != nil && T != nil {
				return tBool(types.Implements(kt, T.Underlying().(*types.Interface)))
			}
		}
		if f.eqc[t.Args[0]] == tNil {
			return tFalse
		}
	case "in":
		m := t.Args[0]
		if f.eqc[m] == tNil {
			return tFalse
		}
		if l, ok := f.eqc[mk("len", "", types.Typ[types.Int], m)]; ok && l == tZero {
			return tFalse
		}
		if m.Op == "mc" {
			if f.set[mkNot(mk("in", "", types.Typ[types.Bool], m.Args[0], m.Args[1]))] {
				return tFalse
			}
		}
	}
	return nil
}

func (f *Facts) bounds(t *Term) (lo, hi int64, okl, okh bool) {
	c, m := toLin(t)
	lo, hi, okl, okh = c, c, true, true
	for x, k := range m {
		if k == 0 {
			continue
		}
		xl, xh, kl, kh := f.varBounds(x)
		if k < 0 {
			xl, xh, kl, kh = xh, xl, kh, kl
		}
		if kl {
			lo += k * xl
		} else {
			okl = false
		}
		if kh {
			hi += k * xh
		} else {
			okh = false
		}
	}
	return
}

func (f *Facts) varBounds(x *Term) (lo, hi int64, okl, okh bool) {
	if c, ok := f.eqc[x]; ok {
		if n, ok := c.intVal(); ok {
			return n, n, true, true
		}
	}
	if v, ok := f.lo[x]; ok {
		lo, okl = v, true
	}
	if v, ok := f.hi[x]; ok {
		hi, okh = v, true
	}
	if nonNegTerm(x) && (!okl || lo < 0) {
		lo, okl = 0, true
	}
	if okl {
		for {
			hit := false
			for _, c := range f.neq[x] {
				if n, ok := c.intVal(); ok && n == lo {
					lo++
					hit = true
				}
			}
			if !hit {
				break
			}
		}
	}
	if okh {
		for {
			hit := false
			for _, c := range f.neq[x] {
				if n, ok := c.intVal(); ok && n == hi {
					hi--
					hit = true
				}
			}
			if !hit {
				break
			}
		}
	}
	return
}

func (f *Facts) nonNil(t *Term) bool {
	if shapeNonNil(t) {
		return true
	}
	if _, ok := f.ty[t]; ok {
		return true
	}
	for _, c := range f.neq[t] {
		if c == tNil {
			return true
		}
	}
	if f.axiom != nil && f.axiom(t) {
		return true
	}
	return false
}

func (f *Facts) addGuard(g *Term) bool {
	if g.Op == "and" {
		for _, a := range g.Args {
			f.add(a)
		}
		return !f.bad
	}
	f.add(g)
	return !f.bad
}

// add asserts a literal; false if it contradicts the facts (cheap check).
func (f *Facts) add(l *Term) bool {
	l = f.simp(l)
	return f.addRaw(l)
}

func (f *Facts) addRaw(l *Term) bool {
	if l == tTrue {
		return !f.bad
	}
	if l == tFalse {
		f.bad = true
		return false
	}
	if l.Op == "and" {
		for _, a := range l.Args {
			f.add(a)
		}
		return !f.bad
	}
	if f.set[l] {
		return !f.bad
	}
	if f.set[mkNot(l)] {
		f.bad = true
		return false
	}
	f.set[l] = true
	if f.impM {
		f.imp = append(f.imp, l)
	} else {
		f.lits = append(f.lits, l)
	}
	f.memo = nil
	for x := range derefs(l, true) {
		if f.eqc[x] == tNil {
			f.bad = true
			return false
		}
		if !f.nonNil(x) {
			f.neq[x] = append(f.neq[x], tNil)
		}
	}
	pos := true
	a := l
	if l.Op == "not" {
		pos = false
		a = l.Args[0]
	}
	switch a.Op {
	case "eq":
		x, c := a.Args[0], a.Args[1]
		if pos {
			if c.isConst() {
				f.bind(x, c)
			} else {
				// orient: larger term to smaller
				if x.size < c.size || x.size == c.size && x.id < c.id {
					x, c = c, x
				}
				if !occurs(x, c) {
					f.bind(x, c)
				}
			}
		} else if c.isConst() {
			f.neq[x] = append(f.neq[x], c)
		}
	case "gt0":
		k, m := toLin(a.Args[0])
		if ts := sortedTerms(m); len(ts) == 1 && m[ts[0]] == 1 {
			x := ts[0]
			if pos { // x + k > 0
				f.setLo(x, -k+1)
			} else {
				f.setHi(x, -k)
			}
		}
	case "istype":
		if pos {
			T := isTypes[a.Str]
			if T != nil && !types.IsInterface(T) {
				if o, ok := f.ty[a.Args[0]]; ok && o != a.Str {
					f.bad = true
					return false
				}
				f.ty[a.Args[0]] = a.Str
			} else {
				f.neq[a.Args[0]] = append(f.neq[a.Args[0]], tNil)
			}
		}
	case "in":
		if pos {
			ln := mk("len", "", types.Typ[types.Int], a.Args[0])
			f.neq[ln] = append(f.neq[ln], tZero)
			f.neq[a.Args[0]] = append(f.neq[a.Args[0]], tNil)
			if f.eqc[ln] == tZero {
				f.bad = true
			}
			if a.Args[0].Op == "mc" {
				f.add(mkIn(a.Args[0].Args[0], a.Args[0].Args[1]))
			}
		}
	default:
		// boolean-valued opaque term
		if pos {
			f.eqc[a] = tTrue
		} else {
			f.eqc[a] = tFalse
		}
	}
	return !f.bad
}

func (f *Facts) bind(x, c *Term) {
	if o, ok := f.eqc[x]; ok && o != c {
		if distinctConst(o, c) || (o == tNil) != (c == tNil) && o.isConst() && c.isConst() {
			f.bad = true
			return
		}
	}
	f.eqc[x] = c
	for _, n := range f.neq[x] {
		if n == c {
			f.bad = true
		}
	}
	if n, ok := c.intVal(); ok {
		if lo, ok := f.lo[x]; ok && n < lo {
			f.bad = true
		}
		if hi, ok := f.hi[x]; ok && n > hi {
			f.bad = true
		}
	}
	if c == tNil && f.nonNil(x) {
		f.bad = true
	}
}

func (f *Facts) setLo(x *Term, v int64) {
	if o, ok := f.lo[x]; !ok || v > o {
		f.lo[x] = v
	}
	if hi, ok := f.hi[x]; ok && f.lo[x] > hi {
		f.bad = true
	}
}

func (f *Facts) setHi(x *Term, v int64) {
	if o, ok := f.hi[x]; !ok || v < o {
		f.hi[x] = v
	}
	lo, hi, okl, okh := f.varBounds(x)
	if okl && okh && lo > hi {
		f.bad = true
	}
}

// merge returns the facts of both, nil if contradictory (cheap).
func mergeFacts(a *Facts, lits []*Term) *Facts {
	g := a.clone()
	for _, l := range lits {
		g.add(l)
		if g.bad {
			return nil
		}
	}
	return g.renorm()
}

// mergeAll returns the facts of both, nil if contradictory (cheap).
func mergeAll(a, b *Facts) *Facts {
	g := a.clone()
	for _, l := range b.lits {
		g.add(l)
		if g.bad {
			return nil
		}
	}
	for _, l := range b.imp {
		g.addImp(l)
		if g.bad {
			return nil
		}
	}
	return g.renorm()
}

// renorm re-simplifies all literals under the equalities until stable; nil if contradictory.
func (f *Facts) renorm() *Facts {
	cur := f
	for i := 0; i < 4; i++ {
		g := newFacts()
		g.axiom = f.axiom
		changed := false
		for j, l := range cur.lits {
			// simplify l by all the other literals
			s := cur.simpOther(l)
			if s == tTrue {
				s = l
			}
			if s != l {
				changed = true
			}
			g.add(s)
			if s != l {
				g.add(l) // keep the original equation as well
			}
			if g.bad {
				return nil
			}
			_ = j
		}
		for _, l := range cur.imp {
			s := cur.simpOther(l)
			if s == tTrue {
				s = l
			}
			g.addImp(s)
			if s != l {
				changed = true
				g.addImp(l)
			}
			if g.bad {
				return nil
			}
		}
		if !changed {
			return g
		}
		cur = g
		if len(g.lits)+len(g.imp) > 400 {
			return g
		}
	}
	return cur
}

// simpOther simplifies the arguments of the literal's atom, not the literal itself.
func (f *Facts) simpOther(l *Term) *Term {
	a := l
	if l.Op == "not" {
		a = l.Args[0]
	}
	if len(a.Args) == 0 {
		return l
	}
	if a.Op == "eq" && l.Op != "not" {
		// left side is the key of the rewriting: only rewrite its arguments
		x := f.simpArgs(a.Args[0])
		c := a.Args[1]
		if !c.isConst() {
			c = f.simpArgs(c)
		}
		return mkEq(x, c)
	}
	var r *Term
	if a.Op == "exists" {
		r = f.simpArgs(a)
	} else {
		args := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			args[i] = f.simp(x)
		}
		r = build(a.Op, a.Str, a.Typ, args)
	}
	if l.Op == "not" {
		r = mkNot(r)
	}
	return r
}

func (f *Facts) simpArgs(t *Term) *Term {
	if len(t.Args) == 0 {
		return t
	}
	if t.Op == "exists" {
		// as simp1 for binders but without evaluating the atom itself
		ix := t.Args[0]
		g := f
		if f.mentions(ix) {
			g = f.without(ix)
		}
		args := make([]*Term, len(t.Args))
		args[0] = g.simpIx(ix, 0)
		for i := 1; i < len(args); i++ {
			args[i] = g.simp(t.Args[i])
		}
		if args[0] != ix {
			for i := 1; i < len(args); i++ {
				args[i] = subst(args[i], map[*Term]*Term{ix: args[0]})
			}
		}
		return build(t.Op, t.Str, t.Typ, args)
	}
	args := make([]*Term, len(t.Args))
	for i, x := range t.Args {
		args[i] = f.simp(x)
	}
	return build(t.Op, t.Str, t.Typ, args)
}

// ---- deep consistency: existentials and universals over loop domains ----

func ixTermsOf(t *Term, out map[*Term]bool, bound map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "ix" {
		out[t] = true
	}
	switch t.Op {
	case "each", "exists", "fold", "sum", "loopev", "seach":
		// binder: collect only from the domain and, for other free indices, from the rest
		sub := map[*Term]bool{}
		s2 := map[*Term]bool{}
		for i, a := range t.Args {
			if i == 0 {
				for _, d := range a.Args {
					ixTermsOf(d, out, bound, seen)
				}
				continue
			}
			ixTermsOf(a, sub, bound, s2)
		}
		for x := range sub {
			if x != t.Args[0] {
				out[x] = true
			}
		}
		return
	}
	for _, a := range t.Args {
		ixTermsOf(a, out, bound, seen)
	}
}

var skolemN int

// consistent decides whether the facts can hold together (incomplete: true means "no contradiction found").
func (f *Facts) consistent(depth int) bool {
	if f.bad {
		return false
	}
	g := f.renorm()
	if g == nil {
		return false
	}
	return g.consistent1(depth)
}

func (f *Facts) consistent1(depth int) bool {
	if depth <= 0 {
		return true
	}
	all := append(append([]*Term(nil), f.lits...), f.imp...)
	// existentials: skolemize one at a time
	for _, l := range all {
		if l.Op == "exists" {
			done := mk("skolemized", "", nil, l)
			if f.set[done] {
				continue
			}
			skolemN++
			ix := l.Args[0]
			sk := mk("ix", "s"+itoa(skolemN), ix.Typ, ix.Args...)
			for _, g := range l.Args[1:] {
				h := f.clone()
				h.set[done] = true
				h.addGuard(subst(g, map[*Term]*Term{ix: sk}))
				if h.bad {
					continue
				}
				if h = h.renorm(); h == nil {
					continue
				}
				h.set[done] = true
				for d := range f.set {
					if d.Op == "skolemized" || d.Op == "inst" {
						h.set[d] = true
					}
				}
				if h.consistent1(depth) {
					return true
				}
			}
			return false
		}
	}
	// negated conjunctions (disjunctions): case split
	for _, l := range all {
		if l.Op == "not" && l.Args[0].Op == "and" {
			done := mk("split", "", nil, l)
			if f.set[done] {
				continue
			}
			var open []*Term
			sat := false
			for _, a := range l.Args[0].Args {
				v := f.evalBool(f.simp(a))
				if v == tFalse {
					sat = true
					break
				}
				if v == nil {
					open = append(open, a)
				}
			}
			if sat {
				continue
			}
			for _, a := range open {
				h := f.clone()
				h.set[done] = true
				h.add(mkNot(a))
				if h.bad {
					continue
				}
				if h = h.renorm(); h == nil {
					continue
				}
				h.set[done] = true
				for d := range f.set {
					if d.Op == "skolemized" || d.Op == "inst" || d.Op == "split" {
						h.set[d] = true
					}
				}
				if h.consistent1(depth) {
					return true
				}
			}
			return false
		}
	}
	// universals: instantiate at every free index of the same domain
	ixs := map[*Term]bool{}
	seen := map[*Term]bool{}
	for _, l := range all {
		ixTermsOf(l, ixs, nil, seen)
	}
	for _, l := range all {
		if l.Op == "not" && l.Args[0].Op == "exists" {
			u := l.Args[0]
			uix := u.Args[0]
			for x := range ixs {
				if len(x.Args) == 0 || len(uix.Args) == 0 || x.Args[0] != uix.Args[0] {
					continue
				}
				done := mk("inst", "", nil, u, x)
				if f.set[done] {
					continue
				}
				h := f.clone()
				for _, g := range u.Args[1:] {
					h.add(mkNot(subst(g, map[*Term]*Term{uix: x})))
				}
				h.set[done] = true
				if h.bad {
					return false
				}
				if h = h.renorm(); h == nil {
					return false
				}
				for d := range f.set {
					if d.Op == "skolemized" || d.Op == "inst" || d.Op == "split" {
						h.set[d] = true
					}
				}
				h.set[done] = true
				return h.consistent1(depth - 1)
			}
			// a map domain: instantiate at keys known to be in the map
			if len(uix.Args) > 0 && uix.Args[0].Op == "mapdom" {
				m := uix.Args[0].Args[0]
				for _, k := range all {
					if k.Op == "in" && k.Args[0] == m {
						done := mk("inst", "k", nil, u, k)
						if f.set[done] {
							continue
						}
						h := f.clone()
						for _, g := range u.Args[1:] {
							h.add(mkNot(subst(g, map[*Term]*Term{mk("key", "", k.Args[1].Typ, uix): k.Args[1]})))
						}
						h.set[done] = true
						if h.bad {
							return false
						}
						if h = h.renorm(); h == nil {
							return false
						}
						for d := range f.set {
							if d.Op == "skolemized" || d.Op == "inst" || d.Op == "split" {
								h.set[d] = true
							}
						}
						h.set[done] = true
						return h.consistent1(depth - 1)
					}
				}
			}
		}
	}
	// a fact that a map is empty contradicts an index into it etc. is handled by terms
	return true
}

func itoa(n int) string { return fmtInt(n) }

func fmtInt(n int) string { return tInt(int64(n)).Str[2:] }

// iterates: is there an iteration at all?
func (f *Facts) iterates(ix *Term) *Term {
	if n := domLen(ix.Args[0]); n != nil {
		switch f.evalBool(mkEq(n, tZero)) {
		case tTrue:
			return tFalse
		case tFalse:
			return tTrue
		}
	}
	return nil
}

// lastWrite: a loop without iterations does nothing; one which keeps setting one key to what was accumulated so far has set it to the whole
// when there was an iteration at all.
func (f *Facts) lastWrite(t *Term) *Term {
	ix := t.Args[0]
	if ix.Op != "ix" || len(ix.Args) == 0 || len(t.Args) < 2 {
		return nil
	}
	if f.iterates(ix) == tFalse {
		return mk("each", "", nil, ix)
	}
	if len(t.Args) != 2 || t.Args[1].Op != "case" {
		return nil
	}
	cs := t.Args[1]
	if cs.Args[0] != tTrue || len(cs.Args) != 2 || cs.Args[1].Op != "set" {
		return nil
	}
	k, v := cs.Args[1].Args[0], cs.Args[1].Args[1]
	if v.Op != "map" || occursFree(ix, k) || v.Args[0].Op != "pre" || v.Args[0].Args[0] != ix {
		return nil
	}
	full := v.Args[0].Args[1]
	if occursFree(ix, full) || !accumulates(ix, full, v.Args[1:]) {
		return nil
	}
	if f.iterates(ix) != tTrue {
		return nil
	}
	return mk("set", "", nil, k, full)
}

// accumulates: full is what the iterations over ix make when each of them does ops.
func accumulates(ix, full *Term, ops []*Term) bool {
	if d := ix.Args[0]; d.Op == "mapdom" && d.Args[0] == full {
		// a copy
		k := mk("key", "", nil, ix)
		return len(ops) == 1 && ops[0].Op == "set" && ops[0].Args[0].Op == "key" && ops[0].Args[0].Args[0] == k.Args[0] &&
			ops[0].Args[1].Op == "lookup" && ops[0].Args[1].Args[0] == full && ops[0].Args[1].Args[1] == ops[0].Args[0]
	}
	if full.Op != "map" {
		return false
	}
	e := full.Args[len(full.Args)-1]
	if e.Op != "each" || e.Args[0] != ix || len(e.Args) != 2 || e.Args[1].Args[0] != tTrue || len(e.Args[1].Args) != len(ops)+1 {
		return false
	}
	for i, o := range ops {
		if e.Args[1].Args[i+1] != o {
			return false
		}
	}
	return true
}
