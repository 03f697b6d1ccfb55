package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Equivalence of path sets: every feasible pair of an implementation path and a reference path must
// agree on the results, the memory it leaves behind and the trace of visible actions.

type Mismatch struct {
	Pos    token.Pos
	RefPos token.Pos
	What   string
	Path   []string
}

type Equiv struct {
	ex      *Exec
	pairs   int
	compars int
	mark    int
	what    string // first difference
	depth   int
	errVals bool
	// ignoreEv filters events
	ignoreEv func(e *Term) bool
	// onlyEvents: results and memory are not compared
	onlyEvents bool
	// commutes: the order of the two actions does not matter
	commutes func(a, b *Term) bool
	// ignorePlace filters memory places
	ignorePlace func(a *Term) bool
	// published rewrites what becomes visible at the end of a section
	published func(e *Term) *Term
	// normalises a value before it is compared
	norm func(t *Term) *Term
	// mbase is the map whose updates are compared
	mbase *Term
}

func newEquiv(ex *Exec) *Equiv { return &Equiv{ex: ex, depth: 8} }

type View struct {
	rets  []*Term
	heap  map[*Term]*Term
	ev    []*Term
	panic string
}

func rootOf(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" || a.Op == "ml" {
		a = a.Args[0]
	}
	return a
}

// view is what an outcome shows to its caller.
func (q *Equiv) view(o *Outcome) *View {
	v := &View{heap: map[*Term]*Term{}, panic: o.panic}
	fz := func(t *Term) *Term {
		r := q.ex.freeze(o.st, t, q.mark)
		if q.norm != nil {
			r = q.norm(r)
		}
		return r
	}
	for _, r := range o.rets {
		v.rets = append(v.rets, fz(r))
	}
	for a, t := range o.st.heap {
		r := rootOf(a)
		if r.Op == "obj" && objNum(r) > q.mark {
			continue
		}
		if a.Op == "fa" && a.Str == "cap" {
			continue
		}
		if q.ignorePlace != nil && q.ignorePlace(a) {
			continue
		}
		v.heap[fz(a)] = fz(t)
	}
	for _, e := range o.st.ev {
		if q.ignoreEv != nil && q.ignoreEv(e) {
			continue
		}
		v.ev = append(v.ev, fz(e))
	}
	return v
}

func contradict(a, b *Facts) bool {
	if len(a.lits) > len(b.lits) {
		a, b = b, a
	}
	for _, l := range a.lits {
		if b.set[mkNot(l)] {
			return true
		}
	}
	return false
}

// lessBad: what the reference does that it had better not do need not be done.
func lessBad(impl, ref []*Term) []*Term {
	has := map[string]bool{}
	for _, e := range impl {
		has[e.Str] = true
	}
	var out []*Term
	for _, e := range ref {
		if !isBadEv(e) || has[e.Str] {
			out = append(out, e)
		}
	}
	return out
}

// dropBookkeeping forgets counters that the reference does not know, where they are only counted up, and what
// a sync.Once has been used for. Whoever depends on them shows it in conditions.
func dropBookkeeping(iv, rv []*View) {
	known := map[*Term]bool{}
	for _, v := range rv {
		for a := range v.heap {
			known[a] = true
		}
	}
	for _, v := range iv {
		for a, t := range v.heap {
			if known[a] {
				continue
			}
			if onceCell(a) {
				delete(v.heap, a)
			}
			if t.Op != "lin" {
				continue
			}
			c, m := toLin(t)
			for x, k := range m {
				if len(m) == 1 && k == 1 && c > 0 && isIntTerm(t) && sameCell(a, x) {
					delete(v.heap, a)
				}
			}
		}
	}
}

// sameCell: x is what the place a held.
func sameCell(a, x *Term) bool {
	switch {
	case a.Op == "fa" && x.Op == "sel":
		return a.Str == x.Str && (a.Args[0] == x.Args[0] || sameCell(a.Args[0], x.Args[0]))
	case a.Op == "glob":
		return x.Op == "gval" && x.Str == a.Str
	}
	return false
}

func onceCell(a *Term) bool {
	if a.Op != "fa" || len(a.Args) == 0 || a.Args[0].Typ == nil {
		return false
	}
	return strings.HasSuffix(typeStr(a.Args[0].Typ), "sync.Once")
}

// compare checks all feasible pairs; the result is empty if the path sets agree.
func (q *Equiv) compare(impl, ref []Outcome) []Mismatch {
	var ms []Mismatch
	iv := make([]*View, len(impl))
	rv := make([]*View, len(ref))
	for i := range impl {
		iv[i] = q.view(&impl[i])
	}
	for i := range ref {
		rv[i] = q.view(&ref[i])
	}
	dropBookkeeping(iv, rv)
	for i := range impl {
		if impl[i].st.F.bad {
			continue
		}
		for j := range ref {
			if contradict(impl[i].st.F, ref[j].st.F) {
				continue
			}
			F := mergeAll(ref[j].st.F, impl[i].st.F)
			if F == nil {
				continue
			}
			q.pairs++
			q.what = ""
			if q.views(F, iv[i], rv[j]) {
				continue
			}
			what := q.what
			if os.Getenv("XV_WHAT") != "" {
				fmt.Fprintln(os.Stderr, "candidate:", what)
				for _, l := range F.lits {
					fmt.Fprintln(os.Stderr, "  when", long(l))
				}
			}
			if !F.consistent(q.depth) {
				continue
			}
			m := Mismatch{Pos: impl[i].pos, RefPos: ref[j].pos, What: what}
			for _, l := range F.lits {
				m.Path = append(m.Path, short(l))
			}
			ms = append(ms, m)
			if len(ms) >= 5 {
				return ms
			}
		}
	}
	return ms
}

func (q *Equiv) differ(f string, a ...interface{}) bool {
	if q.what == "" {
		q.what = fmt.Sprintf(f, a...)
	}
	return false
}

func long(t *Term) string {
	s := t.String()
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}

func (q *Equiv) views(F *Facts, a, b *View) bool {
	if evs := lessBad(a.ev, b.ev); len(evs) < len(b.ev) {
		c := *b
		c.ev = evs
		b = &c
	}
	if (a.panic != "") != (b.panic != "") {
		if a.panic == "cut" || b.panic == "cut" {
			return q.differ("%s after %s, expected: %s after %s", ends(a.panic), showEvs(a.ev), ends(b.panic), showEvs(b.ev))
		}
		if a.panic != "" {
			return q.differ("panics: %s", a.panic)
		}
		return q.differ("does not panic, the reference does: %s", b.panic)
	}
	if a.panic == "cut" || b.panic == "cut" {
		if a.panic != b.panic {
			return q.differ("goes on differently: %s after %s, expected %s after %s", ends(a.panic), showEvs(a.ev), ends(b.panic), showEvs(b.ev))
		}
		if !q.evs(F, a.ev, b.ev, 0) {
			return q.differ("actions %s, expected %s", showEvs(a.ev), showEvs(b.ev))
		}
		return true
	}
	if a.panic != "" {
		return true
	}
	if q.onlyEvents {
		if !q.evs(F, a.ev, b.ev, 0) {
			return q.differ("actions %s, expected %s", showEvs(a.ev), showEvs(b.ev))
		}
		return true
	}
	if len(a.rets) != len(b.rets) {
		return q.differ("number of results")
	}
	for i := range a.rets {
		if !q.eq(F, a.rets[i], b.rets[i], 0) {
			return q.differ("result %d is %s, expected %s", i, long(F.simp(a.rets[i])), long(F.simp(b.rets[i])))
		}
	}
	// memory
	norm := func(m map[*Term]*Term) map[*Term]*Term {
		r := map[*Term]*Term{}
		for k, v := range m {
			r[F.simp(k)] = F.simp(v)
		}
		return r
	}
	ah, bh := norm(a.heap), norm(b.heap)
	var ks []*Term
	for k := range ah {
		ks = append(ks, k)
	}
	for k := range bh {
		if _, ok := ah[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		x, ok1 := ah[k]
		y, ok2 := bh[k]
		init := func() *Term {
			st := newState()
			st.F = F
			return q.ex.initialPlace(st, k, derefAddrType(k))
		}
		if !ok1 {
			x = init()
		}
		if !ok2 {
			y = init()
		}
		if !q.eq(F, x, y, 0) {
			return q.differ("memory %s is %s, expected %s", long(k), long(F.simp(x)), long(F.simp(y)))
		}
	}
	// events
	if !q.evs(F, a.ev, b.ev, 0) {
		return q.differ("actions %s, expected %s", showEvs(a.ev), showEvs(b.ev))
	}
	return true
}

func ends(p string) string {
	switch p {
	case "":
		return "returns"
	case "cut":
		return "goes on"
	}
	return p
}

func showEvs(es []*Term) string {
	var s []string
	for _, e := range es {
		s = append(s, long(e))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func (q *Equiv) evs(F *Facts, a, b []*Term, d int) bool {
	x := make([]*Term, 0, len(a))
	y := make([]*Term, 0, len(b))
	clean := func(in []*Term, out []*Term) []*Term {
		for _, e := range in {
			e = F.simp(e)
			if isPublish(e) {
				if e = tidyPublish(F, e); len(e.Args) == 0 {
					continue
				}
				if q.published != nil {
					e = q.published(e)
				}
			}
			if e.Op == "loopev" && (len(e.Args) == 1 || ixEmpty(e.Args[0])) {
				continue
			}
			if e.Op == "preev" && e.Args[1].Op == "loopev" && len(e.Args[1].Args) == 1 {
				continue
			}
			out = append(out, e)
		}
		return out
	}
	x, y = clean(a, x), clean(b, y)
	if len(x) != len(y) {
		return q.differ("%d actions %s, expected %d %s", len(x), showEvs(x), len(y), showEvs(y))
	}
	if q.commutes != nil && len(x) > 1 {
		// equal up to the order of independent actions
		rest := append([]*Term(nil), y...)
		for i := range x {
			hit := -1
		search:
			for j := range rest {
				for k := 0; k < j; k++ {
					if !q.commutes(rest[k], rest[j]) {
						continue search
					}
				}
				w := q.what
				if q.eq(F, x[i], rest[j], d+1) {
					q.what = w
					hit = j
					break
				}
			}
			if hit < 0 {
				return q.differ("action %s, expected one of %s", long(x[i]), showEvs(rest))
			}
			rest = append(rest[:hit:hit], rest[hit+1:]...)
		}
		return true
	}
	for i := range x {
		if !q.eq(F, x[i], y[i], d+1) {
			return q.differ("action %s, expected %s", long(x[i]), long(y[i]))
		}
	}
	return true
}

func isErrTerm(t *Term) bool {
	return t.Typ != nil && types.Identical(t.Typ, errType) || t.Op == "err"
}

func (q *Equiv) eq(F *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	a, b = F.simp(a), F.simp(b)
	if a == b {
		return true
	}
	if d > 60 {
		return q.differ("too deep: %s, expected %s", long(a), long(b))
	}
	q.compars++
	if F.bad {
		return true
	}
	// errors: nil or not, and their kind
	if isErrTerm(a) || isErrTerm(b) {
		an, bn := F.evalBool(mkEq(a, tNil)), F.evalBool(mkEq(b, tNil))
		if an == nil && F.nonNil(a) {
			an = tFalse
		}
		if bn == nil && F.nonNil(b) {
			bn = tFalse
		}
		if an != nil && an == bn {
			if an == tTrue {
				return true
			}
			ka, kb := errKind(a), errKind(b)
			if ka == kb || ka == "" || kb == "" {
				return true
			}
			return q.differ("error %s, expected %s", ka, kb)
		}
	}
	// one side nil or constant
	if v := F.evalBool(mkEq(a, b)); v == tTrue {
		return true
	}
	if a.Op == b.Op && a.Op == "each" || a.Op == "seq" || b.Op == "seq" {
		return q.seq(F, a, b, d)
	}
	if a.Op == "map" || b.Op == "map" || a.Op == "mapempty" || b.Op == "mapempty" {
		return q.maps(F, a, b, d)
	}
	if a.Op == "concat" || b.Op == "concat" {
		pa, pb := concatParts(a), concatParts(b)
		if len(pa) == len(pb) {
			ok := true
			for i := range pa {
				if !q.eq(F, pa[i], pb[i], d+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	// structures
	if (a.Op == "struct" || a.Op == "zero" || b.Op == "struct" || b.Op == "zero") && a.Op != "new" && b.Op != "new" {
		t := a.Typ
		if a.Op != "struct" && a.Op != "zero" {
			t = b.Typ
		}
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !q.eq(F, mkSel(a, f.Name(), f.Type()), mkSel(b, f.Name(), f.Type()), d+1) {
					return q.differ("field %s", f.Name())
				}
			}
			return true
		}
	}
	if a.Op == "new" && b.Op == "new" && a.Str == b.Str && len(a.Args) == len(b.Args) {
		st := structOf(derefT(a.Typ))
		for i := range a.Args {
			if !q.eq(F, a.Args[i], b.Args[i], d+1) {
				if st != nil {
					return q.differ("field %s of %s is %s, expected %s", st.Field(i).Name(), shortT(a.Str), long(F.simp(a.Args[i])), long(F.simp(b.Args[i])))
				}
				return false
			}
		}
		return true
	}
	if isBool(a) && isBool(b) {
		// equal iff both differences are infeasible
		for k := 0; k < 2; k++ {
			G := F.clone()
			if k == 0 {
				G.add(a)
				G.add(mkNot(b))
			} else {
				G.add(b)
				G.add(mkNot(a))
			}
			if !G.bad && G.consistent(q.depth) {
				return q.differ("condition %s, expected %s", long(a), long(b))
			}
		}
		return true
	}
	if a.Op == "first" && b.Op == "first" {
		return q.eq(F, a.Args[0], b.Args[0], d+1) || q.sameFirst(F, a, b)
	}
	if a.Op == b.Op && isBinder(a.Op) {
		return q.binder(F, a, b, d)
	}
	if a.Op == b.Op && a.Str == b.Str && len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Op != "ix" && a.Op != "obj" {
		switch a.Op {
		case "eq", "not", "and", "gt0", "lin":
			// arguments are sorted: no structural recursion
		default:
			for i := range a.Args {
				if !q.eq(F, a.Args[i], b.Args[i], d+1) {
					return false
				}
			}
			return true
		}
	}
	if isIntTerm(a) && isIntTerm(b) {
		if v := F.evalBool(F.simp(mkEq(mkAdd(a, b, -1, nil), tZero))); v == tTrue {
			return true
		}
		// linear forms with pairwise equal parts
		c1, m1 := toLin(a)
		c2, m2 := toLin(b)
		if c1 == c2 {
			t1, t2 := sortedTerms(m1), sortedTerms(m2)
			if len(t1) == len(t2) && len(t1) > 0 && (len(t1) > 1 || t1[0] != a || t2[0] != b) {
				used := map[*Term]bool{}
				ok := true
				for _, x := range t1 {
					found := false
					for _, y := range t2 {
						if !used[y] && m1[x] == m2[y] && q.eq(F, x, y, d+1) {
							used[y] = true
							found = true
							break
						}
					}
					if !found {
						ok = false
						break
					}
				}
				if ok {
					q.what = ""
					return true
				}
			}
		}
	}
	return q.differ("%s, expected %s", long(a), long(b))
}

func isBool(t *Term) bool {
	return t == tTrue || t == tFalse || isBoolOp(t.Op) || t.Typ == types.Typ[types.Bool]
}

func errKind(t *Term) string {
	if t.Op == "err" {
		return t.Str
	}
	return ""
}

// sameFirst: two first indices over the same domain whose conditions are equivalent.
func (q *Equiv) sameFirst(F *Facts, a, b *Term) bool {
	return false
}

// alignIx renames the bound index of b to the one of a if the domains agree.
func (q *Equiv) alignIx(F *Facts, a, b *Term, d int) (*Term, bool) {
	ia, ib := a.Args[0], b.Args[0]
	if ia == ib {
		return b, true
	}
	if len(ia.Args) != 1 || len(ib.Args) != 1 {
		return nil, false
	}
	da, db := ia.Args[0], ib.Args[0]
	if da.Op != db.Op {
		return nil, false
	}
	if da != db {
		for i := range da.Args {
			if !q.eq(F, da.Args[i], db.Args[i], d+1) {
				return nil, false
			}
		}
	}
	// rename
	args := make([]*Term, len(b.Args))
	args[0] = ia
	m := map[*Term]*Term{ib: ia}
	for i := 1; i < len(args); i++ {
		args[i] = subst(b.Args[i], m)
	}
	return mk(b.Op, b.Str, b.Typ, args...), true
}

// casesEq compares two case lists under a binder semantically. Missing cases have payload none.
func (q *Equiv) casesEq(F *Facts, ix *Term, ca, cb []*Term, pay func(G *Facts, x, y *Term) bool) bool {
	base := F
	if F.mentions(ix) {
		base = F.without(ix)
	}
	notAny := func(cs []*Term) *Term {
		var lits []*Term
		for _, c := range cs {
			lits = append(lits, mkNot(c.Args[0]))
		}
		return mkAnd(lits...)
	}
	none := mk("case", "none", nil, tTrue)
	type side struct {
		g, c *Term
	}
	var sa, sb []side
	for _, c := range ca {
		sa = append(sa, side{c.Args[0], c})
	}
	sa = append(sa, side{notAny(ca), none})
	for _, c := range cb {
		sb = append(sb, side{c.Args[0], c})
	}
	sb = append(sb, side{notAny(cb), none})
	for _, x := range sa {
		for _, y := range sb {
			if x.c == none && y.c == none {
				continue
			}
			G := mergeFacts(base, []*Term{x.g, y.g})
			if G == nil {
				continue
			}
			if pay(G, x.c, y.c) {
				continue
			}
			if !G.consistent(q.depth) {
				continue
			}
			return q.differ("in the iteration with %s", long(mkAnd(x.g, y.g)))
		}
	}
	q.what = ""
	return true
}

// rebase: a loop over the keys of one map that acts on those in another only, is a loop over the keys of the other.
func (q *Equiv) rebase(F *Facts, a, b *Term) *Term {
	ia, ib := a.Args[0], b.Args[0]
	da, db := ixDomain(ia), ixDomain(ib)
	if a.Op == "fold" || a.Op != b.Op || ia.Op != "ix" || ib.Op != "ix" || da == nil || db == nil || da.Op != "mapdom" || db.Op != "mapdom" || da == db {
		return nil
	}
	M, N := da.Args[0], db.Args[0]
	keyOf := func(ix *Term) *Term {
		var kt types.Type
		for _, x := range []*Term{a, b} {
			if k := findTerm(x, func(t *Term) bool { return t.Op == "key" && t.Args[0] == x.Args[0] }); k != nil {
				kt = k.Typ
			}
		}
		return mk("key", "", kt, ix)
	}
	if findTerm(a, func(t *Term) bool { return t.Op == "pre" || t.Op == "self" || t.Op == "first" }) != nil {
		return nil
	}
	base := F
	if F.mentions(ia) {
		base = F.without(ia)
	}
	i2 := freshIx(db, a)
	m := map[*Term]*Term{ia: i2}
	args := []*Term{i2}
	for _, c := range a.Args[1:] {
		if len(c.Args) == 1 && a.Op != "exists" {
			continue
		}
		if G := mergeFacts(base, []*Term{c.Args[0], mkNot(mkIn(N, keyOf(ia)))}); G != nil && G.consistent(q.depth) {
			return nil
		}
		cs := make([]*Term, len(c.Args))
		for i, x := range c.Args {
			cs[i] = subst(x, m)
		}
		cs[0] = mkAnd(cs[0], mkIn(M, keyOf(i2)))
		args = append(args, mk("case", c.Str, nil, cs...))
	}
	return mk(a.Op, a.Str, a.Typ, args...)
}

func (q *Equiv) binder(F *Facts, a, b *Term, d int) bool {
	if a2 := q.rebase(F, a, b); a2 != nil {
		a = a2
	}
	b2, ok := q.alignIx(F, a, b, d)
	if !ok {
		return q.differ("iterates over %s, expected %s", long(a.Args[0]), long(b.Args[0]))
	}
	n := 1
	if a.Op == "fold" {
		if !q.eq(F, a.Args[1], b2.Args[1], d+1) {
			return false
		}
		n = 2
	}
	self := mk("self", "", nil, a.Args[0])
	return q.casesEq(F, a.Args[0], a.Args[n:], b2.Args[n:], func(G *Facts, x, y *Term) bool {
		px, py := x.Args[1:], y.Args[1:]
		switch a.Op {
		case "fold":
			if len(px) == 0 {
				px = []*Term{self}
			}
			if len(py) == 0 {
				py = []*Term{self}
			}
			return q.eq(G, px[0], py[0], d+1)
		case "sum":
			if len(px) == 0 {
				px = []*Term{tZero}
			}
			if len(py) == 0 {
				py = []*Term{tZero}
			}
			return q.eq(G, px[0], py[0], d+1)
		case "exists":
			return (x.Str == "none") == (y.Str == "none")
		case "loopev":
			return q.evs(G, px, py, d+1)
		case "seach":
			return q.eq(G, mkConcat(px...), mkConcat(py...), d+1)
		case "each":
			return q.parts(G, px, py, d+1)
		}
		return false
	})
}

// parts compares the elements added by an iteration: sequence parts or map operations.
func (q *Equiv) parts(F *Facts, x, y []*Term, d int) bool {
	isMap := func(ps []*Term) bool {
		for _, p := range ps {
			if p.Op == "set" || p.Op == "del" {
				return true
			}
			if p.Op == "each" {
				for _, c := range p.Args[1:] {
					for _, o := range c.Args[1:] {
						if o.Op == "set" || o.Op == "del" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if isMap(x) || isMap(y) {
		x, y = q.absent(F, x), q.absent(F, y)
		if len(x) != len(y) {
			return q.differ("map updates %v, expected %v", x, y)
		}
		for i := range x {
			if !q.eq(F, x[i], y[i], d+1) {
				return false
			}
		}
		return true
	}
	return q.seq(F, mk("seq", "", nil, x...), mk("seq", "", nil, y...), d)
}

// absent drops the removals of keys that are not there.
func (q *Equiv) absent(F *Facts, ps []*Term) []*Term {
	if q.mbase == nil {
		return ps
	}
	var out []*Term
	for _, o := range ps {
		if o.Op == "del" && F.evalBool(F.simp(mkIn(q.mbase, o.Args[0]))) == tFalse {
			continue
		}
		out = append(out, o)
	}
	return out
}

func (q *Equiv) seqPartsOf(F *Facts, t *Term) []*Term {
	if t.Op == "each" {
		return []*Term{t}
	}
	t = F.simp(t)
	var out []*Term
	for _, p := range seqParts(t) {
		if p.Op == "spread" && F.evalBool(F.simp(mkEq(mkLen(p.Args[0]), tZero))) == tTrue {
			continue
		}
		out = append(out, p)
	}
	return out
}

func (q *Equiv) seq(F *Facts, a, b *Term, d int) bool {
	x, y := q.seqPartsOf(F, a), q.seqPartsOf(F, b)
	x, y = q.dropEmptyEach(F, x), q.dropEmptyEach(F, y)
	if len(x) != len(y) {
		return q.differ("sequence %s, expected %s", long(a), long(b))
	}
	for i := range x {
		p, r := x[i], y[i]
		if p == r {
			continue
		}
		if p.Op != r.Op {
			return q.differ("sequence part %s, expected %s", long(p), long(r))
		}
		switch p.Op {
		case "each":
			if !q.binder(F, p, r, d+1) {
				return false
			}
		default:
			for k := range p.Args {
				if !q.eq(F, p.Args[k], r.Args[k], d+1) {
					return false
				}
			}
		}
	}
	return true
}

func (q *Equiv) dropEmptyEach(F *Facts, ps []*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if p.Op == "each" {
			e := emptyOf(mk("seq", "", nil, p))
			if e != nil && F.evalBool(F.simp(e)) == tTrue {
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// withoutKeys: a map without the keys of another is built from the remaining entries.
func withoutKeys(t *Term) *Term {
	if t.Op != "map" || len(t.Args) != 2 || t.Args[1].Op != "each" {
		return nil
	}
	base := t.Args[0]
	j, N, cs, ok := pointwise(t.Args[1])
	if !ok || base.Typ == nil || !isMapT(base.Typ) || isNestedMap(base.Typ) || len(cs) == 0 {
		return nil
	}
	j2 := freshIx(mk("mapdom", "", nil, base), t.Args[1])
	m := map[*Term]*Term{j: j2}
	var g []*Term
	var key *Term
	for _, c := range cs {
		if c.Args[1].Op != "del" {
			return nil
		}
		key = subst(c.Args[1].Args[0], m)
		g = append(g, mkNot(mkAnd(mkIn(N, key), subst(c.Args[0], m))))
	}
	if mkAnd(g...) == tFalse {
		return mk("mapempty", "", base.Typ)
	}
	elem := base.Typ.Underlying().(*types.Map).Elem()
	return mkMap(mk("mapempty", "", base.Typ), mkEach(j2, []*Term{mk("case", "", nil, mkAnd(g...), mk("set", "", nil, key, mkLookup(base, key, elem)))}))
}

// noOps drops the iterations that change nothing.
func noOps(t *Term) *Term {
	if t.Op != "map" {
		return t
	}
	out := []*Term{}
	for _, o := range t.Args[1:] {
		if o.Op == "each" && len(dropCases(o.Args[1:], func(c *Term) bool { return len(c.Args) < 2 })) == 0 {
			continue
		}
		out = append(out, o)
	}
	if len(out) == 0 {
		return t.Args[0]
	}
	return mk("map", "", t.Typ, append([]*Term{t.Args[0]}, out...)...)
}

// maps compares map contents: the same operations on the same base.
func (q *Equiv) maps(F *Facts, a, b *Term, d int) bool {
	base := func(t *Term) (*Term, []*Term) {
		if t.Op == "map" {
			return t.Args[0], t.Args[1:]
		}
		return t, nil
	}
	if x, y := withoutKeys(a), withoutKeys(b); x != nil && y == nil {
		a = x
	} else if y != nil && x == nil {
		b = y
	}
	a, b = noOps(a), noOps(b)
	ba, oa := base(a)
	bb, ob := base(b)
	if a.Op != "map" && b.Op != "map" {
		if v := F.evalBool(F.simp(mkEq(mkLen(a), mkLen(b)))); (a.Op == "mapempty" || b.Op == "mapempty") && (a.Op == "nil" || b.Op == "nil" || v == tTrue) {
			return true
		}
		return q.differ("map %s, expected %s", long(a), long(b))
	}
	if ba != bb && !(ba.Op == "mapempty" && bb.Op == "mapempty") && !q.eq(F, ba, bb, d+1) {
		return q.differ("map based on %s, expected %s", long(ba), long(bb))
	}
	if len(oa) != len(ob) {
		return q.differ("map %s, expected %s", long(a), long(b))
	}
	saved := q.mbase
	q.mbase = nil
	if len(oa) == 1 {
		q.mbase = ba
	}
	defer func() { q.mbase = saved }()
	for i := range oa {
		x, y := oa[i], ob[i]
		if x == y {
			continue
		}
		if x.Op != y.Op {
			return q.differ("map update %s, expected %s", long(x), long(y))
		}
		if x.Op == "each" {
			if !q.binder(F, x, y, d+1) {
				return false
			}
			continue
		}
		for k := range x.Args {
			if !q.eq(F, x.Args[k], y.Args[k], d+1) {
				return false
			}
		}
	}
	return true
}

// findTerm returns a subterm with the property.
func findTerm(t *Term, is func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if is(t) {
			return t
		}
		for _, a := range t.Args {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

func isPublish(e *Term) bool { return e.Op == "ev" && e.Str == "publish" }

// tidyPublish: an inner map that is there and is put back where it was is no change of the outer map;
// its own change is shown by itself.
func tidyPublish(F *Facts, e *Term) *Term {
	var args []*Term
	for _, p := range e.Args {
		v := p.Args[1]
		if v.Op == "mc" && v == p.Args[0] || v.Op == "sel" && mkFA(v.Args[0], v.Str, p.Args[0].Typ) == p.Args[0] {
			continue // what was there
		}
		if v.Op == "mapempty" && v == p.Args[0] {
			continue // a new map that nothing was put into, if it is kept in another one that is shown there
		}
		if v.Op != "map" || !isNestedMap(v.Typ) {
			args = append(args, p)
			continue
		}
		base := v.Args[0]
		ops := []*Term{base}
		drop := true
		for _, o := range v.Args[1:] {
			if o.Op != "set" {
				drop = false
				break
			}
			k := o.Args[0]
			there := F.evalBool(mkIn(base, k)) == tTrue
			in := o.Args[1]
			if in.Op == "map" {
				in = in.Args[0]
			}
			shown := in == mk("mc", "", in.Typ, base, k)
			if there && shown {
				continue
			}
			ops = append(ops, o)
		}
		switch {
		case !drop:
			args = append(args, p)
		case len(ops) > 1:
			args = append(args, mk("put", "", nil, p.Args[0], mkMap(ops[0], ops[1:]...)))
		}
	}
	return mk(e.Op, e.Str, e.Typ, args...)
}
