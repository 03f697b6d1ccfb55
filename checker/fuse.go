package main

import (
	"fmt"
	"go/types"
)

// Loop fusion over built maps: iterating over the entries of a map that was built by filtering and mapping the
// entries of another map N, keyed like N, is iterating over N.

// keyedBy: E = each(j in mapdom(N): {g => set(key(j), v)} ...): every case sets at most the entry of the key of j.
func keyedBy(e *Term) (j, n *Term, ok bool) {
	if e.Op != "each" {
		return nil, nil, false
	}
	j = e.Args[0]
	d := ixDomain(j)
	if j.Op != "ix" || d == nil || d.Op != "mapdom" {
		return nil, nil, false
	}
	for _, c := range e.Args[1:] {
		if len(c.Args) == 1 {
			continue
		}
		if len(c.Args) != 2 || c.Args[1].Op != "set" {
			return nil, nil, false
		}
		k := c.Args[1].Args[0]
		if k.Op != "key" || k.Args[0] != j {
			return nil, nil, false
		}
	}
	return j, d.Args[0], true
}

func ixNames(t *Term, dom *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "ix" && len(t.Args) == 1 && t.Args[0] == dom {
		out[t.Str] = true
	}
	for _, a := range t.Args {
		ixNames(a, dom, out, seen)
	}
}

// freshIx is an index over a domain that does not occur in the terms.
func freshIx(dom *Term, in ...*Term) *Term {
	used := map[string]bool{}
	seen := map[*Term]bool{}
	for _, b := range in {
		ixNames(b, dom, used, seen)
	}
	n := 0
	for used[fmt.Sprint(n)] {
		n++
	}
	return mk("ix", fmt.Sprint(n), types.Typ[types.Int], dom)
}

type fusedCase struct {
	g *Term           // condition of the entry
	m map[*Term]*Term // substitution
}

// fuse returns the index over the underlying map and the cases of its entries.
func fuse(ix *Term, body []*Term) (*Term, []fusedCase) {
	d := ixDomain(ix)
	if ix.Op == "ix" && d != nil && d.Op == "count" {
		return fuseSeq(ix, d, body)
	}
	if ix.Op != "ix" || d == nil || d.Op != "mapdom" {
		return nil, nil
	}
	M := d.Args[0]
	if M.Op != "map" || len(M.Args) != 2 || M.Args[0].Op != "mapempty" && M.Args[0].Op != "nil" {
		return nil, nil
	}
	e := M.Args[1]
	j, N, ok := keyedBy(e)
	if !ok {
		return nil, nil
	}
	j2 := freshIx(mk("mapdom", "", nil, N), body...)
	var out []fusedCase
	for _, c := range e.Args[1:] {
		if len(c.Args) == 1 {
			continue
		}
		set := c.Args[1]
		k := set.Args[0]
		mj := map[*Term]*Term{j: j2}
		k2 := subst(k, mj)
		v2 := subst(set.Args[1], mj)
		out = append(out, fusedCase{g: subst(c.Args[0], mj), m: map[*Term]*Term{
			mk("lookup", "", set.Args[1].Typ, M, mk("key", "", k.Typ, ix)):   v2,
			mk("in", "", types.Typ[types.Bool], M, mk("key", "", k.Typ, ix)): tTrue,
			mk("key", "", k.Typ, ix): k2,
			ix:                       j2,
		}})
	}
	return j2, out
}

// fuseSeq: iterating over the elements of a sequence that was built by filtering and mapping a domain is iterating
// over that domain. The position itself must not be used.
func fuseSeq(ix, d *Term, body []*Term) (*Term, []fusedCase) {
	n := d.Args[0]
	if n.Op != "len" && n.Op != "sum" {
		return nil, nil
	}
	// the sequences that are indexed with ix
	var S *Term
	types_ := map[*Term]bool{}
	ok := true
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t == ix {
			ok = false
			return
		}
		if t.Op == "index" && t.Args[1] == ix {
			if S != nil && S != t.Args[0] {
				ok = false
				return
			}
			S = t.Args[0]
			types_[t] = true
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, b := range body {
		walk(b)
	}
	if !ok || S == nil || S.Op != "seq" || len(S.Args) != 1 || S.Args[0].Op != "each" || mkLen(S) != n {
		return nil, nil
	}
	e := S.Args[0]
	j := e.Args[0]
	dom := ixDomain(j)
	if j.Op != "ix" || dom == nil {
		return nil, nil
	}
	for _, c := range e.Args[1:] {
		if len(c.Args) != 1 && (len(c.Args) != 2 || c.Args[1].Op != "one") {
			return nil, nil
		}
	}
	used := map[string]bool{}
	seen2 := map[*Term]bool{}
	for _, b := range body {
		ixNames(b, dom, used, seen2)
	}
	k := 0
	for used[fmt.Sprint(k)] {
		k++
	}
	j2 := mk("ix", fmt.Sprint(k), types.Typ[types.Int], dom)
	var out []fusedCase
	for _, c := range e.Args[1:] {
		if len(c.Args) == 1 {
			continue
		}
		mj := map[*Term]*Term{j: j2}
		f := fusedCase{g: subst(c.Args[0], mj), m: map[*Term]*Term{}}
		v := subst(c.Args[1].Args[0], mj)
		for t := range types_ {
			f.m[t] = v
		}
		out = append(out, f)
	}
	return j2, out
}

// fuseCases rewrites the cases of a binder.
func fuseCases(ix *Term, cs []*Term) (*Term, []*Term) {
	for {
		j, fs := fuse(ix, cs)
		if j == nil {
			return ix, cs
		}
		var out []*Term
		for _, f := range fs {
			for _, c := range cs {
				g := mkAnd(f.g, subst(c.Args[0], f.m))
				if g == tFalse {
					continue
				}
				args := []*Term{g}
				for _, p := range c.Args[1:] {
					args = append(args, subst(p, f.m))
				}
				out = append(out, mk("case", c.Str, nil, args...))
			}
		}
		ix, cs = j, out
	}
}

func fuseGuards(ix *Term, gs []*Term) (*Term, []*Term) {
	for {
		j, fs := fuse(ix, gs)
		if j == nil {
			return ix, gs
		}
		var out []*Term
		for _, f := range fs {
			for _, g := range gs {
				out = append(out, mkAnd(f.g, subst(g, f.m)))
			}
		}
		ix, gs = j, out
	}
}

// pointwise: E = each(j in mapdom(N): {g => set(key(j), v)}, {h => del(key(j))} ...): the entry of a key depends on
// that key alone.
func pointwise(e *Term) (j, n *Term, cs []*Term, ok bool) {
	if e.Op != "each" {
		return
	}
	j = e.Args[0]
	d := ixDomain(j)
	if j.Op != "ix" || d == nil || d.Op != "mapdom" {
		return
	}
	for _, c := range e.Args[1:] {
		if len(c.Args) == 1 {
			continue
		}
		if len(c.Args) != 2 || c.Args[1].Op != "set" && c.Args[1].Op != "del" {
			return
		}
		k := c.Args[1].Args[0]
		if k.Op != "key" || k.Args[0] != j {
			// a case of one key only
			own := keyEq(c.Args[0], j, k)
			if own == nil {
				return
			}
			o := c.Args[1]
			c = mk("case", c.Str, nil, c.Args[0], mk(o.Op, o.Str, o.Typ, append([]*Term{own}, o.Args[1:]...)...))
		}
		cs = append(cs, c)
	}
	return j, d.Args[0], cs, true
}

// atKey: the conditions under which e sets and removes the entry of k; nil if they cannot be told.
func atKey(e, k *Term) (set, del *Term) {
	j, N, cs, ok := pointwise(e)
	if !ok {
		return nil, nil
	}
	var ss, ds []*Term
	for _, c := range cs {
		g := subst(c.Args[0], map[*Term]*Term{c.Args[1].Args[0]: k})
		if occurs(j, g) && k.Op != "key" {
			return nil, nil
		}
		if c.Args[1].Op == "set" {
			ss = append(ss, g)
		} else {
			ds = append(ds, g)
		}
	}
	in := mkIn(N, k)
	return mkAnd(in, orOf(ss)), mkAnd(in, orOf(ds))
}

// valueAt is what e sets for k, nil if it cannot be told. The facts imply that it sets the entry.
func valueAt(f *Facts, e, k *Term) *Term {
	j, _, cs, ok := pointwise(e)
	if !ok {
		return nil
	}
	for _, c := range cs {
		m := map[*Term]*Term{c.Args[1].Args[0]: k}
		g := subst(c.Args[0], m)
		switch f.evalBool(f.simp(g)) {
		case tFalse:
			continue
		case tTrue:
			if c.Args[1].Op != "set" {
				return nil
			}
			v := subst(c.Args[1].Args[1], m)
			if occurs(j, v) && k.Op != "key" {
				return nil
			}
			return v
		}
		return nil
	}
	return nil
}

// preAt: before the iteration of its key, the entry is what it was before the loop.
func preAt(m, k *Term) *Term {
	at, full := m.Args[0], m.Args[1]
	if k.Op != "key" || k.Args[0] != at || full.Op != "map" {
		return nil
	}
	last := full.Args[len(full.Args)-1]
	if _, _, _, ok := pointwise(last); !ok || ixDomain(last.Args[0]) != ixDomain(at) {
		return nil
	}
	if len(full.Args) > 2 {
		return mk("map", "", full.Typ, full.Args[:len(full.Args)-1]...)
	}
	return full.Args[0]
}

// keyEq: the guard says that the key of j is k.
func keyEq(g, j, k *Term) *Term {
	for _, l := range litsOf(g) {
		if l.Op != "eq" {
			continue
		}
		for i, a := range l.Args {
			if a.Op == "key" && a.Args[0] == j && l.Args[1-i] == k {
				return a
			}
		}
	}
	return nil
}

// flat: the guards look at the elements of S = seq(each(j: spread(X))) at ix only: the search of the elements is one
// of the parts and one in the part.
type flat struct {
	elems     map[*Term]*Term // index(S, ix) -> index(X, in)
	outer, in *Term
	g         *Term
}

func flatOf(ix *Term, body []*Term) *flat {
	d := ixDomain(ix)
	if ix.Op != "ix" || d == nil || d.Op != "count" {
		return nil
	}
	var S *Term
	ok := true
	elems := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t == ix {
			ok = false
			return
		}
		if t.Op == "index" && t.Args[1] == ix {
			if S != nil && S != t.Args[0] {
				ok = false
				return
			}
			S = t.Args[0]
			elems[t] = true
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, b := range body {
		walk(b)
	}
	if !ok || S == nil || S.Op != "seq" || len(S.Args) != 1 || S.Args[0].Op != "each" || mkLen(S) != d.Args[0] {
		return nil
	}
	e := S.Args[0]
	j := e.Args[0]
	dom := ixDomain(j)
	if j.Op != "ix" || dom == nil || len(e.Args) != 2 || len(e.Args[1].Args) != 2 || e.Args[1].Args[1].Op != "spread" {
		return nil
	}
	free := func(dom *Term, in ...*Term) *Term {
		used := map[string]bool{}
		seen := map[*Term]bool{}
		for _, b := range in {
			ixNames(b, dom, used, seen)
		}
		k := 0
		for used[fmt.Sprint(k)] {
			k++
		}
		return mk("ix", fmt.Sprint(k), types.Typ[types.Int], dom)
	}
	f := &flat{elems: map[*Term]*Term{}}
	hole := mk("hole", "flat", nil)
	mh := map[*Term]*Term{j: hole}
	for t := range elems {
		mh[t] = hole
	}
	rest := []*Term{subst(e.Args[1].Args[0], mh), subst(e.Args[1].Args[1].Args[0], mh)}
	for _, b := range body {
		rest = append(rest, subst(b, mh))
	}
	f.outer = free(dom, rest...)
	mj := map[*Term]*Term{j: f.outer}
	f.g = subst(e.Args[1].Args[0], mj)
	x := subst(e.Args[1].Args[1].Args[0], mj)
	f.in = free(mk("count", "", nil, mkLen(x)), rest...)
	for t := range elems {
		f.elems[t] = mkIndex(x, f.in, t.Typ)
	}
	return f
}

func (f *flat) inner(gs []*Term) *Term {
	var out []*Term
	for _, g := range gs {
		out = append(out, subst(g, f.elems))
	}
	return mkExists(f.in, out)
}
