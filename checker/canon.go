package main

import (
	"sort"
	"strconv"
	"strings"
)

// Canonical form of case lists: an ordered decision diagram over the atoms of the guards, reduced
// modulo the theory of the facts, and read back as the list of its paths.

type dd struct {
	atom   *Term
	hi, lo *dd
	leaf   bool
	none   bool
	dc     bool // cannot happen
	pay    []*Term
	id     int
}

var (
	ddTab     = map[string]*dd{}
	canonMemo = map[string][]*Term{}
	canonBusy int
)

func ddKeyPay(p []*Term) string {
	var b strings.Builder
	b.WriteString("L")
	for _, t := range p {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(t.id))
	}
	return b.String()
}

func ddLeaf(p []*Term) *dd {
	k := ddKeyPay(p)
	if d := ddTab[k]; d != nil {
		return d
	}
	d := &dd{leaf: true, pay: p, id: len(ddTab)}
	ddTab[k] = d
	return d
}

func ddNone() *dd {
	if d := ddTab["N"]; d != nil {
		return d
	}
	d := &dd{leaf: true, none: true, id: len(ddTab)}
	ddTab["N"] = d
	return d
}

func ddDC() *dd {
	if d := ddTab["D"]; d != nil {
		return d
	}
	d := &dd{leaf: true, none: true, dc: true, id: len(ddTab)}
	ddTab["D"] = d
	return d
}

func ddNode(a *Term, hi, lo *dd) *dd {
	if hi == lo {
		return hi
	}
	k := "n" + strconv.Itoa(a.id) + "," + strconv.Itoa(hi.id) + "," + strconv.Itoa(lo.id)
	if d := ddTab[k]; d != nil {
		return d
	}
	d := &dd{atom: a, hi: hi, lo: lo, id: len(ddTab)}
	ddTab[k] = d
	return d
}

type ddCase struct {
	g   *Term
	pay []*Term
	dc  bool
}

func guardAtoms(g *Term, out map[*Term]bool) {
	switch g.Op {
	case "and", "not":
		for _, a := range g.Args {
			guardAtoms(a, out)
		}
		return
	}
	if g != tTrue && g != tFalse {
		out[g] = true
	}
}

// evalGuard simplifies a guard by replacing the atoms the facts decide.
func evalGuard(F *Facts, g *Term) *Term {
	switch g.Op {
	case "not":
		return mkNot(evalGuard(F, g.Args[0]))
	case "and":
		args := make([]*Term, len(g.Args))
		for i, a := range g.Args {
			args[i] = evalGuard(F, a)
			if args[i] == tFalse {
				return tFalse
			}
		}
		return mkAnd(args...)
	}
	v := F.simp(g)
	if r := F.evalBool(v); r != nil {
		return r
	}
	return g
}

var ddSteps int

func ddBuild(cs []ddCase, F *Facts) *dd {
	ddSteps++
	if ddSteps > 4000 {
		return nil
	}
	// simplify
	var open []ddCase
	for _, c := range cs {
		g := evalGuard(F, c.g)
		if g == tFalse {
			continue
		}
		open = append(open, ddCase{g, c.pay, c.dc})
		if g == tTrue {
			break
		}
	}
	if len(open) == 0 {
		return ddNone()
	}
	if open[0].g == tTrue && open[0].dc {
		return ddDC()
	}
	if open[0].g == tTrue {
		return ddLeaf(open[0].pay)
	}
	atoms := map[*Term]bool{}
	for _, c := range open {
		guardAtoms(c.g, atoms)
	}
	var best *Term
	for a := range atoms {
		if best == nil || atomLess(a, best) {
			best = a
		}
	}
	hf, lf := F.clone(), F.clone()
	var hi, lo *dd
	okh, okl := hf.add(best), lf.add(mkNot(best))
	if okh {
		hi = ddBuild(open, hf)
		if hi == nil {
			return nil
		}
	}
	if okl {
		lo = ddBuild(open, lf)
		if lo == nil {
			return nil
		}
	}
	if hi == nil {
		return lo
	}
	if lo == nil {
		return hi
	}
	if hi == lo {
		return hi
	}
	if hi.dc {
		return lo
	}
	if lo.dc {
		return hi
	}
	if ddRestrict(lo, hf) == ddRestrict(hi, hf) {
		return lo
	}
	if ddRestrict(hi, lf) == ddRestrict(lo, lf) {
		return hi
	}
	return ddNode(best, hi, lo)
}

func atomLess(a, b *Term) bool { return a.id < b.id }

// ddRestrict simplifies a diagram under facts, leaves included.
func ddRestrict(d *dd, F *Facts) *dd {
	ddSteps++
	if d.leaf {
		if d.none {
			return d
		}
		ch := false
		p := make([]*Term, len(d.pay))
		for i, t := range d.pay {
			p[i] = F.simp(t)
			if p[i] != t {
				ch = true
			}
		}
		if !ch {
			return d
		}
		return ddLeaf(p)
	}
	sa := F.simp(d.atom)
	v := F.evalBool(sa)
	if v == tTrue {
		return ddRestrict(d.hi, F)
	}
	if v == tFalse {
		return ddRestrict(d.lo, F)
	}
	hf, lf := F.clone(), F.clone()
	okh, okl := hf.add(d.atom), lf.add(mkNot(d.atom))
	if !okh {
		return ddRestrict(d.lo, F)
	}
	if !okl {
		return ddRestrict(d.hi, F)
	}
	switch sa.Op {
	case "not", "and", "or", "ite", "const":
		sa = d.atom
	}
	return ddNode(sa, ddRestrict(d.hi, hf), ddRestrict(d.lo, lf))
}

// canonWithDC: as canonCases; the guards dc describe what cannot happen.
func canonWithDC(cs []*Term, dc []*Term) []*Term {
	if len(dc) == 0 {
		return canonCases(cs, true)
	}
	var in []ddCase
	for _, g := range dc {
		in = append(in, ddCase{g: g, dc: true})
	}
	for _, c := range cs {
		in = append(in, ddCase{g: c.Args[0], pay: c.Args[1:]})
	}
	save := ddSteps
	ddSteps = 0
	d := ddBuild(in, newFacts())
	ddSteps = save
	if d == nil {
		return canonCases(cs, true)
	}
	var paths []ddCase
	ddPaths(d, nil, &paths)
	if len(paths) > 200 {
		return canonCases(cs, true)
	}
	var res []*Term
	for _, p := range paths {
		res = append(res, mk("case", "", nil, append([]*Term{p.g}, p.pay...)...))
	}
	sort.SliceStable(res, func(i, j int) bool { return res[i].id < res[j].id })
	return res
}

func ddPaths(d *dd, lits []*Term, out *[]ddCase) {
	if d.leaf {
		if !d.none {
			*out = append(*out, ddCase{g: mkAnd(lits...), pay: d.pay})
		}
		return
	}
	n := lits[:len(lits):len(lits)]
	ddPaths(d.hi, append(n, d.atom), out)
	ddPaths(d.lo, append(n, mkNot(d.atom)), out)
}

// canonCases brings a list of case terms (guard first) into canonical form. Cases with an empty
// payload are dropped when keepEmpty is false.
func canonCases(cs []*Term, keepEmpty bool) []*Term {
	if len(cs) == 0 {
		return nil
	}
	if len(cs) == 1 && simpleGuard(cs[0].Args[0]) {
		if !keepEmpty && len(cs[0].Args) == 1 {
			return nil
		}
		return cs
	}
	var b strings.Builder
	if keepEmpty {
		b.WriteByte('k')
	}
	for _, c := range cs {
		b.WriteString(strconv.Itoa(c.id))
		b.WriteByte(',')
	}
	key := b.String()
	if r, ok := canonMemo[key]; ok {
		return r
	}
	var in []ddCase
	for _, c := range cs {
		if !keepEmpty && len(c.Args) == 1 {
			// nothing happens: the same as no case, but it must come first in the order
			in = append(in, ddCase{g: c.Args[0]})
			continue
		}
		in = append(in, ddCase{g: c.Args[0], pay: c.Args[1:]})
	}
	save := ddSteps
	ddSteps = 0
	d := ddBuild(in, newFacts())
	ddSteps = save
	res := cs
	if d != nil {
		var paths []ddCase
		ddPaths(d, nil, &paths)
		if len(paths) <= 200 {
			res = nil
			for _, p := range paths {
				if len(p.pay) == 0 && !keepEmpty {
					continue
				}
				res = append(res, mk("case", "", nil, append([]*Term{p.g}, p.pay...)...))
			}
			sort.SliceStable(res, func(i, j int) bool { return res[i].id < res[j].id })
		}
	}
	canonMemo[key] = res
	return res
}

func simpleGuard(g *Term) bool {
	if g.Op == "not" {
		g = g.Args[0]
	}
	return g.Op != "and"
}

// canonGuards is the canonical form of a disjunction.
func canonGuards(gs []*Term) []*Term {
	var cs []*Term
	for _, g := range gs {
		cs = append(cs, mk("case", "", nil, g, tTrue))
	}
	var out []*Term
	for _, c := range canonCases(cs, true) {
		out = append(out, c.Args[0])
	}
	return out
}
