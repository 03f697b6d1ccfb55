package main

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path merging: paths that leave the same values, memory and trace behind differ only in their
// condition; they are joined into one path with the disjunction of the conditions.

var objsMemo = map[*Term][]*Term{}

// objsIn lists the objects occurring in a term.
func objsIn(t *Term) []*Term {
	if t.Op == "obj" {
		return []*Term{t}
	}
	if len(t.Args) == 0 {
		return nil
	}
	if r, ok := objsMemo[t]; ok {
		return r
	}
	set := map[*Term]bool{}
	for _, a := range t.Args {
		for _, o := range objsIn(a) {
			set[o] = true
		}
	}
	var r []*Term
	for o := range set {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	objsMemo[t] = r
	return r
}

// gc drops the memory of unreachable objects created after mark.
func gc(st *State, roots []*Term, mark int) {
	any := false
	for a := range st.heap {
		if r := rootOf(a); r.Op == "obj" && objNum(r) > mark {
			any = true
			break
		}
	}
	if !any && len(st.alias) == 0 {
		return
	}
	live := map[*Term]bool{}
	var work []*Term
	see := func(t *Term) {
		for _, o := range objsIn(t) {
			if !live[o] {
				live[o] = true
				work = append(work, o)
			}
		}
	}
	for _, r := range roots {
		see(r)
	}
	for _, e := range st.ev {
		see(e)
	}
	byRoot := map[*Term][]*Term{}
	for a, v := range st.heap {
		r := rootOf(a)
		if r.Op == "obj" && objNum(r) > mark {
			byRoot[r] = append(byRoot[r], a)
			continue
		}
		see(a)
		see(v)
	}
	for a, v := range st.alias {
		if a.Op == "obj" && objNum(a) > mark {
			byRoot[a] = append(byRoot[a], v)
			continue
		}
		see(v)
	}
	for _, l := range st.F.lits {
		see(l)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range byRoot[o] {
			see(a)
			if v, ok := st.heap[a]; ok {
				see(v)
			}
		}
	}
	for a := range st.heap {
		if r := rootOf(a); r.Op == "obj" && objNum(r) > mark && !live[r] {
			delete(st.heap, a)
		}
	}
	for a := range st.alias {
		if a.Op == "obj" && objNum(a) > mark && !live[a] {
			delete(st.alias, a)
		}
	}
}

func stateKey(st *State) string {
	var b strings.Builder
	var ks []*Term
	for a := range st.heap {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		b.WriteString(strconv.Itoa(a.id) + ":" + strconv.Itoa(st.heap[a].id) + ",")
	}
	b.WriteByte('|')
	for _, e := range st.ev {
		b.WriteString(strconv.Itoa(e.id) + ",")
	}
	b.WriteByte('|')
	var os []string
	for k, v := range st.occ {
		os = append(os, k+"="+strconv.Itoa(v))
	}
	sort.Strings(os)
	b.WriteString(strings.Join(os, ","))
	b.WriteByte('|')
	ks = ks[:0]
	for a := range st.alias {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		b.WriteString(strconv.Itoa(a.id) + ":" + strconv.Itoa(st.alias[a].id) + ",")
	}
	return b.String()
}

func conjuncts(g *Term) []*Term {
	if g == tTrue {
		return nil
	}
	if g.Op == "and" {
		return g.Args
	}
	return []*Term{g}
}

// orOf is the disjunction of guards, common conjuncts factored out.
func orOf(gs []*Term) *Term {
	if len(gs) == 0 {
		return tFalse
	}
	cg := canonGuards(gs)
	if len(cg) == 0 {
		return tFalse
	}
	if len(cg) == 1 {
		return cg[0]
	}
	cnt := map[*Term]int{}
	for _, g := range cg {
		for _, c := range conjuncts(g) {
			cnt[c]++
		}
	}
	var common []*Term
	for _, c := range conjuncts(cg[0]) {
		if cnt[c] == len(cg) {
			common = append(common, c)
		}
	}
	var rest []*Term
	for _, g := range cg {
		var r []*Term
		for _, c := range conjuncts(g) {
			if cnt[c] != len(cg) {
				r = append(r, c)
			}
		}
		rest = append(rest, mkAnd(r...))
	}
	return mkAnd(append(common, mkOr(rest...))...)
}

// mergeOutcomes joins the outcomes of a call. base are the facts before the call.
func (ex *Exec) mergeOutcomes(base *Facts, outs []Outcome, mark int) []Outcome {
	if len(outs) < 2 {
		for i := range outs {
			if outs[i].panic == "" {
				gc(outs[i].st, outs[i].rets, mark)
			}
		}
		return outs
	}
	nbase := len(base.lits)
	groups := map[string][]int{}
	var order []string
	var res []Outcome
	for i := range outs {
		o := &outs[i]
		if o.panic != "" {
			continue
		}
		gc(o.st, o.rets, mark)
		var b strings.Builder
		for _, r := range o.rets {
			if isBool(r) {
				b.WriteString("?,")
			} else {
				b.WriteString(strconv.Itoa(r.id) + ",")
			}
		}
		b.WriteString(stateKey(o.st))
		k := b.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			res = append(res, outs[g[0]])
			continue
		}
		// the number of boolean results that differ
		o0 := outs[g[0]]
		vary := -1
		nvary := 0
		for p := range o0.rets {
			for _, i := range g[1:] {
				if outs[i].rets[p] != o0.rets[p] {
					vary = p
					nvary++
					break
				}
			}
		}
		if nvary > 1 {
			for _, i := range g {
				res = append(res, outs[i])
			}
			continue
		}
		var guards, trues []*Term
		cnt := map[*Term]int{}
		for _, i := range g {
			c := mkAnd(outs[i].st.F.lits[nbase:]...)
			guards = append(guards, c)
			if vary >= 0 {
				trues = append(trues, mkAnd(c, outs[i].rets[vary]))
			}
			for _, l := range outs[i].st.F.imp {
				cnt[l]++
			}
		}
		imps := o0.st.F.imp
		st := o0.st
		st.F = base.clone()
		if !st.F.add(orOf(guards)) {
			continue
		}
		for _, l := range imps {
			if cnt[l] == len(g) {
				st.F.addImp(l)
			}
		}
		n := Outcome{st: st, rets: append([]*Term(nil), o0.rets...), pos: o0.pos}
		if vary >= 0 {
			n.rets[vary] = st.F.simp(orOf(trues))
		}
		res = append(res, n)
	}
	for i := range outs {
		if outs[i].panic != "" {
			res = append(res, outs[i])
		}
	}
	return res
}

// liveIn is the set of values used in blocks reachable from b (entered from prev).
func (ex *Exec) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	if m, ok := ex.liveMemo[b]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	var ops []*ssa.Value
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, in := range x.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil {
					m[*o] = true
				}
			}
		}
		for _, s := range x.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	if ex.liveMemo == nil {
		ex.liveMemo = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	}
	ex.liveMemo[b] = m
	return m
}
