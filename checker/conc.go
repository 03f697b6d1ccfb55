package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Shared memory under a lock: what a guarded field holds is forgotten whenever the lock is released or the
// goroutine waits, every change made in a locked section is published as one action when the section ends, and
// guarded fields are touched in locked sections only.

type sharedSpec struct {
	owner  string              // type whose field mu is the lock
	fields map[string][]string // type -> guarded fields
	free   map[string]bool     // type.field: may be read without the lock after a wait
}

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (s *sharedSpec) has(typ, f string) bool {
	for _, x := range s.fields[typ] {
		if x == f {
			return true
		}
	}
	return false
}

// addr: the address of a guarded field.
func (s *sharedSpec) addr(a *Term) bool {
	return (a.Op == "fa" || a.Op == "sel") && s.has(namedOf(a.Args[0].Typ), a.Str)
}

// root: the guarded field that a place or a map reference belongs to.
func (s *sharedSpec) root(a *Term) *Term {
	for i := 0; i < 12; i++ {
		if s.addr(a) {
			return a
		}
		switch a.Op {
		case "fa", "ia", "ml", "mc", "sel":
			a = a.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func (s *sharedSpec) lock(mu *Term) bool {
	return mu.Op == "fa" && mu.Str == "mu" && namedOf(mu.Args[0].Typ) == s.owner
}

// useShared installs the discipline.
func (ex *Exec) useShared(s *sharedSpec) {
	ex.shared = s
	w, r := "$W:"+s.owner, "$R:"+s.owner
	ex.onLock = func(st *State, m string, mu *Term) {
		if !s.lock(mu) {
			return
		}
		switch m {
		case "Lock":
			if st.occ[w]+st.occ[r] > 0 {
				st.emit("bad:locked twice")
			}
			st.occ[w]++
		case "RLock":
			if st.occ[w]+st.occ[r] > 0 {
				st.emit("bad:locked twice")
			}
			st.occ[r]++
		case "Unlock", "RUnlock":
			k := w
			if m == "RUnlock" {
				k = r
			}
			if st.occ[k] == 0 {
				st.emit("bad:unlock of an unlocked mutex")
			}
			st.occ[k] = 0
			ex.publish(st)
			ex.forget(st)
		}
	}
	prev := ex.onStore
	ex.onAccess = func(st *State, a *Term, write bool) {
		g := s.root(a)
		if g == nil {
			return
		}
		if g.Args[0].Op == "obj" && st.heap[mkFA(g.Args[0], "$pub", nil)] == nil {
			return // not shared yet
		}
		if st.occ[w] > 0 || !write && st.occ[r] > 0 {
			return
		}
		f := namedOf(g.Args[0].Typ) + "." + g.Str
		if !write && s.free[f] && st.occ["$waited"] > 0 {
			return
		}
		if write {
			st.emit("bad:write of " + f + " without the lock")
		} else {
			st.emit("bad:read of " + f + " without the lock")
		}
	}
	_ = prev
}

// publish: the changes of the section that ends.
func (ex *Exec) publish(st *State) {
	s := ex.shared
	var ps []*Term
	for a := range st.heap {
		g := s.root(a)
		if g == nil || g.Args[0].Op == "obj" {
			continue
		}
		ps = append(ps, a)
	}
	if len(ps) == 0 {
		return
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].String() < ps[j].String() })
	var args []*Term
	for _, a := range ps {
		v := st.F.simp(ex.freeze(st, st.heap[a], 0))
		if v == st.F.simp(ex.initialRef(st, a)) {
			continue
		}
		args = append(args, mk("put", "", nil, putPlace(ex.freeze(st, a, 0)), v))
	}
	if len(args) > 0 {
		st.emit("publish", args...)
	}
}

// putPlace: a map kept in a field is the same place whether it was replaced or changed.
func putPlace(a *Term) *Term {
	if a.Op == "sel" && isMapT(a.Typ) {
		x := a.Args[0]
		for x.Op == "at" {
			x = x.Args[0]
		}
		return mkFA(x, a.Str, types.NewPointer(a.Typ))
	}
	return a
}

// initialRef is what a place held when the section began.
func (ex *Exec) initialRef(st *State, a *Term) *Term {
	if a.Op == "ml" {
		return mk("mc", "", a.Typ, a.Args...)
	}
	if a.Op != "fa" {
		return a
	}
	return ex.initial(st, a, derefT(a.Typ))
}

// forget: other goroutines run.
func (ex *Exec) forget(st *State) {
	s := ex.shared
	st.occ["$epoch"]++
	n := st.occ["$epoch"]
	for a, v := range st.heap {
		if g := s.root(a); g != nil && g.Args[0].Op != "obj" {
			ex.escape(st, v)
			delete(st.heap, a)
		}
	}
	for a := range st.heap {
		if a.Op != "fa" || a.Str != "$pub" {
			continue
		}
		o := a.Args[0]
		id := st.heap[a]
		for _, f := range s.fields[namedOf(o.Typ)] {
			ft := structOf(derefT(o.Typ)).Field(fieldIdx(structOf(derefT(o.Typ)), f)).Type()
			st.heap[mkFA(o, f, types.NewPointer(ft))] = mkSel(mk("at", fmt.Sprint(n), o.Typ, id), f, ft)
		}
	}
}

// escape: the objects reachable from a published value are shared from now on.
func (ex *Exec) escape(st *State, v *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "obj" {
			if len(ex.shared.fields[namedOf(t.Typ)]) > 0 {
				k := mkFA(t, "$pub", nil)
				if st.heap[k] == nil {
					st.heap[k] = mk("shared", fmt.Sprint(st.occ["$pub"]), t.Typ)
					st.occ["$pub"]++
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(v)
}

// waitPoint: the goroutine waits.
func (ex *Exec) waitPoint(st *State) {
	if ex.shared == nil {
		return
	}
	o := ex.shared.owner
	if st.occ["$W:"+o]+st.occ["$R:"+o] > 0 {
		st.emit("bad:waiting with the lock held")
		return
	}
	st.occ["$waited"]++
	ex.forget(st)
}

func isBadEv(e *Term) bool { return e.Op == "ev" && strings.HasPrefix(e.Str, "bad:") }

// asOfNow rewrites what the current section read as read "now": how many sections came before it
// does not matter.
func (ex *Exec) asOfNow(st *State, t *Term) *Term {
	s := ex.shared
	if s == nil {
		return t
	}
	t = st.F.simp(t)
	n := st.occ["$epoch"]
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "at" && t.Str == strconv.Itoa(n) {
			m[t] = mk("at", "now", t.Typ, t.Args...)
			return
		}
		if n == 0 && t.Op == "sel" && t.Args[0].Op != "at" && s.addr(mkFA(t.Args[0], t.Str, types.NewPointer(t.Typ))) {
			m[t] = mkSel(mk("at", "now", t.Args[0].Typ, t.Args[0]), t.Str, t.Typ)
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return subst(t, m)
}
