package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Eviction (C19).

const expiry = 30 * time.Second

// sweepModels: the boundary of the manager's own goroutines.
func sweepModels(ex *Exec, c *Ctx, budget int) {
	lookupModels(ex, c)
	ex.script = &Script{budget: budget}
	ex.neverReady = func(ch *Term, send bool) bool {
		// the stop channel of the manager
		return !send && ch.Op == "sel" && namedOf(ch.Args[0].Typ) == "xdsResourceManager"
	}
}

// tickOf: the time between two sweeps is at most the expiry period.
func tickOf(t *Term) *Term {
	if t.Op != "ev" || t.Str != "recv" {
		return t
	}
	ok := false
	var find func(t *Term)
	find = func(t *Term) {
		if t.Op == "call" && strings.HasPrefix(t.Str, "time.") && len(t.Args) > 0 {
			if n, is := t.Args[0].intVal(); is && n > 0 && n <= int64(expiry) {
				ok = true
			}
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	find(t)
	return mk("ev", "tick", nil, tBool(ok))
}

func init() {
	props["C19"] = &Prop{
		ID:    "C19",
		Refs:  []string{"C19", "roles", "C06"},
		Rule:  "One generic sweep equals the reference (an entry idle longer than the period leaves cache, meta and interest set in one locked section, the reserved listener and entries used within the period stay); every lookup returning a cached resource stamped it no later than it read it; an update stamps new entries and leaves the stamps of old ones; nothing else removes or stamps entries; a lookup that misses subscribes again.",
		Setup: func(ex *Exec, c *Ctx) {},
		Pair: func(ex *Exec, c *Ctx, name string) {
			lookupModels(ex, c)
			c.axiom = metaNotNil
			if strings.HasPrefix(name, "stamp") || name == "touch" {
				ex.shared, ex.onLock, ex.onAccess = nil, nil, nil
			}
			if name == "deliver" {
				ex.shared.fields["xdsResourceManager"] = []string{"notifierMap"}
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			q.ignoreEv = func(e *Term) bool { return !lookupEvs(e) }
			if strings.HasPrefix(name, "stamp") || name == "touch" {
				// the stamps of the entries are not touched on the way
				q.ignoreEv = func(e *Term) bool {
					return findTerm(e, func(x *Term) bool {
						return x.Op == "ev" && x.Str == "store" && underAddr(x.Args[0], "LastAccessTime")
					}) == nil
				}
				q.norm = func(t *Term) *Term {
					if t.Op == "call" && strings.HasPrefix(t.Str, "time.Now") {
						return mk("call", "time.Now", t.Typ)
					}
					return t
				}
			}
		},
		Extra: []func(*Ctx){sweepRules, touched, func(c *Ctx) {
			get := "/core/manager:(*xdsResourceManager).Get"
			up := "/core/manager:(*xdsResourceManager).UpdateResource"
			for _, f := range []string{"cache", "meta"} {
				c.onlyWriters("entries:"+f, "/core/manager", "xdsResourceManager", f, func() map[*ssa.Function]bool {
					return union(c.sweepers(), c.fns(up))
				})
			}
			c.onlyWriters("stamps", "/core/xdsresource", "ResourceMeta", "LastAccessTime", func() map[*ssa.Function]bool {
				return c.fns(up, get)
			})
		}},
	}
}

// metaNotNil: the entries of the manager's maps of pointers are objects.
func metaNotNil(t *Term) bool {
	return t.Op == "lookup" && t.Typ != nil && namedOf(t.Typ) == "ResourceMeta" && isPointer(t.Typ)
}

func sweepRules(c *Ctx) {
	c.sweepRulesOf(lookupEvs)
}

func (c *Ctx) sweepRulesOf(keep func(e *Term) bool) {
	refs := c.refFuncs("role_sweeper")
	sw := c.sweepers()
	c.guard("sweeper", "discovery", func() (bool, string) {
		return len(sw) == 1 && len(refs) == 1, fmt.Sprintf("%d goroutines started by NewXDSResourceManager", len(sw))
	})
	for f := range sw {
		c.sweepRole(f, refs[0], 1, keep)
	}
}

func (c *Ctx) sweepRole(fn, ref *ssa.Function, budget int, keep func(e *Term) bool) {
	c.guard("sweep:"+fn.Name(), "prefixes of runs", func() (bool, string) {
		run := func(f *ssa.Function) (*Exec, []Outcome) {
			ex := c.newExec()
			sweepModels(ex, c, budget)
			st := newState()
			args, binds := roleArgs(ex, st, f, clientSyms)
			return ex, ex.runFunc(f, args, binds, st)
		}
		ex, a := run(fn)
		c.account(ex)
		_, b := run(ref)
		q := newEquiv(ex)
		q.onlyEvents = true
		q.norm = tickOf
		q.ignoreEv = func(e *Term) bool { return !keep(e) }
		ms := q.compare(a, b)
		c.paths += len(a)
		c.pairs += q.pairs
		c.comps += q.compars
		c.mismatches("sweep", fn.Pos(), ms)
		return len(ms) == 0 && len(a) > 0, fmt.Sprintf("%d x %d runs of at most %d actions", len(a), len(b), budget)
	})
}

// touched: a lookup that returns a cached resource has stamped it with the time, no later than it read it.
func touched(c *Ctx) {
	for _, fn := range c.refFuncs("impl_get") {
		c.guard("touched", "path rule", func() (bool, string) {
			c.axiom = metaNotNil
			ex := c.newExec()
			lookupModels(ex, c)
			ex.onCell = func(st *State, a, v *Term) {
				if a.Op == "fa" && a.Str == "LastAccessTime" {
					st.emit("touch", st.F.simp(a.Args[0]), v)
				}
			}
			args := symArgs(fn)
			outs := ex.runFunc(fn, args, nil, c.start(ex, fn.Package(), "get", args))
			c.account(ex)
			c.paths += len(outs)
			rt, name := args[2], args[3]
			hits, bad := 0, 0
			for i := range outs {
				o := &outs[i]
				F := o.st.F
				if len(o.rets) != 2 || F.evalBool(F.simp(mkEq(o.rets[1], tNil))) == tFalse {
					continue
				}
				v := F.simp(o.rets[0])
				if !cached(F, v, rt, name) {
					continue
				}
				hits++
				at := epochOf(v)
				ok := false
				// nothing to stamp
				meta := ""
				for _, l := range F.lits {
					if l.Op == "not" && l.Args[0].Op == "in" && epochOf(l.Args[0]) <= at && underField(l.Args[0], "meta") {
						ok = true
					}
				}
				for _, e := range o.st.ev {
					if e.Str != "touch" {
						continue
					}
					p := F.simp(e.Args[0])
					if p.Op == "lookup" && F.simp(p.Args[1]) == F.simp(name) && len(p.Args[0].Args) == 2 && F.simp(p.Args[0].Args[1]) == F.simp(rt) &&
						underField(p, "meta") && epochOf(p) <= at && isNow(e.Args[1]) {
						ok = true
					}
				}
				if !ok && F.consistent(4) {
					bad++
					c.viol("touched", c.p.pos(c.entry(fn)), append([]string{"a lookup returns a cached resource without stamping it" + meta}, pathLits(o)...)...)
				}
			}
			return bad == 0 && hits > 0, fmt.Sprintf("%d hits on %d paths", hits, len(outs))
		})
	}
}

func underField(t *Term, f string) bool {
	return findTerm(t, func(x *Term) bool { return x.Op == "sel" && x.Str == f }) != nil
}

func isNow(v *Term) bool {
	return findTerm(v, func(x *Term) bool { return x.Op == "call" && strings.HasPrefix(x.Str, "time.Now") }) != nil
}

// epochOf: the locked section in which a value was read, -1 if none.
func epochOf(t *Term) int {
	at := findTerm(t, func(x *Term) bool { return x.Op == "at" })
	if at == nil {
		return -1
	}
	n, _ := strconv.Atoi(at.Str)
	return n
}

func underAddr(t *Term, f string) bool {
	return findTerm(t, func(x *Term) bool { return x.Op == "fa" && x.Str == f }) != nil
}
