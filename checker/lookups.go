package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Rules for lookups: outcomes, waits, and what may become the value of one.

func init() {
	props["C05"] = &Prop{
		ID:    "C05",
		Rule:  "On every path a lookup returns exactly one of a value and an error; the value is the cached one under its type and name, or the one delivered with the wake-up; an unknown type is an error without subscription or wait; there is one wait, without locks, and it ends with the context whose deadline is the configured timeout; no panic. What a response supplies under a name is an entry the decoder of its type returned, non-nil and of the type's kind; the cache holds only what was supplied.",
		Setup: lookupModels,
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "timeout" {
				delete(ex.models, "("+pkgMgr+".XDSServerConfig).GetFetchXDSTimeout")
			}
			if strings.HasPrefix(name, "cache") {
				ex.shared, ex.onLock, ex.onAccess = nil, nil, nil
			}
		},
		Extra: []func(*Ctx){lookupOutcome, supplied, kinds, watchWaits},
	}
}

func pathLits(o *Outcome) []string {
	var d []string
	for _, l := range o.st.F.lits {
		d = append(d, "  when "+short(l))
	}
	return d
}

// cached: t is what the cache holds under a type and a name, now or at some moment of the call.
func cached(F *Facts, t, rt, name *Term) bool {
	if t.Op != "lookup" || F.simp(t.Args[1]) != F.simp(name) {
		return false
	}
	mc := t.Args[0]
	if mc.Op != "mc" && mc.Op != "lookup" || len(mc.Args) != 2 || F.simp(mc.Args[1]) != F.simp(rt) {
		return false
	}
	f := mc.Args[0]
	return f.Op == "sel" && f.Str == "cache" && F.evalBool(mkIn(mc, t.Args[1])) == tTrue
}

func lookupOutcome(c *Ctx) {
	for _, fn := range c.refFuncs("outcome_get") {
		c.guard("outcome", "path rule", func() (bool, string) {
			ex := c.newExec()
			ex.panics = true
			c.axiom = func(t *Term) bool {
				// the objects of the manager
				if t.Op == "sym" && t.Typ != nil && namedOf(t.Typ) != "" && isPointer(t.Typ) {
					return true
				}
				if t.Typ == nil {
					return false
				}
				switch t.Op {
				case "sel", "lookup":
					switch n := namedOf(t.Typ); n {
					case "notifier", "ResourceMeta", "xdsClient", "Options", "XDSServerConfig":
						return isPointer(t.Typ)
					case "Resource":
						// cached resources are not nil ("kinds", "supplied", "cache")
						return t.Op == "lookup"
					}
					if isMapT(t.Typ) && t.Op == "sel" && t.Args[0].Typ != nil && namedOf(t.Args[0].Typ) == "xdsResourceManager" {
						return true
					}
				}
				return false
			}
			args := symArgs(fn)
			st := c.start(ex, fn.Package(), "get", args)
			outs := ex.runFunc(fn, args, nil, st)
			c.account(ex)
			c.paths += len(outs)
			rt, name := args[2], args[3]
			seen := map[string]bool{}
			values, errs := 0, 0
			for i := range outs {
				o := &outs[i]
				bad := lookupPath(o, rt, name, &values, &errs)
				if bad == "" || seen[bad] || !o.st.F.consistent(4) {
					continue
				}
				seen[bad] = true
				pos := c.entry(fn)
				if o.panic != "" && o.pos.IsValid() {
					pos = o.pos
				}
				c.viol("outcome:"+strings.SplitN(bad, ":", 2)[0], c.p.pos(pos), append([]string{bad}, pathLits(o)...)...)
			}
			c.axiom = nil
			return len(seen) == 0 && values > 0 && errs > 0, fmt.Sprintf("%d paths with a value, %d with an error", values, errs)
		})
	}
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func lookupPath(o *Outcome, rt, name *Term, values, errs *int) string {
	F := o.st.F
	if o.panic != "" {
		return "can panic: " + o.panic
	}
	// the waits
	waits := 0
	known := false
	for _, e := range o.st.ev {
		if e.Op != "ev" {
			return "acts in a loop: " + short(e)
		}
		switch {
		case e.Str == "bad:waiting with the lock held":
			return e.Str
		case e.Str == "watch":
			known = true
			if F.simp(e.Args[0]) != F.simp(rt) || F.simp(e.Args[1]) != F.simp(name) || e.Args[2] != tFalse {
				return "subscribes to something else: " + short(e)
			}
		case e.Str == "select":
			waits++
			known = true
			done := false
			for _, a := range e.Args[1:] {
				if a.Str == "r" && deadline1(F.simp(a.Args[0])) {
					done = true
				}
			}
			if !done {
				return "waits without its deadline: " + short(e)
			}
		case e.Str == "recv" || e.Str == "send":
			waits++
			known = true
			if e.Str != "recv" || !deadline1(F.simp(e.Args[0])) {
				return "waits without its deadline: " + short(e)
			}
		}
	}
	if waits > 1 {
		return "waits more than once"
	}
	v, e := F.simp(o.rets[0]), F.simp(o.rets[1])
	vn, en := F.evalBool(F.simp(mkEq(v, tNil))), F.evalBool(F.simp(mkEq(e, tNil)))
	res := v.Op == "sel" && v.Args[0].Op == "at" && namedOf(v.Args[0].Typ) == "notifier"
	if vn == nil && res && waitedFor(F, v.Args[0].Args[0]) {
		// delivered with the wake-up
		vn = tFalse
	}
	if vn == nil {
		return "may or may not return a value: " + short(v)
	}
	if en == nil {
		return "may or may not return an error: " + short(e)
	}
	if vn == en {
		if vn == tTrue {
			return "returns neither a value nor an error"
		}
		return "returns a value and an error"
	}
	if en == tFalse {
		*errs++
	} else {
		*values++
		if !cached(F, v, rt, name) && !res {
			return "returns a value from elsewhere: " + short(v)
		}
	}
	// an unknown type
	url := false
	for _, l := range F.lits {
		if l.Op == "eq" && (l.Args[0] == rt && l.Args[1].isConst() || l.Args[1] == rt && l.Args[0].isConst()) || l.Op == "in" && l.Args[1] == rt {
			url = true
		}
	}
	if F.simp(rt).isConst() {
		url = true
	}
	if !url && (known || en == tTrue) {
		return "serves an unknown type"
	}
	return ""
}

// deadline1: the channel of the context that ends at the lookup's deadline.
func deadline1(ch *Term) bool {
	if ch.Op != "call" || !strings.HasSuffix(ch.Str, ".Done") {
		return false
	}
	w := ch.Args[0]
	if w.Op != "call" || w.Str != "WithTimeout" || len(w.Args) != 2 {
		return false
	}
	ctx, d := w.Args[0], w.Args[1]
	return ctx.Op == "sym" && ctx.Str == "ctx" && d.Op == "call" && strings.HasSuffix(d.Str, ".GetFetchXDSTimeout") &&
		findTerm(d, func(t *Term) bool { return t.Op == "sel" && t.Str == "XDSSvrConfig" }) != nil
}

// waitedFor: the path was woken by the channel of the notifier.
func waitedFor(F *Facts, nf *Term) bool {
	for _, l := range F.lits {
		if l.Op == "call" && strings.HasPrefix(l.Str, "chosen#") && l.Args[0].Op == "alt" && l.Args[0].Str == "r" {
			ch := l.Args[0].Args[0]
			if ch.Op == "sel" && ch.Args[0] == nf || ch.Op == "chan" && nf.Op == "shared" {
				return true
			}
		}
	}
	return false
}

// supplied: the entries of an update are entries the decoder returned.
func supplied(c *Ctx) {
	kindOf := map[string]string{"LDS": "ListenerType", "RDS": "RouteConfigType", "CDS": "ClusterType", "EDS": "EndpointsType"}
	for _, fn := range c.refFuncs("supply_response") {
		c.guard("supplied", "path rule", func() (bool, string) {
			ex := c.newExec()
			ex.shared, ex.onLock, ex.onAccess = nil, nil, nil
			clientModels(ex, c)
			delete(ex.models, "(*"+pkgMgr+".xdsClient).Watch")
			seen := map[string]bool{}
			n := 0
			ex.models["(*"+pkgMgr+".xdsResourceManager).UpdateResource"] = func(ex *Exec, st *State, cl *Call) ([]Outcome, bool) {
				n++
				rt := st.F.simp(cl.args[1])
				fail := func(F *Facts, bad string) {
					if !seen[bad] && F.consistent(4) {
						seen[bad] = true
						c.viol("supplied", c.p.pos(cl.pos), append([]string{bad}, pathLits(&Outcome{st: &State{F: F}})...)...)
					}
				}
				// decoded: the map is the result of a decoder, of the type of the update
				decoded := func(F *Facts, m *Term) bool {
					if m.Op != "res" || m.Str != "0" || m.Args[0].Op != "call" {
						return false
					}
					call := m.Args[0].Str
					want := c.p.constOf(pkgRes, kindOf[strings.TrimPrefix(call[strings.LastIndexByte(call, '.')+1:], "Unmarshal")])
					if want == nil || rt != want {
						fail(F, "an update of type "+short(rt)+" carries what "+call+" returned")
					}
					return true
				}
				var walk func(F *Facts, t *Term)
				walk = func(F *Facts, t *Term) {
					switch {
					case t.Op == "mapempty" || t.Op == "nil" || t.Op == "del" || decoded(F, t):
					case t.Op == "map":
						for _, p := range t.Args {
							walk(F, p)
						}
					case t.Op == "each":
						for _, cs := range t.Args[1:] {
							if G := mergeFacts(F, []*Term{cs.Args[0]}); G != nil {
								for _, p := range cs.Args[1:] {
									walk(G, p)
								}
							}
						}
					case t.Op == "set":
						v := F.simp(t.Args[1])
						for v.Op == "iface" {
							v = v.Args[0]
						}
						if v.Op != "lookup" || !decoded(F, v.Args[0]) {
							fail(F, "an update carries something the decoder did not return: "+short(v))
						} else if F.evalBool(F.simp(mkIn(v.Args[0], v.Args[1]))) != tTrue {
							fail(F, "an update carries a resource that need not be in the response: "+short(v))
						}
					default:
						fail(F, "an update carries something the decoder did not return: "+short(t))
					}
				}
				walk(st.F, st.F.simp(ex.content(st, ex.resolve(st, cl.args[2]))))
				return ret(st), true
			}
			args := symArgs(fn)
			outs := ex.runFunc(fn, args, nil, c.start(ex, fn.Package(), "response", args))
			c.account(ex)
			c.paths += len(outs)
			return len(seen) == 0 && n > 0, fmt.Sprintf("%d updates", n)
		})
	}
}

// kinds: what the decoder of a type returns are non-nil resources of the type's kind.
func kinds(c *Ctx) {
	want := map[string]string{"UnmarshalLDS": "ListenerResource", "UnmarshalRDS": "RouteConfigResource", "UnmarshalCDS": "ClusterResource", "UnmarshalEDS": "EndpointsResource"}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn := c.p.mustFunc("/core/xdsresource", n)
		c.guard("kind:"+n, "path rule", func() (bool, string) {
			c.axiom = wireFormed
			defer func() { c.axiom = nil }()
			ex := c.newExec()
			args := symArgs(fn)
			st := newState()
			st.F.axiom = wireFormed
			outs := ex.runFunc(fn, args, nil, st)
			c.account(ex)
			c.paths += len(outs)
			entries := 0
			seen := map[string]bool{}
			for i := range outs {
				o := &outs[i]
				if o.panic != "" {
					continue
				}
				m := o.st.F.simp(ex.content(o.st, o.rets[0]))
				var walk func(t *Term)
				walk = func(t *Term) {
					switch t.Op {
					case "map":
						for _, p := range t.Args {
							walk(p)
						}
					case "each":
						for _, cs := range t.Args[1:] {
							for _, p := range cs.Args[1:] {
								walk(p)
							}
						}
					case "mapempty", "nil", "del":
					case "set":
						entries++
						v := t.Args[1]
						dyn := v.Typ
						bad := ""
						if v.Op == "iface" {
							v = v.Args[0]
							dyn = v.Typ
						}
						switch {
						case !shapeNonNil(v):
							bad = "an entry that may be nil: " + short(v)
						case namedOf(dyn) != want[n]:
							bad = "an entry of type " + fmt.Sprint(dyn)
						}
						if bad != "" && !seen[bad] {
							seen[bad] = true
							c.viol("kind:"+n, c.p.pos(fn.Pos()), n+" returns "+bad)
						}
					default:
						undec("entries of %s", short(t))
					}
				}
				walk(m)
			}
			return len(seen) == 0 && entries > 0, fmt.Sprintf("%d kinds of entries", entries)
		})
	}
}

// constOf is the value of a package constant.
func (p *Program) constOf(pkg, name string) *Term {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	n, exact := constant.Int64Val(k.Val())
	if !exact {
		return nil
	}
	return tInt(n)
}

// watchWaits: what subscribing can wait for, a lookup does it with the locks held.
func watchWaits(c *Ctx) {
	for _, fn := range c.refFuncs("waits_") {
		c.guard("waits", "path rule", func() (bool, string) {
			ex := newExec(c.p)
			defaultModels(ex)
			ex.neverReady = nil
			args := symArgs(fn)
			outs := ex.runFunc(fn, args, nil, c.start(ex, fn.Package(), "watch", args))
			c.account(ex)
			c.paths += len(outs)
			seen := map[string]bool{}
			waits := 0
			for i := range outs {
				o := &outs[i]
				for _, e := range flatEvents(o.st.ev) {
					var alts []*Term
					switch e.Str {
					case "select":
						alts = e.Args[1:]
					case "send":
						alts = []*Term{mk("alt", "s", nil, e.Args[0])}
					case "recv":
						alts = []*Term{mk("alt", "r", nil, e.Args[0])}
					default:
						continue
					}
					waits++
					closed, queue := false, true
					for _, a := range alts {
						ch := o.st.F.simp(a.Args[0])
						switch {
						case a.Str == "r" && isField(ch, "closeCh"):
							closed = true
						case a.Str == "s" && ch.Op == "sel":
						default:
							queue = false
						}
					}
					key := "waits:" + short(e)
					what := "waits with the locks held, not for a queue: " + short(e)
					if closed && queue {
						key, what = "waits:full-queue", "waits with the locks held while the queue of requests is full"
					} else if queue {
						key, what = "waits:closed", "waits with the locks held even if the client is closed: "+short(e)
					}
					if !seen[key] {
						seen[key] = true
						c.viol(key, c.p.pos(c.entry(fn)), append([]string{what}, pathLits(o)...)...)
					}
				}
			}
			return len(seen) == 0, fmt.Sprintf("%d waits", waits)
		})
	}
}

// flatEvents: the events of a path, those of loops included.
func flatEvents(evs []*Term) []*Term {
	var out []*Term
	for _, e := range evs {
		if e.Op == "ev" {
			out = append(out, e)
			continue
		}
		for _, a := range e.Args {
			out = append(out, flatEvents([]*Term{a})...)
		}
	}
	return out
}
