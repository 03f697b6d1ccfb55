package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The goroutines of the client: the one that reads from the stream and the one that writes to it (C04).

const (
	libRetry = "github.com/cenkalti/backoff/v4.Retry"
)

// clientShared: the state of the client that its lock guards.
func clientShared() *sharedSpec {
	return &sharedSpec{owner: "xdsClient", fields: map[string][]string{"xdsClient": {"watchedResource", "versionMap", "nonceMap"}}, free: map[string]bool{}}
}

// reaches: the function, or one it calls (without starting a goroutine), calls the method of an interface.
func (p *Program) reaches(f *ssa.Function, iface, method string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] || !p.isRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if walk(mc.Fn.(*ssa.Function)) {
						return true
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				if cc.IsInvoke() {
					if cc.Method.Name() == method && strings.HasSuffix(typeStr(types.Unalias(cc.Value.Type())), iface) {
						return true
					}
					continue
				}
				if g := cc.StaticCallee(); g != nil && walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

const streamIface = ".AggregatedDiscoveryService_StreamAggregatedResourcesClient"

// streamRoles finds the goroutines of the client by what they do.
func (c *Ctx) streamRoles() map[string][]*ssa.Function {
	out := map[string][]*ssa.Function{}
	for f := range c.clientLoops() {
		switch {
		case c.p.reaches(f, streamIface, "Recv"):
			out["receiver"] = append(out["receiver"], f)
		case c.p.reaches(f, streamIface, "Send"):
			out["sender"] = append(out["sender"], f)
		default:
			out["other"] = append(out["other"], f)
		}
	}
	return out
}

// roleArgs binds the parameters and captured variables of a goroutine by their types.
func roleArgs(ex *Exec, st *State, f *ssa.Function, byType func(t types.Type) *Term) (args, binds []*Term) {
	for _, p := range f.Params {
		t := byType(p.Type())
		if t == nil {
			undec("parameter %s of %s", p.Name(), f)
		}
		args = append(args, t)
	}
	for _, fv := range f.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		var t *Term
		if ok {
			t = byType(pt.Elem())
		}
		if t != nil {
			cell := ex.newObj(pt, f.Pos())
			st.heap[cell] = t
			binds = append(binds, cell)
			continue
		}
		if t = byType(fv.Type()); t == nil {
			undec("captured variable %s of %s", fv.Name(), f)
		}
		binds = append(binds, t)
	}
	return
}

func clientSyms(t types.Type) *Term {
	switch {
	case strings.HasSuffix(typeStr(types.Unalias(t)), streamIface):
		return mk("sym", "as", t)
	case namedOf(t) == "xdsClient":
		return mk("sym", "c", t)
	case namedOf(t) == "xdsResourceManager":
		return mk("sym", "m", t)
	}
	return nil
}

// streamModels: the boundary to the control plane.
func streamModels(ex *Exec, c *Ctx, closed bool, budget int) {
	m := ex.models
	ex.script = &Script{budget: budget}
	// what is done once is what ends the client
	ex.onceDone = tFalse
	if closed {
		ex.onceDone = tTrue
	}
	ex.useShared(clientShared())
	ex.lazyGet = true
	iface := "(" + strings.TrimPrefix(typeStr(types.Unalias(c.p.typ("/core/manager", "ADSStream"))), "*") + ")"
	dead := func(s *Term) string { return fmt.Sprintf("$dead:%d", s.id) }
	errOf := func(s *Term) *Term { return mkCall("deadStream", errType, []*Term{s}) }
	m[iface+".Recv"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		s := st.F.simp(c.args[0])
		rt := c.sig.Results().At(0).Type()
		if closed || st.occ[dead(s)] > 0 {
			// a stream that failed keeps failing
			e := errOf(s)
			st.F.addImp(mkNot(mkEq(e, tNil)))
			return ret(st, tNil, e), true
		}
		if o := ex.script.spend(st); o != nil {
			return []Outcome{*o}, true
		}
		t := ex.fresh(st, "Recv", c.sig.Results(), s)
		e := mk("res", "1", errType, t)
		v := mk("res", "0", rt, t)
		st.emit("read", s)
		ex.waitPoint(st)
		ok, bad := ex.forkState(st, mkEq(e, tNil))
		var outs []Outcome
		if ok != nil {
			ok.F.addImp(mkNot(mkEq(v, tNil)))
			outs = append(outs, ret(ok, v, tNil)...)
		}
		if bad != nil {
			bad.occ[dead(s)]++
			outs = append(outs, ret(bad, tNil, e)...)
		}
		return outs, true
	}
	m[iface+".Send"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		s := st.F.simp(c.args[0])
		for a := range st.heap {
			if r := ex.resolve(st, c.args[1]); r.Op != "obj" && a.Op == "fa" && a.Args[0] == r {
				st.emit("bad:a queued request is changed", a)
			}
		}
		st.emit("write", s, ex.freeze(st, ex.resolve(st, c.args[1]), 0))
		ex.waitPoint(st)
		e := ex.fresh(st, "Send", errType, s, ex.freeze(st, ex.resolve(st, c.args[1]), 0))
		ok, bad := ex.forkState(st, mkEq(e, tNil))
		var outs []Outcome
		if ok != nil {
			outs = append(outs, ret(ok, tNil)...)
		}
		if bad != nil {
			outs = append(outs, ret(bad, e)...)
		}
		return outs, true
	}
	m[iface+".Close"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		s := st.F.simp(c.args[0])
		if st.occ[dead(s)] == 0 && !closed {
			st.emit("bad:a stream that works is closed", s)
		}
		return ret(st, ex.fresh(st, "Close", errType, s)), true
	}
	m[pkgMgr+"/auth.IsAuthError"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		if c.args[0].Op == "call" && c.args[0].Str == "deadStream" {
			return ret(st, tFalse), true
		}
		return ret(st, mkCall(c.name, types.Typ[types.Bool], c.args)), true
	}
	m["("+typeStr(types.Unalias(c.p.typ("/core/manager", "ADSClient")))+").StreamAggregatedResources"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		if o := ex.script.spend(st); o != nil {
			return []Outcome{*o}, true
		}
		st.emit("open", c.args[0])
		ex.waitPoint(st)
		return newOrErr(ex, st, "open", c.sig.Results().At(0).Type(), 2)
	}
	// an attempt stands for all attempts: the last one decides
	m[libRetry] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		s, ok := c.sig.Params().At(0).Type().Underlying().(*types.Signature)
		if !ok {
			return nil, false
		}
		return ex.apply(st, ex.resolve(st, c.args[0]), nil, s, c.pos), true
	}
	m["(*"+pkgMgr+".xdsClient).handleResponse"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("handle", c.args[1])
		ex.forget(st)
		e := ex.fresh(st, "handle", errType, c.args[1])
		ok, bad := ex.forkState(st, mkEq(e, tNil))
		var outs []Outcome
		if ok != nil {
			outs = append(outs, ret(ok, tNil)...)
		}
		if bad != nil {
			outs = append(outs, ret(bad, e)...)
		}
		return outs, true
	}
	m["(*"+pkgMgr+".xdsResourceManager).UpdateResource"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("update", c.args[1])
		return ret(st), true
	}
	m[pkgMgr+".clearRequestCh"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		// an upper bound of the requests in the queue
		n := st.F.simp(c.args[1])
		if !(n.Op == "len" && n.Args[0] == c.args[0]) && !(n.Op == "cap" && n.Args[0] == c.args[0]) {
			st.emit("bad:only a part of the queue is dropped", n)
		}
		st.emit("drain", c.args[0])
		return ret(st), true
	}
	ex.neverClosed = func(ch *Term) bool { return isField(ch, "reqCh") || isField(ch, "streamCh") }
	ex.recvNonNil = func(ch *Term) bool { return isField(ch, "streamCh") }
	ex.drained = func(ch *Term) bool { return isField(ch, "reqCh") }
	isClose := func(ch *Term, send bool) bool { return !send && isField(ch, "closeCh") }
	if closed {
		ex.alwaysReady = isClose
		ex.neverReady = func(ch *Term, send bool) bool { return !isClose(ch, send) }
	} else {
		ex.neverReady = isClose
	}
}

var streamEvs0 = evNot("publish", "open", "read", "write", "handle", "update", "drain", "recv", "send", "select", "selectnb", "close", "request", "go", "watch")

func streamEvs(e *Term) bool { return isBadEv(e) || !streamEvs0(e) }

// mismatches reports what differs from a reference.
func (c *Ctx) mismatches(what string, at token.Pos, ms []Mismatch) {
	for _, m := range ms {
		d := []string{"differs from the reference: " + m.What}
		for _, l := range m.Path {
			d = append(d, "  when "+l)
		}
		pos := m.Pos
		if pos == token.NoPos || strings.Contains(c.p.pos(pos), "zz_verif") {
			pos = at
		}
		c.viol(what, c.p.pos(pos), d...)
	}
}

// role compares a goroutine with its reference.
func (c *Ctx) role(name string, fn, ref *ssa.Function, closed bool, budget int) {
	if c.tier == "thorough" {
		budget++
	}
	what := name
	if closed {
		what += "-stop"
	}
	c.guard(what+":"+fn.Name(), "prefixes of runs", func() (bool, string) {
		run := func(f *ssa.Function) (*Exec, []Outcome) {
			ex := c.newExec()
			streamModels(ex, c, closed, budget)
			st := newState()
			args, binds := roleArgs(ex, st, f, clientSyms)
			st.F.addImp(mkNot(mkEq(clientSyms(c.p.typ("/core/manager", "ADSStream")), tNil)))
			return ex, ex.runFunc(f, args, binds, st)
		}
		ex, a := run(fn)
		c.account(ex)
		_, b := run(ref)
		q := newEquiv(ex)
		q.onlyEvents = true
		q.ignoreEv = func(e *Term) bool { return !streamEvs(e) }
		ms := q.compare(a, b)
		c.paths += len(a)
		c.pairs += q.pairs
		c.comps += q.compars
		c.mismatches(what, fn.Pos(), ms)
		return len(ms) == 0 && len(a) > 0, fmt.Sprintf("%d x %d runs of at most %d actions", len(a), len(b), budget)
	})
}

// startModels: the start of a client.
func startModels(ex *Exec, c *Ctx, closed bool) {
	streamModels(ex, c, closed, 20)
	ex.shared, ex.onLock, ex.onAccess = nil, nil, nil
	ex.models["(*"+pkgMgr+".xdsClient).Watch"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("watch", c.args[1], c.args[2], c.args[3])
		return ret(st), true
	}
}

// startOpts: goroutines are known by their roles and the stream they start with.
func startOpts(q *Equiv, c *Ctx) {
	q.onlyEvents = true
	q.ignorePlace = func(*Term) bool { return true }
	q.ignoreEv = evNot("open", "watch", "recv", "send", "select", "go", "close")
	// goroutines start in any order, and before or after a request is queued
	q.commutes = func(a, b *Term) bool {
		g := func(e *Term) bool { return e.Op == "ev" && strings.HasPrefix(e.Str, "go:") }
		w := func(e *Term) bool { return e.Op == "ev" && e.Str == "watch" }
		return g(a) && (g(b) || w(b)) || w(a) && g(b)
	}
	role := map[*ssa.Function]string{}
	for r, fs := range c.streamRoles() {
		for _, f := range fs {
			role[f] = r
		}
	}
	q.norm = func(t *Term) *Term {
		if t.Op != "ev" || t.Str != "go" {
			return t
		}
		r := role[funcTab[t.Args[0].Str]]
		if r == "" {
			r = strings.TrimPrefix(funcTab[t.Args[0].Str].Name(), "refStub")
		}
		as := tNil
		var find func(t *Term)
		seen := map[*Term]bool{}
		find = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Typ != nil && strings.HasSuffix(typeStr(types.Unalias(t.Typ)), streamIface) && t.Op == "res" {
				as = t
			}
			for _, a := range t.Args {
				find(a)
			}
		}
		find(t)
		return mk("ev", "go:"+r, nil, as)
	}
}

func init() {
	props["C04"] = &Prop{
		ID:    "C04",
		Rule:  "Every prefix of a run of the receiver, the sender and the start-up equals the reference: on a failed read the stream is closed and, unless the failure is an authentication rejection (which closes the client), a new stream is opened, nonces are emptied and stale requests dropped before it is handed over; the sender re-requests every type with the whole set, the last version and the nonce of the stream; a stopped client blocks nobody; outages touch neither cache nor versions.",
		Setup: func(ex *Exec, c *Ctx) {},
		Refs:  []string{"C04", "start", "roles"},
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "queue" {
				ex.neverClosed = func(ch *Term) bool { return true }
				return
			}
			switch {
			case name == "authErr":
			case strings.HasPrefix(name, "start"):
				startModels(ex, c, name == "startStop")
			default:
				streamModels(ex, c, true, 20)
				ex.shared, ex.onLock, ex.onAccess = nil, nil, nil
				h := "(*" + pkgMgr + ".xdsClient).handleResponse"
				delete(ex.models, h)
				for _, k := range []string{"LDS", "RDS", "CDS", "EDS", "NDS"} {
					ex.models[pkgRes+".Unmarshal"+k] = decoderModel
				}
				ex.models["(*"+pkgMgr+".xdsClient).resolveAddr"] = pureModel
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			if name == "queue" {
				return
			}
			if name == "authErr" {
				return
			}
			startOpts(q, c)
			if name != "start" {
				// it ends, whatever it did
				q.ignoreEv = func(*Term) bool { return true }
			}
		},
		Extra: []func(*Ctx){func(c *Ctx) {
			roles := c.streamRoles()
			for _, r := range []string{"receiver", "sender"} {
				c.guard(r, "discovery", func() (bool, string) {
					return len(roles[r]) == 1, fmt.Sprintf("%d goroutines started by newXdsClient", len(roles[r]))
				})
				refs := c.refFuncs("role_" + r)
				for _, f := range roles[r] {
					n := map[string]int{"receiver": 5, "sender": 3}[r]
					c.role(r, f, refs[0], false, n)
					c.role(r, f, refs[0], true, 3)
				}
			}
			c.onlyWriters("cache-kept", "/core/manager", "xdsResourceManager", "cache", func() map[*ssa.Function]bool {
				return union(c.fns("/core/manager:(*xdsResourceManager).UpdateResource"), c.sweepers())
			})
			c.onlyWriters("versions-kept", "/core/manager", "xdsClient", "versionMap", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:(*xdsClient).handleResponse")
			})
			c.onlyWriters("nonces", "/core/manager", "xdsClient", "nonceMap", func() map[*ssa.Function]bool {
				return union(c.fns("/core/manager:(*xdsClient).handleResponse"), c.clientLoops())
			})
		}},
	}
}
