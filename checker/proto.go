package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The client and the manager as a whole: bootstrap, lookups, requests, streams, sweeps.

func init() {
	props["C20"] = &Prop{
		ID:    "C20",
		Rule:  "The metadata, the node id, the name space used for expansion and the acceptance of the environment equal the reference for every environment; a client is started only with a complete configuration; a second initialisation builds nothing, and of two managers handed to the suite only the first is ever asked.",
		Setup: bootModels,
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "init" {
				ex.models[pkgMgr+".NewXDSResourceManager"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
					st.emit("manager", ex.resolve(st, c.args[0]), ex.freeze(st, c.args[1], 0))
					return newOrErr(ex, st, "manager", c.sig.Results().At(0).Type(), 2)
				}
			}
			if name == "boot" {
				ex.models[pkgMgr+".parseMetaEnvs"] = pureModel
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			q.ignoreEv = evNot("start", "manager", "get")
		},
	}
}

func init() {
	props["C06"] = &Prop{
		ID:    "C06",
		Rule:  "A lookup, in steps that any other goroutine may interleave with: whether the resource is missing is decided in the section that registers the waiter, the subscription is made there by the first waiter only, a woken lookup returns the resource delivered or the current one, an expired one returns the resource if it is there and otherwise withdraws only itself. An accepted response hands the resource to every notifier registered under one of its names, then closes its channel and removes it, in one locked section. Nothing else touches the notifiers.",
		Setup: lookupModels,
		Extra: []func(*Ctx){func(c *Ctx) {
			c.onlyWriters("waiters", "/core/manager", "xdsResourceManager", "notifierMap", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:(*xdsResourceManager).UpdateResource", "/core/manager:(*xdsResourceManager).Get")
			})
		}},
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "deliver" {
				ex.shared.fields["xdsResourceManager"] = []string{"notifierMap"}
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			q.ignoreEv = func(e *Term) bool { return !lookupEvs(e) }
		},
	}
}

// managerShared: the state of the manager that its lock guards.
func managerShared(c *Ctx) *sharedSpec {
	s := &sharedSpec{owner: "xdsResourceManager", fields: map[string][]string{
		"xdsResourceManager": {"cache", "meta", "notifierMap", "xdsHandlers"},
	}, free: map[string]bool{}}
	// every field of a notifier but its channel
	if t, ok := c.p.pkgs[pkgMgr].Pkg.Scope().Lookup("notifier").(*types.TypeName); ok {
		if st := structOf(t.Type()); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if _, isCh := st.Field(i).Type().Underlying().(*types.Chan); !isCh {
					f := st.Field(i).Name()
					s.fields["notifier"] = append(s.fields["notifier"], f)
					if b := basicOf(st.Field(i).Type()); b == nil {
						// written before the channel is closed
						s.free["notifier."+f] = true
					}
				}
			}
		}
	}
	return s
}

var lookupEvs0 = evNot("publish", "watch", "recv", "send", "select", "selectnb", "close")

func lookupEvs(e *Term) bool { return isBadEv(e) || !lookupEvs0(e) }

func lookupModels(ex *Exec, c *Ctx) {
	m := ex.models
	ex.useShared(managerShared(c))
	m["(*"+pkgMgr+".xdsClient).Watch"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		held := tFalse
		if st.occ["$W:xdsResourceManager"] > 0 {
			held = tTrue
		}
		st.emit("watch", ex.resolve(st, c.args[1]), c.args[2], c.args[3], held)
		return ret(st), true
	}
	m["("+pkgMgr+".XDSServerConfig).GetFetchXDSTimeout"] = pureModel
	m["context.WithTimeout"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		t := mkCall("WithTimeout", c.sig.Results().At(0).Type(), c.args)
		st.F.addImp(mkNot(mkEq(t, tNil)))
		return ret(st, t, symPtr("cancel", c.sig.Results().At(1).Type())), true
	}
}

func bootModels(ex *Exec, c *Ctx) {
	m := ex.models
	m["os.LookupEnv"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		v := mkCall("os.Getenv", types.Typ[types.String], c.args)
		yes, no := ex.forkState(st, mkCall("os.isSet", types.Typ[types.Bool], c.args))
		var outs []Outcome
		if yes != nil {
			outs = append(outs, ret(yes, v, tTrue)...)
		}
		if no != nil && no.F.add(mkEq(v, tStr(""))) {
			outs = append(outs, ret(no, tEmpty, tFalse)...)
		}
		return outs, true
	}
	m["os.Getenv"] = pureModel
	m[pkgMgr+".NewOptions"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		t := mkCall("NewOptions", c.sig.Results().At(0).Type(), []*Term{ex.freeze(st, c.args[0], 0)})
		st.F.addImp(mkNot(mkEq(t, tNil)))
		return ret(st, t), true
	}
	start := func(ex *Exec, st *State, c *Call, n int) ([]Outcome, bool) {
		bc := ex.resolve(st, c.args[0])
		st.emit("start", ex.freeze(st, bc, 0))
		return newOrErr(ex, st, "start", c.sig.Results().At(0).Type(), n)
	}
	m[pkgMgr+".initXDSClient"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return start(ex, st, c, 2) }
	m[pkgMgr+".refStubStart"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return start(ex, st, c, 1) }
	// the suite
	m["("+pkgSuite+".XDSResourceManager).Get"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("get", c.args[0], c.args[2], c.args[3])
		return ret(st, tNil, ex.mkErr("")), true
	}

}

// newOrErr: a new object, or an error; the last n results of the two.
func newOrErr(ex *Exec, st *State, what string, typ types.Type, n int) ([]Outcome, bool) {
	t := ex.fresh(st, what, types.NewTuple(types.NewVar(0, nil, "", typ), types.NewVar(0, nil, "", errType)))
	e := mk("res", "1", errType, t)
	v := mk("res", "0", typ, t)
	ok, bad := ex.forkState(st, mkEq(e, tNil))
	var outs []Outcome
	if ok != nil {
		ok.F.addImp(mkNot(mkEq(v, tNil)))
		outs = append(outs, ret(ok, []*Term{v, tNil}[2-n:]...)...)
	}
	if bad != nil {
		outs = append(outs, ret(bad, []*Term{tNil, e}[2-n:]...)...)
	}
	return outs, true
}
