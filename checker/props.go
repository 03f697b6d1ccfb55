package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgRes   = modPath + "/core/xdsresource"
	pkgMgr   = modPath + "/core/manager"
	pkgSuite = modPath + "/xdssuite"
)

// getModel: a lookup through the manager interface. Either an error and no value, or a non-nil value of
// the kind asked for (C05); nothing is known about its content.
func getModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
	rt, name := c.args[2], c.args[3]
	kinds := map[int64]string{1: "ListenerResource", 2: "RouteConfigResource", 3: "ClusterResource", 4: "EndpointsResource", 5: "NDSResource"}
	for n, k := range map[string]string{"ListenerType": "ListenerResource", "RouteConfigType": "RouteConfigResource", "ClusterType": "ClusterResource", "EndpointsType": "EndpointsResource", "NameTableType": "NDSResource"} {
		if cn, ok := ex.p.pkgs[pkgRes].Pkg.Scope().Lookup(n).(*types.Const); ok {
			if v, ok := tConst(cn.Val(), cn.Type()).intVal(); ok {
				kinds[v] = k
			}
		}
	}
	st.emit("get", rt, name)
	t := ex.fresh(st, "get", c.sig.Results(), rt, name)
	e := mk("res", "1", errType, t)
	v := mk("res", "0", c.sig.Results().At(0).Type(), t)
	ok, bad := ex.forkState(st, mkEq(e, tNil))
	var outs []Outcome
	if ok != nil {
		r := v
		if n, isC := rt.intVal(); isC && kinds[n] != "" {
			T := types.NewPointer(ex.p.typ("/core/xdsresource", kinds[n]))
			ptr := mkAssert(v, T, "")
			ok.F.addImp(mkIsType(v, T, ""))
			ok.F.addImp(mkNot(mkEq(ptr, tNil)))
			r = v
		} else {
			ok.F.addImp(mkNot(mkEq(v, tNil)))
		}
		outs = append(outs, ret(ok, r, tNil)...)
	}
	if bad != nil {
		outs = append(outs, ret(bad, tNil, e)...)
	}
	return outs, true
}

// pickModel: the choice among the weighted clusters of a route is an unknown function (C09 decides it).
func pickModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
	return resErr(ex, st, mkCall("pickCluster", c.sig.Results(), []*Term{ex.freeze(st, c.args[0], 0)}), c)
}

// resErr: a (value, error) result: the value is zero when the error is not nil.
func resErr(ex *Exec, st *State, t *Term, c *Call) ([]Outcome, bool) {
	e := mk("res", "1", errType, t)
	v := mk("res", "0", c.sig.Results().At(0).Type(), t)
	ok, bad := ex.forkState(st, mkEq(e, tNil))
	var outs []Outcome
	if ok != nil {
		outs = append(outs, ret(ok, v, tNil)...)
	}
	if bad != nil {
		outs = append(outs, ret(bad, zeroOf(v.Typ), e)...)
	}
	return outs, true
}

// tagModel: the tag of a destination; a tag that is not set is empty.
func tagModel(def bool) Model {
	return func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		str := types.Typ[types.String]
		t := mkCall("(github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).Tag", nil, c.args[:2])
		yes, no := ex.forkState(st, mk("res", "1", types.Typ[types.Bool], t))
		var outs []Outcome
		for _, s := range []*State{yes, no} {
			switch {
			case s == nil:
			case def && s == yes:
				outs = append(outs, ret(s, mk("res", "0", str, t))...)
			case def:
				outs = append(outs, ret(s, c.args[2])...)
			case s == yes:
				outs = append(outs, ret(s, mk("res", "0", str, t), tTrue)...)
			default:
				outs = append(outs, ret(s, tStr(""), tFalse)...)
			}
		}
		return outs, true
	}
}

func defaultModels(ex *Exec) {
	ex.models["("+kx+"rpcinfo.EndpointInfo).Tag"] = tagModel(false)
	ex.models["("+kx+"rpcinfo.EndpointInfo).DefaultTag"] = tagModel(true)
	ex.models["("+pkgSuite+".XDSResourceManager).Get"] = getModel
}

var props = map[string]*Prop{
	"C08": {
		ID:    "C08",
		Extra: []func(*Ctx){aliasIn("/xdssuite:(*XDSRouter).Route")},
		Rule:  "Every path of Route, matchHTTPRoute and of the Match methods selects the same route (or fails alike) as the reference definition of first-match routing, for every route table and call; loops are compared as first-such-index terms.",
		Setup: func(ex *Exec, c *Ctx) {
			ex.models["("+pkgRes+".Matcher).Match"] = pureModel
			ex.models[pkgSuite+".pickCluster"] = pickModel
		},
		// when the metadata of the call is read does not matter
		Opts: func(q *Equiv, c *Ctx, name string) { q.ignoreEv = evNot("get") },
	},
	"C10": {
		ID:    "C10",
		Extra: []func(*Ctx){aliasIn("/xdssuite:(*XDSResolver).Resolve")},
		Rule:  "Resolve and Target equal the reference: the inline load assignment, else the one named by the cluster, flattened in order with address, port and weight; an error when a lookup fails or no endpoint is left.",
		Setup: suiteModels,
	},
	"C15": {
		ID:    "C15",
		Rule:  "The middleware equals the reference (nothing for a decided call; otherwise Route, lock of the picked cluster, timeout, then one call of next; a routing error without next), and the middleware, Route, the retry key and Resolve have no reachable panic for any well-formed or withheld resource.",
		Extra: []func(*Ctx){routeOutcome},
		Setup: func(ex *Exec, c *Ctx) {
			suiteModels(ex, c)
			ex.models["("+pkgRes+".Matcher).Match"] = pureModel
			ex.models[pkgSuite+".pickCluster"] = pickModel
			c.axiom = wellFormed
		},
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "key" || name == "retryKey" {
				ex.askKey = true
				ex.models["("+pkgSuite+".XDSResourceManager).RegisterXDSUpdateHandler"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return ret(st), true }
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.onlyEvents = name == "key"
			q.commutes = func(a, b *Term) bool {
				k := func(t *Term) int {
					switch {
					case strings.Contains(t.Str, "SetRPCTimeout"):
						return 1
					case strings.Contains(t.Str, "SetTag"):
						return 2
					}
					return 0
				}
				return k(a)*k(b) == 2
			}
		},
	},
	"C16": {
		ID:    "C16",
		Rule:  "Two updates applied to an arbitrary breaker state: the second one leaves exactly the configuration derived from it and disables what only the first configured; a new breaker starts from the clusters in force.",
		Setup: suiteModels,
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.onlyEvents = name != "key"
			q.commutes = func(a, b *Term) bool { return true }
		},
	},
	"C17": {
		ID:    "C17",
		Rule:  "Two updates applied to an arbitrary suite state: the second one installs exactly the policies derived from it, in the order of the tables, and deletes the keys only the first installed; a new suite starts from the tables in force.",
		Setup: suiteModels,
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.onlyEvents = true
			q.commutes = func(a, b *Term) bool {
				return strings.Contains(a.String(), "DeletePolicy") != strings.Contains(b.String(), "DeletePolicy")
			}
		},
	},
	"C18": {
		ID:    "C18",
		Rule:  "Every update sets the limit the reference derives from it and pushes it to the running limiter; a new limiter starts from the listeners in force, and the limiter handed over at server start gets the limits at once and after each later update.",
		Setup: suiteModels,
		Opts:  func(q *Equiv, c *Ctx, name string) { q.onlyEvents = name == "new" },
	},
	"C11": {
		ID:    "C11",
		Extra: []func(*Ctx){aliasIn("/core/xdsresource:UnmarshalLDS", "/core/xdsresource:UnmarshalRDS")},
		Pair: func(ex *Exec, c *Ctx, name string) {
			if !strings.HasPrefix(name, "headers") {
				// decided by the headers obligations
				ex.models[pkgRes+".BuildMatchers"] = pureModel
			}
			if name != "bucket" {
				ex.models[pkgRes+".getLocalRateLimitFromHttpConnectionManager"] = pureModel
			}
		},
		Rule: "The decoders of listeners and route configurations build exactly the resources the reference builds from the decoded messages, keyed by their names, or reject the response alike.",
	},
	"C13": {
		ID:    "C13",
		Rule:  "No decoder has a reachable panic on any bytes, and each rejects exactly the responses that the reference rejects.",
		Setup: func(ex *Exec, c *Ctx) { c.axiom = wireFormed },
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name != "bucket" && !ex.panics {
				ex.models[pkgRes+".getLocalRateLimitFromHttpConnectionManager"] = pureModel
			}
		},
	},
	"C12": {
		ID:    "C12",
		Extra: []func(*Ctx){aliasIn("/core/xdsresource:UnmarshalCDS", "/core/xdsresource:UnmarshalEDS", "/core/xdsresource:UnmarshalNDS")},
		Rule:  "The decoders of clusters, load assignments and name tables build exactly the resources the reference builds from the decoded messages, keyed by their names, or reject the response alike.",
	},
	"C14": {
		ID:   "C14",
		Rule: "Expansion equals the reference for every host; an address is resolved in the current name table only, by the full name and then by the literal one, ignoring case; a listener response binds each subscribed address to the listener named after its resolved address and port, and nothing else.",
		Pair: func(ex *Exec, c *Ctx, name string) {
			if name == "bind" {
				clientModels(ex, c)
			}
			if name != "expand" {
				ex.models["(*"+pkgMgr+".BootstrapConfig).tryExpandFQDN"] = pureModel
			}
		},
		Extra: []func(*Ctx){func(c *Ctx) {
			c.onlyWriters("table-writers", "/core/manager", "ndsResolver", "lookupTable", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:(*ndsResolver).updateLookupTable")
			})
		}},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			if name == "bind" {
				q.onlyEvents = true
				q.ignoreEv = evNot("update")
			}
		},
	},
	"C01": {
		ID:    "C01",
		Setup: clientModels,
		Extra: []func(*Ctx){func(c *Ctx) {
			c.onlyWriters("writers", "/core/manager", "xdsResourceManager", "cache", func() map[*ssa.Function]bool {
				return union(c.fns("/core/manager:(*xdsResourceManager).UpdateResource"), c.sweepers())
			})
		}},
		Rule: "From any state, the response handler passes to the cache, under an arbitrary name, exactly what the reference takes from the decoded response (subscribed names only; nothing for rejected, unknown or unwatched responses); from any cache, UpdateResource leaves under an arbitrary name what the reference leaves (replace for listeners and clusters, merge for routes and endpoints, other types untouched); a lookup serves exactly the cached value. By induction the served cache is the fold of the accepted responses.",
		Pair: func(ex *Exec, c *Ctx, name string) {
			if strings.HasPrefix(name, "cache") {
				delete(ex.models, "(*"+pkgMgr+".xdsResourceManager).UpdateResource")
			}
			if name == "againNDS" {
				delete(ex.models, "(*"+pkgMgr+".ndsResolver).updateLookupTable")
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.onlyEvents = !strings.HasPrefix(name, "cache") && name != "hit" && name != "miss"
			q.ignorePlace = func(*Term) bool { return true }
			q.ignoreEv = evNot("update", "table")
			if strings.HasPrefix(name, "again") {
				q.ignoreEv = func(e *Term) bool { return !isBadEv(e) }
			}
		},
	},
	"C02": {
		ID: "C02",
		Extra: []func(*Ctx){func(c *Ctx) {
			c.onlyWriters("version-writers", "/core/manager", "xdsClient", "versionMap", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:(*xdsClient).handleResponse")
			})
			c.onlyWriters("nonce-writers", "/core/manager", "xdsClient", "nonceMap", func() map[*ssa.Function]bool {
				return union(c.fns("/core/manager:(*xdsClient).handleResponse"), c.clientLoops())
			})
		}},
		Setup: func(ex *Exec, c *Ctx) {
			clientModels(ex, c)
			requestModel(ex, "TypeUrl", "VersionInfo", "ResponseNonce", "ErrorDetail")
			applied := func(i int, rt *Term) Model {
				return func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
					if i >= 0 {
						rt = c.args[i]
					}
					st.emit("applied", ex.resolve(st, rt))
					return ret(st), true
				}
			}
			ex.models["(*"+pkgMgr+".xdsResourceManager).UpdateResource"] = applied(1, nil)
			ex.models[pkgMgr+".refStubApplied"] = applied(0, nil)
			ex.models["(*"+pkgMgr+".ndsResolver).updateLookupTable"] = applied(-1, tInt(5))
		},
		Rule: "From any state, a response of a subscribed type is answered by exactly one request with its nonce: the version of the response and no error detail when it decodes, else the last accepted version and an error detail; the acknowledged version and the nonce are kept for every type as the reference keeps them. The effect of a rejected response on the whole state is the new nonce alone. Other responses are neither answered nor applied.",
		Opts: func(q *Equiv, c *Ctx, name string) {
			if strings.HasPrefix(name, "nack") {
				return
			}
			q.ignorePlace = func(*Term) bool { return true }
			q.ignoreEv = evNot("request", "applied")
			q.commutes = func(a, b *Term) bool { return a.Str != b.Str }
		},
	},
	"C09": {
		ID:   "C09",
		Rule: "pickCluster equals the reference: one draw, uniform over the total weight, and the first cluster whose cumulative weight exceeds it; no cluster or no weight is an error.",
	},
}

// stubs of the reference texts, looked up by the last part of the name
var stubs = map[string]Model{
	// forget the trace so far
	"refStubMark": func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		n := st.occ["$phase"]
		st.ev = nil
		st.occ = map[string]int{"$phase": n + 1}
		return ret(st), true
	},
}

func symPtr(name string, t types.Type) *Term { return mk("sym", "$"+name, t) }

const kx = "github.com/cloudwego/kitex/pkg/"

// deepCopyModel: a deep copy has the content of the original and shares nothing.
func deepCopyModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
	return ret(st, ex.freeze(st, c.args[0], 0)), true
}

// suiteModels: the parts of the suite that other properties decide, and the kitex entry points.
func suiteModels(ex *Exec, c *Ctx) {
	m := ex.models
	// the options of a suite
	m[pkgSuite+".NewOptions"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		if _, ok := mkLen(ex.content(st, c.args[0])).intVal(); ok {
			return nil, false // known options are applied
		}
		t := mkCall("NewOptions", c.sig.Results().At(0).Type(), []*Term{ex.freeze(st, c.args[0], 0)})
		st.F.addImp(mkNot(mkEq(t, tNil)))
		return ret(st, t), true
	}
	m["(*"+kx+"retry.Policy).DeepCopy"] = deepCopyModel
	m["(*"+kx+"retry.FailurePolicy).DeepCopy"] = deepCopyModel
	m["(*"+kx+"retry.BackOffPolicy).DeepCopy"] = deepCopyModel
	for _, n := range []string{"retry.NewRetryContainer", "circuitbreak.NewCBSuite"} {
		n := n
		m[kx+n] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
			t := mkCall(n, c.sig.Results().At(0).Type(), nil)
			st.F.addImp(mkNot(mkEq(t, tNil)))
			return ret(st, t), true
		}
	}
	m["(*"+kx+"kerrors.basicError).WithCause"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		return ret(st, ex.mkErr("kerrors:"+c.args[0].String())), true
	}
	m[kx+"retry.WithCustomizeKeyFunc"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		ex.keyFunc = c.args[0]
		return ret(st, symPtr("keyfunc", c.sig.Results().At(0).Type())), true
	}
	// the client asks its retry container for the key of a call
	m["github.com/cloudwego/kitex/client.WithRetryContainer"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		opt := symPtr("retryopt", c.sig.Results().At(0).Type())
		if !ex.askKey {
			return ret(st, opt), true
		}
		if ex.keyFunc == nil {
			undec("no key function is given to the retry container")
		}
		sig := ex.keyFunc.Typ.Underlying().(*types.Signature)
		var outs []Outcome
		for _, o := range ex.apply(st, ex.keyFunc, []*Term{mk("sym", "ctx", sig.Params().At(0).Type()), mk("sym", "ri", sig.Params().At(1).Type())}, sig, c.pos) {
			if o.panic == "" {
				o.rets = []*Term{opt}
			}
			outs = append(outs, o)
		}
		return outs, true
	}
	// registration: the handler is called with the resources in force, if there are any
	reg := func(st *State, rt *Term) { st.emit("register", rt) }
	upT := func() types.Type {
		return types.NewMap(types.Typ[types.String], ex.p.typ("/core/xdsresource", "Resource"))
	}
	m["("+pkgSuite+".XDSResourceManager).RegisterXDSUpdateHandler"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		reg(st, ex.resolve(st, c.args[1]))
		yes, no := ex.forkState(st, symPtr("cached", types.Typ[types.Bool]))
		var outs []Outcome
		if no != nil {
			outs = append(outs, Outcome{st: no})
		}
		h := c.args[2]
		ex.handler = h
		if yes != nil {
			outs = append(outs, ex.apply(yes, h, []*Term{symPtr("update", upT())}, types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", upT())), nil, false), c.pos)...)
		}
		return outs, true
	}
	for n, f := range map[string]Model{
		"refStubRegister": func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { reg(st, c.args[0]); return ret(st), true },
		"refStubCached": func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
			return ret(st, symPtr("cached", types.Typ[types.Bool])), true
		},
		"refStubUpdate":  func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return ret(st, symPtr("update", upT())), true },
		"refStubUpdate2": func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return ret(st, symPtr("update2", upT())), true },
	} {
		m[pkgSuite+"."+n] = f
	}
	// the limiter of the server. A limit of zero or less is no limit.
	maxInt := tInt(1<<63 - 1)
	lim := func(t *Term) *Term {
		if n, ok := t.intVal(); ok && n <= 0 {
			return maxInt
		}
		return t
	}
	emit := func(ex *Exec, st *State, what string, o *Term) {
		o = ex.resolve(st, o)
		it := types.Typ[types.Int]
		st.emit(what, lim(ex.load(st, mkFA(o, "MaxQPS", types.NewPointer(it)), it)), lim(ex.load(st, mkFA(o, "MaxConnections", types.NewPointer(it)), it)))
	}
	m["("+kx+"limit.Updater).UpdateLimit"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		emit(ex, st, "push", c.args[1])
		return ret(st, ex.fresh(st, "updated", types.Typ[types.Bool])), true
	}
	m[pkgSuite+".refStubPush"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("push", lim(c.args[0]), lim(c.args[1]))
		return ret(st, ex.fresh(st, "updated", types.Typ[types.Bool])), true
	}
	m[pkgSuite+".refStubLimit"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("limit", lim(c.args[0]), lim(c.args[1]))
		return ret(st), true
	}
	m["github.com/cloudwego/kitex/server.WithLimit"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		o := ex.resolve(st, c.args[0])
		emit(ex, st, "limit", o)
		// the server starts and hands its limiter over, then another update arrives
		lt := derefT(c.args[0].Typ)
		s := structOf(lt)
		k := fieldIdx(s, "UpdateControl")
		ft := s.Field(k).Type()
		uc := ex.load(st, mkFA(o, "UpdateControl", types.NewPointer(ft)), ft)
		fs := ft.Underlying().(*types.Signature)
		u := symPtr("updater", fs.Params().At(0).Type())
		st.F.addImp(mkNot(mkEq(u, tNil)))
		var outs []Outcome
		for _, a := range ex.apply(st, uc, []*Term{u}, fs, c.pos) {
			if a.panic != "" || ex.handler == nil {
				outs = append(outs, a)
				continue
			}
			for _, b := range ex.apply(a.st, ex.handler, []*Term{symPtr("update2", upT())}, types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", upT())), nil, false), c.pos) {
				if b.panic == "" {
					b.rets = []*Term{symPtr("serveropt", c.sig.Results().At(0).Type())}
				}
				outs = append(outs, b)
			}
		}
		return outs, true
	}
}

// wellFormed: what the decoders guarantee about the resources they build (C11, C12): elements of lists and
// entries of maps are set, an endpoint has an address.
func wellFormed(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	switch t.Op {
	case "index", "lookup":
		switch u := t.Typ.Underlying().(type) {
		case *types.Pointer:
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgRes {
				return t.Op == "index"
			}
		case *types.Interface:
			if n, ok := types.Unalias(t.Typ).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgRes && n.Obj().Name() == "Matcher" {
				return true
			}
		}
	case "assert":
		// no typed nil pointers are stored
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgRes {
				return true
			}
		}
	case "sel":
		if n, ok := types.Unalias(t.Typ).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net" && n.Obj().Name() == "Addr" {
			return true
		}
	}
	return false
}

// wireFormed: what the protobuf runtime guarantees about a decoded message: the elements of its lists and maps
// and the members of its oneofs are set. The slots of a response are such elements.
func wireFormed(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	if _, ok := t.Typ.Underlying().(*types.Pointer); !ok {
		return false
	}
	switch t.Op {
	case "index", "lookup":
		return isProtoPtr(t.Typ) && (t.Op == "index" || fromWire(t))
	case "assert":
		// a oneof wrapper
		return isProtoPtr(t.Typ) && fromWire(t)
	case "sel":
		// the message of a oneof wrapper
		return isProtoPtr(t.Typ) && t.Args[0].Op == "assert" && fromWire(t)
	}
	return false
}

func fromWire(t *Term) bool {
	for len(t.Args) > 0 {
		if t.Op == "decoded" {
			return true
		}
		t = t.Args[0]
	}
	return false
}

// routeOutcome: a successful routing step reports the cluster picked from one route and that route's timeout.
func routeOutcome(c *Ctx) {
	for _, fn := range c.refFuncs("outcome_") {
		c.guard("outcome", "path rule", func() (bool, string) {
			ex := c.newExec()
			args := symArgs(fn)
			outs := ex.runFunc(fn, args, nil, c.start(ex, fn.Package(), "Route", args))
			c.account(ex)
			c.paths += len(outs)
			n := 0
			for _, o := range outs {
				if o.panic != "" {
					continue
				}
				e := o.st.F.simp(o.rets[2])
				if !o.st.F.add(mkEq(e, tNil)) {
					continue
				}
				n++
				cl, to := o.st.F.simp(o.rets[0]), o.st.F.simp(o.rets[1])
				var route *Term
				if cl.Op == "res" && cl.Str == "0" && cl.Args[0].Op == "call" && cl.Args[0].Str == "pickCluster" {
					route = cl.Args[0].Args[0]
				}
				bad := ""
				if route == nil {
					bad = "the cluster is not the one picked from a route: " + short(cl)
				} else if want := o.st.F.simp(ex.freeze(o.st, mkSel(route, "Timeout", to.Typ), 0)); want != to {
					bad = "the timeout is not the one of the matched route: " + short(to)
				}
				if bad != "" {
					d := []string{bad}
					for _, l := range o.st.F.lits {
						d = append(d, "  when "+short(l))
					}
					c.viol("outcome", c.p.pos(c.entry(fn)), d...)
				}
			}
			return n > 0, fmt.Sprintf("%d successful paths", n)
		})
	}
}
