package main

import (
	"go/types"
	"strings"
)

// The boundaries of the client: decoders, the cache, the name table, the request channel.

// probe is an arbitrary resource name.
func probe() *Term { return symPtr("probe", types.Typ[types.String]) }

func isField(t *Term, name string) bool {
	return t.Op == "sel" && t.Str == name || t.Op == "chan" && strings.HasPrefix(t.Str, name+":")
}

// decoderModel: a decoder is an unknown function of the response (C11-C13 decide it): a fresh map, or an error (with whatever was decoded).
func decoderModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
	t := mkCall(c.name, c.sig.Results(), []*Term{ex.freeze(st, c.args[0], 0)})
	e := mk("res", "1", errType, t)
	v := mk("res", "0", c.sig.Results().At(0).Type(), t)
	ok, bad := ex.forkState(st, mkEq(e, tNil))
	var outs []Outcome
	if ok != nil {
		ok.F.addImp(mkNot(mkEq(v, tNil)))
		outs = append(outs, ret(ok, v, tNil)...)
	}
	if bad != nil {
		// the message of an error is not empty
		msg := mkCall("(error).Error", types.Typ[types.String], []*Term{e})
		bad.F.addImp(mkNot(mkEq(msg, tStr(""))))
		outs = append(outs, ret(bad, v, e)...)
	}
	return outs, true
}

// updateModel: what the update carries under an arbitrary name.
func updateModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
	m := ex.content(st, ex.resolve(st, c.args[2]))
	k := probe()
	elem := c.args[2].Typ.Underlying().(*types.Map).Elem()
	yes, no := ex.forkState(st, mkIn(m, k))
	var outs []Outcome
	if yes != nil {
		yes.emit("update", c.args[1], yes.F.simp(mkLookup(m, k, elem)), tTrue)
		outs = append(outs, ret(yes)...)
	}
	if no != nil {
		no.emit("update", c.args[1], tNil, tFalse)
		outs = append(outs, ret(no)...)
	}
	return outs, true
}

func clientModels(ex *Exec, c *Ctx) {
	m := ex.models
	for _, k := range []string{"LDS", "RDS", "CDS", "EDS", "NDS"} {
		m[pkgRes+".Unmarshal"+k] = decoderModel
	}
	m["(*"+pkgMgr+".xdsResourceManager).UpdateResource"] = updateModel
	m[pkgMgr+".refStubUpdate"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("update", c.args[0], ex.resolve(st, c.args[1]), c.args[2])
		return ret(st), true
	}
	m[pkgMgr+".refStubProbe"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return ret(st, probe()), true }
	m["(*"+pkgMgr+".ndsResolver).updateLookupTable"] = func(ex *Exec, st *State, c *Call) ([]Outcome, bool) {
		st.emit("table", ex.freeze(st, c.args[1], 0))
		return ret(st), true
	}
	m["(*"+pkgMgr+".xdsClient).resolveAddr"] = pureModel
	trueSet = func(t *Term) bool { return isField(t, "watchedResource") }
	// the client is running
	ex.neverReady = func(ch *Term, send bool) bool { return !send && isField(ch, "closeCh") }
}

// evNot ignores all events but the named ones.
func evNot(names ...string) func(e *Term) bool {
	keep := map[string]bool{}
	for _, n := range names {
		keep[n] = true
	}
	var has func(e *Term) bool
	has = func(e *Term) bool {
		if e.Op == "ev" {
			return keep[e.Str]
		}
		if e.Op != "loopev" {
			return true
		}
		for _, c := range e.Args[1:] {
			for _, o := range c.Args[1:] {
				if has(o) {
					return true
				}
			}
		}
		return false
	}
	return func(e *Term) bool { return !has(e) }
}

// requestModel: a request put on the channel is what the named fields say.
func requestModel(ex *Exec, fields ...string) {
	ex.onSend = func(st *State, ch, v *Term) bool {
		ct, ok := ch.Typ.Underlying().(*types.Chan)
		if !ok {
			return false
		}
		s := structOf(derefT(ct.Elem()))
		if s == nil || fieldIdx(s, "ResponseNonce") < 0 {
			return false
		}
		v = ex.resolve(st, v)
		var args []*Term
		for _, f := range fields {
			ft := s.Field(fieldIdx(s, f)).Type()
			x := ex.load(st, mkFA(v, f, types.NewPointer(ft)), ft)
			switch f {
			case "ErrorDetail":
				x = st.F.simp(mkEq(x, tNil))
			case "ResourceNames":
				x = ex.freeze(st, x, 0)
			}
			args = append(args, x)
		}
		for i := range args {
			args[i] = ex.asOfNow(st, args[i])
		}
		st.emit("request", args...)
		return true
	}
}
