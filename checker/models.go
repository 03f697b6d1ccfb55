package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Models of library functions.

var errType = types.Universe.Lookup("error").Type()

// mkCall is a pure library call, normalised.
func mkCall(str string, typ types.Type, args []*Term) *Term {
	s := func(i int) (string, bool) {
		if i < len(args) {
			return args[i].strVal()
		}
		return "", false
	}
	switch str {
	case "(*google.golang.org/protobuf/types/known/durationpb.Duration).AsDuration":
		if args[0] == tNil {
			return tZero
		}
	case "strings.ToLower":
		if x, ok := s(0); ok {
			return tStr(strings.ToLower(x))
		}
		if args[0].Op == "call" && args[0].Str == "strings.ToLower" {
			return args[0]
		}
	case "strings.TrimSpace":
		if x, ok := s(0); ok {
			return tStr(strings.TrimSpace(x))
		}
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		x, ok1 := s(0)
		y, ok2 := s(1)
		if ok1 && ok2 {
			switch str {
			case "strings.Contains":
				return tBool(strings.Contains(x, y))
			case "strings.HasPrefix":
				return tBool(strings.HasPrefix(x, y))
			default:
				return tBool(strings.HasSuffix(x, y))
			}
		}
		if ok2 && y == "" || args[0] == args[1] {
			return tTrue
		}
	case "nseps":
		return mkSeps(args[0], args[1])
	case "itoa":
		if n, ok := args[0].intVal(); ok {
			return tStr(strconv.FormatInt(n, 10))
		}
	}
	return mk("call", str, typ, args...)
}

func mkItoa(x *Term) *Term { return mkCall("itoa", types.Typ[types.String], []*Term{x}) }

// pure library functions: the result depends on the arguments only (or on state nobody in scope changes).
var pureFuncs = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"strings.Split": true, "strings.SplitN": true, "strings.Join": true, "strings.TrimSpace": true, "strings.TrimPrefix": true, "strings.TrimSuffix": true,
	"strings.EqualFold": true, "strings.Replace": true, "strings.ReplaceAll": true, "strings.Fields": true, "strings.Trim": true,
	"strings.Index": true, "strings.IndexByte": true, "strings.Count": true, "strings.LastIndex": true,
	"strings.TrimRight": true, "strings.TrimLeft": true, "strings.ContainsRune": true, "strings.ContainsAny": true,
	"strconv.ParseFloat": true, "strconv.ParseInt": true, "strconv.Atoi": true, "strconv.ParseBool": true, "strconv.ParseUint": true,
	"(time.Duration).Milliseconds": true, "(time.Duration).String": true, "(time.Duration).Seconds": true, "(time.Duration).Minutes": true,
	"(*google.golang.org/protobuf/types/known/durationpb.Duration).AsDuration": true,
	"net.JoinHostPort": true, "net.ParseIP": true,
	"regexp.Compile": true, "(*regexp.Regexp).MatchString": true, "regexp.MatchString": true, "(*regexp.Regexp).String": true,
	"os.Getenv": true, "os.ReadFile": true, "os.LookupEnv": true, "os.Hostname": true,
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true,
	"github.com/bytedance/gopkg/cloud/metainfo.GetAllValues":                    true,
	"github.com/cloudwego/kitex/pkg/utils.NewNetAddr":                           true,
	"github.com/cloudwego/kitex/pkg/discovery.NewInstance":                      true,
	"github.com/cloudwego/kitex/pkg/discovery.DefaultDiff":                      true,
	"github.com/cloudwego/kitex/pkg/rpcinfo.GetRPCInfo":                         true,
	"github.com/cloudwego/kitex/pkg/rpcinfo.AsMutableRPCConfig":                 true,
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.AsRemoteInfo":            true,
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status.FromError":      true,
	"(*github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status.Status).Code": true,
	"(error).Error": true, "(net.Addr).String": true, "(net.Addr).Network": true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).Method":         true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).ServiceName":    true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.EndpointInfo).Address":        true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.Invocation).MethodName":       true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.Invocation).PackageName":      true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.Invocation).ServiceName":      true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCConfig).TransportProtocol": true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCConfig).RPCTimeout":        true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).Config":              true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).Invocation":          true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).To":                  true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).From":                true,
	"(context.Context).Done": true, "(context.Context).Err": true, "(context.Context).Value": true,
	"context.Background": true, "context.TODO": true, "runtime/debug.Stack": true,
	"google.golang.org/protobuf/types/known/wrapperspb.UInt32": true,
	"(time.Time).Add": true, "(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Time).IsZero": true, "(time.Time).Equal": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true,
	"(*github.com/cloudwego/kitex/pkg/retry.Policy).DeepCopy": true,
	"math.Max": true, "math.Min": true, "math.Round": true, "math.Floor": true,
}

// results that are never nil
var nonNilResult = map[string]bool{
	"github.com/cloudwego/kitex/pkg/utils.NewNetAddr":                true,
	"github.com/cloudwego/kitex/pkg/discovery.NewInstance":           true,
	"github.com/cloudwego/kitex/pkg/rpcinfo.GetRPCInfo":              true,
	"github.com/cloudwego/kitex/pkg/rpcinfo.AsMutableRPCConfig":      true,
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo.AsRemoteInfo": true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).Config":        true,
	"(github.com/cloudwego/kitex/pkg/rpcinfo.RPCInfo).Invocation":    true,
	"context.Background": true, "time.NewTicker": true,
	"google.golang.org/protobuf/types/known/wrapperspb.UInt32": true,
	"github.com/cenkalti/backoff/v4.NewExponentialBackOff":     true,
	"github.com/cloudwego/kitex/pkg/circuitbreak.NewCBSuite":   true,
	"github.com/cloudwego/kitex/pkg/retry.NewRetryContainer":   true,
}

func callNonNil(t *Term) bool {
	n := t.Str
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return nonNilResult[n]
}

func recvMsg(sig *types.Signature) (*types.Named, *types.Struct) {
	if sig.Recv() == nil {
		return nil, nil
	}
	p, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok {
		return nil, nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == "ProtoReflect" {
			return n, st
		}
	}
	return nil, nil
}

func fieldIdx(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// protoGetter models the generated getters of protobuf messages.
func (ex *Exec) protoGetter(st *State, c *Call) ([]Outcome, bool) {
	i := strings.LastIndexByte(c.name, '.')
	m := c.name[i+1:]
	if !strings.HasPrefix(m, "Get") || len(c.args) != 1 || c.sig.Results().Len() != 1 {
		return nil, false
	}
	n, s := recvMsg(c.sig)
	if n == nil {
		return nil, false
	}
	f := m[3:]
	rt := c.sig.Results().At(0).Type()
	x := ex.resolve(st, c.args[0])
	if x == tNil {
		return ret(st, zeroOf(rt)), true
	}
	get := func(st *State, x *Term, f string, t types.Type) *Term {
		return ex.load(st, mkFA(x, f, types.NewPointer(t)), t)
	}
	if k := fieldIdx(s, f); k >= 0 {
		return ret(st, st.F.simp(get(st, x, f, s.Field(k).Type()))), true
	}
	// a member of a oneof
	wn := n.Obj().Pkg().Scope().Lookup(n.Obj().Name() + "_" + f)
	if wn == nil {
		wn = n.Obj().Pkg().Scope().Lookup(n.Obj().Name() + "_" + f + "_")
	}
	if wn == nil {
		return nil, false
	}
	W := types.NewPointer(wn.Type())
	ws, ok := wn.Type().Underlying().(*types.Struct)
	if !ok || fieldIdx(ws, f) < 0 {
		return nil, false
	}
	for k := 0; k < s.NumFields(); k++ {
		it, ok := s.Field(k).Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(W, it) {
			continue
		}
		v := st.F.simp(get(st, x, s.Field(k).Name(), s.Field(k).Type()))
		yes, no := ex.forkState(st, mkIsType(v, W, ""))
		var outs []Outcome
		if yes != nil {
			w := mkAssert(v, W, "")
			outs = append(outs, ret(yes, get(yes, w, f, ws.Field(fieldIdx(ws, f)).Type()))...)
		}
		if no != nil {
			outs = append(outs, ret(no, zeroOf(rt))...)
		}
		return outs, true
	}
	return nil, false
}

// cell is the address of the content of a synchronised or builder value.
func cell(addr *Term, typ types.Type) *Term { return mkFA(addr, "$v", types.NewPointer(typ)) }

func (ex *Exec) loadCell(st *State, addr *Term, typ types.Type) *Term {
	c := cell(ex.resolve(st, addr), typ)
	if v, ok := st.heap[c]; ok {
		return v
	}
	return st.F.simp(ex.initial(st, c, typ))
}

func (ex *Exec) storeCell(st *State, addr, v *Term, typ types.Type) {
	a := ex.resolve(st, addr)
	if ex.onCell != nil {
		ex.onCell(st, a, v)
	}
	ex.store(st, cell(a, typ), v, typ)
}

func splitMethod(name string) (recv, m string) {
	i := strings.LastIndexByte(name, '.')
	if i < 0 || !strings.HasPrefix(name, "(") {
		return "", name
	}
	return strings.Trim(name[:i], "()"), name[i+1:]
}

func (ex *Exec) mkErr(kind string, args ...*Term) *Term { return mk("err", kind, errType, args...) }

// libCall models calls of code outside of the repository.
func (ex *Exec) libCall(st *State, c *Call) ([]Outcome, bool) {
	name := c.name
	if outs, ok := ex.protoGetter(st, c); ok {
		return outs, true
	}
	rtyp := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	switch {
	case strings.HasPrefix(name, "github.com/cloudwego/kitex/pkg/klog."), strings.HasPrefix(name, "log."):
		var rs []*Term
		for i := 0; i < c.sig.Results().Len(); i++ {
			rs = append(rs, zeroOf(rtyp(i)))
		}
		return ret(st, rs...), true
	}
	recv, m := splitMethod(name)
	switch recv {
	case "*sync.Mutex", "*sync.RWMutex":
		if m == "TryLock" || m == "TryRLock" {
			break
		}
		if ex.locks {
			st.emit("lock:"+m, ex.resolve(st, c.args[0]))
		}
		if ex.onLock != nil {
			ex.onLock(st, m, ex.resolve(st, c.args[0]))
		} else if mu := ex.resolve(st, c.args[0]); findTerm(mu, func(t *Term) bool { return t.Op == "ix" }) == nil {
			// a goroutine that waits for itself
			w, r := "$locked:"+mu.String(), "$rlocked:"+mu.String()
			switch m {
			case "Lock":
				if st.occ[w]+st.occ[r] > 0 {
					return []Outcome{{st: st, panic: "waits for a lock it holds at " + ex.p.pos(c.pos), pos: c.pos}}, true
				}
				st.occ[w] = 1
			case "RLock":
				if st.occ[w] > 0 {
					return []Outcome{{st: st, panic: "waits for a lock it holds at " + ex.p.pos(c.pos), pos: c.pos}}, true
				}
				st.occ[r]++
			case "Unlock":
				delete(st.occ, w)
			case "RUnlock":
				if st.occ[r]--; st.occ[r] <= 0 {
					delete(st.occ, r)
				}
			}
		}
		return ret(st), true
	case "*sync.WaitGroup":
		st.emit("wg:"+m, c.args...)
		return ret(st), true
	case "*strings.Builder", "*bytes.Buffer":
		cur := func() *Term { return ex.loadCell(st, c.args[0], types.Typ[types.String]) }
		switch m {
		case "WriteString", "WriteByte", "WriteRune", "Write":
			x := c.args[1]
			if m != "WriteString" {
				if n, ok := x.intVal(); ok && (m == "WriteByte" && n < 128 || m == "WriteRune") {
					x = tStr(string(rune(n)))
				} else {
					x = mk("conv", "string", types.Typ[types.String], x)
				}
			}
			ex.storeCell(st, c.args[0], mkConcat(cur(), x), types.Typ[types.String])
			var rs []*Term
			for i := 0; i < c.sig.Results().Len(); i++ {
				rs = append(rs, zeroOf(rtyp(i)))
			}
			return ret(st, rs...), true
		case "String":
			return ret(st, cur()), true
		case "Len":
			return ret(st, mkLen(cur())), true
		case "Grow":
			return ret(st), true
		case "Reset":
			ex.storeCell(st, c.args[0], tEmpty, types.Typ[types.String])
			return ret(st), true
		}
	}
	if recv == "*sync.Once" && m == "Do" {
		cur := ex.loadCell(st, c.args[0], types.Typ[types.Bool])
		if ex.onceDone != nil && !cur.isConst() {
			cur = ex.onceDone
		}
		done, first := ex.forkState(st, cur)
		var outs []Outcome
		if done != nil {
			outs = append(outs, ret(done)...)
		}
		if first != nil {
			ex.storeCell(first, c.args[0], tTrue, types.Typ[types.Bool])
			f := st.F.simp(c.args[1])
			outs = append(outs, ex.apply(first, f, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), c.pos)...)
		}
		return outs, true
	}
	if strings.HasPrefix(recv, "*sync/atomic.") || strings.HasPrefix(recv, "*go.uber.org/atomic.") {
		if outs, ok := ex.atomicCall(st, c, recv, m); ok {
			return outs, true
		}
	}
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join":
		if name == "errors.Join" {
			break
		}
		return ret(st, ex.mkErr("")), true
	case "(*github.com/cloudwego/kitex/pkg/kerrors.basicError).WithCause", "(*github.com/cloudwego/kitex/pkg/kerrors.basicError).WithCauseAndExtraMsg", "(*github.com/cloudwego/kitex/pkg/kerrors.basicError).WithExtraMsg":
		r := ex.freeze(st, c.args[0], 0)
		return ret(st, ex.mkErr("kind:"+r.String())), true
	case "fmt.Sprintf":
		if t := ex.sprintf(st, c); t != nil {
			return ret(st, t), true
		}
		fa := []*Term{c.args[0], ex.freeze(st, ex.content(st, c.args[1]), 0)}
		return ret(st, mkCall(name, rtyp(0), fa)), true
	case "fmt.Sprint":
		if x := ex.content(st, c.args[0]); x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "one" {
			d := *c
			d.args = []*Term{tStr("%v"), c.args[0]}
			if t := ex.sprintf(st, &d); t != nil {
				return ret(st, t), true
			}
		}
		return ret(st, mkCall(name, rtyp(0), []*Term{ex.freeze(st, ex.content(st, c.args[0]), 0)})), true
	case "strconv.Itoa":
		return ret(st, mkItoa(c.args[0])), true
	case "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := c.args[1].intVal(); ok && n == 10 {
			return ret(st, mkItoa(c.args[0])), true
		}
	case "sort.Strings", "slices.Sort", "sort.Ints":
		// entries of a map come in any order anyway
		if x := ex.content(st, ex.resolve(st, c.args[0])); x.Op == "seq" && len(x.Args) == 1 && x.Args[0].Op == "each" && x.Args[0].Args[0].Args[0].Op == "mapdom" {
			return ret(st), true
		}
	case "time.Now":
		return ret(st, ex.fresh(st, "time.Now", rtyp(0))), true
	case "time.Since":
		return ret(st, mkCall("time.Since", rtyp(0), c.args)), true
	case "(time.Time).Sub":
		return ret(st, timeDiff(c.args[0], c.args[1])), true
	case "time.Until":
		return ret(st, mkAdd(tZero, mkCall("time.Since", rtyp(0), c.args), -1, rtyp(0))), true
	case "(time.Time).After":
		return ret(st, st.F.simp(mkLt(tZero, timeDiff(c.args[0], c.args[1])))), true
	case "(time.Time).Before":
		return ret(st, st.F.simp(mkLt(tZero, timeDiff(c.args[1], c.args[0])))), true
	case "time.NewTicker":
		return ret(st, ex.fresh(st, name, rtyp(0), c.args...)), true
	case "(*time.Ticker).Stop":
		return ret(st), true
	case "google.golang.org/protobuf/proto.Unmarshal", "google.golang.org/protobuf/encoding/protojson.Unmarshal":
		if outs := ex.decode(st, c); outs != nil {
			return outs, true
		}
	case "github.com/bytedance/gopkg/lang/fastrand.Uint32n", "github.com/bytedance/gopkg/lang/fastrand.Intn", "github.com/bytedance/gopkg/lang/fastrand.Int31n",
		"github.com/bytedance/gopkg/lang/fastrand.Int63n", "github.com/bytedance/gopkg/lang/fastrand.Uint64n", "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n":
		k := "rand"
		n := st.occ[k]
		st.occ[k]++
		return ret(st, mk("rand", strconv.Itoa(n), rtyp(0), st.F.simp(c.args[0]))), true
	case "context.WithTimeout", "context.WithCancel", "context.WithDeadline":
		t := ex.fresh(st, name, c.sig.Results(), c.args...)
		return ret(st, mk("res", "0", rtyp(0), t), mk("res", "1", rtyp(1), t)), true
	case "regexp.MustCompile":
		t := mkCall("regexp.Compile", types.NewTuple(types.NewVar(0, nil, "", rtyp(0)), types.NewVar(0, nil, "", errType)), c.args)
		ok, bad := ex.forkState(st, mkEq(mk("res", "1", errType, t), tNil))
		var outs []Outcome
		if ok != nil {
			r := mk("res", "0", rtyp(0), t)
			ok.F.add(mkNot(mkEq(r, tNil)))
			outs = append(outs, ret(ok, r)...)
		}
		if bad != nil {
			outs = append(outs, Outcome{st: bad, panic: "invalid regular expression at " + ex.p.pos(c.pos), pos: c.pos})
		}
		return outs, true
	case "regexp.Compile":
		t := mkCall(name, c.sig.Results(), c.args)
		e := mk("res", "1", rtyp(1), t)
		r := mk("res", "0", rtyp(0), t)
		ok, bad := ex.forkState(st, mkEq(e, tNil))
		var outs []Outcome
		if ok != nil {
			ok.F.add(mkNot(mkEq(r, tNil)))
			outs = append(outs, ret(ok, r, tNil)...)
		}
		if bad != nil {
			outs = append(outs, ret(bad, tNil, e)...)
		}
		return outs, true
	case "strings.Split":
		return ret(st, mkSplit(c.args[0], c.args[1], rtyp(0))), true
	case "strings.Cut":
		cont := mkContains(c.args[0], c.args[1])
		y, n := ex.forkState(st, cont)
		var outs []Outcome
		if y != nil {
			outs = append(outs, ret(y, mkPart(c.args[0], c.args[1], tZero), mkCutAfter(c.args[0], c.args[1]), tTrue)...)
		}
		if n != nil {
			outs = append(outs, ret(n, c.args[0], tEmpty, tFalse)...)
		}
		return outs, true
	case "strings.Join":
		a := ex.content(st, c.args[0])
		if a.Op == "seq" {
			var parts []*Term
			for i, p := range a.Args {
				if p.Op != "one" {
					parts = nil
					break
				}
				if i > 0 {
					parts = append(parts, c.args[1])
				}
				parts = append(parts, p.Args[0])
			}
			if parts != nil {
				return ret(st, mkConcat(parts...)), true
			}
		}
		return ret(st, mkCall(name, rtyp(0), []*Term{ex.freeze(st, a, 0), c.args[1]})), true
	case "google.golang.org/protobuf/types/known/structpb.NewStringValue":
		vt := rtyp(0)
		pkg := types.Unalias(derefT(vt)).(*types.Named).Obj().Pkg()
		w := types.NewPointer(pkg.Scope().Lookup("Value_StringValue").Type())
		o, k := ex.newObj(vt, c.pos), ex.newObj(w, c.pos)
		it := structOf(derefT(vt))
		kt := it.Field(fieldIdx(it, "Kind")).Type()
		ex.store(st, mkFA(k, "StringValue", types.NewPointer(types.Typ[types.String])), c.args[0], types.Typ[types.String])
		ex.store(st, mkFA(o, "Kind", types.NewPointer(kt)), mkIface(k, w), kt)
		return ret(st, o), true
	case "strings.Contains":
		return ret(st, mkContains(c.args[0], c.args[1])), true
	case "strings.ContainsRune":
		if n, ok := c.args[1].intVal(); ok {
			return ret(st, mkContains(c.args[0], tStr(string(rune(n))))), true
		}
	case "strings.Count":
		return ret(st, mkSeps(c.args[0], c.args[1])), true
	case "strings.SplitN":
		if n, ok := c.args[2].intVal(); ok && n > 0 {
			if s, ok := c.args[1].strVal(); ok && s != "" {
				return splitN(ex, st, c.args[0], c.args[1], n, rtyp(0)), true
			}
		} else if ok && n < 0 {
			return ret(st, mkSplit(c.args[0], c.args[1], rtyp(0))), true
		}
	case "strings.HasSuffix":
		return ret(st, mkSuffix(c.args[0], c.args[1])), true
	case "strings.TrimSuffix":
		yes, no := ex.forkState(st, mkSuffix(c.args[0], c.args[1]))
		var outs []Outcome
		if yes != nil {
			outs = append(outs, ret(yes, mkCall(name, rtyp(0), c.args))...)
		}
		if no != nil {
			outs = append(outs, ret(no, c.args[0])...)
		}
		return outs, true
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		sep := c.args[1]
		fn := "strings.Index"
		if strings.HasPrefix(name, "strings.Last") {
			fn = "strings.LastIndex"
		}
		if n, ok := sep.intVal(); ok && n < 128 {
			sep = tStr(string(rune(n)))
		}
		if s, ok := sep.strVal(); ok && s != "" {
			return strIndex(ex, st, c, fn, c.args[0], sep), true
		}
	case "strings.EqualFold":
		lower := func(x *Term) *Term { return mkCall("strings.ToLower", types.Typ[types.String], []*Term{x}) }
		return ret(st, mkEq(lower(c.args[0]), lower(c.args[1]))), true
	}
	if pureFuncs[name] {
		return ex.opaque(st, c, true), true
	}
	return nil, false
}

// sprintf turns simple formats into concatenations.
func (ex *Exec) sprintf(st *State, c *Call) *Term {
	f, ok := c.args[0].strVal()
	if !ok {
		return nil
	}
	var vals []*Term
	a := ex.content(st, c.args[1])
	if a.Op == "seq" {
		for _, p := range a.Args {
			if p.Op != "one" {
				return nil
			}
			vals = append(vals, p.Args[0])
		}
	} else if a != tNil {
		return nil
	}
	var out []*Term
	var lit strings.Builder
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit.WriteByte('%')
			continue
		}
		if k >= len(vals) {
			return nil
		}
		v := vals[k]
		k++
		out = append(out, tStr(lit.String()))
		lit.Reset()
		if v.Op != "iface" {
			return nil
		}
		b := basicOf(v.Typ)
		if b == nil {
			return nil
		}
		// named types may have a String method
		if _, named := v.Typ.(*types.Named); named {
			return nil
		}
		switch {
		case (f[i] == 's' || f[i] == 'v') && b.Info()&types.IsString != 0:
			out = append(out, v.Args[0])
		case (f[i] == 'd' || f[i] == 'v') && b.Info()&types.IsInteger != 0:
			out = append(out, mkItoa(v.Args[0]))
		default:
			return nil
		}
	}
	if k != len(vals) {
		return nil
	}
	out = append(out, tStr(lit.String()))
	return mkConcat(out...)
}

// decode models the unmarshalling of a fresh message.
func (ex *Exec) decode(st *State, c *Call) []Outcome {
	b := ex.freeze(st, c.args[0], 0)
	m := c.args[1]
	if m.Op != "iface" {
		return nil
	}
	T := m.Typ
	o := ex.resolve(st, m.Args[0])
	if o.Op != "obj" {
		return nil
	}
	kind := "pb:"
	if strings.Contains(c.name, "protojson") {
		kind = "json:"
	}
	ok := mk("decodes", kind+typeStr(T), types.Typ[types.Bool], b)
	yes, no := ex.forkState(st, ok)
	var outs []Outcome
	if yes != nil {
		yes.alias[o] = mk("decoded", kind+typeStr(T), T, b)
		for a := range yes.heap {
			// the message is reset first
			if a.Op == "fa" && a.Args[0] == o {
				delete(yes.heap, a)
			}
		}
		outs = append(outs, ret(yes, tNil)...)
	}
	if no != nil {
		outs = append(outs, ret(no, ex.mkErr(""))...)
	}
	return outs
}

func (ex *Exec) atomicCall(st *State, c *Call, recv, m string) ([]Outcome, bool) {
	var typ types.Type
	switch {
	case recv == "*sync/atomic.Value":
		typ = types.NewInterfaceType(nil, nil)
	case strings.HasSuffix(recv, ".Bool"):
		typ = types.Typ[types.Bool]
	case strings.HasSuffix(recv, ".Int32"):
		typ = types.Typ[types.Int32]
	case strings.HasSuffix(recv, ".Int64"):
		typ = types.Typ[types.Int64]
	case strings.HasSuffix(recv, ".Uint32"):
		typ = types.Typ[types.Uint32]
	case strings.HasSuffix(recv, ".Uint64"):
		typ = types.Typ[types.Uint64]
	case strings.HasSuffix(recv, ".String"):
		typ = types.Typ[types.String]
	case strings.Contains(recv, ".Pointer"):
		if c.sig.Results().Len() == 1 {
			typ = c.sig.Results().At(0).Type()
		} else if c.sig.Params().Len() > 0 {
			typ = c.sig.Params().At(c.sig.Params().Len() - 1).Type()
		}
	default:
		return nil, false
	}
	cur := ex.loadCell(st, c.args[0], typ)
	switch m {
	case "Load":
		return ret(st, cur), true
	case "Store":
		ex.storeCell(st, c.args[0], c.args[1], typ)
		return ret(st), true
	case "Swap":
		ex.storeCell(st, c.args[0], c.args[1], typ)
		return ret(st, cur), true
	case "Toggle":
		ex.storeCell(st, c.args[0], mkNot(cur), typ)
		return ret(st, cur), true
	case "CompareAndSwap", "CAS":
		y, n := ex.forkState(st, ex.eqTerm(st, cur, c.args[1]))
		var outs []Outcome
		if y != nil {
			ex.storeCell(y, c.args[0], c.args[2], typ)
			outs = append(outs, ret(y, tTrue)...)
		}
		if n != nil {
			outs = append(outs, ret(n, tFalse)...)
		}
		return outs, true
	case "Add", "Inc", "Dec", "Sub":
		d := tOne
		if len(c.args) > 1 {
			d = c.args[1]
		}
		sign := int64(1)
		if m == "Dec" || m == "Sub" {
			sign = -1
		}
		v := mkAdd(cur, d, sign, typ)
		ex.storeCell(st, c.args[0], v, typ)
		return ret(st, v), true
	}
	return nil, false
}

var _ = fmt.Sprint

// pureModel treats a call as an unknown function of its arguments.
func pureModel(ex *Exec, st *State, c *Call) ([]Outcome, bool) { return ex.opaque(st, c, true), true }

// timeDiff is a - b for instants, in terms of the time since an instant where one of them is the present.
func timeDiff(a, b *Term) *Term {
	dur := types.Typ[types.Int64]
	off := tZero
	base := func(t *Term, sign int64) *Term {
		for t.Op == "call" && t.Str == "(time.Time).Add" && len(t.Args) == 2 {
			off = mkAdd(off, t.Args[1], sign, dur)
			t = t.Args[0]
		}
		return t
	}
	a, b = base(a, 1), base(b, -1)
	now := func(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Str, "time.Now") }
	var d *Term
	switch {
	case a == b:
		d = tZero
	case now(a):
		d = mkCall("time.Since", dur, []*Term{b})
	case now(b):
		d = mkAdd(tZero, mkCall("time.Since", dur, []*Term{a}), -1, dur)
	default:
		d = mkCall("(time.Time).Sub", dur, []*Term{a, b})
	}
	return mkAdd(d, off, 1, dur)
}
