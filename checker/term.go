package main

// Herbrand terms: hash-consed, normalised on construction.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Term is a hash-consed value term. Identity of pointers is identity of terms.
type Term struct {
	id   int
	Op   string
	Str  string
	Args []*Term
	Typ  types.Type // advisory, may be nil
	free map[*Term]bool
	size int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

// deadline bounds the time of one obligation.
var deadline time.Time
var mkCount int

func mk(op, str string, typ types.Type, args ...*Term) *Term {
	if mkCount++; mkCount&0xffff == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		deadline = time.Time{}
		undec("out of time")
	}
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	for _, a := range args {
		if a == nil {
			panic("nil arg in term " + op + " " + str)
		}
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	sz := 1
	for _, a := range args {
		sz += a.size
	}
	t := &Term{id: len(termList) + 1, Op: op, Str: str, Args: append([]*Term(nil), args...), Typ: typ, size: sz}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

var (
	tNil   *Term
	tTrue  *Term
	tFalse *Term
	tEmpty *Term // ""
	tZero  *Term
	tOne   *Term
)

func init() { resetTerms() }

func resetTerms() {
	termTab = map[string]*Term{}
	termList = nil
	tNil = mk("nil", "", nil)
	tTrue = mk("c", "b:true", types.Typ[types.Bool])
	tFalse = mk("c", "b:false", types.Typ[types.Bool])
	tEmpty = mk("c", "s:", types.Typ[types.String])
	tZero = mk("c", "i:0", nil)
	tOne = mk("c", "i:1", nil)
}

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tInt(n int64) *Term { return mk("c", "i:"+strconv.FormatInt(n, 10), nil) }

func tStr(s string) *Term { return mk("c", "s:"+s, types.Typ[types.String]) }

func tConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return tBool(constant.BoolVal(v))
	case constant.String:
		return tStr(constant.StringVal(v))
	}
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		if n, ok := constant.Int64Val(i); ok {
			return tInt(n)
		}
		return mk("c", "I:"+i.ExactString(), typ)
	}
	return mk("c", "f:"+v.ExactString(), typ)
}

func (t *Term) isConst() bool { return t.Op == "c" || t.Op == "nil" }

func (t *Term) intVal() (int64, bool) {
	if t.Op == "c" && strings.HasPrefix(t.Str, "i:") {
		n, err := strconv.ParseInt(t.Str[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.Op == "c" && strings.HasPrefix(t.Str, "s:") {
		return t.Str[2:], true
	}
	return "", false
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// leafStructs are struct types that are handled as opaque values.
func isLeafStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "time", "strings", "bytes", "go.uber.org/atomic", "regexp":
		return true
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if isLeafStruct(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsNumeric != 0:
			return tZero
		}
		return tNil
	case *types.Struct:
		return mk("zero", typeStr(t), t)
	case *types.Array:
		return mk("zero", typeStr(t), t)
	case *types.Tuple:
		return tNil
	}
	return tNil
}

// ---- construction with normalisation ----

func build(op, str string, typ types.Type, args []*Term) *Term {
	switch op {
	case "upd":
		return seqUpdate(args[0], args[1], args[2])
	case "sel":
		return mkSel(args[0], str, typ)
	case "index":
		return mkIndex(args[0], args[1], typ)
	case "len":
		return mkLen(args[0])
	case "lin":
		c, cs := parseLinStr(str)
		m := map[*Term]int64{}
		k := c
		for i, a := range args {
			kk, mm := toLin(a)
			k += cs[i] * kk
			for t, v := range mm {
				m[t] += cs[i] * v
			}
		}
		return fromLin(k, m, typ)
	case "gt0":
		c, m := toLin(args[0])
		return mkGt0(c, m)
	case "eq":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "mul":
		return mkMul(args[0], args[1], typ)
	case "concat":
		return mkConcat(args...)
	case "seq":
		return mkSeq(typ, args...)
	case "spread":
		return args[0].asSpread()
	case "istype":
		return mkIsType(args[0], typOfIsType(str), str)
	case "assert":
		return mkAssert(args[0], typ, str)
	case "in":
		return mkIn(args[0], args[1])
	case "lookup":
		return mkLookup(args[0], args[1], typ)
	case "get":
		return mkGet(args[0], args[1], typ)
	case "exists":
		return mkExists(args[0], args[1:])
	case "case":
		if args[0] == tFalse {
			return mk("case", "", nil, args[0])
		}
		return mk("case", str, nil, args...)
	case "each":
		return mkEach(args[0], args[1:])
	case "sum":
		return mkSum(args[0], args[1:], typ)
	case "fold":
		return mkFold(args[0], args[1], args[2:], typ)
	case "first":
		return mkFirst(args[0], nil)
	case "pre":
		return mkPre(args[0], args[1], nil, typ)
	case "loopev", "seach":
		return mkBinder(op, args[0], args[1:], typ)
	case "struct":
		return mkStruct(typ, str, args)
	case "call":
		return mkCall(str, typ, args)
	case "conv":
		return mkConv(typ, str, args[0])
	case "map":
		return mkMap(args[0], args[1:]...)
	}
	return mk(op, str, typ, args...)
}

func ixEmpty(ix *Term) bool {
	if ix.Op != "ix" || len(ix.Args) == 0 {
		return false
	}
	d := ix.Args[0]
	switch d.Op {
	case "count":
		if n, ok := d.Args[0].intVal(); ok && n <= 0 {
			return true
		}
	case "mapdom":
		c := d.Args[0]
		if c.Op == "nil" || c.Op == "mapempty" || (c.Op == "map" && len(c.Args) == 1 && (c.Args[0].Op == "mapempty" || c.Args[0].Op == "nil")) {
			return true
		}
	}
	return false
}

func mkSel(b *Term, f string, typ types.Type) *Term {
	name := f
	if i := strings.IndexByte(f, '@'); i >= 0 {
		name = f[:i]
	}
	switch b.Op {
	case "cell":
		if name == "$v" {
			return b.Args[0]
		}
	case "nil":
		return zeroOf(typ)
	case "zero":
		if name == "$v" {
			return zeroOf(typ)
		}
		if st := structOf(b.Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return zeroOf(st.Field(i).Type())
				}
			}
		}
	case "new", "struct":
		if st := structOf(derefT(b.Typ)); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return b.Args[i]
				}
			}
		}
	}
	return mk("sel", f, typ, b)
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkStruct(typ types.Type, str string, args []*Term) *Term {
	st := structOf(derefT(typ))
	if st == nil {
		return mk("struct", str, typ, args...)
	}
	// all fields selected from one value
	if len(args) > 0 && args[0].Op == "sel" && args[0].Str == st.Field(0).Name() {
		b := args[0].Args[0]
		ok := b.Typ != nil && types.Identical(b.Typ, typ)
		for i, a := range args {
			if !(a.Op == "sel" && a.Str == st.Field(i).Name() && a.Args[0] == b) {
				ok = false
				break
			}
		}
		if ok {
			return b
		}
	}
	allz := true
	for i, a := range args {
		if a != zeroOf(st.Field(i).Type()) {
			allz = false
			break
		}
	}
	if allz {
		return mk("zero", str, typ)
	}
	return mk("struct", str, typ, args...)
}

func mkIndex(x, i *Term, typ types.Type) *Term {
	if x.Op == "seq" {
		if n, ok := i.intVal(); ok && n >= 0 {
			// leading single elements
			for k, p := range x.Args {
				if p.Op == "rep" {
					if m, ok := p.Args[0].intVal(); ok && int64(k) == n && m > 0 && k == 0 && n < m {
						return p.Args[1]
					}
					break
				}
				if p.Op != "one" {
					break
				}
				if int64(k) == n {
					return p.Args[0]
				}
			}
		}
		if len(x.Args) > 1 {
			if v := indexParts(x, i, typ); v != nil {
				return v
			}
		}
		if len(x.Args) == 1 && x.Args[0].Op == "each" {
			e := x.Args[0]
			if len(e.Args) == 2 {
				c := e.Args[1]
				if c.Args[0] == tTrue && len(c.Args) == 2 && c.Args[1].Op == "one" {
					return subst(c.Args[1].Args[0], map[*Term]*Term{e.Args[0]: i})
				}
			}
		}
		if len(x.Args) == 1 && x.Args[0].Op == "rep" {
			return x.Args[0].Args[1]
		}
	}
	if s, ok := x.strVal(); ok {
		if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(s) {
			return tInt(int64(s[n]))
		}
	}
	return mk("index", "", typ, x, i)
}

// indexParts is an element of a sequence of several parts, if the part it is in is known.
func indexParts(x, i *Term, typ types.Type) *Term {
	rest := i
	for _, p := range x.Args {
		if p.Op == "one" {
			if rest == tZero {
				return p.Args[0]
			}
		} else {
			sub := mkSeq(x.Typ, p)
			if rest.Op == "ix" && rest.Args[0].Op == "count" && rest.Args[0].Args[0] == mkLen(sub) {
				return mkIndex(sub, rest, typ)
			}
		}
		// behind this part?
		n := tOne
		if p.Op != "one" {
			n = mkLen(mkSeq(x.Typ, p))
		}
		rest = mkAdd(rest, n, -1, types.Typ[types.Int])
		k, m := toLin(rest)
		if k < 0 {
			return nil
		}
		for t, c := range m {
			if c < 0 || !nonNegTerm(t) {
				return nil
			}
		}
	}
	return nil
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func mkLen(x *Term) *Term {
	switch x.Op {
	case "nil", "mapempty":
		return tZero
	case "c":
		if s, ok := x.strVal(); ok {
			return tInt(int64(len(s)))
		}
	case "call":
		if n := splitLen(x); n != nil {
			return n
		}
	case "conv":
		return mkLen(x.Args[0])
	case "sorted":
		return mkLen(x.Args[0])
	case "seq":
		var c int64
		m := map[*Term]int64{}
		for _, p := range x.Args {
			switch p.Op {
			case "one":
				c++
			case "spread":
				m[mkLen(p.Args[0])]++
			case "rep":
				k, mm := toLin(p.Args[0])
				c += k
				for t, v := range mm {
					m[t] += v
				}
			case "each":
				if n := eachConstLen(p); n >= 0 && p.Args[0].Args[0].Op == "count" {
					k, mm := toLin(p.Args[0].Args[0].Args[0])
					c += k * n
					for t, v := range mm {
						m[t] += v * n
					}
				} else {
					m[mk("len", "", types.Typ[types.Int], mk("seq", "", nil, p))]++
				}
			default:
				m[mk("len", "", types.Typ[types.Int], mk("seq", "", nil, p))]++
			}
		}
		return fromLin(c, m, types.Typ[types.Int])
	case "map":
		if len(x.Args) == 1 {
			return mkLen(x.Args[0])
		}
		if len(x.Args) == 2 && x.Args[0].Op == "mapempty" && x.Args[1].Op == "set" {
			return tInt(1)
		}
	}
	return mk("len", "", types.Typ[types.Int], x)
}

// eachConstLen returns the number of elements produced per iteration if it is the same in all cases, else -1.
func eachConstLen(e *Term) int64 {
	n := int64(-1)
	for _, c := range e.Args[1:] {
		k := int64(0)
		for _, p := range c.Args[1:] {
			if p.Op != "one" {
				return -1
			}
			k++
		}
		if n >= 0 && n != k {
			return -1
		}
		n = k
	}
	// the cases must cover every element
	if n > 0 {
		var gs []*Term
		for _, c := range e.Args[1:] {
			gs = append(gs, c.Args[0])
		}
		if cg := canonGuards(gs); len(cg) != 1 || cg[0] != tTrue {
			return -1
		}
	}
	return n
}

// ---- linear forms ----

func parseLinStr(s string) (int64, []int64) {
	parts := strings.Split(s, "|")
	c, _ := strconv.ParseInt(parts[0], 10, 64)
	var cs []int64
	if len(parts) > 1 && parts[1] != "" {
		for _, p := range strings.Split(parts[1], ",") {
			v, _ := strconv.ParseInt(p, 10, 64)
			cs = append(cs, v)
		}
	}
	return c, cs
}

func toLin(t *Term) (int64, map[*Term]int64) {
	if n, ok := t.intVal(); ok {
		return n, map[*Term]int64{}
	}
	if t.Op == "lin" {
		c, cs := parseLinStr(t.Str)
		m := map[*Term]int64{}
		for i, a := range t.Args {
			m[a] = cs[i]
		}
		return c, m
	}
	return 0, map[*Term]int64{t: 1}
}

func sortedTerms(m map[*Term]int64) []*Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func fromLin(c int64, m map[*Term]int64, typ types.Type) *Term {
	ts := sortedTerms(m)
	if len(ts) == 0 {
		return tInt(c)
	}
	if len(ts) == 1 && m[ts[0]] == 1 && c == 0 {
		return ts[0]
	}
	var cs []string
	for _, t := range ts {
		cs = append(cs, strconv.FormatInt(m[t], 10))
	}
	return mk("lin", strconv.FormatInt(c, 10)+"|"+strings.Join(cs, ","), typ, ts...)
}

func mkAdd(a, b *Term, sign int64, typ types.Type) *Term {
	c1, m1 := toLin(a)
	c2, m2 := toLin(b)
	for t, v := range m2 {
		m1[t] += sign * v
	}
	return fromLin(c1+sign*c2, m1, typ)
}

func mkMul(a, b *Term, typ types.Type) *Term {
	if n, ok := a.intVal(); ok {
		a, b = b, a
		_ = n
	}
	if n, ok := b.intVal(); ok {
		c, m := toLin(a)
		for t := range m {
			m[t] *= n
		}
		return fromLin(c*n, m, typ)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", "", typ, a, b)
}

// countAll: the size of a domain less the number of its elements with a property is the number of those
// without it.
func countAll(m map[*Term]int64) *Term {
	for t, k := range m {
		if t.Op != "sum" || len(t.Args) < 2 || len(t.Args[0].Args) == 0 {
			continue
		}
		v, ok := t.Args[1].Args[1].intVal()
		if !ok || v == 0 {
			continue
		}
		var gs []*Term
		for _, c := range t.Args[1:] {
			gs = append(gs, c.Args[0])
			ok = ok && c.Args[1] == t.Args[1].Args[1]
		}
		var size *Term
		switch d := t.Args[0].Args[0]; d.Op {
		case "mapdom":
			size = mkLen(d.Args[0])
		case "count":
			size = d.Args[0]
		}
		if !ok || size == nil || m[size] != -k*v {
			continue
		}
		rest := map[*Term]int64{}
		for u, n := range m {
			if u != t && u != size {
				rest[u] = n
			}
		}
		others := mkSum(t.Args[0], []*Term{mk("case", "", nil, mkNot(mkOr(gs...)), t.Args[1].Args[1])}, t.Typ)
		r := fromLin(0, rest, t.Typ)
		return mkAdd(r, mkMul(others, tInt(k), t.Typ), -1, t.Typ)
	}
	return nil
}

func nonNegTerm(t *Term) bool {
	if t.Op == "call" && (t.Str == "strings.Index" || t.Str == "strings.LastIndex") {
		// on the paths where there is a separator
		return true
	}
	switch t.Op {
	case "len", "ix", "rand", "keyord", "first":
		return true
	case "call":
		return t.Str == "nseps" || t.Str == "strings.Count"
	case "sum":
		for _, c := range t.Args[1:] {
			if len(c.Args) > 1 && !nonNegTerm(c.Args[1]) {
				return false
			}
		}
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	if n, ok := t.intVal(); ok {
		return n >= 0
	}
	return false
}

func mkGt0(c int64, m map[*Term]int64) *Term {
	ts := sortedTerms(m)
	if len(ts) == 0 {
		return tBool(c > 0)
	}
	// ix(count(B)) < B, rand(n) < n
	for _, t := range ts {
		if m[t] == -1 && (ixDomain(t) != nil && ixDomain(t).Op == "count" || t.Op == "rand") {
			var bnd *Term
			if d := ixDomain(t); d != nil {
				bnd = d.Args[0]
			} else {
				bnd = t.Args[0]
			}
			k, bm := toLin(bnd)
			rest := map[*Term]int64{}
			for x, v := range m {
				if x != t {
					rest[x] += v
				}
			}
			for x, v := range bm {
				rest[x] -= v
			}
			rc := c - k
			if rs := sortedTerms(rest); rc >= 0 {
				ok := true
				for _, x := range rs {
					if rest[x] < 0 || !nonNegTerm(x) {
						ok = false
					}
				}
				if ok {
					return tTrue
				}
			}
		}
	}
	// the position of a separator lies inside of the string
	if len(ts) == 2 {
		for i, t := range ts {
			l := ts[1-i]
			if t.Op != "call" || t.Str != "strings.Index" && t.Str != "strings.LastIndex" || l != mkLen(t.Args[0]) {
				continue
			}
			s, _ := t.Args[1].strVal()
			if m[t] == 1 && m[l] == -1 && c <= int64(len(s)) {
				return tFalse
			}
			if m[t] == -1 && m[l] == 1 && c+int64(len(s)) > 0 {
				return tTrue
			}
		}
	}
	// sign by non-negativity
	allPos, allNeg := true, true
	for _, t := range ts {
		if !nonNegTerm(t) {
			allPos, allNeg = false, false
			break
		}
		if m[t] > 0 {
			allNeg = false
		} else {
			allPos = false
		}
	}
	if allPos && c > 0 {
		return tTrue
	}
	if allNeg && c <= 0 {
		return tFalse
	}
	// a sum of what is not negative is positive if one of them is
	if allPos && c == 0 && len(ts) > 1 {
		var cj []*Term
		for _, t := range ts {
			cj = append(cj, mkEq(t, tZero))
		}
		return mkNot(mkAnd(cj...))
	}
	if len(ts) == 1 {
		t := ts[0]
		k := m[t]
		// k*t + c > 0
		if k > 0 { // t > -c/k  <=> t >= floor(-c/k)+1 <=> t - floor(-c/k) > 0
			f := floorDiv(-c, k)
			if f == 0 && nonNegTerm(t) {
				return mkNot(mkEq(t, tZero))
			}
			return mk("gt0", "", types.Typ[types.Bool], fromLin(-f, map[*Term]int64{t: 1}, nil))
		}
		// -k'*t + c > 0 <=> t < c/k' <=> t <= ceil(c/k')-1 <=> not(t > ceil(c/k')-1)
		kk := -k
		cl := -floorDiv(-c, kk) - 1
		return mkNot(mkGt0(-cl, map[*Term]int64{t: 1}))
	}
	if m[ts[0]] < 0 {
		neg := map[*Term]int64{}
		for t, v := range m {
			neg[t] = -v
		}
		return mkNot(mkGt0(1-c, neg))
	}
	return mk("gt0", "", types.Typ[types.Bool], fromLin(c, m, nil))
}

// ixDomain is the domain an index or a first index ranges over.
func ixDomain(t *Term) *Term {
	switch t.Op {
	case "ix":
		if len(t.Args) > 0 {
			return t.Args[0]
		}
	case "first":
		return ixDomain(t.Args[0].Args[0])
	}
	return nil
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// mkLt is a < b on integers.
func mkLt(a, b *Term) *Term {
	c1, m1 := toLin(b)
	c2, m2 := toLin(a)
	for t, v := range m2 {
		m1[t] -= v
	}
	return mkGt0(c1-c2, m1)
}

// ---- booleans ----

func mkNot(b *Term) *Term {
	switch {
	case b == tTrue:
		return tFalse
	case b == tFalse:
		return tTrue
	case b.Op == "not":
		return b.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], b)
}

func mkAnd(args ...*Term) *Term {
	set := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[mkNot(t)] {
			return false
		}
		set[t] = true
		return true
	}
	for _, a := range args {
		if !add(a) {
			return tFalse
		}
	}
	// membership: a && !(a && b) is a && !b, a && !(!a && b) is a
	isIn := func(t *Term) bool { return t.Op == "in" || t.Op == "not" && t.Args[0].Op == "in" }
	for again := true; again; {
		again = false
		var cand []*Term
		for t := range set {
			if t.Op == "not" && t.Args[0].Op == "and" {
				cand = append(cand, t)
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i].id < cand[j].id })
		for _, t := range cand {
			var rest []*Term
			drop := false
			for _, x := range t.Args[0].Args {
				if isIn(x) && set[mkNot(x)] {
					drop = true
					break
				}
				if !isIn(x) || !set[x] {
					rest = append(rest, x)
				}
			}
			if !drop && len(rest) == len(t.Args[0].Args) {
				continue
			}
			again = true
			delete(set, t)
			if !drop && !add(mkNot(mkAnd(rest...))) {
				return tFalse
			}
			break
		}
	}
	var ts []*Term
	for t := range set {
		ts = append(ts, t)
	}
	if len(ts) == 0 {
		return tTrue
	}
	if len(ts) == 1 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return mk("and", "", types.Typ[types.Bool], ts...)
}

func mkOr(args ...*Term) *Term {
	var n []*Term
	for _, a := range args {
		n = append(n, mkNot(a))
	}
	return mkNot(mkAnd(n...))
}

// crossing: where a running sum first exceeds a bound that is not negative, the element added is not zero. The
// condition w != 0 next to pre(ix, sum of w) + w > bound decides neither whether there is such an index nor which one
// is the first.
func crossing(ix, g *Term) *Term {
	if g.Op != "and" {
		return g
	}
	for _, l := range g.Args {
		if l.Op != "gt0" {
			continue
		}
		c, m := toLin(l.Args[0])
		var w *Term
		ok := c <= 0
		for t, k := range m {
			switch {
			case k == 1 && t.Op == "pre" && t.Args[0] == ix && w == nil:
				if s := t.Args[1]; s.Op == "sum" && s.Args[0] == ix && len(s.Args) == 2 && s.Args[1].Args[0] == tTrue {
					w = s.Args[1].Args[1]
				}
			case k < 0 && nonNegTerm(t) && !occursFree(ix, t):
			case k == 1:
			default:
				ok = false
			}
		}
		if !ok || w == nil || m[w] != 1 {
			continue
		}
		n := 0
		for _, k := range m {
			if k > 0 {
				n++
			}
		}
		if n != 2 {
			continue
		}
		var rest []*Term
		for _, x := range g.Args {
			if x != mkNot(mkEq(w, tZero)) && x != mkGt0(0, map[*Term]int64{w: 1}) {
				rest = append(rest, x)
			}
		}
		if len(rest) < len(g.Args) {
			return mkAnd(rest...)
		}
	}
	return g
}

// mkExists: exists ix such that one of the guards holds.
func mkExists(ix *Term, guards []*Term) *Term {
	if ixEmpty(ix) {
		return tFalse
	}
	if f := flatOf(ix, guards); f != nil {
		return mkExists(f.outer, []*Term{mkAnd(f.g, f.inner(guards))})
	}
	ix, guards = fuseGuards(ix, guards)
	set := map[*Term]bool{}
	var gs []*Term
	for _, g := range guards {
		if g == tFalse || set[g] {
			continue
		}
		set[g] = true
		gs = append(gs, g)
	}
	if len(gs) == 0 {
		return tFalse
	}
	gs = canonGuards(gs)
	if len(gs) == 0 {
		return tFalse
	}
	for i, g := range gs {
		gs[i] = crossing(ix, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, g := range gs {
		if g == tTrue && ix.Op == "ix" && len(ix.Args) > 0 {
			d := ix.Args[0]
			if d.Op == "count" {
				return mkLt(tZero, d.Args[0])
			}
			if d.Op == "mapdom" {
				return mkNot(mkEq(mkLen(d.Args[0]), tZero))
			}
		}
	}
	return mk("exists", "", types.Typ[types.Bool], append([]*Term{ix}, gs...)...)
}

// eachSets: the conditions under which an iteration that only adds entries adds the key k.
func eachSets(e, k *Term) ([]*Term, bool) {
	j := e.Args[0]
	if occurs(j, k) {
		return nil, false
	}
	var gs []*Term
	for _, c := range e.Args[1:] {
		if c.Op != "case" || len(c.Args) > 2 {
			return nil, false
		}
		if len(c.Args) == 1 {
			continue
		}
		if c.Args[1].Op != "set" {
			return nil, false
		}
		gs = append(gs, mkAnd(c.Args[0], mkEq(c.Args[1].Args[0], k)))
	}
	return gs, true
}

// allTrue: a map built from true entries only.
func allTrue(m *Term) bool {
	if m.Args[0].Op != "mapempty" {
		return false
	}
	for _, p := range m.Args[1:] {
		switch p.Op {
		case "set":
			if p.Args[1] != tTrue {
				return false
			}
		case "del":
		case "each":
			for _, c := range p.Args[1:] {
				for _, o := range c.Args[1:] {
					if o.Op == "set" && o.Args[1] != tTrue || o.Op != "set" && o.Op != "del" {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// definitely non-nil by shape
func shapeNonNil(t *Term) bool {
	switch t.Op {
	case "obj", "shared", "chan", "new", "fa", "ia", "closure", "func", "iface", "err", "decoded", "glob", "nonnil", "self!":
		return true
	case "call":
		return callNonNil(t)
	case "gval":
		// package-level values of libraries and of the repository that nobody writes
		return gvalNonNil(t)
	case "index":
		// an element of a sequence of set values
		x := t.Args[0]
		if x.Op != "seq" || len(x.Args) == 0 {
			return false
		}
		return partsNonNil(x.Args, nil)
	case "lookup":
		// the entry of a key of the map, all of whose entries are set values
		m, k := t.Args[0], t.Args[1]
		if m.Op != "map" || m.Args[0].Op != "mapempty" || k.Op != "key" {
			return false
		}
		d := ixDomain(k.Args[0])
		return d != nil && d.Op == "mapdom" && d.Args[0] == m && partsNonNil(m.Args[1:], nil)
	}
	return false
}

// partsNonNil: all elements of the parts are set; guards are the conditions under which the parts occur.
func partsNonNil(parts []*Term, guards []*Term) bool {
	for _, p := range parts {
		switch p.Op {
		case "one", "set":
			if v := p.Args[len(p.Args)-1]; !shapeNonNil(v) && !guardNonNil(v, guards) {
				return false
			}
		case "each":
			for _, c := range p.Args[1:] {
				if !partsNonNil(c.Args[1:], append(guards[:len(guards):len(guards)], c.Args[0])) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func guardNonNil(x *Term, guards []*Term) bool {
	for _, g := range guards {
		switch g.Op {
		case "and":
			if guardNonNil(x, g.Args) {
				return true
			}
		case "not":
			if e := g.Args[0]; e.Op == "eq" && (e.Args[0] == x && e.Args[1] == tNil || e.Args[1] == x && e.Args[0] == tNil) {
				return true
			}
		}
	}
	return false
}

func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "c" && b.Op == "c" {
		return true
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if distinctConst(a, b) {
		return tFalse
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.Op == "conv" && b.Op == "conv" && a.Str == b.Str && a.Str == "string" {
		return mkEq(a.Args[0], b.Args[0])
	}
	if b == tNil {
		if a.Op == "nil" {
			return tTrue
		}
		if a.Op == "c" {
			return tFalse
		}
		if shapeNonNil(a) {
			return tFalse
		}
		if a.Op == "seq" || a.Op == "rep" || isSliceT(a.Typ) {
			return mkEq(mkLen(a), tZero)
		}
		if a.Op == "map" || a.Op == "mapempty" {
			return tFalse
		}
		if a.Op == "conv" {
			return mkEq(a.Args[0], b)
		}
		if a.Op == "fold" {
			if r := foldIsInit(a, b); r != nil {
				return r
			}
		}
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.Op == "fold" && b.Op == "c" {
		if r := foldIsInit(a, b); r != nil {
			return r
		}
	}
	if s, ok := b.strVal(); ok {
		if a.Op == "concat" {
			// constant prefix / suffix mismatch, or non-empty concat
			if p, ok := a.Args[0].strVal(); ok && !strings.HasPrefix(s, p) {
				return tFalse
			}
			if p, ok := a.Args[len(a.Args)-1].strVal(); ok && !strings.HasSuffix(s, p) {
				return tFalse
			}
		}
		if a.Op == "call" && a.Str == "Error" && s == "" {
			return tFalse
		}
		if a.Op == "itoa" && s == "" {
			return tFalse
		}
		if n, ok := lenConstStr(a); ok && n > len(s) {
			return tFalse
		}
	}
	if n, ok := b.intVal(); ok {
		if a.Op == "lin" {
			c, m := toLin(a)
			if r := countAll(m); r != nil {
				return mkEq(mkAdd(r, tInt(c), 1, nil), b)
			}
			ts := sortedTerms(m)
			if len(ts) == 1 {
				k := m[ts[0]]
				if (n-c)%k != 0 {
					return tFalse
				}
				return mkEq(ts[0], tInt((n-c)/k))
			}
			if n != 0 {
				return mkEq(fromLin(c-n, m, nil), tZero)
			}
			allPos := true
			for _, t := range ts {
				if m[t] < 0 || !nonNegTerm(t) {
					allPos = false
				}
			}
			if allPos {
				if c > 0 {
					return tFalse
				}
				if c == 0 {
					var cj []*Term
					for _, t := range ts {
						cj = append(cj, mkEq(t, tZero))
					}
					return mkAnd(cj...)
				}
			}
			if m[ts[0]] < 0 {
				for t := range m {
					m[t] = -m[t]
				}
				return mkEq(fromLin(-c, m, nil), tZero)
			}
			return mk("eq", "", types.Typ[types.Bool], a, b)
		}
		if n < 0 && nonNegTerm(a) {
			return tFalse
		}
		if a.Op == "len" && n == 0 {
			if r := emptyOf(a.Args[0]); r != nil {
				return r
			}
		}
		if a.Op == "sum" && n == 0 && nonNegTerm(a) {
			var gs []*Term
			for _, c := range a.Args[1:] {
				gs = append(gs, mkAnd(c.Args[0], mkNot(mkEq(c.Args[1], tZero))))
			}
			return mkNot(mkExists(a.Args[0], gs))
		}
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.Op == "sum" || b.Op == "sum" {
		if _, m := toLin(mkAdd(a, b, -1, nil)); countAll(m) != nil {
			return mkEq(mkAdd(a, b, -1, nil), tZero)
		}
	}
	if isIntTerm(a) && isIntTerm(b) && (a.Op == "lin" || b.Op == "lin") {
		return mkEq(mkAdd(a, b, -1, nil), tZero)
	}
	if a.Op == "concat" || b.Op == "concat" {
		if r := eqConcat(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func lenConstStr(t *Term) (int, bool) {
	if t.Op != "concat" {
		return 0, false
	}
	n := 0
	for _, a := range t.Args {
		if s, ok := a.strVal(); ok {
			n += len(s)
		}
	}
	return n, true
}

// strip common prefix and suffix parts of two concatenations
func eqConcat(a, b *Term) *Term {
	pa, pb := concatParts(a), concatParts(b)
	ch := false
	for len(pa) > 0 && len(pb) > 0 && pa[0] == pb[0] {
		pa, pb, ch = pa[1:], pb[1:], true
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb, ch = pa[:len(pa)-1], pb[:len(pb)-1], true
	}
	if !ch {
		return nil
	}
	return mkEq(mkConcat(pa...), mkConcat(pb...))
}

func concatParts(t *Term) []*Term {
	if t.Op == "concat" {
		return t.Args
	}
	if t == tEmpty {
		return nil
	}
	return []*Term{t}
}

func isIntTerm(t *Term) bool {
	if t.Op == "lin" || t.Op == "len" || t.Op == "ix" {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isMapT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// foldIsInit: fold(ix, init, cases) == c where init is c and every other value is not c.
func foldIsInit(f, c *Term) *Term {
	ix, init := f.Args[0], f.Args[1]
	self := mk("self", "", nil, ix)
	var gs []*Term
	if init != c {
		// monotone towards c: every update is to c, init differs
		e := mkEq(init, c)
		if e != tFalse {
			return nil
		}
		for _, cs := range f.Args[2:] {
			v := cs.Args[1]
			if v == self {
				continue
			}
			if v != c {
				return nil
			}
			gs = append(gs, cs.Args[0])
		}
		return mkExists(ix, gs)
	}
	for _, cs := range f.Args[2:] {
		v := cs.Args[1]
		if v == self {
			continue
		}
		F := newFacts()
		F.addGuard(cs.Args[0])
		if F.evalBool(F.simp(mkEq(v, c))) != tFalse {
			return nil
		}
		gs = append(gs, cs.Args[0])
	}
	return mkNot(mkExists(ix, gs))
}

// emptyOf is the condition under which a sequence, string or map content is empty, nil if it has no better form.
func emptyOf(x *Term) *Term {
	if isStringT(x.Typ) || x.Op == "concat" {
		return mkEq(x, tEmpty)
	}
	switch x.Op {
	case "seq":
		var cj []*Term
		for _, p := range x.Args {
			switch p.Op {
			case "one":
				return tFalse
			case "spread":
				cj = append(cj, mkEq(mkLen(p.Args[0]), tZero))
			case "rep":
				cj = append(cj, mkEq(p.Args[0], tZero))
			case "each":
				cj = append(cj, mkNot(mkExists(p.Args[0], nonEmptyCases(p))))
			default:
				return nil
			}
		}
		return mkAnd(cj...)
	case "map":
		if x.Args[0].Op != "mapempty" && x.Args[0].Op != "nil" {
			return nil
		}
		var cj []*Term
		for _, p := range x.Args[1:] {
			switch p.Op {
			case "set":
				return tFalse
			case "each":
				for _, c := range p.Args[1:] {
					for _, o := range c.Args[1:] {
						if o.Op != "set" {
							return nil
						}
					}
				}
				cj = append(cj, mkNot(mkExists(p.Args[0], nonEmptyCases(p))))
			default:
				return nil
			}
		}
		return mkAnd(cj...)
	}
	return nil
}

func nonEmptyCases(e *Term) []*Term {
	var gs []*Term
	for _, c := range e.Args[1:] {
		if len(c.Args) == 1 {
			continue
		}
		// definitely non-empty or conditionally
		inner := mk("seq", "", nil, c.Args[1:]...)
		var emp *Term
		if c.Args[1].Op == "set" || c.Args[1].Op == "del" {
			emp = tFalse
		} else {
			emp = emptyOf(inner)
			if emp == nil {
				emp = tFalse
			}
		}
		gs = append(gs, mkAnd(c.Args[0], mkNot(emp)))
	}
	return gs
}

// ---- sequences ----

func (t *Term) asSpread() *Term { return mk("spread", "", nil, t) }

func seqParts(t *Term) []*Term {
	switch t.Op {
	case "seq":
		return t.Args
	case "nil":
		return nil
	}
	return []*Term{t.asSpread()}
}

func mkSeq(typ types.Type, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch p.Op {
		case "spread":
			out = append(out, seqParts(p.Args[0])...)
		case "each":
			if ixEmpty(p.Args[0]) || len(p.Args) == 1 {
				continue
			}
			none := true
			for _, c := range p.Args[1:] {
				if len(c.Args) > 1 {
					none = false
				}
			}
			if none {
				continue
			}
			out = append(out, p)
		case "rep":
			if n, ok := p.Args[0].intVal(); ok && n == 0 {
				continue
			}
			out = append(out, p)
		default:
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return tNil
	}
	// each(ix: one(index(x, ix))) over count(len(x)) is x
	for i, e := range out {
		if e.Op != "each" || len(e.Args) != 2 {
			continue
		}
		c, ix := e.Args[1], e.Args[0]
		if c.Args[0] == tTrue && len(c.Args) == 2 && c.Args[1].Op == "one" && ix.Args[0].Op == "count" {
			v := c.Args[1].Args[0]
			if v.Op == "index" && v.Args[1] == ix && ix.Args[0].Args[0] == mkLen(v.Args[0]) && !occurs(ix, v.Args[0]) {
				out[i] = v.Args[0].asSpread()
			}
		}
	}
	if len(out) == 1 && out[0].Op == "spread" {
		return out[0].Args[0]
	}
	return mk("seq", "", typ, out...)
}

func mkEach(ix *Term, cases []*Term) *Term {
	ix, cases = fuseCases(ix, cases)
	keep := canonCases(cases, false)
	return mk("each", "", nil, append([]*Term{ix}, keep...)...)
}

// keyDomain is the map domain a key ranges over.
func keyDomain(k *Term) *Term {
	if k.Op == "key" {
		if d := ixDomain(k.Args[0]); d != nil && d.Op == "mapdom" {
			return d
		}
	}
	return nil
}

func dropCases(cs []*Term, drop func(c *Term) bool) []*Term {
	var out []*Term
	for _, c := range cs {
		if c.Args[0] == tFalse || drop(c) {
			continue
		}
		out = append(out, c)
	}
	return out
}

func mkSum(ix *Term, cs []*Term, typ types.Type) *Term {
	ix, cs = fuseCases(ix, cs)
	cs = canonCases(dropCases(cs, func(c *Term) bool { return c.Args[1] == tZero }), true)
	if ixEmpty(ix) || len(cs) == 0 {
		return tZero
	}
	if _, m := toLin(cs[0].Args[1]); len(m) > 0 {
		if ts := sortedTerms(m); m[ts[0]] < 0 {
			var neg []*Term
			for _, c := range cs {
				neg = append(neg, mk("case", "", nil, c.Args[0], mkAdd(tZero, c.Args[1], -1, typ)))
			}
			return mkAdd(tZero, mkSum(ix, neg, typ), -1, typ)
		}
	}
	if len(cs) == 1 && cs[0].Args[0] == tTrue {
		if n, ok := cs[0].Args[1].intVal(); ok && ix.Args[0].Op == "count" {
			return mkMul(ix.Args[0].Args[0], tInt(n), typ)
		}
	}
	return mk("sum", "", typ, append([]*Term{ix}, cs...)...)
}

func mkBinder(op string, ix *Term, cs []*Term, typ types.Type) *Term {
	ix, cs = fuseCases(ix, cs)
	cs = canonCases(cs, false)
	return mk(op, "", typ, append([]*Term{ix}, cs...)...)
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func mkConcat(args ...*Term) *Term {
	var out []*Term
	for _, a := range args {
		if a == tEmpty {
			continue
		}
		if a.Op == "concat" {
			for _, b := range a.Args {
				out = appendStr(out, b)
			}
			continue
		}
		out = appendStr(out, a)
	}
	if len(out) == 0 {
		return tEmpty
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("concat", "", types.Typ[types.String], out...)
}

func appendStr(out []*Term, a *Term) []*Term {
	if s, ok := a.strVal(); ok && len(out) > 0 {
		if p, ok := out[len(out)-1].strVal(); ok {
			out[len(out)-1] = tStr(p + s)
			return out
		}
	}
	return append(out, a)
}

// ---- maps ----

// mkMap is a map content: base plus operations.
func mkMap(base *Term, ops ...*Term) *Term {
	var out []*Term
	if base.Op == "map" {
		out = append(out, base.Args[1:]...)
		base = base.Args[0]
	}
	for _, o := range ops {
		if o.Op == "each" {
			if ixEmpty(o.Args[0]) || len(o.Args) == 1 {
				continue
			}
			none := true
			for _, c := range o.Args[1:] {
				if len(c.Args) > 1 {
					none = false
				}
			}
			if none {
				continue
			}
		}
		if o.Op == "set" || o.Op == "del" {
			// overwritten
			for j := len(out) - 1; j >= 0 && (out[j].Op == "set" || out[j].Op == "del"); j-- {
				if out[j].Args[0] == o.Args[0] {
					out = append(out[:j:j], out[j+1:]...)
				} else if !distinctConst(out[j].Args[0], o.Args[0]) {
					break
				}
			}
			if o.Op == "del" && len(out) == 0 && (base.Op == "mapempty" || base.Op == "nil") {
				continue
			}
		}
		out = append(out, o)
		// updates of distinct constant keys are kept in a fixed order
		if o.Op == "set" || o.Op == "del" {
			for j := len(out) - 1; j > 0 && (out[j-1].Op == "set" || out[j-1].Op == "del"); j-- {
				a, b := out[j-1].Args[0], out[j].Args[0]
				if !distinctConst(a, b) || a.id < b.id {
					break
				}
				out[j-1], out[j] = out[j], out[j-1]
			}
		}
	}
	if len(out) == 0 {
		return base
	}
	// a map with some of its own entries removed is built from the others
	if len(out) == 1 && out[0].Op == "each" && base.Typ != nil && isMapT(base.Typ) && !isNestedMap(base.Typ) {
		if j, N, cs, ok := pointwise(out[0]); ok && N == base {
			var g []*Term
			var key *Term
			for _, c := range cs {
				if c.Args[1].Op != "del" {
					key = nil
					break
				}
				key = c.Args[1].Args[0]
				g = append(g, mkNot(c.Args[0]))
			}
			if key != nil {
				elem := base.Typ.Underlying().(*types.Map).Elem()
				return mkMap(mk("mapempty", "", base.Typ), mkEach(j, []*Term{mk("case", "", nil, mkAnd(g...), mk("set", "", nil, key, mkLookup(base, key, elem)))}))
			}
		}
	}
	// a copy of a map: each(ix over mapdom(M): set(key, lookup(M,key))) on empty is M
	if base.Op == "mapempty" && len(out) == 1 && out[0].Op == "each" && len(out[0].Args) == 2 {
		e := out[0]
		ix := e.Args[0]
		c := e.Args[1]
		if c.Args[0] == tTrue && len(c.Args) == 2 && c.Args[1].Op == "set" && ix.Args[0].Op == "mapdom" {
			M := ix.Args[0].Args[0]
			k, v := c.Args[1].Args[0], c.Args[1].Args[1]
			if k.Op == "key" && k.Args[0] == ix && v == mkLookup(M, k, v.Typ) && M.Op != "map" {
				return M
			}
		}
	}
	return mk("map", "", base.Typ, append([]*Term{base}, out...)...)
}

// onlySets: a map built from nothing by a few updates.
func onlySets(m *Term) bool {
	if m.Args[0].Op != "mapempty" || len(m.Args) > 5 {
		return false
	}
	for _, o := range m.Args[1:] {
		if o.Op != "set" {
			return false
		}
	}
	return true
}

func mkIn(m, k *Term) *Term {
	switch m.Op {
	case "nil", "mapempty":
		return tFalse
	case "map":
		last := m.Args[len(m.Args)-1]
		rest := m.Args[0]
		if len(m.Args) > 2 {
			rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
		}
		switch last.Op {
		case "set":
			e := mkEq(last.Args[0], k)
			if e == tTrue {
				return tTrue
			}
			if e == tFalse {
				return mkIn(rest, k)
			}
			return mkOr(e, mkIn(rest, k))
		case "del":
			e := mkEq(last.Args[0], k)
			if e == tTrue {
				return tFalse
			}
			if e == tFalse {
				return mkIn(rest, k)
			}
		case "each":
			if set, del := atKey(last, k); set != nil {
				return mkOr(set, mkAnd(mkIn(rest, k), mkNot(del)))
			}
			if gs, ok := eachSets(last, k); ok {
				return mkOr(mkExists(last.Args[0], gs), mkIn(rest, k))
			}
		}
	case "pre":
		if r := preAt(m, k); r != nil {
			return mkIn(r, k)
		}
	}
	if d := keyDomain(k); d != nil && d.Args[0] == m {
		return tTrue
	}
	return mk("in", "", types.Typ[types.Bool], m, k)
}

func mkLookup(m, k *Term, typ types.Type) *Term {
	switch m.Op {
	case "nil", "mapempty":
		return zeroOf(typ)
	case "map":
		last := m.Args[len(m.Args)-1]
		rest := m.Args[0]
		if len(m.Args) > 2 {
			rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
		}
		switch last.Op {
		case "set":
			e := mkEq(last.Args[0], k)
			if e == tTrue {
				return last.Args[1]
			}
			if e == tFalse {
				return mkLookup(rest, k, typ)
			}
		case "del":
			e := mkEq(last.Args[0], k)
			if e == tTrue {
				return zeroOf(typ)
			}
			if e == tFalse {
				return mkLookup(rest, k, typ)
			}
		case "each":
			if set, del := atKey(last, k); set == tFalse && del == tFalse {
				return mkLookup(rest, k, typ)
			} else if del == tTrue {
				return zeroOf(typ)
			} else if set == tTrue {
				if v := valueAt(newFacts(), last, k); v != nil {
					return v
				}
			}
		}
	case "pre":
		if r := preAt(m, k); r != nil {
			return mkLookup(r, k, typ)
		}
	}
	if m.Op == "map" && typ == types.Typ[types.Bool] && allTrue(m) {
		return mkIn(m, k)
	}
	if m.Op == "mc" && trueSet != nil && typ == types.Typ[types.Bool] && trueSet(m.Args[0]) {
		// every value of the map is true
		return mkIn(m, k)
	}
	return mk("lookup", "", typ, m, k)
}

// mkGet is the value of a key, or zero.
func mkGet(m, k *Term, typ types.Type) *Term {
	switch m.Op {
	case "nil", "mapempty":
		return zeroOf(typ)
	case "map":
		last := m.Args[len(m.Args)-1]
		rest := m.Args[0]
		if len(m.Args) > 2 {
			rest = mk("map", "", m.Typ, m.Args[:len(m.Args)-1]...)
		}
		if last.Op == "set" || last.Op == "del" {
			switch mkEq(last.Args[0], k) {
			case tTrue:
				if last.Op == "set" {
					return last.Args[1]
				}
				return zeroOf(typ)
			case tFalse:
				return mkGet(rest, k, typ)
			}
		}
	}
	switch mkIn(m, k) {
	case tTrue:
		return mkLookup(m, k, typ)
	case tFalse:
		return zeroOf(typ)
	}
	return mk("get", "", typ, m, k)
}

// trueSet recognises maps of maps that only hold the value true (an invariant that C03 checks).
var trueSet func(*Term) bool

// ---- types ----

var isTypes = map[string]types.Type{}

func typOfIsType(s string) types.Type { return isTypes[s] }

func mkIsType(x *Term, T types.Type, str string) *Term {
	if str == "" {
		str = typeStr(T)
	}
	isTypes[str] = T
	switch x.Op {
	case "nil":
		return tFalse
	case "iface":
		if types.IsInterface(T) {
			return tBool(types.Implements(x.Typ, T.Underlying().(*types.Interface)))
		}
		return tBool(typeStr(x.Typ) == str)
	case "err":
		if types.IsInterface(T) {
			return tTrue
		}
	}
	if T != nil && types.IsInterface(T) && x.Typ != nil && types.IsInterface(x.Typ) && types.Implements(x.Typ, T.Underlying().(*types.Interface)) {
		return mkNot(mkEq(x, tNil))
	}
	return mk("istype", str, types.Typ[types.Bool], x)
}

func mkAssert(x *Term, T types.Type, str string) *Term {
	if x.Op == "iface" && !types.IsInterface(T) {
		return x.Args[0]
	}
	if x.Op == "nil" {
		return zeroOf(T)
	}
	if types.IsInterface(T) {
		return x
	}
	return mk("assert", str, T, x)
}

func mkIface(x *Term, T types.Type) *Term {
	if types.IsInterface(T) {
		return x
	}
	return mk("iface", typeStr(T), T, x)
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intBits(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func mkConv(T types.Type, str string, x *Term) *Term {
	tb := basicOf(T)
	xb := basicOf(x.Typ)
	if tb != nil && tb.Info()&types.IsInteger != 0 {
		if x.Op == "rand" {
			return x
		}
		if n, ok := x.intVal(); ok {
			bits, uns := intBits(tb)
			if bits == 64 && !uns || n >= 0 && (bits >= 64 || n < (1<<uint(bits-boolInt(!uns)))) {
				return x
			}
		}
		if x.Op == "len" || x.Op == "ix" {
			return x
		}
		if xb != nil && xb.Info()&types.IsInteger != 0 {
			fb, fu := intBits(xb)
			b, u := intBits(tb)
			if fb == b && fu == u || fu && !u && b > fb || fu == u && b >= fb {
				return x
			}
		}
	}
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		if x.Op == "c" {
			return x
		}
		if xb != nil && xb.Info()&types.IsFloat != 0 && tb.Kind() == types.Float64 {
			return x
		}
		if x.Op == "conv" && xb != nil && xb.Info()&types.IsInteger != 0 {
			// float(int(x)) where int(x) was value preserving is already dropped
		}
		return mk("conv", "float", T, x)
	}
	if tb != nil && tb.Info()&types.IsString != 0 && xb != nil && xb.Info()&types.IsString != 0 {
		return x
	}
	if tb != nil && tb.Info()&types.IsString != 0 && x.Op == "conv" && x.Str == "[]byte" {
		return x.Args[0]
	}
	if str == "" {
		str = typeStr(T)
	}
	return mk("conv", str, T, x)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- substitution ----

func occurs(x, in *Term) bool {
	if x == in {
		return true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if len(t.Args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(in)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if isBinder(t.Op) {
			if _, ok := m[t.Args[0]]; ok {
				// the own index is bound
				m2 := map[*Term]*Term{}
				for k, v := range m {
					if k != t.Args[0] {
						m2[k] = v
					}
				}
				r := subst(t, m2)
				memo[t] = r
				return r
			}
		}
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = build(t.Op, t.Str, t.Typ, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// isBinder: the first argument is an index bound in the other arguments.
func isBinder(op string) bool {
	switch op {
	case "each", "exists", "fold", "sum", "loopev", "seach":
		return true
	}
	return false
}

// ---- printing ----

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 14 {
		return "…"
	}
	args := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, a.show(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "c":
		if s, ok := t.strVal(); ok {
			return strconv.Quote(s)
		}
		return t.Str[2:]
	case "nil":
		return "nil"
	case "sym", "glob", "func":
		return t.Str
	case "obj":
		return "obj" + t.Str
	case "sel":
		return t.Args[0].show(d+1) + "." + t.Str
	case "fa":
		return "&" + t.Args[0].show(d+1) + "." + t.Str
	case "index":
		return t.Args[0].show(d+1) + "[" + t.Args[1].show(d+1) + "]"
	case "ix":
		return "i" + strconv.Itoa(t.id)
	case "first":
		return "first#" + strconv.Itoa(t.Args[0].id)
	case "exists", "each", "fold", "sum", "loopev", "seach":
		dom := ""
		if len(t.Args[0].Args) > 0 {
			dom = t.Args[0].Args[0].show(d + 1)
		}
		n := t.Op
		if n == "exists" {
			n += "#" + strconv.Itoa(t.id)
		}
		return n + "(" + t.Args[0].show(d+1) + " in " + dom + ": " + args(t.Args[1:]) + ")"
	case "not":
		return "!(" + t.Args[0].show(d+1) + ")"
	case "eq":
		return "(" + t.Args[0].show(d+1) + " == " + t.Args[1].show(d+1) + ")"
	case "gt0":
		return "(" + t.Args[0].show(d+1) + " > 0)"
	case "and":
		return "(" + strings.ReplaceAll(args(t.Args), ", ", " && ") + ")"
	case "lin":
		c, cs := parseLinStr(t.Str)
		var s []string
		for i, a := range t.Args {
			if cs[i] == 1 {
				s = append(s, a.show(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", cs[i], a.show(d+1)))
			}
		}
		if c != 0 {
			s = append(s, strconv.FormatInt(c, 10))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "istype":
		return t.Args[0].show(d+1) + " is " + shortT(t.Str)
	case "assert":
		return t.Args[0].show(d+1) + ".(" + shortT(t.Str) + ")"
	case "new", "struct":
		var s []string
		st := structOf(derefT(t.Typ))
		for i, a := range t.Args {
			if st != nil && a == zeroOf(st.Field(i).Type()) {
				continue
			}
			n := strconv.Itoa(i)
			if st != nil {
				n = st.Field(i).Name()
			}
			s = append(s, n+": "+a.show(d+1))
		}
		p := ""
		if t.Op == "new" {
			p = "&"
		}
		return p + shortT(t.Str) + "{" + strings.Join(s, ", ") + "}"
	case "iface":
		return "<" + t.Args[0].show(d+1) + ">"
	case "case":
		return "{" + t.Args[0].show(d+1) + " => " + args(t.Args[1:]) + "}"
	case "zero":
		return shortT(t.Str) + "{}"
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + shortT(t.Str)
	}
	return s + "(" + args(t.Args) + ")"
}

func shortT(s string) string {
	i := strings.LastIndexByte(s, '/')
	if i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "*") {
			pre = "*"
		}
		return pre + s[i+1:]
	}
	return s
}

var gvalNonNilFn func(t *Term) bool

func gvalNonNil(t *Term) bool { return gvalNonNilFn != nil && gvalNonNilFn(t) }
