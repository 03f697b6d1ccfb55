package main

import (
	"go/types"
	"strings"
)

// Strings cut at separators. All of strings.Split, SplitN, Cut, Contains, Count, Index, LastIndex and HasSuffix are
// expressed by nseps(x, sep), the number of separators, and split(x, sep)[i], the parts.

func hasLetter(s string) bool {
	return strings.ToLower(s) != s || strings.ToUpper(s) != s
}

func mkLowerCall(x *Term) *Term {
	return mkCall("strings.ToLower", types.Typ[types.String], []*Term{x})
}

// mkSeps is the number of non-overlapping occurrences of sep in x.
func mkSeps(x, sep *Term) *Term {
	it := types.Typ[types.Int]
	s, ok := sep.strVal()
	if !ok || s == "" {
		return mkCall("strings.Count", it, []*Term{x, sep})
	}
	if a, ok := x.strVal(); ok {
		return tInt(int64(strings.Count(a, s)))
	}
	if x.Op == "call" && x.Str == "strings.ToLower" && !hasLetter(s) {
		return mkSeps(x.Args[0], sep)
	}
	if x.Op == "concat" && len(s) == 1 {
		var c int64
		m := map[*Term]int64{}
		for _, p := range x.Args {
			k, mm := toLin(mkSeps(p, sep))
			c += k
			for t, v := range mm {
				m[t] += v
			}
		}
		return fromLin(c, m, it)
	}
	// a part has no separator
	if x.Op == "index" && x.Args[0].Op == "call" && x.Args[0].Str == "strings.Split" && x.Args[0].Args[1] == sep {
		return tZero
	}
	// what follows the first separator, on a path where there is one
	if x.Op == "call" && x.Str == "cutAfter" && x.Args[1] == sep {
		c, m := toLin(mkSeps(x.Args[0], sep))
		return fromLin(c-1, m, it)
	}
	return mk("call", "nseps", it, x, sep)
}

func mkContains(x, y *Term) *Term {
	if s, ok := y.strVal(); ok && s != "" {
		if x.Op == "concat" {
			for _, p := range x.Args {
				if a, ok := p.strVal(); ok && strings.Contains(a, s) {
					return tTrue
				}
			}
		}
		return mkNot(mkEq(mkSeps(x, y), tZero))
	}
	return mkCall("strings.Contains", types.Typ[types.Bool], []*Term{x, y})
}

func mkSplit(x, sep *Term, typ types.Type) *Term {
	if a, ok := x.strVal(); ok {
		if b, ok := sep.strVal(); ok {
			var parts []*Term
			for _, p := range strings.Split(a, b) {
				parts = append(parts, mk("one", "", nil, tStr(p)))
			}
			return mkSeq(typ, parts...)
		}
	}
	return mk("call", "strings.Split", typ, x, sep)
}

// splitLen is the number of parts.
func splitLen(x *Term) *Term {
	if x.Op != "call" || x.Str != "strings.Split" {
		return nil
	}
	if s, ok := x.Args[1].strVal(); !ok || s == "" {
		return nil
	}
	c, m := toLin(mkSeps(x.Args[0], x.Args[1]))
	return fromLin(c+1, m, types.Typ[types.Int])
}

func strSlice() types.Type { return types.NewSlice(types.Typ[types.String]) }

func mkPart(x, sep, i *Term) *Term {
	return mkIndex(mkSplit(x, sep, strSlice()), i, types.Typ[types.String])
}

// mkCutAfter is what follows the first separator, if there is one.
func mkCutAfter(x, sep *Term) *Term {
	return mkCall("cutAfter", types.Typ[types.String], []*Term{x, sep})
}

// mkSuffix: the suffix starts with a separator and contains no other one.
func mkSuffix(x, y *Term) *Term {
	s, ok := y.strVal()
	if _, isC := x.strVal(); ok && !isC && len(s) > 1 && !hasLetter(s[:1]) && strings.Count(s, s[:1]) == 1 {
		sep := tStr(s[:1])
		n := mkSeps(x, sep)
		return mkAnd(mkNot(mkEq(n, tZero)), mkEq(mkPart(x, sep, n), tStr(s[1:])))
	}
	return mkCall("strings.HasSuffix", types.Typ[types.Bool], []*Term{x, y})
}

// strIndex models strings.Index and LastIndex: -1 where there is no separator.
func strIndex(ex *Exec, st *State, c *Call, fn string, x, sep *Term) []Outcome {
	yes, no := ex.forkState(st, mkContains(x, sep))
	var outs []Outcome
	if yes != nil {
		outs = append(outs, ret(yes, mkCall(fn, types.Typ[types.Int], []*Term{x, sep}))...)
	}
	if no != nil {
		outs = append(outs, ret(no, tInt(-1))...)
	}
	return outs
}

// cutSlice recognises x[:i] and x[i+1:] for the index i of a separator in x.
func cutSlice(x, lo, hi *Term) *Term {
	if n, ok := lo.intVal(); ok && n > 0 && hi == nil && x.Op == "concat" {
		// a constant prefix
		if s, ok := x.Args[0].strVal(); ok && int64(len(s)) >= n {
			return mkConcat(append([]*Term{tStr(s[n:])}, x.Args[1:]...)...)
		}
	}
	if hi != nil && lo == tZero && hi.Op == "call" && len(hi.Args) == 2 && hi.Args[0] == x {
		switch hi.Str {
		case "strings.Index":
			return mkPart(x, hi.Args[1], tZero)
		case "strings.LastIndex":
			return mkCall("cutBeforeLast", types.Typ[types.String], []*Term{x, hi.Args[1]})
		}
	}
	if hi == nil || hi == mkLen(x) {
		c, m := toLin(lo)
		if len(m) == 1 {
			for t, k := range m {
				if k != 1 || t.Op != "call" || len(t.Args) != 2 || t.Args[0] != x {
					continue
				}
				if s, ok := t.Args[1].strVal(); ok && int64(len(s)) == c {
					switch t.Str {
					case "strings.Index":
						return mkCutAfter(x, t.Args[1])
					case "strings.LastIndex":
						return mkPart(x, t.Args[1], mkSeps(x, t.Args[1]))
					}
				}
			}
		}
	}
	return nil
}

// simpCut: with one separator only, what follows the first one is the second part.
func (f *Facts) simpCut(r *Term) *Term {
	if r.Op == "index" && r.Args[0].Op == "call" && r.Args[0].Str == "strings.Split" && r.Args[1] == tZero {
		// the only part of a string without separators
		x, sep := r.Args[0].Args[0], r.Args[0].Args[1]
		if f.evalBool(f.simp(mkEq(mkSeps(x, sep), tZero))) == tTrue {
			return x
		}
	}
	if r.Op != "call" || r.Str != "cutAfter" && r.Str != "cutBeforeLast" {
		return r
	}
	n := mkSeps(r.Args[0], r.Args[1])
	if f.evalBool(mkEq(n, tInt(1))) == tTrue {
		if r.Str == "cutAfter" {
			return mkPart(r.Args[0], r.Args[1], tInt(1))
		}
		return mkPart(r.Args[0], r.Args[1], tZero)
	}
	return r
}

// splitN models strings.SplitN for a positive constant.
func splitN(ex *Exec, st *State, x, sep *Term, n int64, typ types.Type) []Outcome {
	seps := mkSeps(x, sep)
	few, many := ex.forkState(st, mkLt(seps, tInt(n)))
	var outs []Outcome
	if few != nil {
		outs = append(outs, ret(few, mkSplit(x, sep, typ))...)
	}
	if many != nil {
		var parts []*Term
		for i := int64(0); i < n-1; i++ {
			parts = append(parts, mk("one", "", nil, mkPart(x, sep, tInt(i))))
		}
		var rest *Term
		switch n {
		case 1:
			rest = x
		case 2:
			rest = mkCutAfter(x, sep)
		default:
			rest = mkCall("cutRest", types.Typ[types.String], []*Term{x, sep, tInt(n)})
		}
		outs = append(outs, ret(many, mkSeq(typ, append(parts, mk("one", "", nil, rest))...))...)
	}
	return outs
}
