package main

import (
	"go/types"
	"strings"
)

// A literal that was evaluated without a panic implies that the pointers it reads through are not nil.
// (The getters of protobuf messages accept nil; their fields then read as zero values.)

var derefMemo = [2]map[*Term]map[*Term]bool{{}, {}}

func isProtoPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	path := n.Obj().Pkg().Path()
	return isGeneratedPath(path) || !strings.HasPrefix(path, modPath)
}

// reads lists the pointers a term reads through.
var readsMemo = map[*Term]map[*Term]bool{}

func reads(t *Term) map[*Term]bool {
	if len(t.Args) == 0 {
		return nil
	}
	if r, ok := readsMemo[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	switch t.Op {
	case "sel":
		x := t.Args[0]
		if x.Typ != nil && !isProtoPtr(x.Typ) {
			if _, ok := x.Typ.Underlying().(*types.Pointer); ok && x.Op != "obj" {
				r[x] = true
			}
		}
		for k := range reads(x) {
			r[k] = true
		}
	case "index", "len", "lookup", "eq", "gt0", "lin", "istype", "assert", "in", "op", "mul", "count", "mapdom", "mapkey":
		for _, a := range t.Args {
			for k := range reads(a) {
				r[k] = true
			}
		}
	}
	readsMemo[t] = r
	return r
}

func isZeroConst(c *Term) bool {
	if c == tNil || c == tFalse {
		return true
	}
	if n, ok := c.intVal(); ok {
		return n == 0
	}
	if s, ok := c.strVal(); ok {
		return s == ""
	}
	return false
}

// derefs lists the pointers that are not nil when l has been evaluated with the outcome pos.
func derefs(l *Term, pos bool) map[*Term]bool {
	k := 0
	if pos {
		k = 1
	}
	if r, ok := derefMemo[k][l]; ok {
		return r
	}
	r := map[*Term]bool{}
	switch l.Op {
	case "not":
		r = derefs(l.Args[0], !pos)
	case "and":
		for i, a := range l.Args {
			d := derefs(a, pos)
			if pos || i == 0 {
				for x := range d {
					r[x] = true
				}
			} else {
				for x := range r {
					if !d[x] {
						delete(r, x)
					}
				}
			}
		}
	case "exists":
		if ix := l.Args[0]; ix.Op == "ix" {
			for _, a := range ix.Args {
				for x := range reads(a) {
					r[x] = true
				}
			}
		}
	default:
		for x := range reads(l) {
			r[x] = true
		}
		// a field of a protobuf message that is set
		if l.Op == "eq" && l.Args[1].isConst() && isZeroConst(l.Args[1]) != pos || l.Op == "istype" && pos {
			for x := l.Args[0]; ; x = x.Args[0] {
				for x.Op == "assert" || x.Op == "len" {
					x = x.Args[0]
				}
				if x.Op != "sel" {
					break
				}
				if isProtoPtr(x.Args[0].Typ) {
					r[x.Args[0]] = true
				}
			}
		}
	}
	derefMemo[k][l] = r
	return r
}
