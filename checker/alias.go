package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The value terms have no backing arrays: a slice is what it contains. That is right unless an array is written while
// another slice still shows it. There are two ways to do that with append: to append to a shortened slice of an
// array that is kept (x = append(x[:0], …), a reused buffer), and to append to a slice of somebody else that may
// have room left. aliasRules finds both where the result leaves the place the array belongs to.

type aliasScan struct {
	p    *Program
	fns  []*ssa.Function
	in   map[ssa.Value]string // reused buffers, and the place they are kept in
	buf  map[string]string    // fields that keep a reused buffer
	work []ssa.Value
	ext  map[ssa.Value]bool // written through append
	call map[*ssa.Function][]ssa.CallInstruction
	hits map[token.Pos]aliasHit
	n    int
}

type aliasHit struct {
	fn  *ssa.Function
	why string
}

func sliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// keptIn is the place a slice is loaded from, if that is not a local one.
func keptIn(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if k := keptIn(e, seen); k != "" {
				return k
			}
		}
	case *ssa.Slice:
		return keptIn(v.X, seen)
	case *ssa.ChangeType:
		return keptIn(v.X, seen)
	case *ssa.Call:
		if appendCall(v) {
			return keptIn(v.Call.Args[0], seen)
		}
	case *ssa.Lookup:
		return placeOf(v.X)
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			return placeOf(l.X)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						if k := keptIn(s.Val, seen); k != "" {
							return k
						}
					}
				}
				return ""
			}
			return placeOf(v.X)
		}
	}
	return ""
}

// placeOf names the field or variable an address or a map belongs to.
func placeOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if a, ok := v.X.(*ssa.Alloc); ok && !a.Heap {
			return ""
		}
		t := derefT(v.X.Type())
		if s, ok := t.Underlying().(*types.Struct); ok {
			return typeStr(t) + "." + s.Field(v.Field).Name()
		}
	case *ssa.Global:
		return v.String()
	case *ssa.IndexAddr:
		return placeOf(v.X)
	case *ssa.UnOp:
		return placeOf(v.X)
	case *ssa.Lookup:
		return placeOf(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e, ok := e.(*ssa.UnOp); ok {
				if k := placeOf(e); k != "" {
					return k
				}
			}
		}
	}
	return ""
}

func appendCall(v *ssa.Call) bool {
	b, ok := v.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append" && len(v.Call.Args) > 0
}

func (p *Program) aliasScan() *aliasScan {
	s := &aliasScan{p: p, in: map[ssa.Value]string{}, buf: map[string]string{}, ext: map[ssa.Value]bool{}, call: map[*ssa.Function][]ssa.CallInstruction{}, hits: map[token.Pos]aliasHit{}}
	for _, f := range p.everyFunc() {
		if p.isRef(f) {
			continue
		}
		s.fns = append(s.fns, f)
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.targets(ci) {
						s.call[g] = append(s.call[g], ci)
					}
				}
			}
		}
	}
	// buffers
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				sl, ok := in.(*ssa.Slice)
				if !ok || sl.High == nil || sl.Max != nil || !sliceT(sl.X.Type()) {
					continue
				}
				if k := keptIn(sl.X, map[ssa.Value]bool{}); k != "" {
					s.n++
					s.mark(sl, k)
				}
			}
		}
	}
	s.run()
	// appends to what may have room
	spare := s.spare()
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !appendCall(c) {
					continue
				}
				s.n++
				k := keptIn(c.Call.Args[0], map[ssa.Value]bool{})
				if k == "" || !spare[k] || s.storedIn(c, k) {
					continue
				}
				s.hit(c.Pos(), f, "appends to "+k+", which may have room left, and does not store the result there")
			}
		}
	}
	return s
}

// storedIn: what append returns is (also) stored where the slice came from.
func (s *aliasScan) storedIn(c *ssa.Call, k string) bool {
	seen := map[ssa.Value]bool{}
	var up func(v ssa.Value) bool
	up = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				if placeOf(r.Addr) == k {
					return true
				}
				if a, ok := r.Addr.(*ssa.Alloc); ok {
					for _, l := range *a.Referrers() {
						if u, ok := l.(*ssa.UnOp); ok && up(u) {
							return true
						}
					}
				}
			case *ssa.MapUpdate:
				if r.Value == v && placeOf(r.Map) == k {
					return true
				}
			case *ssa.Phi:
				if up(r) {
					return true
				}
			case *ssa.Call:
				if appendCall(r) && r.Call.Args[0] == v && up(r) {
					return true
				}
			}
		}
		return false
	}
	return up(c)
}

func (s *aliasScan) hit(pos token.Pos, f *ssa.Function, why string) {
	if _, ok := s.hits[pos]; !ok {
		s.hits[pos] = aliasHit{f, why}
	}
}

func (s *aliasScan) mark(v ssa.Value, k string) {
	if _, ok := s.in[v]; ok {
		return
	}
	s.in[v] = k
	s.work = append(s.work, v)
}

func (s *aliasScan) run() {
	for len(s.work) > 0 {
		v := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		s.follow(v, s.in[v])
	}
	// who shows a buffer that is written
	written := map[string]bool{}
	for v := range s.ext {
		written[s.in[v]] = true
	}
	for v, k := range s.in {
		if !written[k] || v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				if _, ok := r.Addr.(*ssa.Alloc); ok {
					continue
				}
				if to := placeOf(r.Addr); to != k {
					if fa, ok := r.Addr.(*ssa.FieldAddr); ok {
						if a, ok := fa.X.(*ssa.Alloc); ok && !a.Heap {
							continue
						}
					}
					if ia, ok := r.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.(*ssa.Alloc); ok {
							continue // the arguments of a call
						}
					}
					s.hit(r.Pos(), r.Parent(), "keeps a slice of the array that "+k+" is written to again")
				}
			case *ssa.Send:
				if r.X == v {
					s.hit(r.Pos(), r.Parent(), "sends a slice of the array that "+k+" is written to again")
				}
			case *ssa.MapUpdate:
				if r.Value == v && placeOf(r.Map) != k {
					s.hit(r.Pos(), r.Parent(), "keeps a slice of the array that "+k+" is written to again")
				}
			case *ssa.Return:
				f := r.Parent()
				if o, ok := f.Object().(*types.Func); ok && o.Exported() {
					s.hit(r.Pos(), f, "returns a slice of the array that "+k+" is written to again")
				}
			}
		}
	}
}

func (s *aliasScan) follow(v ssa.Value, k string) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Phi:
			s.mark(r, k)
		case *ssa.Slice:
			if r.X == v {
				s.mark(r, k)
			}
		case *ssa.ChangeType:
			s.mark(r, k)
		case *ssa.IndexAddr:
			if r.X == v && r.Referrers() != nil {
				for _, u := range *r.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == r {
						s.ext[v] = true
					}
				}
			}
		case *ssa.Call:
			if appendCall(r) {
				if r.Call.Args[0] == v {
					s.ext[v] = true
					s.mark(r, k)
				}
				continue
			}
			s.args(r, v, k)
		case *ssa.Go:
			s.args(r, v, k)
		case *ssa.Defer:
			s.args(r, v, k)
		case *ssa.Store:
			if r.Val != v {
				continue
			}
			if a, ok := r.Addr.(*ssa.Alloc); ok {
				s.cell(a, k)
			} else if fv, ok := r.Addr.(*ssa.FreeVar); ok {
				s.cell(fv, k)
			} else if placeOf(r.Addr) == k {
				s.field(k)
			}
		case *ssa.Return:
			for i, x := range r.Results {
				if x == v {
					s.result(r.Parent(), i, k)
				}
			}
		}
	}
}

func (s *aliasScan) args(ci ssa.CallInstruction, v ssa.Value, k string) {
	for _, g := range s.p.targets(ci) {
		for i, a := range ci.Common().Args {
			if a == v && i < len(g.Params) && len(g.Blocks) > 0 {
				s.mark(g.Params[i], k)
			}
		}
	}
}

func (s *aliasScan) result(f *ssa.Function, i int, k string) {
	for _, ci := range s.call[f] {
		c, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		if f.Signature.Results().Len() == 1 {
			s.mark(c, k)
			continue
		}
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				s.mark(e, k)
			}
		}
	}
}

// cell: a variable that is captured.
func (s *aliasScan) cell(a ssa.Value, k string) {
	if _, ok := s.in[a]; ok || a.Referrers() == nil {
		return
	}
	s.in[a] = k
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op == token.MUL {
				s.mark(r, k)
			}
		case *ssa.MakeClosure:
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a {
					s.cell(g.FreeVars[i], k)
				}
			}
		}
	}
}

// field: everything loaded from the place of a buffer shows its array.
func (s *aliasScan) field(k string) {
	if s.buf[k] != "" {
		return
	}
	s.buf[k] = k
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && sliceT(u.Type()) && placeOf(u.X) == k {
					s.mark(u, k)
				}
			}
		}
	}
}

// spare: the places that hold slices whose arrays may be longer.
func (s *aliasScan) spare() map[string]bool {
	out := map[string]bool{}
	var long func(v ssa.Value, seen map[ssa.Value]bool) bool
	long = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				if long(e, seen) {
					return true
				}
			}
		case *ssa.ChangeType:
			return long(v.X, seen)
		case *ssa.MakeSlice:
			return v.Cap != v.Len
		case *ssa.Slice:
			if _, ok := derefT(v.X.Type()).Underlying().(*types.Array); ok {
				return v.High != nil && v.Max == nil
			}
			return v.High != nil && v.Max == nil || long(v.X, seen)
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && long(st.Val, seen) {
						return true
					}
				}
			}
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				return s.longResult(c, v.Index, seen, long)
			}
		case *ssa.Call:
			if appendCall(v) {
				return true
			}
			return s.longResult(v, 0, seen, long)
		}
		return false
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if sliceT(in.Val.Type()) {
						if k := placeOf(in.Addr); k != "" && long(in.Val, map[ssa.Value]bool{}) {
							out[k] = true
						}
					}
				case *ssa.MapUpdate:
					if sliceT(in.Value.Type()) {
						if k := placeOf(in.Map); k != "" && long(in.Value, map[ssa.Value]bool{}) {
							out[k] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (s *aliasScan) longResult(c *ssa.Call, i int, seen map[ssa.Value]bool, long func(ssa.Value, map[ssa.Value]bool) bool) bool {
	for _, g := range s.p.targets(c) {
		for _, b := range g.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && long(r.Results[i], seen) {
				return true
			}
		}
	}
	return false
}

// aliasRules reports them for the functions reachable from the given ones.
func (c *Ctx) aliasRules(roots ...string) {
	c.guard("aliases", "alias", func() (bool, string) {
		in := map[*ssa.Function]bool{}
		var queue []*ssa.Function
		for f := range c.fns(roots...) {
			in[f] = true
			queue = append(queue, f)
		}
		for len(queue) > 0 {
			f := queue[0]
			queue = queue[1:]
			add := func(g *ssa.Function) {
				if !in[g] && len(g.Blocks) > 0 {
					in[g] = true
					queue = append(queue, g)
				}
			}
			for _, a := range f.AnonFuncs {
				add(a)
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							add(g)
						}
					}
					if ci, ok := i.(ssa.CallInstruction); ok {
						for _, g := range c.p.targets(ci) {
							add(g)
						}
					}
				}
			}
		}
		s := c.p.aliasScan()
		var ps []token.Pos
		for p, h := range s.hits {
			if in[h.fn] {
				ps = append(ps, p)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		for _, p := range ps {
			h := s.hits[p]
			c.viol("alias:"+h.fn.Name(), c.p.pos(p), fmt.Sprintf("%s %s", h.fn, h.why))
		}
		return len(ps) == 0, fmt.Sprintf("%d functions, %d appends and shortened slices", len(in), s.n)
	})
}

func aliasIn(roots ...string) func(*Ctx) { return func(c *Ctx) { c.aliasRules(roots...) } }
