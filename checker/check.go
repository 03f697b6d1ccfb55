package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prop is a property and the way it is decided.
type Prop struct {
	ID     string
	Refs   []string // directories below refs/ with the reference definitions (default: the id)
	Rule   string
	Setup  func(ex *Exec, c *Ctx)
	Pair   func(ex *Exec, c *Ctx, name string)
	Opts   func(q *Equiv, c *Ctx, name string)
	Extra  []func(c *Ctx)
	Assume []string
}

type Viol struct {
	Key    string // stable identification of the construct
	Where  string
	Detail []string
}

type Obl struct {
	Name   string
	Kind   string
	OK     bool
	Paths  int
	Pairs  int
	Loops  int
	Note   string
	Funcs  []string
	Millis int64
}

// Ctx is one run of a check.
type Ctx struct {
	p     *Program
	prop  *Prop
	tier  string
	obls  []Obl
	viols []Viol
	funcs map[string]bool
	loops int
	paths int
	pairs int
	comps int
	axiom func(*Term) bool
}

func (c *Ctx) viol(key, where string, detail ...string) {
	c.viols = append(c.viols, Viol{key, where, detail})
}

// guard runs an obligation; what the analysis cannot decide is reported.
func (c *Ctx) guard(name, kind string, f func() (bool, string)) {
	t0 := time.Now()
	n := len(c.viols)
	p0, q0, l0 := c.paths, c.pairs, c.loops
	o := Obl{Name: name, Kind: kind}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					o.Note = "undecided: " + u.msg
				} else {
					if os.Getenv("XV_PANIC") != "" {
						panic(r)
					}
					o.Note = fmt.Sprint("undecided: internal: ", r)
				}
				c.viol(name+":undecided", name, o.Note)
			}
		}()
		deadline = time.Now().Add(100 * time.Second)
		o.OK, o.Note = f()
	}()
	if len(c.viols) > n {
		o.OK = false
	} else if !o.OK {
		// nothing was found to analyse
		c.viol(name+":undecided", name, "undecided: "+o.Note)
	}
	o.Paths, o.Pairs, o.Loops = c.paths-p0, c.pairs-q0, c.loops-l0
	o.Millis = time.Since(t0).Milliseconds()
	c.obls = append(c.obls, o)
}

func (c *Ctx) newExec() *Exec {
	ex := newExec(c.p)
	defaultModels(ex)
	if c.prop.Setup != nil {
		c.prop.Setup(ex, c)
	}
	return ex
}

func (c *Ctx) account(ex *Exec) {
	for f := range ex.inlined {
		fn := funcTabName(c.p, f)
		if fn != nil && !c.p.isRef(fn) {
			c.funcs[f] = true
		}
	}
	c.loops += ex.nloops
}

var fnByName map[string]*ssa.Function

func funcTabName(p *Program, s string) *ssa.Function {
	if fnByName == nil {
		fnByName = map[string]*ssa.Function{}
		for _, f := range p.allFuncs() {
			fnByName[f.String()] = f
		}
	}
	return fnByName[s]
}

// refFuncs lists the functions of the reference overlay with a prefix.
func (c *Ctx) refFuncs(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range c.p.pkgs {
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && c.p.isRef(f) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func symArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for _, pr := range fn.Params {
		n := pr.Name()
		args = append(args, mk("sym", n, pr.Type()))
	}
	return args
}

// start is the initial state of a pair: the precondition holds.
func (c *Ctx) start(ex *Exec, pkg *ssa.Package, name string, args []*Term) *State {
	st := newState()
	st.F.axiom = c.nonNilAxiom()
	pre := pkg.Func("pre_" + name)
	if pre == nil {
		return st
	}
	base := st.F.clone()
	mark := ex.nobj
	var ok []*State
	for _, o := range ex.mergeOutcomes(base, ex.runFunc(pre, args, nil, st), mark) {
		if o.panic != "" {
			continue
		}
		r := o.st.F.simp(o.rets[0])
		if r == tFalse {
			continue
		}
		if o.st.F.add(r) {
			o.st.ev = nil
			o.st.occ = map[string]int{}
			ok = append(ok, o.st)
		}
	}
	if len(ok) != 1 {
		undec("precondition of %s: %d cases", name, len(ok))
	}
	n := newState()
	n.F = ok[0].F
	n.F.axiom = c.nonNilAxiom()
	return n
}

// pairs checks impl_X against ref_X for every X.
func (c *Ctx) allPairs() {
	for _, f := range c.refFuncs("impl_") {
		name := strings.TrimPrefix(f.Name(), "impl_")
		ref := f.Package().Func("ref_" + name)
		if ref == nil {
			c.viol(name, name, "no reference")
			continue
		}
		c.pair(name, f, ref)
	}
	for _, f := range c.refFuncs("safe_") {
		c.safe(strings.TrimPrefix(f.Name(), "safe_"), f)
	}
	for _, f := range c.refFuncs("assert_") {
		c.asserts(strings.TrimPrefix(f.Name(), "assert_"), f)
	}
}

func (c *Ctx) pair(name string, impl, ref *ssa.Function) {
	c.guard(name, "equivalence", func() (bool, string) {
		ex := c.newExec()
		if c.prop.Pair != nil {
			c.prop.Pair(ex, c, name)
		}
		args := symArgs(impl)
		st := c.start(ex, impl.Package(), name, args)
		a := ex.runFunc(impl, args, nil, st.clone())
		c.account(ex)
		b := ex.runFunc(ref, args, nil, st.clone())
		q := newEquiv(ex)
		if c.prop.Opts != nil {
			c.prop.Opts(q, c, name)
		}
		ms := q.compare(a, b)
		c.paths += len(a)
		c.pairs += q.pairs
		c.comps += q.compars
		for _, m := range ms {
			d := []string{"differs from the reference: " + m.What}
			for _, l := range m.Path {
				d = append(d, "  when "+l)
			}
			pos := m.Pos
			if pos == token.NoPos || strings.Contains(c.p.pos(pos), "zz_verif") {
				pos = c.entry(impl)
			}
			c.viol(name, c.p.pos(pos), d...)
		}
		return len(ms) == 0, fmt.Sprintf("%d x %d paths", len(a), len(b))
	})
}

// entry is the first repository function called by a wrapper.
func (c *Ctx) entry(fn *ssa.Function) token.Pos {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && c.p.isRepo(g) && !c.p.isRef(g) {
					return g.Pos()
				}
			}
		}
	}
	return fn.Pos()
}

// safe checks that a function cannot panic.
func (c *Ctx) safe(name string, fn *ssa.Function) {
	c.guard(name, "panic-freedom", func() (bool, string) {
		ex := c.newExec()
		if c.prop.Pair != nil {
			c.prop.Pair(ex, c, name)
		}
		args := symArgs(fn)
		st := c.start(ex, fn.Package(), name, args)
		ex.panics = true
		outs := ex.runFunc(fn, args, nil, st)
		c.account(ex)
		c.paths += len(outs)
		seen := map[string]bool{}
		for _, o := range outs {
			if o.panic == "" || seen[o.panic] {
				continue
			}
			if !o.st.F.consistent(6) {
				continue
			}
			seen[o.panic] = true
			d := []string{"can panic: " + o.panic}
			for _, l := range o.st.F.lits {
				d = append(d, "  when "+short(l))
			}
			c.viol(name, c.p.pos(o.pos), d...)
		}
		return len(seen) == 0, fmt.Sprintf("%d sites", len(ex.obls))
	})
}

// asserts checks that no path reaches the panics of a reference function, which state what it must not see.
func (c *Ctx) asserts(name string, fn *ssa.Function) {
	c.guard(name, "path rule", func() (bool, string) {
		ex := c.newExec()
		if c.prop.Pair != nil {
			c.prop.Pair(ex, c, name)
		}
		args := symArgs(fn)
		outs := ex.runFunc(fn, args, nil, c.start(ex, fn.Package(), name, args))
		c.account(ex)
		c.paths += len(outs)
		seen := map[string]bool{}
		n := 0
		for _, o := range outs {
			if o.panic == "" {
				n++
				continue
			}
			if !strings.Contains(c.p.pos(o.pos), "zz_verif") || seen[o.panic] || !o.st.F.consistent(6) {
				continue
			}
			seen[o.panic] = true
			d := []string{o.panic}
			for _, l := range o.st.F.lits {
				d = append(d, "  when "+short(l))
			}
			c.viol(name, c.p.pos(c.entry(fn)), d...)
		}
		return len(seen) == 0 && n > 0, fmt.Sprintf("%d paths", len(outs))
	})
}

// ---- driver ----

type finding struct{ prop, key, text string }

func knownFindings(verif string) []finding {
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f finding
		rest := strings.TrimPrefix(l, "known: ")
		for _, w := range strings.SplitN(rest, " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "key="):
				f.key = strings.TrimPrefix(w, "key=")
			default:
				f.text = w
			}
		}
		out = append(out, f)
	}
	return out
}

func runCheck(id, root, verif string) int {
	t0 := time.Now()
	prop := props[id]
	if prop == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{prop: prop, tier: tier, funcs: map[string]bool{}}
	dirs := prop.Refs
	if dirs == nil {
		dirs = []string{id}
	}
	var refs []string
	for _, d := range dirs {
		refs = append(refs, filepath.Join(verif, "refs", d))
	}
	p, err := loadProgram(root, refs...)
	if err != nil {
		c.viol("load", "the tree", "the analysis needs the program to type-check together with the reference definitions: "+err.Error())
	} else {
		c.p = p
		c.allPairs()
		for _, f := range prop.Extra {
			f(c)
		}
		if len(c.obls) == 0 {
			c.viol("none", "the check", "no obligation was found")
		}
	}
	// report
	known := knownFindings(verif)
	var open []Viol
	seenKnown := map[string]bool{}
	for _, v := range c.viols {
		hit := false
		for _, k := range known {
			if k.prop == id && k.key == v.Key {
				hit = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, id+".report.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: %s\n", id, prop.Rule)
	for _, o := range c.obls {
		fmt.Fprintf(&b, "%-50s %-16s ok=%v %s (%d paths, %d feasible pairs, %d ms)\n", o.Name, o.Kind, o.OK, o.Note, o.Paths, o.Pairs, o.Millis)
	}
	for _, v := range open {
		fmt.Fprintf(&b, "\nviolation at %s (%s)\n", v.Where, v.Key)
		for _, d := range v.Detail {
			fmt.Fprintf(&b, "  %s\n", d)
		}
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	disch := 0
	var names []string
	for _, o := range c.obls {
		if o.OK {
			disch++
		}
		names = append(names, fmt.Sprintf("%s (%s): %d paths, %d feasible path pairs, %s", o.Name, o.Kind, o.Paths, o.Pairs, o.Note))
	}
	var fs []string
	for f := range c.funcs {
		fs = append(fs, strings.ReplaceAll(f, modPath, ""))
	}
	sort.Strings(fs)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":              prop.Rule,
			"obligations":              len(c.obls),
			"discharged":               disch,
			"obligation_list":          names,
			"functions_analysed":       fs,
			"function_count":           len(fs),
			"paths":                    c.paths,
			"feasible_path_pairs":      c.pairs,
			"value_comparisons":        c.comps,
			"loop_summaries":           c.loops,
			"known_findings_confirmed": len(seenKnown),
		},
		"assumptions": prop.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(open),
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), append(j, '\n'), 0o644)
	if len(open) > 0 {
		for i, v := range open {
			if i >= 3 {
				break
			}
			fmt.Printf("%s: %s: %s\n", v.Where, v.Key, strings.Join(v.Detail, "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d obligations discharged, %d functions, %d paths, %d feasible pairs, %.1fs\n", id, disch, len(fs), c.paths, c.pairs, time.Since(t0).Seconds())
	return 0
}

// nonNilAxiom: the maps of the manager hold no nil notifier and no nil meta entry; what is put in
// is compared with the references.
func (c *Ctx) nonNilAxiom() func(*Term) bool {
	own := c.axiom
	return func(t *Term) bool {
		if t.Op == "lookup" && t.Typ != nil && isPointer(t.Typ) {
			switch namedOf(t.Typ) {
			case "ResourceMeta", "notifier":
				return true
			}
		}
		return own != nil && own(t)
	}
}
