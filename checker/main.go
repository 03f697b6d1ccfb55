package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4]))
	case "dump":
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(p, os.Args[3], os.Args[4], len(os.Args) > 5)
	case "sweep":
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, a := range os.Args[3:] {
			sweep(p, a)
		}
	}
}

func sweep(p *Program, spec string) {
	i := strings.IndexByte(spec, ':')
	pkg, name := spec[:i], spec[i+1:]
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Println(spec, "UNDECIDED:", u.msg)
				return
			}
			panic(r)
		}
	}()
	fn := p.mustFunc(pkg, name)
	ex := newExec(p)
	ex.models["("+modPath+"/core/xdsresource.Matcher).Match"] = pureModel
	var args []*Term
	for i, pr := range fn.Params {
		args = append(args, mk("sym", fmt.Sprintf("p%d", i), pr.Type()))
	}
	t0 := time.Now()
	outs := ex.runFunc(fn, args, nil, newState())
	var ks []string
	for k := range ex.opaqued {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	np := 0
	big := 0
	for _, o := range outs {
		if o.panic != "" {
			np++
		}
		for _, r := range o.rets {
			if r.size > big {
				big = r.size
			}
		}
		for _, r := range o.st.ev {
			if r.size > big {
				big = r.size
			}
		}
	}
	fmt.Println(spec, len(outs), "paths", np, "panics", ex.steps, "steps", big, "size", time.Since(t0), ks)
}

func dump(p *Program, pkg, name string, panics bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				fmt.Println("UNDECIDED:", u.msg)
				return
			}
			panic(r)
		}
	}()
	fn := p.mustFunc(pkg, name)
	ex := newExec(p)
	ex.panics = panics
	ex.models["("+modPath+"/core/xdsresource.Matcher).Match"] = pureModel
	var args []*Term
	for i, pr := range fn.Params {
		args = append(args, mk("sym", fmt.Sprintf("p%d", i), pr.Type()))
	}
	t0 := time.Now()
	outs := ex.runFunc(fn, args, nil, newState())
	q := newEquiv(ex)
	for _, o := range outs {
		v := q.view(&o)
		fmt.Println("--- path", p.pos(o.pos), o.panic)
		for _, l := range o.st.F.lits {
			fmt.Println("   if", l)
		}
		for a, t := range v.heap {
			fmt.Println("   mem", a, ":=", t)
		}
		for _, e := range v.ev {
			fmt.Println("   ev", e)
		}
		for i, r := range v.rets {
			fmt.Println("   ret", i, r)
		}
	}
	fmt.Println(len(outs), "paths", ex.steps, "steps", time.Since(t0))
	var ks []string
	for k := range ex.opaqued {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Println("opaque:", ks)
}
