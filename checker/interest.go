package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interest set: which requests are made, when, and of what (C03).

func init() {
	props["C03"] = &Prop{
		ID:    "C03",
		Refs:  []string{"C03", "start", "roles", "C06"},
		Rule:  "Every request is built, in the section that changes or reads the interest set, from exactly the names of the set of its type and the node of the configuration; Watch changes exactly the one name and enqueues the request in the same section; only start-up, a missing lookup's first waiter and the eviction of a sweep call Watch, and nothing else changes the set; the sender passes every queued request to the live stream and, on a new stream, one request per type with the whole set.",
		Setup: func(ex *Exec, c *Ctx) {},
		Pair: func(ex *Exec, c *Ctx, name string) {
			switch {
			case name == "get" || name == "deliver":
				lookupModels(ex, c)
				if name == "deliver" {
					ex.shared.fields["xdsResourceManager"] = []string{"notifierMap"}
				}
			case strings.HasPrefix(name, "start"):
				startModels(ex, c, name == "startStop")
			default:
				clientModels(ex, c)
				ex.useShared(clientShared())
				ex.lazyGet = true
				requestModel(ex, "TypeUrl", "ResourceNames", "Node")
			}
		},
		Opts: func(q *Equiv, c *Ctx, name string) {
			q.ignorePlace = func(*Term) bool { return true }
			q.onlyEvents = true
			keep := map[string]bool{}
			switch {
			case name == "get" || name == "deliver":
				keep["watch"] = true
			case strings.HasPrefix(name, "start"):
				startOpts(q, c)
				keep["watch"] = true
				keep["recv"] = true
			case name == "watch":
				keep["publish"], keep["request"], keep["send"] = true, true, true
			default:
				keep["request"], keep["send"] = true, true
			}
			var names []string
			for k := range keep {
				names = append(names, k)
			}
			f := evNot(names...)
			q.ignoreEv = func(e *Term) bool { return !isBadEv(e) && f(e) }
			if strings.HasPrefix(name, "start") {
				q.ignoreEv = f
			}
			if name == "startStop" {
				q.ignoreEv = func(*Term) bool { return true }
			}
		},
		Extra: []func(*Ctx){aliasIn("/core/manager:newXdsClient", "/core/manager:(*xdsResourceManager).Get"), func(c *Ctx) {
			watched := evNot("watch")
			c.sweepRulesOf(func(e *Term) bool { return isBadEv(e) || e.Str == "tick" || !watched(e) })
			roles := c.streamRoles()
			refs := c.refFuncs("role_sender")
			c.guard("sender", "discovery", func() (bool, string) {
				return len(roles["sender"]) == 1 && len(refs) == 1, fmt.Sprintf("%d goroutines write to the stream", len(roles["sender"]))
			})
			for _, f := range roles["sender"] {
				c.role("sender", f, refs[0], false, 3)
			}
			c.onlyWriters("interest", "/core/manager", "xdsClient", "watchedResource", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:(*xdsClient).Watch")
			})
			c.onlyWriters("node", "/core/manager", "BootstrapConfig", "node", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:newBootstrapConfig")
			}, "keeps an alias in another field")
			c.onlyWriters("config", "/core/manager", "xdsClient", "config", func() map[*ssa.Function]bool {
				return c.fns("/core/manager:newXdsClient")
			})
			c.onlyCallers("subscribers", "/core/manager", "(*xdsClient).Watch", func() map[*ssa.Function]bool {
				return union(c.fns("/core/manager:newXdsClient", "/core/manager:(*xdsResourceManager).Get"), c.sweepers())
			})
			c.requestSites()
		}},
	}
}

// onlyCallers: a function is reached through the owners only.
func (c *Ctx) onlyCallers(name, pkg, fn string, owners func() map[*ssa.Function]bool) {
	c.guard(name, "call graph", func() (bool, string) {
		target := c.p.mustFunc(pkg, fn)
		own := owners()
		in := c.p.referrers()
		ok := true
		var sites []string
		for g := range in[target] {
			if c.p.isRef(g) {
				continue
			}
			sites = append(sites, g.String())
			par := map[*ssa.Function]*ssa.Function{g: nil}
			queue := []*ssa.Function{g}
			for len(queue) > 0 {
				f := queue[0]
				queue = queue[1:]
				if own[f] {
					continue
				}
				obj, _ := f.Object().(*types.Func)
				if obj != nil && obj.Exported() || f.Name() == "init" || len(in[f]) == 0 && f.Parent() == nil {
					ok = false
					var chain []string
					for h := f; h != nil; h = par[h] {
						chain = append(chain, h.String())
					}
					c.viol(name, c.p.pos(f.Pos()), fmt.Sprintf("%s is called outside of its owners", target), "reached through "+strings.Join(chain, " -> "))
					break
				}
				for u := range in[f] {
					if _, seen := par[u]; !seen && !c.p.isRef(u) {
						par[u] = f
						queue = append(queue, u)
					}
				}
			}
		}
		sort.Strings(sites)
		return ok && len(sites) > 0, fmt.Sprintf("%d callers: %s", len(sites), strings.Join(sites, "; "))
	})
}

// requestSites: every site that queues or sends a request is part of the code compared above.
func (c *Ctx) requestSites() {
	c.guard("request-sites", "coverage", func() (bool, string) {
		isReq := func(t types.Type) bool {
			s := structOf(derefT(t))
			return s != nil && fieldIdx(s, "ResponseNonce") >= 0 && fieldIdx(s, "ResourceNames") >= 0
		}
		isReqCh := func(t types.Type) bool {
			ch, ok := t.Underlying().(*types.Chan)
			return ok && isReq(ch.Elem())
		}
		ok := true
		n := 0
		for _, f := range c.p.allFuncs() {
			if !c.p.isRepo(f) || c.p.isRef(f) || f.Package() != nil && isGeneratedPath(f.Package().Pkg.Path()) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					what := ""
					switch in := in.(type) {
					case *ssa.Send:
						if isReqCh(in.Chan.Type()) {
							what = "queues a request"
						}
					case *ssa.Select:
						for _, s := range in.States {
							if s.Dir == types.SendOnly && isReqCh(s.Chan.Type()) {
								what = "queues a request"
							}
						}
					case ssa.CallInstruction:
						cc := in.Common()
						if cc.IsInvoke() && cc.Method.Name() == "Send" && strings.HasSuffix(typeStr(types.Unalias(cc.Value.Type())), streamIface) {
							what = "sends a request"
						}
					}
					if what == "" {
						continue
					}
					n++
					if !c.funcs[f.String()] {
						ok = false
						c.viol("request-sites", c.p.pos(in.Pos()), fmt.Sprintf("%s %s outside of the subscriptions, the answers to responses and the sender", f, what))
					}
				}
			}
		}
		return ok && n > 0, fmt.Sprintf("%d sites", n)
	})
}
