package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Script is the mode for the code of goroutines that never end: their loops are followed action by action, up to a
// number of actions (receives, blocking choices, reads from the stream). Every prefix of a run is compared.
type Script struct {
	budget int
}

const maxSpin = 40

// spend takes one action from the budget; the outcome is the cut.
func (s *Script) spend(st *State) *Outcome {
	if st.occ["$spent"] >= s.budget {
		return &Outcome{st: st, panic: "cut"}
	}
	st.occ["$spent"]++
	st.occ["$spin"] = 0
	return nil
}

// spin: one more iteration of some loop.
func (s *Script) spin(st *State, fn *ssa.Function) {
	st.occ["$spin"]++
	if st.occ["$spin"] > maxSpin {
		undec("%s goes round without waiting for anything", fn)
	}
}

// wait: a plain channel operation.
func (s *Script) wait(ex *Exec, it *Item, ch *Term, send bool, pos token.Pos) *Outcome {
	c := it.st.F.simp(ch)
	if ex.neverReady != nil && ex.neverReady(c, send) {
		return &Outcome{st: it.st, panic: "blocks for good at " + ex.p.pos(pos), pos: pos}
	}
	if send {
		return nil
	}
	return s.spend(it.st)
}
