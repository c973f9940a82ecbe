package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// Two obligations are handed to the solver beyond the branch and assertion queries:
//
//   - claims: literals that were decided from the domain of a single byte without
//     a query are collected per path and shown to follow from the path condition;
//   - coverage: every fork (branch of a symbolic condition, value of a
//     concretised term, harness choice, scheduling decision) becomes a variable; the tree of explored
//     paths becomes a formula over these variables that is true where an explored,
//     assertion-clean path exists. The solver must find its negation unsatisfiable,
//     otherwise the assignment names a case that was not decided.

func (w *Worker) claim(t *Term, val bool) {
	if !val {
		t = w.b.Not(t)
	}
	if !w.pcset[t] {
		w.claims = append(w.claims, t)
	}
}

func (w *Worker) auditClaims() {
	if len(w.claims) == 0 {
		return
	}
	var neg []*Term
	seen := map[*Term]bool{}
	for _, c := range w.claims {
		if !c.isConst() && !seen[c] {
			seen[c] = true
			neg = append(neg, w.b.Not(c))
		}
	}
	if len(neg) == 0 {
		return
	}
	v, _ := w.check(w.b.Or(neg...))
	ex := w.ex
	if ex.pool.done.Load() {
		return
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.Audited += len(neg)
	ex.AuditQ++
	switch v {
	case VSat:
		ex.Incomplete = "a literal decided from byte domains does not follow from the path condition"
	case VUnknown:
		ex.Incomplete = "solver answered unknown on literals decided from byte domains"
	}
}

type tnode struct {
	n    int // alternatives; for concretisations -1 until closed
	conc bool
	ok   bool
	kids map[uint64]*tnode
}

type coverage struct {
	Leaves, Nodes, Vars int
	Verdict             string
	Seconds             float64
	Missing             string
}

const maxLeaves = 1 << 20

func (w *Worker) leaf(r pathResult) {
	ex := w.ex
	ok := r.kind == endNormal || r.kind == endPath && r.msg != "violation" && !strings.HasSuffix(r.msg, "unknown")
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.conc && ex.rounds > 0 && !w.item.full {
		return
	}
	ex.leaves++
	if ex.leaves > maxLeaves {
		ex.tree = nil
		return
	}
	if ex.tree == nil {
		ex.tree = &tnode{}
	}
	t := ex.tree
	for _, d := range w.decs {
		if t.kids == nil {
			t.kids = map[uint64]*tnode{}
			t.n = d.n
			t.conc = d.kind == dConc
		}
		if t.conc && d.n > t.n {
			t.n = d.n
		}
		k := t.kids[d.val]
		if k == nil {
			k = &tnode{}
			t.kids[d.val] = k
		}
		t = k
	}
	t.ok = ok
}

// cover builds the formula and asks the solver.
func (ex *Explorer) cover(bin string) {
	c := &coverage{Leaves: ex.leaves}
	ex.Cover = c
	if ex.leaves > maxLeaves {
		c.Verdict = "not asked (too many paths)"
		return
	}
	if ex.tree == nil {
		c.Verdict = "nothing explored"
		return
	}
	t0 := time.Now()
	var sb strings.Builder
	ids := map[string]int{}
	vars := map[int]bool{}
	var build func(t *tnode, depth int) string
	build = func(t *tnode, depth int) string {
		if t.kids == nil {
			if t.ok {
				return "true"
			}
			return "false"
		}
		if !t.conc && t.n == 1 { // other side excluded by the solver
			for _, k := range t.kids {
				return build(k, depth+1)
			}
		}
		vals := make([]uint64, 0, len(t.kids))
		for x := range t.kids {
			vals = append(vals, x)
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
		n := t.n
		if t.conc {
			n = len(vals)
			if t.n == 0 {
				n++ // an unexplored value may exist
			}
		}
		e := "true" // beyond the alternatives
		var parts []string
		for i := 0; i < n; i++ {
			s := "false"
			if t.conc {
				if i < len(vals) {
					s = build(t.kids[vals[i]], depth+1)
				}
			} else if k := t.kids[uint64(i)]; k != nil {
				s = build(k, depth+1)
			}
			parts = append(parts, s)
		}
		for i := n - 1; i >= 0; i-- {
			e = fmt.Sprintf("(ite (= d%d (_ bv%d 16)) %s %s)", depth, i, parts[i], e)
		}
		id, ok := ids[e]
		if !ok {
			id = len(ids)
			ids[e] = id
			vars[depth] = true
			fmt.Fprintf(&sb, "(declare-const n%d Bool)(assert (= n%d %s))\n", id, id, e)
		}
		return fmt.Sprintf("n%d", id)
	}
	root := build(ex.tree, 0)
	var hd strings.Builder
	hd.WriteString("(set-logic QF_BV)\n")
	var vs []int
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	for _, v := range vs {
		fmt.Fprintf(&hd, "(declare-const d%d (_ BitVec 16))\n", v)
	}
	script := hd.String() + sb.String() + fmt.Sprintf("(assert (not %s))\n(check-sat)\n", root)
	if len(vs) > 0 {
		script += "(get-value ("
		for _, v := range vs {
			script += fmt.Sprintf("d%d ", v)
		}
		script += "))\n"
	}
	if f := os.Getenv("SYMGO_COVER"); f != "" {
		os.WriteFile(f+"-"+ex.harness+".smt2", []byte(script), 0o644)
	}
	c.Nodes, c.Vars = len(ids), len(vs)
	v, m := runScript(bin, []string{"-in", "-smt2", "-T:60"}, script)
	c.Seconds = round(time.Since(t0).Seconds())
	ex.Queries++
	ex.SolverTime += time.Since(t0)
	switch v {
	case VUnsat:
		c.Verdict = "unsat: every assignment of fork variables ends in an explored path without violation"
		ex.QUnsat++
	case VSat:
		c.Verdict = "sat: undecided case"
		c.Missing = fmt.Sprint(m)
		ex.QSat++
		if ex.Incomplete == "" {
			ex.Incomplete = "undecided paths"
		}
	default:
		c.Verdict = "unknown"
		ex.QUnknown++
	}
}
