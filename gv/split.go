package main

import (
	"regexp"
	"strings"
	"time"
)

// sexprs splits the text between the parentheses of an s-expression into its elements.
func sexprs(s string) []string {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
		return nil
	}
	s = s[1 : len(s)-1]
	var out []string
	d, start := 0, -1
	bar := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if start < 0 {
			if c == ' ' || c == '\n' || c == '\t' {
				continue
			}
			start = i
		}
		switch {
		case c == '|':
			bar = !bar
		case bar:
		case c == '(':
			d++
		case c == ')':
			d--
		case (c == ' ' || c == '\n' || c == '\t') && d == 0:
			out = append(out, s[start:i])
			start = -1
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// splitGoal splits a goal into parts that together imply it.
func splitGoal(g string) []string {
	switch {
	case strings.HasPrefix(g, "(and "):
		var out []string
		for _, e := range sexprs(g)[1:] {
			out = append(out, splitGoal(e)...)
		}
		return out
	case strings.HasPrefix(g, "(=> "):
		es := sexprs(g)
		if len(es) != 3 {
			return []string{g}
		}
		ps := splitGoal(es[2])
		if len(ps) == 1 {
			return []string{g}
		}
		var out []string
		for _, p := range ps {
			out = append(out, "(=> "+es[1]+" "+p+")")
		}
		return out
	case strings.HasPrefix(g, "(forall "):
		es := sexprs(g)
		if len(es) != 3 {
			return []string{g}
		}
		body, pats := es[2], ""
		if strings.HasPrefix(body, "(! ") {
			bs := sexprs(body)
			body, pats = bs[1], strings.Join(bs[2:], " ")
		}
		ps := splitGoal(body)
		if len(ps) == 1 {
			return []string{g}
		}
		var out []string
		for _, p := range ps {
			if pats != "" {
				p = "(! " + p + " " + pats + ")"
			}
			out = append(out, "(forall "+es[1]+" "+p+")")
		}
		return out
	case strings.HasPrefix(g, "(= "): // a boolean equivalence is split by the caller
	}
	return []string{g}
}

// solveObl discharges an obligation: as a whole, and when that does not succeed at once, part by part.
func (v *Verifier) solveObl(o *Obl) SolveResult {
	if v.late() {
		return SolveResult{Status: "unknown", Output: "the time of the check is used up"}
	}
	r := runSolver("z3-new", v.Quick, o.Query)
	if r.Status == "unsat" || r.Status == "error" {
		return r
	}
	whole := "(assert (not " + o.Goal + "))\n"
	parts := splitGoal(o.Goal)
	if !strings.Contains(o.Query, whole) || r.Status == "sat" {
		if v.Fast || r.Status == "sat" {
			return r
		}
		return solveRest(o.Query, r, v.Quick, v.Long)
	}
	secs := r.Secs
	solver := r.Solver
	for _, p := range parts {
		if v.late() {
			return SolveResult{Status: "unknown", Output: "the time of the check is used up"}
		}
		q := strings.Replace(o.Query, whole, "(assert (not "+p+"))\n", 1)
		// first with the hypotheses about the goal's own contract functions only
		done, last := false, ""
		for level := 0; level < 4 && !done; level++ {
			fq := filterQuery(q, p, level)
			if fq == "" || fq == last {
				continue
			}
			last = fq
			fr := runSolver("z3-new", v.Quick, fq)
			secs += fr.Secs
			done = fr.Status == "unsat"
		}
		if done {
			continue
		}
		pr := r
		if len(parts) > 1 {
			pr = runSolver("z3-new", v.Quick, q)
		}
		if pr.Status != "unsat" && !v.Fast {
			pr = solveRest(q, pr, v.Quick, v.Long)
		}
		secs += pr.Secs
		if pr.Status != "unsat" {
			o.Query = q
			o.Part = p
			pr.Secs = secs
			return pr
		}
		if pr.Solver != solver {
			solver = "z3-new+" + pr.Solver
		}
	}
	return SolveResult{Status: "unsat", Solver: solver, Secs: secs}
}

// filterable: symbols whose hypotheses may be left out when the goal does not mention them.
func filterable(sym string) bool {
	if strings.HasPrefix(sym, "|spec:") || strings.HasPrefix(sym, "|lim") {
		return true
	}
	switch sym {
	case "str_of_runes", "str_of_bytes", "rat", "rlen", "bat", "blen", "str_cat", "str_sub", "rdiff":
		return true
	}
	return false
}

// defRe matches the definition of a contract function.
var defRe = regexp.MustCompile(`^\(assert \(forall \(.*?\)\) \(! \(= \((\|(?:spec|lim):?[^|]*\|)`)

// filterQuery drops the hypotheses, or conjuncts of hypotheses, that mention contract functions
// the goal does not mention. Level 1 also keeps what the definitions of those functions mention, level 2
// what the definitions of these mention, and so on, level 3 what the hypotheses about all of these mention.
// Leaving out hypotheses is sound. It returns "" if nothing is dropped.
func filterQuery(query, goal string, level int) string {
	allowed := map[string]bool{}
	add := func(t string) bool {
		n := len(allowed)
		for s := range symSet(t) {
			if filterable(s) {
				allowed[s] = true
			}
		}
		return len(allowed) > n
	}
	add(goal)
	lines := strings.SplitAfter(query, "\n")
	if level == 1 {
		var ls []string
		for _, l := range lines {
			if m := defRe.FindStringSubmatch(l); m != nil && allowed[m[1]] {
				ls = append(ls, l)
			}
		}
		for _, l := range ls {
			add(l)
		}
	}
	defs := func() {
		for more := true; more; {
			more = false
			for _, l := range lines {
				if m := defRe.FindStringSubmatch(l); m != nil && allowed[m[1]] && add(l) {
					more = true
				}
			}
		}
	}
	if level > 1 {
		defs()
	}
	if level > 2 {
		var hop []string
		for _, l := range lines {
			if !strings.HasPrefix(l, "(assert ") || defRe.MatchString(l) || strings.Contains(l, "(assert (=> (forall ((r Int))") {
				continue
			}
			for s := range symSet(l) {
				if allowed[s] {
					hop = append(hop, l)
					break
				}
			}
		}
		for _, l := range hop {
			add(l)
		}
		defs()
	}
	keep := func(t string) bool {
		for s := range symSet(t) {
			if filterable(s) && !allowed[s] {
				return false
			}
		}
		return true
	}
	var b strings.Builder
	dropped := false
	for _, l := range lines {
		t := strings.TrimSpace(l)
		if !strings.HasPrefix(t, "(assert ") || !strings.HasSuffix(t, ")") || keep(t) {
			b.WriteString(l)
			continue
		}
		dropped = true
		for _, p := range splitGoal(t[len("(assert ") : len(t)-1]) {
			if keep(p) {
				b.WriteString("(assert " + p + ")\n")
			}
		}
	}
	if !dropped {
		return ""
	}
	return b.String()
}

func (v *Verifier) late() bool { return !v.Deadline.IsZero() && time.Now().After(v.Deadline) }
