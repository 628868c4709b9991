// Command lr checks generated LR(1) parsers against a canonical LR(1) construction (C15-C18).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"gv.test/oracle/e2e"
	"gv.test/oracle/gram"
	"gv.test/oracle/rep"
)

type gc struct {
	g          *gram.Grammar
	f          *gram.CFG
	l          *gram.LR
	knuth, pgr *e2e.Case // without conflict resolution
	res        *e2e.Case // with conflict resolution, only for grammars with conflicts
}

func main() {
	defer rep.Flush()
	rng := rand.New(rand.NewSource(rep.Seed()*6007 + 11))
	rep.Rule("C15", "generated LR(1) parsers", "hand-picked and random LR(1) grammars (also not LALR, nullable, nested), canonical and Pager tables: acceptance of every string up to a length bound and random longer sentences with edits against a chart of all derivations; a case is one grammar, construction and input")
	rep.Rule("C16", "LR(1) conflicts", "random grammars with and without conflicts: gogll's verdict against a canonical construction, and the behaviour of resolved tables on inputs; a case is one grammar, or one grammar and input")
	rep.Rule("C17", "Pager's tables", "the parsers of both constructions on the same inputs: same reductions, no conflicts, no more states; a case is one grammar and input")
	rep.Rule("C18", "LR(1) driver", "the sequence of AST calls, the tree they build, errors of AST functions, and position and expected tokens of parse errors against a simulation of the canonical tables; a case is one grammar and input")
	var gcs []*gc
	var cs []*e2e.Case
	seen := map[string]bool{}
	nok, nconf := 0, 0
	add := func(g *gram.Grammar, wantOK, wantConf int) {
		k := g.String()
		k = k[strings.Index(k, "\n"):]
		if seen[k] {
			return
		}
		seen[k] = true
		f := gram.NewCFG(g)
		if len(f.Productive()) != len(f.NTs) {
			return
		}
		l := gram.NewLR(f, 220)
		if l == nil || l.Conflicts == 0 && nok >= wantOK || l.Conflicts > 0 && nconf >= wantConf {
			return
		}
		x := &gc{g: g, f: f, l: l}
		mk := func(suffix string, args ...string) *e2e.Case {
			n := fmt.Sprintf("g%d%s", len(gcs), suffix)
			g.Pkg = "gv.test/ws/" + n
			c := &e2e.Case{Name: n, Text: g.String(), Parse: "lr", Args: args}
			cs = append(cs, c)
			return c
		}
		x.knuth = mk("k", "-knuth")
		x.pgr = mk("p", "-pager")
		if l.Conflicts > 0 {
			x.res = mk("r", "-knuth", "-resolve_conflicts")
			nconf++
		} else {
			nok++
		}
		gcs = append(gcs, x)
	}
	for _, g := range fixed() {
		add(g, 1000, 1000)
	}
	wantOK, wantConf := rep.Scale(60, 200), rep.Scale(30, 80)
	for tries := 0; (nok < wantOK || nconf < wantConf) && tries < 20000; tries++ {
		add(gram.SynGrammar(rng, ""), wantOK, wantConf)
	}
	ws, err := e2e.Run("lr", cs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, x := range gcs {
		verdict(x)
	}
	if err := ws.Compile(cs, func(c *e2e.Case) []string { return nil }); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var reqs []e2e.Req
	var done []func([]*e2e.Res)
	var at [][2]int
	for _, x := range gcs {
		x := x
		for _, c := range []*e2e.Case{x.knuth, x.pgr, x.res} {
			if c != nil && c.Compile != "" {
				rep.Fail("C15", "does-not-compile", "the generated parser does not compile", map[string]any{"grammar": c.Text, "output": c.Compile, "options": c.Args})
			}
		}
		for _, in := range x.f.Sentences(rng, rep.Scale(60, 150), rep.Scale(40, 120), 10) {
			in := in
			want := x.l.Run(in, 3000)
			if want.Loop {
				continue
			}
			lo := len(reqs)
			if x.l.Conflicts == 0 {
				if !x.knuth.Driven && !x.pgr.Driven {
					continue
				}
				fail := 0
				if n := len(want.Calls); n > 0 {
					fail = 1 + rng.Intn(n)
				}
				var cases []*e2e.Case
				for _, c := range []*e2e.Case{x.knuth, x.pgr} {
					if c.Driven {
						cases = append(cases, c)
						reqs = append(reqs, e2e.Req{G: c.Name, Op: "lr", In: text(in)})
					}
				}
				if fail > 0 {
					c := cases[rng.Intn(len(cases))]
					cases = append(cases, nil)
					reqs = append(reqs, e2e.Req{G: c.Name, Op: "lr", In: text(in), A: fail})
				}
				done = append(done, func(rs []*e2e.Res) { checkLR(x, in, want, cases, rs, fail) })
			} else if x.res != nil && x.res.Driven {
				reqs = append(reqs, e2e.Req{G: x.res.Name, Op: "lr", In: text(in)})
				done = append(done, func(rs []*e2e.Res) { checkResolved(x, in, want, rs[0]) })
			} else {
				continue
			}
			at = append(at, [2]int{lo, len(reqs)})
		}
	}
	res := ws.Do(reqs)
	e2e.Parallel(len(done), func(i int) { done[i](res[at[i][0]:at[i][1]]) })
}

var reStates = regexp.MustCompile(`numStates\s*=\s*(\d+)`)

func states(c *e2e.Case) (n int) {
	b, _ := os.ReadFile(filepath.Join(c.Dir, "parser", "parser.go"))
	if m := reStates.FindSubmatch(b); m != nil {
		fmt.Sscan(string(m[1]), &n)
	}
	return
}

func verdict(x *gc) {
	for _, c := range []*e2e.Case{x.knuth, x.pgr} {
		d := map[string]any{"grammar": c.Text, "options": c.Args, "exit": c.Exit, "output": c.Out, "timeout": c.TimedOut}
		prop := "C16"
		if c == x.pgr {
			prop = "C17"
		}
		rep.Eval("C16", x.g.String()+fmt.Sprint(c.Args), "")
		if c.Failed() {
			rep.Fail("C15", "gogll-fails", "gogll crashes or loops", d)
			rep.Fail("C16", "gogll-fails", "gogll crashes or loops", d)
			if c == x.pgr {
				rep.Fail("C17", "gogll-fails", "gogll crashes or loops", d)
			}
			continue
		}
		if x.l.Conflicts == 0 && c.Exit != 0 {
			rep.Fail(prop, "spurious-conflict", "gogll refuses a grammar without LR(1) conflicts", d)
			rep.Fail("C15", "spurious-conflict", "gogll refuses a grammar without LR(1) conflicts", d)
			if prop != "C16" {
				rep.Fail("C16", "spurious-conflict", "gogll refuses a grammar without LR(1) conflicts", d)
			}
		}
		if x.l.Conflicts > 0 && c.Exit == 0 {
			rep.Fail("C16", "missed-conflict", "gogll accepts a grammar with LR(1) conflicts", d)
		}
	}
	if x.res != nil && (x.res.Failed() || x.res.Exit != 0) {
		rep.Fail("C16", "resolution", "gogll refuses a grammar although conflicts are to be resolved, or crashes", map[string]any{"grammar": x.res.Text, "options": x.res.Args, "exit": x.res.Exit, "output": x.res.Out})
	}
	if x.l.Conflicts == 0 && x.knuth.Exit == 0 && x.pgr.Exit == 0 {
		k, p := states(x.knuth), states(x.pgr)
		if p > k {
			rep.Fail("C17", "states", "Pager's tables have more states than the canonical ones", map[string]any{"grammar": x.pgr.Text, "pager": p, "knuth": k})
		}
	}
}

func tree(n *e2e.Node, byL map[int]int) string {
	if n == nil || n.F == "nil" {
		return "nil"
	}
	if n.F == "tok" {
		return fmt.Sprint(byL[n.L])
	}
	var ss []string
	for _, c := range n.C {
		ss = append(ss, tree(c, byL))
	}
	return n.F + "(" + strings.Join(ss, " ") + ")"
}

// expected tokens of an error message
func expected(s string) []string {
	i := strings.Index(s, "expected one of: ")
	if i < 0 {
		return nil
	}
	f := strings.Fields(s[i+len("expected one of: "):])
	sort.Strings(f)
	return f
}

func norm(ss []string) string {
	var r []string
	for _, s := range ss {
		if s == "$" || s == "EOF" || s == "ϵ" {
			s = "$"
		}
		r = append(r, s)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func checkLR(x *gc, in []string, want *gram.LRRun, cases []*e2e.Case, rs []*e2e.Res, fail int) {
	ok := x.f.Parse(in).Accept()
	if ok != want.OK {
		panic("the reference disagrees with itself on " + x.g.String() + strings.Join(in, " "))
	}
	seen := []string{}
	for i, c := range cases {
		r := rs[i]
		if c == nil {
			det := func(kv ...any) map[string]any { return detail(x.g.String(), nil, in, r, kv...) }
			rep.Eval("C18", x.g.String()+strings.Join(in, " ")+fmt.Sprint(" fail at ", fail), "")
			if r.Panic != "" || r.Timeout {
				rep.Fail("C18", "fails", "the generated parser panics or does not end after an AST function failed", det("failing call", fail))
			} else if len(want.Calls) >= fail && want.OK && (r.OK || !strings.Contains(r.S, "gv-ast-failure") || len(r.Calls) != fail || r.HasSet) {
				rep.Fail("C18", "ast-error", "an error of an AST function does not end the parse with that error", det("failing call", fail))
			}
			continue
		}
		det := func(kv ...any) map[string]any { return detail(c.Text, c.Args, in, r, kv...) }
		rep.Eval("C15", c.Text+strings.Join(in, " "), fmt.Sprintf("%s | %s | input %q -> %v", strings.Join(c.Args, " "), oneLine(c.Text), strings.Join(in, " "), ok))
		if r.Panic != "" || r.Timeout {
			for _, p := range []string{"C15", "C18"} {
				rep.Fail(p, "fails", "the generated parser panics or does not end", det())
			}
			seen = append(seen, "?")
			continue
		}
		if r.OK != ok {
			rep.Fail("C15", "acceptance", "the parser accepts a string outside the language or rejects one in it", det("in language", ok))
		}
		if c == x.pgr {
			seen = append(seen, fmt.Sprint(r.OK, r.Calls, !r.OK))
		} else {
			seen = append(seen, fmt.Sprint(r.OK, r.Calls, !r.OK))
		}
		rep.Eval("C18", c.Text+strings.Join(in, " "), fmt.Sprintf("%s | %s | input %q -> calls %v", strings.Join(c.Args, " "), oneLine(c.Text), strings.Join(in, " "), r.Calls))
		byL := map[int]int{}
		for k, t := range r.Toks {
			byL[t.L] = k
		}
		if ok && r.OK {
			if strings.Join(r.Calls, " ") != strings.Join(want.Calls, " ") {
				rep.Fail("C18", "calls", "the AST functions are not called in the order of the rightmost derivation", det("want", want.Calls))
			} else if g := tree(r.Tree, byL); g != want.Tree.String() {
				rep.Fail("C18", "attributes", "an AST function gets the wrong attributes", det("got", g, "want", want.Tree.String()))
			}
		}
		if !ok && !r.OK && want.ErrAt < len(r.Toks) {
			t := r.Toks[want.ErrAt]
			if !strings.Contains(r.S, fmt.Sprintf("line %d col %d tok %s", t.Line, t.Col, t.Str)) {
				rep.Fail("C18", "error-token", "the error does not name the first token that cannot continue the input", det("want", t))
			}
			if c == x.knuth && norm(expected(r.S)) != norm(want.Expected) {
				rep.Fail("C18", "expected", "the error does not list the tokens that can continue the input", det("got", norm(expected(r.S)), "want", norm(want.Expected)))
			}
		}
	}
	if len(seen) == 2 {
		rep.Eval("C17", x.g.String()+strings.Join(in, " "), fmt.Sprintf("%s | input %q", oneLine(x.pgr.Text), strings.Join(in, " ")))
		if rs[0].OK != rs[1].OK || rs[0].OK && seen[0] != seen[1] {
			rep.Fail("C17", "differs", "the parsers of the two constructions behave differently", map[string]any{"grammar": x.pgr.Text, "input": strings.Join(in, " "), "knuth": seen[0], "pager": seen[1]})
		}
	}
}

func checkResolved(x *gc, in []string, want *gram.LRRun, r *e2e.Res) {
	det := func(kv ...any) map[string]any { return detail(x.res.Text, x.res.Args, in, r, kv...) }
	rep.Eval("C16", x.res.Text+strings.Join(in, " "), fmt.Sprintf("%s | input %q -> %v, calls %v", oneLine(x.res.Text), strings.Join(in, " "), r.OK, r.Calls))
	if r.Panic != "" || r.Timeout {
		rep.Fail("C16", "fails", "the parser with resolved conflicts panics or does not end", det("want", want.OK))
		return
	}
	if r.OK != want.OK || r.OK && strings.Join(r.Calls, " ") != strings.Join(want.Calls, " ") {
		rep.Fail("C16", "resolved", "the parser does not behave as the tables with shift before reduce and earlier rules first", det("want", want.OK, "want calls", want.Calls))
	}
}

func detail(g string, args []string, in []string, r *e2e.Res, kv ...any) map[string]any {
	m := map[string]any{"grammar": g, "options": args, "input": strings.Join(in, " "), "accepted": r.OK, "error": r.S, "calls": r.Calls, "panic": r.Panic, "timeout": r.Timeout}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

func oneLine(s string) string { return strings.Join(strings.Split(s, "\n")[1:], " ") }

func text(in []string) string {
	var ss []string
	for i, t := range in {
		switch t {
		case "num":
			t = fmt.Sprint(i + 1)
		case "aa":
			t = "x"
		}
		ss = append(ss, t)
	}
	return strings.Join(ss, " ")
}

func fixed() (gs []*gram.Grammar) {
	for _, s := range []string{
		"S: A; A: ( A ) | a",
		"S: C C; C: c C | d",
		"E: E + T | T; T: T * F | F; F: ( E ) | a",
		"S: a A d | b B d | a B e | b A e; A: c; B: c",
		"S: A x; A: B; B: A y | b",
		"S: A x; A: B; B: C; C: D; D: A y | b",
		"S: L = R | R; L: * R | a; R: L",
		"S: a X | b Y; X: c Z d | Z; Y: c Z e | Z f; Z: z Z | ",
		"S: ( S ) S | ",
		"S: A A A; A: a | ( S )",
		"S: A B; A: a | ; B: b | ",
		"S: a S b | c",
		"S: S a | b",
		"S: X A | Y B; X: a p; Y: a q; A: b A | b; B: c",
		"S: a B | e B h; B: C D; C: b | ; D: d C d | d",
		"X: a Y d | a Z c | a T | b Y e | b Z d | b T; Y: t W | u X; Z: t u; T: u X a; W: u V; V: ",
		"S: S S | a",
		"S: S | a",
		"E: E + E | E * E | a",
		"S: if S | if S else S | x",
		"S: A | B; A: a; B: a",
		"S: A | B; B: a; A: a",
		"S: A a | B a | b; A: ; B: ",
		"S: ",
		"S: A; A: B; B: C c | ; C: a",
		"S: a A a | b A b | a B b | b B a; A: x A | x; B: x B | x y",
		"S: a E b | E error; E: error c | d",
		"S: L e; L: I L | ; I: error x | y I2; I2: error | z",
		"S: a Q a | b Q b | c Q; Q: ( Q ) | q",
	} {
		gs = append(gs, mk(s))
	}
	return
}

// rules in the form "S: a S b | ; A: c"; upper case names are nonterminals.
func mk(s string) *gram.Grammar {
	g := &gram.Grammar{}
	for _, r := range strings.Split(s, ";") {
		hb := strings.SplitN(r, ":", 2)
		sr := &gram.SynRule{NT: strings.TrimSpace(hb[0])}
		for _, a := range strings.Split(hb[1], "|") {
			var alt []gram.Sym
			for _, x := range strings.Fields(a) {
				if x[0] >= 'A' && x[0] <= 'Z' {
					alt = append(alt, gram.Sym{K: gram.NT, Name: x})
				} else {
					alt = append(alt, gram.Sym{K: gram.Lit, Name: x})
				}
			}
			sr.Alts = append(sr.Alts, alt)
		}
		g.Syn = append(g.Syn, sr)
	}
	return g
}
