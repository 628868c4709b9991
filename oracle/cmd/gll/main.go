// Command gll compares the FIRST and FOLLOW sets and the GLL parsers gogll generates with
// reference algorithms on context-free grammars.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"gv.test/oracle/e2e"
	"gv.test/oracle/gram"
	"gv.test/oracle/rep"
)

type gc struct {
	c *e2e.Case
	g *gram.Grammar
	f *gram.CFG
}

func main() {
	defer rep.Flush()
	rng := rand.New(rand.NewSource(rep.Seed()*7919 + 3))
	var gcs []*gc
	seen := map[string]bool{}
	add := func(g *gram.Grammar) {
		k := g.String()
		k = k[strings.Index(k, "\n"):]
		if seen[k] {
			return
		}
		seen[k] = true
		g.Pkg = fmt.Sprintf("gv.test/ws/g%d", len(gcs))
		x := &gc{g: g, f: gram.NewCFG(g)}
		x.c = &e2e.Case{Name: fmt.Sprintf("g%d", len(gcs)), Text: g.String(), Parse: "gll", Args: []string{"-gll", "-v"}}
		if len(gcs)%3 == 1 {
			x.c.Args = []string{"-v"}
		}
		if len(gcs)%6 == 5 {
			x.c.File = "g.md"
			x.c.Text = "# A grammar\n\n`x`\n```\n" + x.c.Text + "```\ntext ; : |\n"
		}
		gcs = append(gcs, x)
	}
	for _, g := range fixed() {
		add(g)
	}
	want := rep.Scale(70, 260)
	for len(gcs) < want {
		add(gram.SynGrammar(rng, ""))
	}
	var cs []*e2e.Case
	for _, x := range gcs {
		cs = append(cs, x.c)
	}
	ws, err := e2e.Run("gll", cs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	rules()
	for _, x := range gcs {
		if x.c.Failed() || x.c.Exit != 0 {
			for _, p := range []string{"C08", "C09"} {
				rep.Fail(p, "gogll-fails", "gogll rejects, crashes or loops on a correct grammar", map[string]any{"grammar": x.c.Text, "exit": x.c.Exit, "timeout": x.c.TimedOut, "output": x.c.Out})
			}
		} else {
			firstFollow(x)
		}
	}
	byName := map[string]*gc{}
	for _, x := range gcs {
		byName[x.c.Name] = x
	}
	if err := ws.Compile(cs, func(c *e2e.Case) []string { return byName[c.Name].f.NTs }); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var reqs []e2e.Req
	type meta struct {
		x  *gc
		in []string
	}
	var ms []meta
	for _, x := range gcs {
		if x.c.Compile != "" {
			for _, p := range []string{"C09", "C10"} {
				rep.Fail(p, "does-not-compile", "the generated parser does not compile", map[string]any{"grammar": x.c.Text, "output": x.c.Compile})
			}
		}
		if !x.c.Driven {
			continue
		}
		for _, in := range x.f.Sentences(rng, rep.Scale(60, 150), rep.Scale(50, 150), 9) {
			full := 0
			if len(in) <= 7 {
				full = 1
			}
			reqs = append(reqs, e2e.Req{G: x.c.Name, Op: "gll", In: text(x.f, in), A: full})
			ms = append(ms, meta{x, in})
		}
	}
	res := ws.Do(reqs)
	e2e.Parallel(len(res), func(i int) { check(ms[i].x, ms[i].in, res[i], reqs[i].A > 0) })
}

func rules() {
	rep.Rule("C08", "FIRST and FOLLOW", "random and hand-picked context-free grammars (empty alternates, left, right and hidden recursion, cycles, unproductive symbols): the sets gogll reports against the least solution of their equations; a case is one grammar")
	const in = " for every string up to a length bound and random longer sentences with edits; a case is one grammar and input"
	rep.Rule("C09", "generated GLL parsers", "acceptance against a chart of all derivations,"+in)
	rep.Rule("C10", "generated grammar slots", "symbols, alternate numbers and heads of every subtree's rule,"+in)
	rep.Rule("C11", "parse forest", "the subtrees in the forest against all subtrees of all derivations,"+in)
	rep.Rule("C12", "forest navigation", "children of every subtree of the forest and the ambiguity test,"+in)
	rep.Rule("C13", "shared packed parse forest", "nodes and edges against all derivations,"+in)
	rep.Rule("C14", "parse errors", "order, positions and expected tokens of errors, furthest error against the longest viable prefix,"+in)
}

func text(f *gram.CFG, in []string) string {
	var ss []string
	for i, t := range in {
		switch t {
		case "num":
			t = fmt.Sprint(i + 1)
		case "aa":
			t = "x"
		}
		ss = append(ss, t)
	}
	return strings.Join(ss, " ")
}

func lit(s string) gram.Sym { return gram.Sym{K: gram.Lit, Name: s} }
func nt(s string) gram.Sym  { return gram.Sym{K: gram.NT, Name: s} }

// rules in the form "S: a S b | ; A: c"; upper case names are nonterminals.
func mk(s string) *gram.Grammar {
	g := &gram.Grammar{}
	for _, r := range strings.Split(s, ";") {
		hb := strings.SplitN(r, ":", 2)
		sr := &gram.SynRule{NT: strings.TrimSpace(hb[0])}
		for _, a := range strings.Split(hb[1], "|") {
			var alt []gram.Sym
			for _, x := range strings.Fields(a) {
				if x[0] >= 'A' && x[0] <= 'Z' {
					alt = append(alt, nt(x))
				} else {
					alt = append(alt, lit(x))
				}
			}
			sr.Alts = append(sr.Alts, alt)
		}
		g.Syn = append(g.Syn, sr)
	}
	return g
}

func fixed() (gs []*gram.Grammar) {
	for _, s := range []string{
		"S: a S b | ",
		"S: S S | a",
		"S: S S S | a | ",
		"S: S S S S | b",
		"E: E + E | E * E | ( E ) | a",
		"E: E + T | T; T: T * F | F; F: ( E ) | a",
		"S: A B C d; A: a | ; B: b | ; C: c | ",
		"S: A A A A; A: a | ",
		"S: A S | b; A: a | ",
		"S: S | a",
		"S: A; A: B | a; B: A | b",
		"S: A B | ; A: a A | ; B: b B | S",
		"S: if S | if S else S | x",
		"S: X A | Y B; X: a; Y: a; A: b; B: c",
		"S: A B C D | A B E F; A: a | a a; B: a | a a; C: c; D: d; E: c; F: d",
		"S: P Q | R; P: A B C; Q: x; R: A B D y; A: a | a a; B: a | a a; C: c; D: c",
		"S: A a A b | B b B a; A: ; B: ",
		"S: ",
		"S: A; A: ",
		"S: a | a a | a a a; ",
		"S: S a | A; A: A b | c",
		"S: ( S ) S | ",
		"S: U | a; U: a U",
		"S: A1 | A2 x; A1: a | b A1 c; A2: a | b A2 c",
		"S: a B c B d; B: b B | ",
		"S: N M; N: a N | a; M: a M | a | ",
	} {
		gs = append(gs, mk(strings.TrimSuffix(strings.TrimSpace(s), ";")))
	}
	return
}

func firstFollow(x *gc) {
	b, err := os.ReadFile(filepath.Join(x.c.Dir, "first_follow.txt"))
	if err != nil {
		rep.Note("C08", "no first_follow.txt: "+err.Error())
		return
	}
	rep.Eval("C08", x.g.String(), strings.SplitN(x.g.String(), "\n", 2)[1]+" => "+string(b))
	fs, fl, nl := x.f.First(), x.f.Follow(), x.f.Nullable()
	want := map[string]string{}
	for _, n := range x.f.NTs {
		l := fs[n].List()
		if nl[n] {
			l = append(l, "ϵ")
			sort.Strings(l)
		}
		want[n] = strings.Join(l, " ")
		want["Follow("+n+")"] = strings.Join(fl[n].List(), " ")
	}
	for _, t := range x.f.Terms {
		want[t] = t
	}
	for _, l := range x.g.Lex {
		want[l.ID] = l.ID
	}
	got := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, ": "); i >= 0 {
			f := strings.Fields(l[i+2:])
			sort.Strings(f)
			got[l[:i]] = strings.Join(f, " ")
		}
	}
	if !reflect.DeepEqual(got, want) {
		var d []string
		for k, w := range want {
			if got[k] != w {
				d = append(d, fmt.Sprintf("%s: got {%s} want {%s}", k, got[k], w))
			}
		}
		for k, v := range got {
			if _, ok := want[k]; !ok {
				d = append(d, fmt.Sprintf("%s: got {%s}, not expected", k, v))
			}
		}
		sort.Strings(d)
		rep.Fail("C08", "sets", "a FIRST or FOLLOW set is wrong", map[string]any{"grammar": x.c.Text, "diff": d})
	}
}

func b2(k e2e.Key) gram.B { return gram.B{NT: k.NT, Alt: k.Alt, L: k.L, P: k.P, R: k.R} }

func bset(bs map[gram.B]bool) []string {
	var l []string
	for b := range bs {
		l = append(l, b.String())
	}
	sort.Strings(l)
	return l
}

func check(x *gc, in []string, r *e2e.Res, full bool) {
	key := x.c.Name + "/" + strings.Join(in, " ")
	det := func(kv ...any) map[string]any {
		m := map[string]any{"grammar": x.c.Text, "input": text(x.f, in)}
		for i := 0; i+1 < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	ch := x.f.Parse(in)
	ok := ch.Accept()
	sample := fmt.Sprintf("%s input %q accepted %v subtrees %d", strings.SplitN(x.g.String(), "\n", 2)[1], text(x.f, in), r.OK, len(r.BSR))
	rep.Eval("C09", key, sample)
	if r.Timeout || r.Panic != "" {
		for _, p := range []string{"C09", "C11"} {
			rep.Fail(p, "parser-fails", "the generated parser panics or does not end", det("panic", r.Panic, "timeout", r.Timeout))
		}
		return
	}
	var toks []string
	for _, t := range r.Toks {
		toks = append(toks, t.ID)
	}
	if strings.Join(toks, " ") != strings.Join(append(append([]string{}, in...), "$"), " ") {
		rep.Note("C09", "unexpected tokens "+strings.Join(toks, " "))
		return
	}
	if ok != r.HasSet || r.HasSet != r.OK {
		rep.Fail("C09", "acceptance", "the parser accepts a string outside the language or rejects one in it", det("in language", ok, "accepted", r.HasSet, "errors reported", len(r.Errs), "error list is nil", r.OK))
		if ok == r.HasSet && !ok {
			rep.Fail("C14", "no-error", "a failed parse reports no error", det())
		}
		if ok != r.HasSet {
			return
		}
	}
	if !ok {
		rep.Eval("C14", key, sample)
		errors(x, in, r, det)
		return
	}
	if len(r.Errs) != 0 {
		rep.Fail("C14", "spurious", "a successful parse reports errors", det())
	}
	rep.Eval("C11", key, sample)
	rep.Eval("C10", key, sample)
	if r.Big {
		return
	}
	useful := ch.Useful()
	got := map[gram.B]bool{}
	for _, e := range r.BSR {
		b := b2(e.K)
		if got[b] {
			rep.Fail("C11", "duplicate", "a subtree occurs twice in the forest", det("subtree", b.String()))
			return
		}
		got[b] = true
		if !ch.Valid(b) {
			rep.Fail("C11", "unsound", "the forest has a subtree that is no derivation", det("subtree", b.String()))
			return
		}
	}
	for b := range useful {
		if !got[b] {
			rep.Fail("C11", "incomplete", "a subtree of a derivation of the input is not in the forest", det("subtree", b.String(), "forest", bset(got)))
			return
		}
	}
	if r.Right != len(in) {
		rep.Fail("C11", "right-extent", "wrong right extent", det("got", r.Right))
	}
	var roots []string
	for _, k := range r.Roots {
		roots = append(roots, b2(k).String())
	}
	var wroots []string
	for _, b := range ch.BSRs(x.f.Start(), 0, len(in)) {
		wroots = append(wroots, b.String())
	}
	sort.Strings(roots)
	sort.Strings(wroots)
	if !reflect.DeepEqual(roots, wroots) {
		rep.Fail("C11", "roots", "the roots are not the derivations of the whole input", det("got", roots, "want", wroots))
	}
	if !full {
		return
	}
	rep.Eval("C12", key, sample)
	cont := map[string]bool{}
	for _, k := range r.Contain {
		cont[fmt.Sprintf("%s,%d,%d", k.NT, k.L, k.R)] = true
		if !ch.D[k.NT][k.L][k.R] {
			rep.Fail("C11", "contain", "the forest claims a symbol over an extent it does not derive", det("symbol", k))
		}
	}
	for b := range got {
		if !cont[fmt.Sprintf("%s,%d,%d", b.NT, b.L, b.R)] {
			rep.Fail("C11", "contain", "the forest denies a symbol it contains", det("symbol", b.String()))
		}
	}
	amb := false
	for _, e := range r.BSR {
		b := b2(e.K)
		alt := x.f.Rule[b.NT].Alts[b.Alt]
		var syms []string
		for _, s := range alt {
			syms = append(syms, s.Name)
		}
		if strings.Join(syms, " ") != strings.Join(e.Syms, " ") {
			rep.Fail("C10", "symbols", "a grammar slot has the wrong symbols", det("subtree", b.String(), "got", e.Syms, "want", syms))
			return
		}
		if !useful[b] {
			continue
		}
		ni := 0
		single := true
		var nch int
		for k, s := range alt {
			if s.K != gram.NT {
				continue
			}
			var exts [][2]int
			if k == len(alt)-1 {
				exts = [][2]int{{b.P, b.R}}
			} else {
				exts = ch.Extents(b.NT, b.Alt, len(alt)-1, k, b.L, b.P)
			}
			var wantc []string
			for _, x2 := range exts {
				for _, c := range ch.BSRs(s.Name, x2[0], x2[1]) {
					wantc = append(wantc, c.String())
				}
			}
			sort.Strings(wantc)
			if len(wantc) != 1 {
				single = false
				amb = true
			}
			i := k
			_ = i
			var gotc []string
			errs := ""
			if idx := k; idx < len(e.Ch) {
				for _, c := range e.Ch[idx] {
					gotc = append(gotc, b2(c).String())
				}
			}
			if k < len(e.Err) {
				errs = e.Err[k]
			}
			sort.Strings(gotc)
			if errs != "" || strings.Join(gotc, " ") != strings.Join(wantc, " ") {
				rep.Fail("C12", "children", "the children of a subtree are not the derivations of its symbol", det("subtree", b.String(), "symbol", k, "got", gotc, "want", wantc, "error", errs))
				return
			}
			ni++
			nch++
		}
		if len(e.Note) > 0 {
			rep.Fail("C12", "accessors", "two ways of reading the children disagree", det("subtree", b.String(), "notes", e.Note))
			return
		}
		if e.N != nch {
			rep.Fail("C12", "all-children", "the list of all children has the wrong length", det("subtree", b.String(), "got", e.N, "want", nch))
		}
		if single {
			pos := b.L
			for k, s := range alt {
				if s.K == gram.NT {
					if k == len(alt)-1 {
						break
					}
					pos = ch.Extents(b.NT, b.Alt, len(alt)-1, k, b.L, b.P)[0][1]
					continue
				}
				for _, t := range e.Tok {
					if t[0] == k && t[1] != pos {
						rep.Fail("C12", "token", "a terminal child is the wrong token", det("subtree", b.String(), "symbol", k, "got", t[1], "want", pos))
						return
					}
				}
				pos++
			}
		}
	}
	if len(wroots) != 1 {
		amb = true
	}
	if r.Amb != "" {
		w := "no"
		if amb {
			w = "yes"
		}
		if r.Amb != w {
			rep.Fail("C12", "ambiguity", "the ambiguity test is wrong", det("got", r.Amb, "want", w))
		}
	}
	if r.SPPF != "" {
		rep.Eval("C13", key, sample)
		want := sppf(x.f, ch, in)
		var g []string
		for _, l := range strings.Split(r.SPPF, "\n") {
			g = append(g, canon(l))
		}
		sort.Strings(g)
		if strings.Join(g, "\n") != strings.Join(want, "\n") {
			rep.Fail("C13", "forest", "the shared packed parse forest is not the set of derivations", det("got", g, "want", want))
		}
	}
}

// canon sorts the children of symbol and intermediate nodes.
func canon(l string) string {
	i := strings.Index(l, " ->")
	if strings.Contains(l[i:], " | ") {
		return l
	}
	parts := split(l[i+3:])
	sort.Strings(parts)
	return l[:i+3] + " " + strings.Join(parts, " ")
}

func split(s string) (out []string) {
	for {
		i := strings.Index(s, "\"")
		if i < 0 {
			return
		}
		j := strings.Index(s[i+1:], "\"") + i + 1
		out = append(out, s[i:j+1])
		s = s[j+1:]
	}
}

func slotStr(nt string, a []gram.Sym, pos int) string {
	s := nt + ":"
	for i, x := range a {
		s += " "
		if i == pos {
			s += "•"
		}
		s += x.Name
	}
	if pos == len(a) {
		s += "•"
	}
	return s
}

// sppf lists the nodes of the forest of all derivations.
func sppf(f *gram.CFG, ch *gram.Chart, in []string) []string {
	seen := map[string]bool{}
	var out []string
	q := func(s string) string { return "\"" + s + "\"" }
	var symbol func(s gram.Sym, i, j int) string
	var packed func(nt string, k, pos, i, m, j int) string
	var inter func(nt string, k, pos, i, j int) string
	symbol = func(s gram.Sym, i, j int) string {
		l := q(fmt.Sprintf("%s,%d,%d", s.Name, i, j))
		if seen[l] {
			return l
		}
		seen[l] = true
		var cs []string
		if s.K == gram.NT {
			for _, b := range ch.BSRs(s.Name, i, j) {
				cs = append(cs, packed(b.NT, b.Alt, len(f.Rule[b.NT].Alts[b.Alt]), b.L, b.P, b.R))
			}
		}
		sort.Strings(cs)
		out = append(out, l+" -> "+strings.Join(cs, " "))
		return l
	}
	inter = func(nt string, k, pos, i, j int) string {
		a := f.Rule[nt].Alts[k]
		l := q(fmt.Sprintf("%s:,%d,%d", slotStr(nt, a, pos), i, j))
		if seen[l] {
			return l
		}
		seen[l] = true
		var cs []string
		ps := ch.P[gram.PKey(nt, k)]
		for m := i; m <= j; m++ {
			if ps[pos-1][i][m] && ch.Sym(a[pos-1], m, j) {
				cs = append(cs, packed(nt, k, pos, i, m, j))
			}
		}
		sort.Strings(cs)
		out = append(out, l+" -> "+strings.Join(cs, " "))
		return l
	}
	packed = func(nt string, k, pos, i, m, j int) string {
		a := f.Rule[nt].Alts[k]
		l := q(fmt.Sprintf("%s,%d,%d,%d", slotStr(nt, a, pos), i, m, j))
		if seen[l] {
			return l
		}
		seen[l] = true
		left, right := "", ""
		if len(a) == 0 {
			right = symbol(gram.Sym{K: gram.Lit, Name: "ϵ"}, i, i)
		} else {
			right = symbol(a[pos-1], m, j)
			if pos == 2 {
				left = " " + symbol(a[0], i, m)
			}
			if pos > 2 {
				left = " " + inter(nt, k, pos-1, i, m)
			}
		}
		out = append(out, l+" ->"+left+" | "+right)
		return l
	}
	symbol(gram.Sym{K: gram.NT, Name: f.Start()}, 0, len(in))
	sort.Strings(out)
	return out
}

func errors(x *gc, in []string, r *e2e.Res, det func(...any) map[string]any) {
	if len(r.Errs) == 0 {
		return
	}
	toks := append(append([]string{}, in...), "$")
	txt := []rune(text(x.f, in))
	prod := len(x.f.Productive()) == len(x.f.NTs)
	for i, e := range r.Errs {
		pos := -1
		for k, t := range r.Toks {
			if t.L == e.L && (k == len(r.Toks)-1 || t.R > t.L) {
				pos = k
				break
			}
		}
		if pos < 0 || e.Tok != toks[pos] {
			rep.Fail("C14", "token", "an error is not at a token of the input", det("error", e.Str))
			return
		}
		line, col := 1, 1
		for _, c := range txt[:e.L] {
			col++
			if c == '\n' {
				line, col = line+1, 1
			}
		}
		if e.Line != line || e.Col != col {
			rep.Fail("C14", "linecol", "an error has the wrong line or column", det("error", e.Str))
			return
		}
		if i > 0 && r.Errs[i-1].L < e.L {
			rep.Fail("C14", "order", "the errors are not in descending order of position", det("errors", len(r.Errs)))
			return
		}
		for _, t := range e.Exp {
			if t == e.Tok {
				rep.Fail("C14", "expected", "the token at which an error occurred is among the expected ones", det("error", e.Str))
				return
			}
			if strings.HasPrefix(t, "?") {
				rep.Fail("C14", "expected-name", "an expected token has the wrong name", det("error", e.Str))
				return
			}
		}
	}
	if prod {
		v := x.f.ViablePrefix(in)
		if v < len(r.Toks) && r.Errs[0].L != r.Toks[v].L {
			rep.Fail("C14", "furthest", "the first error is not at the end of the longest viable prefix", det("viable prefix", v, "error", r.Errs[0].Str))
			return
		}
		// every token that continues the viable prefix is expected by one of the errors
		// there (follow sets make the tests inexact when a nonterminal is nullable)
		if len(x.f.Nullable()) > 0 {
			return
		}
		want := map[string]bool{}
		for _, t := range append(append([]string{}, x.f.Terms...), "$") {
			if t == "$" {
				if x.f.Parse(in[:v]).Accept() {
					want[t] = true
				}
				continue
			}
			if x.f.ViablePrefix(append(append([]string{}, in[:v]...), t)) == v+1 {
				want[t] = true
			}
		}
		have := map[string]bool{}
		for _, e := range r.Errs {
			if e.L == r.Toks[v].L {
				for _, t := range e.Exp {
					have[t] = true
				}
			}
		}
		for t := range want {
			if !have[t] {
				rep.Fail("C14", "missing", "a token that could continue the input is not among the expected ones", det("token", t, "error", r.Errs[0].Str))
				return
			}
		}
	}
}
