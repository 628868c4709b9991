// Command lexer compares the lexers gogll generates with a reference automaton.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"gv.test/oracle/e2e"
	"gv.test/oracle/gram"
	"gv.test/oracle/rep"
)

type gc struct {
	c  *e2e.Case
	g  *gram.Grammar
	st []*gram.DFAState
	n  *gram.NFA
}

func main() {
	defer rep.Flush()
	rng := rand.New(rand.NewSource(rep.Seed()))
	var gcs []*gc
	seen := map[string]bool{}
	add := func(g *gram.Grammar, st []*gram.DFAState, n *gram.NFA) {
		c := &e2e.Case{Name: fmt.Sprintf("g%d", len(gcs)), Text: g.String()}
		if len(gcs)%5 == 4 {
			c.File = "g.md"
			c.Text = "Title \"x\" 'y\n\n```\n" + c.Text + "```\ntext ; : |\n"
		}
		gcs = append(gcs, &gc{c, g, st, n})
	}
	for _, mk := range fixed {
		g := mk()
		g.Pkg = fmt.Sprintf("gv.test/ws/g%d", len(gcs))
		n := gram.BuildNFA(g)
		st, ok := n.DFA(g.Alphabet(), 100)
		if !ok {
			rep.Note("C03", "fixed grammar outside the domain: "+g.String())
			continue
		}
		add(g, st, n)
	}
	want := rep.Scale(110, 500)
	for tries := 0; len(gcs) < want && tries < 20000; tries++ {
		g, st, n := gram.LexGrammar(rng, fmt.Sprintf("gv.test/ws/g%d", len(gcs)))
		if g == nil || len(st) < 2 {
			continue
		}
		k := g.String()
		if seen[k[strings.Index(k, "\n"):]] {
			continue
		}
		seen[k[strings.Index(k, "\n"):]] = true
		add(g, st, n)
	}
	var cs []*e2e.Case
	for _, x := range gcs {
		cs = append(cs, x.c)
	}
	ws, err := e2e.Run("lex", cs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	rep.Rule("C03", "generated lexers", "random and hand-picked lexical grammars whose rune sets are nested or disjoint; every state of the reference automaton is entered and every alphabet class tried; a case is one input, distinct by grammar and input")
	rep.Rule("C01", "generated lexers", "the same inputs; checks that tokens tile the input, that progress is made and that the end-of-file token comes last")
	rep.Rule("C02", "generated lexers", "the same inputs; extents and error tokens against the longest run of the reference automaton")
	for _, x := range gcs {
		if x.c.Failed() || x.c.Exit != 0 {
			rep.Fail("C03", "gogll-fails", "gogll rejects, crashes or loops on a grammar in the domain", map[string]any{"grammar": x.c.Text, "exit": x.c.Exit, "timeout": x.c.TimedOut, "output": x.c.Out})
		}
	}
	if err := ws.Compile(cs, nil); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var reqs []e2e.Req
	type meta struct {
		x  *gc
		in []rune
	}
	var ms []meta
	for _, x := range gcs {
		if x.c.Compile != "" {
			rep.Fail("C03", "does-not-compile", "the generated lexer does not compile", map[string]any{"grammar": x.c.Text, "output": x.c.Compile})
		}
		if !x.c.Driven {
			continue
		}
		for _, in := range inputs(rng, x) {
			reqs = append(reqs, e2e.Req{G: x.c.Name, Op: "lex", In: string(in)})
			ms = append(ms, meta{x, in})
		}
	}
	for i, r := range ws.Do(reqs) {
		check(ms[i].x, ms[i].in, r)
	}
	tables(ws, gcs)
	literals(ws, gcs, rng)
	markdown(ws, gcs, rng)
}

func inputs(rng *rand.Rand, x *gc) (ins [][]rune) {
	alpha := x.g.Alphabet()
	for _, s := range x.st {
		ins = append(ins, s.Access)
		for _, r := range alpha {
			in := append(append([]rune{}, s.Access...), r)
			ins = append(ins, in)
		}
	}
	if len(ins) > 500 {
		rng.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
		ins = ins[:500]
	}
	ws := []rune(" \n\t\u00a0\u2028")
	n := rep.Scale(50, 200)
	for i := 0; i < n; i++ {
		var in []rune
		s := 0
		for k := rng.Intn(12); k >= 0; k-- {
			switch {
			case rng.Intn(7) == 0:
				in = append(in, ws[rng.Intn(len(ws))])
				s = 0
			case rng.Intn(5) == 0 || len(x.st[s].Next) == 0:
				in = append(in, alpha[rng.Intn(len(alpha))])
				s = 0
			default:
				var rs []rune
				for r := range x.st[s].Next {
					rs = append(rs, r)
				}
				sort.Slice(rs, func(a, b int) bool { return rs[a] < rs[b] })
				r := rs[rng.Intn(len(rs))]
				in = append(in, r)
				s = x.st[s].Next[r]
			}
		}
		if rng.Intn(6) == 0 {
			in = append(in, ws[rng.Intn(3)])
		}
		ins = append(ins, in)
	}
	ins = append(ins, nil)
	return
}

func toks(r *e2e.Res) string {
	var ss []string
	for _, t := range r.Toks {
		ss = append(ss, fmt.Sprintf("%s(%d,%d)", t.ID, t.L, t.R))
	}
	return strings.Join(ss, " ")
}

func check(x *gc, in []rune, r *e2e.Res) {
	det := func() map[string]any {
		return map[string]any{"grammar": x.c.Text, "input": string(in), "got": toks(r), "panic": r.Panic, "timeout": r.Timeout}
	}
	key := x.c.Name + "/" + string(in)
	for _, p := range []string{"C01", "C02", "C03", "C05", "C06"} {
		rep.Eval(p, key, fmt.Sprintf("grammar %q input %q tokens %s", x.g.String(), string(in), toks(r)))
	}
	if r.Panic != "" || r.Timeout {
		rep.Fail("C01", "lexer-fails", "the generated lexer panics or does not end", det())
		return
	}
	sup := map[string]bool{}
	for _, l := range x.g.Lex {
		if l.Suppress {
			sup[l.ID] = true
		}
	}
	fail := func(p, k, w string) { rep.Fail(p, k, w, det()) }
	// C01
	n := len(r.Toks)
	if n == 0 || r.Toks[n-1].ID != "$" || r.Toks[n-1].Name != "EOF" || r.Toks[n-1].L != len(in) || r.Toks[n-1].R != len(in) {
		fail("C01", "eof", "the token list does not end with the end-of-file token at the end of the input")
		return
	}
	prev := 0
	for i, t := range r.Toks {
		if i < n-1 && (t.R <= t.L || t.ID == "$") || t.L < prev || t.R > len(in) {
			fail("C01", "tiling", "tokens overlap, are empty or leave the input")
			return
		}
		if len(sup) == 0 {
			for k := prev; k < t.L; k++ {
				if !unicode.IsSpace(in[k]) {
					fail("C01", "gap", "a rune that is not white space is in no token")
					return
				}
			}
		}
		if i < n-1 && unicode.IsSpace(in[t.L]) {
			fail("C01", "space", "a token starts with white space")
		}
		prev = t.R
	}
	// reference
	want := x.n.Scan(in, sup)
	d := det()
	d["want"] = fmt.Sprint(want)
	for i, w := range want {
		if i >= n {
			rep.Fail("C02", "tokens", "tokens are missing", d)
			rep.Fail("C03", "tokens", "tokens are missing", d)
			break
		}
		t := r.Toks[i]
		id := t.ID
		if id == "$" {
			id = "EOF"
		}
		ok := false
		for _, a := range w.IDs {
			ok = ok || a == id
		}
		if t.L != w.L || t.R != w.R || (id == "Error") != (w.IDs[0] == "Error") || (id == "EOF") != (w.IDs[0] == "EOF") {
			rep.Fail("C02", "tokens", "a token is not the longest run of the automaton at its position", d)
			rep.Fail("C03", "tokens", "the generated lexer does not behave as the automaton of the lexical rules", d)
			if len(sup) > 0 {
				rep.Fail("C07", "suppress", "the unsuppressed tokens are not the expected ones", d)
			}
			break
		}
		if !ok {
			rep.Fail("C03", "type", "a token has the wrong type", d)
			break
		}
	}
	if n > len(want) {
		rep.Fail("C02", "tokens", "there are more tokens than the automaton yields", d)
		if len(sup) > 0 {
			rep.Fail("C07", "suppress", "a suppressed token was kept", d)
		}
	}
	// C05, C06, C07
	for i, t := range r.Toks {
		ln, col := lineCol(in, t.L)
		if t.Line != ln || t.Col != col || t.L2 != ln || t.C2 != col || t.L3 != ln || t.C3 != col {
			d["token"] = i
			d["line,col want"] = fmt.Sprintf("%d,%d", ln, col)
			d["line,col got"] = fmt.Sprintf("%d,%d / %d,%d / %d,%d", t.Line, t.Col, t.L2, t.C2, t.L3, t.C3)
			rep.Fail("C05", "linecol", "wrong line or column", d)
		}
		lit := string(in[t.L:t.R])
		if t.Lit != lit || t.LitS != lit || !t.Same {
			rep.Fail("C06", "literal", "a token's literal is not the input between its extents", d)
		}
		un := unesc(in[t.L:t.R])
		if t.Strip != un || t.StripS != un {
			d["stripped got"], d["stripped want"] = t.Strip, un
			rep.Fail("C06", "strip", "escapes are not stripped as specified", d)
		}
		if t.Sup {
			rep.Fail("C07", "suppressed-token", "a suppressed token is in the token list", d)
		}
		if t.TID != t.ID || t.Str != fmt.Sprintf("%s (%d,%d) %s", t.ID, t.L, t.R, lit) {
			rep.Fail("C07", "names", "token type names disagree", d)
		}
	}
}

func lineCol(in []rune, n int) (l, c int) {
	l, c = 1, 1
	for _, r := range in[:n] {
		switch r {
		case '\n':
			l, c = l+1, 1
		case '\t':
			c += 4
		default:
			c++
		}
	}
	return
}

// unesc: a backslash and the rune after it stand for one rune; a backslash at the end
// stands for itself.
func unesc(in []rune) string {
	var out []rune
	for i := 0; i < len(in); i++ {
		if in[i] == '\\' && i+1 < len(in) {
			i++
			switch in[i] {
			case 'n':
				out = append(out, '\n')
			case 't':
				out = append(out, '\t')
			case 'r':
				out = append(out, '\r')
			default:
				out = append(out, in[i])
			}
			continue
		}
		out = append(out, in[i])
	}
	return string(out)
}

func tables(ws *e2e.Workspace, gcs []*gc) {
	rep.Rule("C07", "generated token tables", "every generated token package: names, identifiers, suppression flags and the maps between them; a case is one grammar, distinct by its set of tokens")
	var reqs []e2e.Req
	var xs []*gc
	for _, x := range gcs {
		if x.c.Driven {
			reqs = append(reqs, e2e.Req{G: x.c.Name, Op: "table"})
			xs = append(xs, x)
		}
	}
	for i, r := range ws.Do(reqs) {
		x := xs[i]
		var want []string
		want = append(want, x.g.Literals()...)
		sup := map[string]bool{}
		for _, l := range x.g.Lex {
			want = append(want, l.ID)
			sup[l.ID] = l.Suppress
		}
		sort.Strings(want)
		want = append([]string{"Error", "$"}, want...)
		rep.Eval("C07", strings.Join(want, " "), strings.Join(want, " "))
		d := map[string]any{"grammar": x.c.Text, "want": want, "panic": r.Panic}
		var got []string
		for _, t := range r.Toks {
			got = append(got, fmt.Sprintf("%d:%s:%s id->%d name->%d sup=%v", t.Type, t.ID, t.Name, t.L, t.R, t.Sup))
		}
		d["got"] = got
		if len(r.Toks) != len(want) {
			rep.Fail("C07", "table-size", "the token table does not list every terminal once", d)
			continue
		}
		ids, names := map[string]bool{}, map[string]bool{}
		for k, t := range r.Toks {
			if k > 1 && x.g.Syn == nil && t.ID == "" {
				break
			}
			ids[t.ID], names[t.Name] = true, true
			nm := fmt.Sprintf("T_%d", k-2)
			if k == 0 {
				nm = "Error"
			}
			if k == 1 {
				nm = "EOF"
			}
			if t.Name != nm {
				rep.Fail("C07", "table-name", "a token type has the wrong name", d)
				break
			}
			if t.L != k || t.R != k || t.L2 != len(want) || t.C2 != len(want) || t.L3 != len(want) || t.C3 != len(want) {
				rep.Fail("C07", "table-maps", "the token maps are not inverse", d)
				break
			}
			if t.Sup != sup[t.ID] {
				rep.Fail("C07", "table-suppress", "wrong suppression flag", d)
				break
			}
		}
		for _, w := range want {
			if !ids[w] {
				rep.Fail("C07", "table-ids", "a terminal of the grammar has no token type", d)
				break
			}
		}
	}
}

func literals(ws *e2e.Workspace, gcs []*gc, rng *rand.Rand) {
	rep.Rule("C06", "generated tokens", "literals of every token of the lexer inputs, plus random rune strings with backslashes and random extents; a case is one token text")
	var name string
	for _, x := range gcs {
		if x.c.Driven {
			name = x.c.Name
			break
		}
	}
	if name == "" {
		return
	}
	al := []rune(`\\\nrt"'ab` + "\n\t\\é")
	var reqs []e2e.Req
	for i := 0; i < rep.Scale(3000, 30000); i++ {
		n := rng.Intn(9)
		in := make([]rune, n)
		for k := range in {
			in[k] = al[rng.Intn(len(al))]
		}
		a := rng.Intn(n + 1)
		b := a + rng.Intn(n-a+1)
		if i < 30 {
			a, b = 0, n
		}
		reqs = append(reqs, e2e.Req{G: name, Op: "strip", In: string(in), A: a, B: b})
	}
	for i, r := range ws.Do(reqs) {
		q := reqs[i]
		in := []rune(q.In)[q.A:q.B]
		w := unesc(in)
		rep.Eval("C06", string(in), fmt.Sprintf("%q -> %q", string(in), r.I))
		if r.Panic != "" || r.I != w || r.S != w {
			rep.Fail("C06", "strip", "escapes are not stripped as specified", map[string]any{"input": q.In, "lext": q.A, "rext": q.B, "got": r.I, "gotString": r.S, "want": w, "panic": r.Panic})
		}
	}
	// strings between tokens
	var rs []e2e.Req
	for _, x := range gcs {
		if !x.c.Driven {
			continue
		}
		for k := 0; k < 5; k++ {
			ins := inputs(rng, x)
			rs = append(rs, e2e.Req{G: x.c.Name, Op: "lex", In: string(ins[rng.Intn(len(ins))])})
		}
	}
	var q2 []e2e.Req
	var want []string
	for i, r := range ws.Do(rs) {
		for k := 0; k < 3 && len(r.Toks) > 0; k++ {
			a := rng.Intn(len(r.Toks))
			b := a + rng.Intn(len(r.Toks)-a)
			q2 = append(q2, e2e.Req{G: rs[i].G, Op: "str", In: rs[i].In, A: a, B: b})
			want = append(want, string([]rune(rs[i].In)[r.Toks[a].L:r.Toks[b].R]))
		}
	}
	for i, r := range ws.Do(q2) {
		rep.Eval("C06", "str/"+q2[i].G+q2[i].In+fmt.Sprint(q2[i].A, q2[i].B), "")
		if r.Panic != "" || r.I != want[i] {
			rep.Fail("C06", "getstring", "the string of a range of tokens is wrong", map[string]any{"input": q2[i].In, "from": q2[i].A, "to": q2[i].B, "got": r.I, "want": want[i], "panic": r.Panic})
		}
	}
}

// mdRef blanks everything outside fenced blocks, and the fences.
func mdRef(in []rune) string {
	out := append([]rune{}, in...)
	text := true
	for i := 0; i < len(in); {
		if i+3 <= len(in) && in[i] == '`' && in[i+1] == '`' && in[i+2] == '`' {
			text = !text
			out[i], out[i+1], out[i+2] = ' ', ' ', ' '
			i += 3
			continue
		}
		if text && in[i] != '\n' {
			out[i] = ' '
		}
		i++
	}
	return string(out)
}

func markdown(ws *e2e.Workspace, gcs []*gc, rng *rand.Rand) {
	rep.Rule("C04", "generated lexers reading files", "random files over back-ticks, newlines and text, read with and without the .md suffix; a case is one file")
	var name string
	for _, x := range gcs {
		if x.c.Driven {
			name = x.c.Name
			break
		}
	}
	if name == "" {
		return
	}
	dir := filepath.Join(ws.Dir, "files")
	os.MkdirAll(dir, 0o755)
	var reqs []e2e.Req
	var want, src []string
	sufs := []string{".md", ".md", ".md", ".txt", ".gogll", "md", ".MD", ".mdx"}
	for i := 0; i < rep.Scale(600, 5000); i++ {
		var b strings.Builder
		for k := rng.Intn(12); k >= 0; k-- {
			b.WriteString([]string{"```", "`", "``", "\n", "a", " b", "\t", "é", "````", "'\"", "\r\n"}[rng.Intn(11)])
		}
		suf := sufs[rng.Intn(len(sufs))]
		f := filepath.Join(dir, fmt.Sprintf("f%d%s", i, suf))
		os.WriteFile(f, []byte(b.String()), 0o644)
		w := b.String()
		if strings.HasSuffix(suf, ".md") {
			w = mdRef([]rune(w))
		}
		reqs = append(reqs, e2e.Req{G: name, Op: "lexfile", In: f})
		want = append(want, w)
		src = append(src, suf+": "+b.String())
	}
	for i, r := range ws.Do(reqs) {
		rep.Eval("C04", src[i], fmt.Sprintf("%q", src[i]))
		if r.Panic != "" || r.Timeout || r.I != want[i] {
			rep.Fail("C04", "load", "a file is not loaded as specified", map[string]any{"suffix: contents": src[i], "got": r.I, "want": want[i], "panic": r.Panic})
		}
	}
}

func ch(r rune) *gram.Re                       { return &gram.Re{K: gram.Char, R: r} }
func cl(c string) *gram.Re                     { return &gram.Re{K: gram.Class, Class: c} }
func set(s string) *gram.Re                    { return &gram.Re{K: gram.AnyOf, Set: []rune(s)} }
func not(s string) *gram.Re                    { return &gram.Re{K: gram.Not, Set: []rune(s)} }
func dot() *gram.Re                            { return &gram.Re{K: gram.Any} }
func ref(s string) *gram.Re                    { return &gram.Re{K: gram.Ref, Ref: long(s)} }
func seq(e ...*gram.Re) []*gram.Re             { return e }
func br(k gram.Kind, a ...[]*gram.Re) *gram.Re { return &gram.Re{K: k, Alts: a} }
func rule(id string, e ...*gram.Re) *gram.LexRule {
	return &gram.LexRule{ID: long(id), Body: e}
}
// token identifiers have at least two characters
func long(s string) string {
	if len(s) == 1 {
		return s + "1"
	}
	return s
}
func sup(r *gram.LexRule) *gram.LexRule     { r.Suppress = true; return r }
func lex(rs ...*gram.LexRule) *gram.Grammar { return &gram.Grammar{Lex: rs} }
func lits(g *gram.Grammar, ls ...string) *gram.Grammar {
	r := &gram.SynRule{NT: "S"}
	for _, l := range ls {
		r.Alts = append(r.Alts, []gram.Sym{{K: gram.Lit, Name: l}})
	}
	g.Syn = append(g.Syn, r)
	return g
}

var fixed = []func() *gram.Grammar{
	// identifiers, numbers and keywords
	func() *gram.Grammar {
		return lits(lex(rule("id", cl("letter"), br(gram.Star, seq(cl("letter")), seq(cl("number")), seq(ch('_')))), rule("num", br(gram.Plus, seq(cl("number"))))), "if", "then", "else", "i", "=", "==", "=>")
	},
	// strings with escapes
	func() *gram.Grammar {
		return lex(rule("str", ch('"'), br(gram.Star, seq(not("\\\"")), seq(ch('\\'), set("\\\"nrt"))), ch('"')), rule("chr", ch('\''), br(gram.Group, seq(not("'")), seq(ch('\\'), set("\\'nrt"))), ch('\'')))
	},
	// comments, suppressed
	func() *gram.Grammar {
		return lex(sup(rule("line", ch('/'), ch('/'), br(gram.Star, seq(not("\n"))))), sup(rule("block", ch('/'), ch('*'), br(gram.Star, seq(not("*")), seq(ch('*'), not("/"))), ch('*'), ch('/'))), rule("id", br(gram.Plus, seq(cl("letter")))), rule("div", ch('/')))
	},
	// numbers
	func() *gram.Grammar {
		return lex(rule("dec", br(gram.Plus, seq(cl("number"))), br(gram.Opt, seq(ch('.'), br(gram.Plus, seq(cl("number")))), seq(ch('e'), br(gram.Opt, seq(set("+-"))), br(gram.Plus, seq(cl("number")))))))
	},
	// upper inside letter inside any
	func() *gram.Grammar {
		return lex(rule("up", cl("upcase"), br(gram.Star, seq(cl("letter")))), rule("lo", cl("lowcase"), br(gram.Star, seq(cl("lowcase")))), rule("l", cl("letter"), cl("letter"), ch('!')), rule("x", ch('X'), dot(), ch('X')), rule("n", cl("number"), dot()))
	},
	func() *gram.Grammar {
		return lex(rule("a", br(gram.Star, seq(ch('x')), seq(ch('y'))), ch('x'), ch('z')))
	},
	func() *gram.Grammar {
		return lex(rule("q", ch('"'), br(gram.Plus, seq(not("\""))), ch('"')), rule("p", ch('"'), cl("letter")))
	},
	func() *gram.Grammar {
		return lex(rule("a", set("ab"), ch('c')), rule("b", set("abc"), ch('d')), rule("c", ch('a'), ch('e')), rule("d", cl("lowcase"), ch('f')), rule("e", cl("letter"), ch('g')), rule("f", dot(), ch('h')))
	},
	func() *gram.Grammar {
		return lex(rule("a", set("a"), ch('c')), rule("b", ch('a'), ch('d')), rule("c", set("a"), ch('d')))
	},
	func() *gram.Grammar {
		return lex(rule("a", not("a"), ch('1')), rule("b", not("ab"), ch('2')), rule("c", not("abc"), ch('3')), rule("d", ch('d'), ch('4')))
	},
	func() *gram.Grammar {
		return lex(rule("a", cl("letter"), cl("number"), cl("upcase")), rule("b", cl("upcase"), cl("number")), rule("c", cl("number"), cl("lowcase")), rule("d", cl("lowcase"), cl("number")))
	},
	func() *gram.Grammar {
		return lex(rule("d", cl("number")), rule("dd", ref("d"), br(gram.Plus, seq(ref("d")))), rule("x", ch('x'), br(gram.Opt, seq(ref("dd"))), ch('x')))
	},
	func() *gram.Grammar {
		return lex(rule("a", ch('a'), ch('b'), ch('c')), rule("b", ref("a"), ch('x')), rule("c", ref("b"), ch('y')), rule("d", ref("b"), ch('z')), rule("e", ch('q'), ref("b")), rule("f", ref("b"), br(gram.Plus, seq(ref("d")), seq(ref("a")), seq(ch('w')))))
	},
	func() *gram.Grammar {
		return lex(rule("w", ch('a'), br(gram.Star, seq(br(gram.Opt, seq(ch('b'))), ch('c'))), br(gram.Plus, seq(br(gram.Group, seq(ch('d')), seq(ch('e'), ch('f'))))), br(gram.Opt, seq(br(gram.Opt, seq(ch('g')))))))
	},
	func() *gram.Grammar {
		return lex(rule("w", ch('a'), br(gram.Star, seq(br(gram.Opt, seq(ch('b'))))), ch('c')), rule("v", ch('x'), br(gram.Plus, seq(br(gram.Star, seq(ch('y'))))), ch('z')))
	},
	func() *gram.Grammar {
		return lex(&gram.LexRule{ID: "id", Body: seq(&gram.Re{K: gram.USet, Incl: []string{"L", "Nl", "Other_ID_Start"}, Excl: []string{"Pattern_Syntax", "Pattern_White_Space"}}, br(gram.Star, seq(&gram.Re{K: gram.USet, Incl: []string{"Nd", "Pc"}})))})
	},
	func() *gram.Grammar {
		return lits(lex(rule("k", ch('a'), br(gram.Opt, seq(ch('b'), ch('c'), ch('d'))))), "ab", "abcde", "b", "\\", "\"", "'", "%d", "{{")
	},
	func() *gram.Grammar {
		return lex(rule("w", set(" \t"), ch('a')), rule("n", ch('\n'), ch('b')), rule("q", ch('\''), ch('\\')), rule("x", not("\"\\\n'"), ch('"')))
	},
}
