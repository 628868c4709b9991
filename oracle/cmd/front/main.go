// Command front checks gogll's front end (C19) and that its output is deterministic (C20).
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"gv.test/oracle/e2e"
	"gv.test/oracle/gram"
	"gv.test/oracle/rep"
)

func main() {
	defer rep.Flush()
	rng := rand.New(rand.NewSource(rep.Seed()*9176 + 3))
	rep.Rule("C19", "front end", "random grammars with one fault planted (undefined nonterminal or token, forward reference, duplicate rule, uncalled nonterminal, white space in a literal), in random layout and as markdown: refused with the offender's name and place; the same grammars without the fault: the slots, terminals and lexical items gogll reports against the grammar that was printed. A case is one grammar, fault and option")
	rep.Rule("C20", "determinism", "random grammars, gogll's own and erroneous ones, for every kind of parser: all files and messages of several runs compared; a case is one grammar and option")
	prop := os.Getenv("GV_PROP")
	if prop == "" || prop == "C19" {
		frontend(rng)
	}
	if prop == "" || prop == "C20" {
		determinism(rng)
	}
}

var opts = [][]string{{"-gll"}, {"-knuth"}, {"-pager"}}

// grammar with syntax and lexical rules
func grammar(rng *rand.Rand) *gram.Grammar {
	for {
		g := gram.SynGrammar(rng, "gv.test/p")
		if l, _, _ := gram.LexGrammar(rng, ""); l != nil {
			for _, r := range l.Lex {
				if r.ID != "aa" {
					g.Lex = append(g.Lex, r)
				}
			}
			ok := true
			for _, r := range l.Lex {
				ok = ok && !refers(r.Body, "aa")
			}
			if !ok {
				continue
			}
		}
		rng.Shuffle(len(g.Syn[1:]), func(i, j int) { g.Syn[i+1], g.Syn[j+1] = g.Syn[j+1], g.Syn[i+1] })
		return g
	}
}

func refers(es []*gram.Re, id string) bool {
	for _, e := range es {
		if e.K == gram.Ref && e.Ref == id {
			return true
		}
		for _, a := range e.Alts {
			if refers(a, id) {
				return true
			}
		}
	}
	return false
}

// units are the words of the grammar's text.
func units(g *gram.Grammar) (us []string) {
	us = append(us, "package", gram.QuoteStr(g.Pkg))
	for _, r := range g.Lex {
		if r.Suppress {
			us = append(us, "!")
		}
		us = append(us, r.ID, ":")
		us = append(us, reUnits(r.Body)...)
		us = append(us, ";")
	}
	for _, r := range g.Syn {
		us = append(us, r.NT, ":")
		for i, a := range r.Alts {
			if i > 0 {
				us = append(us, "|")
			}
			for _, s := range a {
				us = append(us, s.String())
			}
			if len(a) == 0 {
				us = append(us, "empty")
			}
		}
		us = append(us, ";")
	}
	return
}

func reUnits(es []*gram.Re) (us []string) {
	for _, e := range es {
		switch e.K {
		case gram.AnyOf:
			us = append(us, "any", gram.QuoteStr(string(e.Set)))
		case gram.Not:
			us = append(us, "not", gram.QuoteStr(string(e.Set)))
		case gram.Group, gram.Opt, gram.Star, gram.Plus:
			br := map[gram.Kind]string{gram.Group: "()", gram.Opt: "[]", gram.Star: "{}", gram.Plus: "<>"}[e.K]
			us = append(us, br[:1])
			for i, a := range e.Alts {
				if i > 0 {
					us = append(us, "|")
				}
				us = append(us, reUnits(a)...)
			}
			us = append(us, br[1:])
		default:
			us = append(us, e.String())
		}
	}
	return
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// layout prints the units with random white space. at[i] is the position of unit i.
func layout(rng *rand.Rand, us []string) (text string, at []int) {
	ws := [][]string{{" ", "\n"}, {" ", "  ", "\n", "\t", "\n\n  ", " \r\n"}}[rng.Intn(2)]
	var b strings.Builder
	n := 0
	put := func(s string) {
		b.WriteString(s)
		n += len([]rune(s))
	}
	tight := rng.Intn(2) == 0
	for i, u := range us {
		at = append(at, n)
		put(u)
		if tight && i+1 < len(us) && !(word(u[len(u)-1]) && word(us[i+1][0])) && us[i+1][0] != '\'' && rng.Intn(2) == 0 {
			continue
		}
		put(ws[rng.Intn(len(ws))])
	}
	return b.String(), at
}

// position as gogll counts it
func lineCol(text string, n int) (l, c int) {
	l, c = 1, 1
	for _, r := range []rune(text)[:n] {
		switch r {
		case '\n':
			l, c = l+1, 1
		case '\t':
			c += 4
		default:
			c++
		}
	}
	return
}

type fcase struct {
	c     *e2e.Case
	fault string
	want  []string // parts of the message
	g     *gram.Grammar
}

func frontend(rng *rand.Rand) {
	var fs []*fcase
	var cs []*e2e.Case
	n := rep.Scale(130, 900)
	for len(fs) < n {
		g := grammar(rng)
		fault := ""
		name := ""
		if rng.Intn(3) > 0 {
			fault, name = plant(rng, g)
			if fault == "" {
				continue
			}
		}
		us := units(g)
		text, at := layout(rng, us)
		f := &fcase{fault: fault, g: g}
		place := func(i int) (int, int) { return lineCol(text, at[i]) }
		file := "g.txt"
		md := rng.Intn(3) == 0
		if md {
			// everything moves down by the lines before the block
			text = "# title\n\nSome `text`, \"quotes\" and 'c'.\n```\n" + text + "\n```\nmore ; text :\n"
			for i := range at {
				at[i] += len([]rune("# title\n\nSome `text`, \"quotes\" and 'c'.\n```\n"))
			}
			file = "g.md"
		}
		find := func(ok func(i int) bool) int {
			for i := range us {
				if ok(i) {
					return i
				}
			}
			return -1
		}
		second := func(head string) int {
			n := 0
			return find(func(i int) bool {
				if us[i] == head && i+1 < len(us) && us[i+1] == ":" {
					n++
				}
				return n == 2
			})
		}
		switch fault {
		case "undefined-nonterminal":
			l, c := place(find(func(i int) bool { return us[i] == name }))
			f.want = []string{"syntax rule " + name, fmt.Sprintf("line %d col %d", l, c)}
		case "undefined-token":
			l, c := place(find(func(i int) bool { return us[i] == name }))
			f.want = []string{"lex rule " + name, fmt.Sprintf("line %d col %d", l, c)}
		case "forward-token":
			l, c := place(find(func(i int) bool { return us[i] == name && us[i+1] != ":" }))
			f.want = []string{"token " + name + " ", fmt.Sprintf(":%d:%d:", l, c)}
		case "duplicate-lex-rule":
			l, c := place(second(name))
			f.want = []string{"lex rule " + name, fmt.Sprintf(":%d:%d:", l, c)}
		case "duplicate-syntax-rule":
			l, c := place(second(name))
			f.want = []string{"syntax rule " + name, fmt.Sprintf(":%d:%d:", l, c)}
		case "white-space-literal":
			q := gram.QuoteStr(name)
			last := -1
			find(func(i int) bool {
				if us[i] == q {
					last = i
				}
				return false
			})
			l, c := place(last)
			f.want = []string{"whitespace", fmt.Sprintf(":%d:%d:", l, c)}
		case "uncalled":
			f.want = []string{name}
		}
		f.c = &e2e.Case{Name: fmt.Sprintf("f%d", len(fs)), Text: text, File: file, Args: append([]string{"-v"}, opts[rng.Intn(3)]...)}
		if fault == "" || fault == "uncalled" {
			f.c.Args = []string{"-v"}
		}
		fs = append(fs, f)
		cs = append(cs, f.c)
	}
	if _, err := e2e.Run("front", cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, f := range fs {
		det := map[string]any{"grammar": f.c.Text, "options": f.c.Args, "fault": f.fault, "exit": f.c.Exit, "output": f.c.Out, "timeout": f.c.TimedOut, "expected in the message": f.want}
		rep.Eval("C19", f.fault+f.c.Text, f.fault+": "+strings.ReplaceAll(f.c.Text, "\n", " "))
		if f.c.Failed() {
			rep.Fail("C19", "crash", "gogll crashes or does not end on a grammar", det)
			continue
		}
		if f.fault != "" {
			if f.c.Exit == 0 {
				rep.Fail("C19", "accepts-"+f.fault, "gogll accepts an ill-formed grammar: "+f.fault, det)
				continue
			}
			for _, w := range f.want {
				if !strings.Contains(f.c.Out, w) {
					rep.Fail("C19", "message-"+f.fault, "the message does not name the offender or its place: "+f.fault, det)
					break
				}
			}
			continue
		}
		if f.c.Exit != 0 {
			rep.Fail("C19", "refuses", "gogll refuses a well-formed grammar", det)
			continue
		}
		if got, want := slots(f.c.Dir), wantSlots(f.g); got != want {
			det["got"], det["want"] = got, want
			rep.Fail("C19", "rules", "the syntax rules gogll works with are not those of the file", det)
		}
		if got, want := symbols(f.c.Dir), wantSymbols(f.g); got != want {
			det["got"], det["want"] = got, want
			rep.Fail("C19", "symbols", "the symbols gogll works with are not those of the file", det)
		}
		if msg := lexItems(f.c.Dir, f.g); msg != "" {
			det["difference"] = msg
			rep.Fail("C19", "lex-rules", "the lexical rules gogll works with are not those of the file", det)
		}
	}
}

// plant puts one fault into the grammar
func plant(rng *rand.Rand, g *gram.Grammar) (fault, name string) {
	type occ struct{ r, a, k int }
	var occs []occ
	for r, x := range g.Syn {
		for a, y := range x.Alts {
			for k := range y {
				occs = append(occs, occ{r, a, k})
			}
		}
	}
	if len(occs) == 0 {
		return
	}
	o := occs[rng.Intn(len(occs))]
	sym := &g.Syn[o.r].Alts[o.a][o.k]
	switch rng.Intn(8) {
	case 0:
		*sym = gram.Sym{K: gram.NT, Name: "Undef"}
		return "undefined-nonterminal", "Undef"
	case 1:
		*sym = gram.Sym{K: gram.Tok, Name: "undef"}
		return "undefined-token", "undef"
	case 2, 3:
		if len(g.Lex) == 0 {
			return
		}
		// a reference to a later rule, or to itself
		i := rng.Intn(len(g.Lex))
		j := i + rng.Intn(len(g.Lex)-i)
		id := g.Lex[j].ID
		for _, r := range g.Lex[:i] {
			if refers(r.Body, id) {
				return
			}
		}
		es := []*gram.Re{{K: gram.Ref, Ref: id}}
		g.Lex[i].Body = append(append([]*gram.Re{}, g.Lex[i].Body...), es...)
		return "forward-token", id
	case 4:
		if len(g.Lex) == 0 {
			return
		}
		i := rng.Intn(len(g.Lex))
		j := i + 1 + rng.Intn(len(g.Lex)-i)
		d := &gram.LexRule{ID: g.Lex[i].ID, Suppress: rng.Intn(2) == 0, Body: []*gram.Re{{K: gram.Char, R: 'q'}}}
		g.Lex = append(g.Lex[:j:j], append([]*gram.LexRule{d}, g.Lex[j:]...)...)
		return "duplicate-lex-rule", d.ID
	case 5:
		i := rng.Intn(len(g.Syn))
		j := i + 1 + rng.Intn(len(g.Syn)-i)
		d := &gram.SynRule{NT: g.Syn[i].NT, Alts: [][]gram.Sym{{{K: gram.Lit, Name: "d"}}}}
		g.Syn = append(g.Syn[:j:j], append([]*gram.SynRule{d}, g.Syn[j:]...)...)
		return "duplicate-syntax-rule", d.NT
	case 6:
		s := []string{"a b", " ", "\t", "x\n", "\ry", "a ", "\\ "}[rng.Intn(7)]
		*sym = gram.Sym{K: gram.Lit, Name: s}
		return "white-space-literal", s
	default:
		j := 1 + rng.Intn(len(g.Syn))
		d := &gram.SynRule{NT: "Uncalled", Alts: [][]gram.Sym{{{K: gram.Lit, Name: "u"}}}}
		g.Syn = append(g.Syn[:j:j], append([]*gram.SynRule{d}, g.Syn[j:]...)...)
		return "uncalled", "Uncalled"
	}
}

func read(dir, f string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, f))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.Join(strings.Fields(l), " "); l != "" {
			out = append(out, l)
		}
	}
	return out
}

func sorted(ss []string) string {
	ss = append([]string{}, ss...)
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func slots(dir string) string { return sorted(read(dir, "grammar_slots.txt")) }

func wantSlots(g *gram.Grammar) string {
	var ss []string
	for _, r := range g.Syn {
		for _, a := range r.Alts {
			for k := 0; k <= len(a); k++ {
				s := r.NT + " : "
				for i, x := range a {
					if i == k {
						s += "∙"
					}
					s += x.Name + " "
				}
				if k == len(a) {
					s += "∙"
				}
				ss = append(ss, strings.Join(strings.Fields(s), " "))
			}
		}
	}
	return sorted(ss)
}

func symbols(dir string) string { return sorted(read(dir, "symbols.txt")) }

func wantSymbols(g *gram.Grammar) string {
	m := map[string]bool{}
	for _, r := range g.Lex {
		m[r.ID] = true
	}
	for _, r := range g.Syn {
		m[r.NT] = true
	}
	for _, l := range g.Literals() {
		m[l] = true
	}
	var ss []string
	for k := range m {
		ss = append(ss, k)
	}
	return sorted(ss)
}

func strip(s string) string { return strings.Join(strings.Fields(s), "") }

func expand(g *gram.Grammar, es []*gram.Re) (out []*gram.Re) {
	for _, e := range es {
		if e.K == gram.Ref {
			for _, r := range g.Lex {
				if r.ID == e.Ref {
					out = append(out, expand(g, r.Body)...)
				}
			}
			continue
		}
		c := *e
		c.Alts = nil
		for _, a := range e.Alts {
			c.Alts = append(c.Alts, expand(g, a))
		}
		out = append(out, &c)
	}
	return
}

// lexItems compares the items of the first state with the lexical rules.
func lexItems(dir string, g *gram.Grammar) string {
	b, _ := os.ReadFile(filepath.Join(dir, "lexfsa.txt"))
	txt := string(b)
	if i := strings.Index(txt, "Transitions:"); i >= 0 {
		txt = txt[:i]
	}
	for _, r := range g.Lex {
		var ss []string
		for _, e := range expand(g, r.Body) {
			ss = append(ss, reText(e))
		}
		want := strip(strings.Join(ss, " "))
		found := false
		for _, l := range strings.Split(txt, "\n") {
			if !strings.HasPrefix(l, "    "+r.ID+" : ") {
				continue
			}
			x := strip(strings.Replace(strings.TrimPrefix(l, "    "+r.ID+" : "), "•", "", 1))
			found = true
			if x != want {
				return fmt.Sprintf("%s: got %s want %s", r.ID, x, want)
			}
		}
		if !found {
			return r.ID + ": no item in the first state"
		}
	}
	return ""
}

// reText prints an expression the way gogll prints items (Unicode sets with commas).
func reText(e *gram.Re) string {
	if e.K == gram.USet {
		var ss []string
		for _, c := range e.Incl {
			ss = append(ss, "\\p{"+c+"}")
		}
		for _, c := range e.Excl {
			ss = append(ss, "-\\p{"+c+"}")
		}
		return "'[" + strings.Join(ss, ",") + "]'"
	}
	if e.Base() || e.K == gram.Ref {
		return e.String()
	}
	br := map[gram.Kind]string{gram.Group: "()", gram.Opt: "[]", gram.Star: "{}", gram.Plus: "<>"}[e.K]
	var as []string
	for _, a := range e.Alts {
		var ss []string
		for _, x := range a {
			ss = append(ss, reText(x))
		}
		as = append(as, strings.Join(ss, " "))
	}
	return br[:1] + strings.Join(as, "|") + br[1:]
}

type dcase struct {
	runs []*e2e.Case
	args []string
	text string
}

func determinism(rng *rand.Rand) {
	var ds []*dcase
	var cs []*e2e.Case
	runs := rep.Scale(4, 8)
	add := func(text, file string, args ...string) {
		d := &dcase{args: args, text: text}
		for k := 0; k < runs; k++ {
			c := &e2e.Case{Name: fmt.Sprintf("d%d_%d", len(ds), k), Text: text, File: file, Args: args}
			d.runs = append(d.runs, c)
			cs = append(cs, c)
		}
		ds = append(ds, d)
	}
	all := [][]string{{"-v", "-gll"}, {"-v", "-knuth"}, {"-v", "-pager"}, {"-v", "-knuth", "-resolve_conflicts"}, {"-v", "-pager", "-resolve_conflicts"}}
	if b, err := os.ReadFile(filepath.Join(e2e.Repo, "gogll.md")); err == nil {
		add(string(b), "g.md", "-v", "-gll")
		add(string(b), "g.md", "-v", "-pager")
	}
	for i := 0; i < rep.Scale(40, 200); i++ {
		g := big(rng)
		if rng.Intn(8) == 0 {
			plant(rng, g)
		}
		t := g.String()
		for j, a := range all {
			if j < 3 || rng.Intn(3) == 0 {
				add(t, "g.txt", a...)
			}
		}
	}
	if _, err := e2e.Run("det", cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	for _, d := range ds {
		rep.Eval("C20", fmt.Sprint(d.args)+d.text, fmt.Sprint(d.args)+" "+strings.ReplaceAll(d.text, "\n", " "))
		t0, skip := files(d.runs[0])
		if skip {
			continue
		}
		for _, c := range d.runs[1:] {
			t, skip := files(c)
			if skip {
				break
			}
			if diff := compare(t0, t); diff != "" {
				rep.Fail("C20", "differs-"+diff, "two runs of gogll on the same grammar differ in "+diff, map[string]any{"grammar": d.text, "options": d.args, "first": t0[diff], "second": t[diff]})
				break
			}
		}
	}
}

// big joins two small grammars, so that sets have many members
func big(rng *rand.Rand) *gram.Grammar {
	g := grammar(rng)
	h := grammar(rng)
	ids := map[string]bool{}
	for _, r := range g.Lex {
		ids[r.ID] = true
	}
	for _, r := range h.Lex {
		if !ids[r.ID] {
			ok := true
			for id := range ids {
				ok = ok && !refers(r.Body, id)
			}
			if ok {
				g.Lex = append(g.Lex, r)
			}
		}
	}
	have := map[string]bool{}
	for _, r := range g.Lex {
		have[r.ID] = true
	}
	for _, r := range h.Syn {
		for _, a := range r.Alts {
			for k := range a {
				if a[k].K == gram.NT {
					a[k].Name = "Q" + a[k].Name
				}
				if a[k].K == gram.Tok && !have[a[k].Name] {
					a[k] = gram.Sym{K: gram.Lit, Name: "z" + a[k].Name}
				}
			}
		}
		r.NT = "Q" + r.NT
	}
	g.Syn[0].Alts = append(g.Syn[0].Alts, []gram.Sym{{K: gram.Lit, Name: "q:"}, {K: gram.NT, Name: h.Syn[0].NT}})
	g.Syn = append(g.Syn, h.Syn...)
	return g
}

func files(c *e2e.Case) (map[string]string, bool) {
	m := map[string]string{"the messages": strings.ReplaceAll(c.Out, c.Dir, "DIR")}
	if c.Failed() {
		return m, true
	}
	m["the exit status"] = fmt.Sprint(c.Exit)
	filepath.Walk(c.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(c.Dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m, false
}

func compare(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok := a[k]
		y, ok2 := b[k]
		if x != y || ok != ok2 {
			return k
		}
	}
	return ""
}
