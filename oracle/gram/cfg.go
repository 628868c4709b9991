package gram

import (
	"fmt"
	"math/rand"
	"sort"
)

// SynGrammar draws a context-free grammar. Every nonterminal is reachable and no two
// alternates of a rule are equal.
func SynGrammar(rng *rand.Rand, pkg string) *Grammar {
	for {
		names := [][]string{{"S", "A", "B", "C"}, {"Start", "Xx", "Ab1", "Z"}, {"E", "E1", "T", "F"}, {"Zz", "M", "A", "K9"}}[rng.Intn(4)]
		nn := 1 + rng.Intn(4)
		terms := []Sym{{Lit, "a"}, {Lit, "b"}, {Lit, "c"}}
		g := &Grammar{Pkg: pkg}
		switch rng.Intn(3) {
		case 0:
			terms = terms[:1+rng.Intn(3)]
		case 1:
			terms = []Sym{{Lit, "a"}, {Lit, "("}, {Tok, "num"}}
			g.Lex = append(g.Lex, &LexRule{ID: "num", Body: []*Re{{K: Plus, Alts: [][]*Re{{{K: Class, Class: "number"}}}}}})
		case 2:
			terms = []Sym{{Lit, "b"}, {Tok, "aa"}, {Lit, "+"}}
			g.Lex = append(g.Lex, &LexRule{ID: "aa", Body: []*Re{{K: Char, R: 'x'}}})
		}
		pe := 1 + rng.Intn(6)
		for i := 0; i < nn; i++ {
			r := &SynRule{NT: names[i]}
			seen := map[string]bool{}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				var alt []Sym
				if rng.Intn(pe) > 0 || len(r.Alts) == 0 && rng.Intn(3) > 0 {
					for m := 1 + rng.Intn(4); m > 0; m-- {
						if rng.Intn(100) < 48 {
							alt = append(alt, Sym{NT, names[rng.Intn(nn)]})
						} else {
							alt = append(alt, terms[rng.Intn(len(terms))])
						}
					}
				}
				if s := fmt.Sprint(alt); !seen[s] {
					seen[s] = true
					r.Alts = append(r.Alts, alt)
				}
			}
			g.Syn = append(g.Syn, r)
		}
		c := NewCFG(g)
		if !c.AllReachable() || len(c.Terms) == 0 {
			continue
		}
		if !c.Productive()[g.Syn[0].NT] && rng.Intn(30) > 0 {
			continue
		}
		// gogll refuses a nonterminal with an empty follow set
		empty := false
		fl := c.Follow()
		for _, nt := range c.NTs {
			empty = empty || len(fl[nt]) == 0
		}
		if empty {
			continue
		}
		used := map[string]bool{}
		for _, t := range c.Terms {
			used[t] = true
		}
		var lx []*LexRule
		for _, l := range g.Lex {
			if used[l.ID] {
				lx = append(lx, l)
			}
		}
		g.Lex = lx
		return g
	}
}

// CFG is the syntactic part of a grammar with reference algorithms.
type CFG struct {
	G     *Grammar
	NTs   []string
	Terms []string // names of terminals, sorted
	Rule  map[string]*SynRule
}

func NewCFG(g *Grammar) *CFG {
	c := &CFG{G: g, Rule: map[string]*SynRule{}}
	t := map[string]bool{}
	for _, r := range g.Syn {
		c.NTs = append(c.NTs, r.NT)
		c.Rule[r.NT] = r
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K != NT {
					t[s.Name] = true
				}
			}
		}
	}
	for n := range t {
		c.Terms = append(c.Terms, n)
	}
	sort.Strings(c.Terms)
	return c
}

func (c *CFG) Start() string { return c.G.Syn[0].NT }

func (c *CFG) Reachable() map[string]bool {
	m := map[string]bool{c.Start(): true}
	todo := []string{c.Start()}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		for _, a := range c.Rule[n].Alts {
			for _, s := range a {
				if s.K == NT && !m[s.Name] {
					m[s.Name] = true
					todo = append(todo, s.Name)
				}
			}
		}
	}
	return m
}

func (c *CFG) AllReachable() bool { return len(c.Reachable()) == len(c.NTs) }

func (c *CFG) Productive() map[string]bool {
	m := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, r := range c.G.Syn {
			if m[r.NT] {
				continue
			}
			for _, a := range r.Alts {
				ok := true
				for _, s := range a {
					ok = ok && (s.K != NT || m[s.Name])
				}
				if ok {
					m[r.NT] = true
					ch = true
				}
			}
		}
	}
	return m
}

// Nullable nonterminals.
func (c *CFG) Nullable() map[string]bool {
	m := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, r := range c.G.Syn {
			for _, a := range r.Alts {
				ok := true
				for _, s := range a {
					ok = ok && s.K == NT && m[s.Name]
				}
				if ok && !m[r.NT] {
					m[r.NT] = true
					ch = true
				}
			}
		}
	}
	return m
}

type TSet map[string]bool

func (s TSet) List() []string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// First sets as gogll defines them: least solution of the usual equations; unproductive
// nonterminals contribute nothing beyond them.
func (c *CFG) First() map[string]TSet {
	nl := c.Nullable()
	f := map[string]TSet{}
	for _, n := range c.NTs {
		f[n] = TSet{}
	}
	for ch := true; ch; {
		ch = false
		for _, r := range c.G.Syn {
			for _, a := range r.Alts {
				for t := range firstSeq(a, f, nl) {
					if !f[r.NT][t] {
						f[r.NT][t] = true
						ch = true
					}
				}
			}
		}
	}
	return f
}

func firstSeq(a []Sym, f map[string]TSet, nl map[string]bool) TSet {
	s := TSet{}
	for _, x := range a {
		if x.K != NT {
			s[x.Name] = true
			return s
		}
		for t := range f[x.Name] {
			s[t] = true
		}
		if !nl[x.Name] {
			return s
		}
	}
	return s
}

// FirstOf a sequence, and whether it is nullable.
func (c *CFG) FirstOf(a []Sym) (TSet, bool) {
	nl := c.Nullable()
	null := true
	for _, x := range a {
		null = null && x.K == NT && nl[x.Name]
	}
	return firstSeq(a, c.First(), nl), null
}

// Follow sets; the start symbol is followed by "$".
func (c *CFG) Follow() map[string]TSet {
	nl, f := c.Nullable(), c.First()
	fl := map[string]TSet{}
	for _, n := range c.NTs {
		fl[n] = TSet{}
	}
	fl[c.Start()]["$"] = true
	for ch := true; ch; {
		ch = false
		add := func(n, t string) {
			if !fl[n][t] {
				fl[n][t] = true
				ch = true
			}
		}
		for _, r := range c.G.Syn {
			for _, a := range r.Alts {
				for i, x := range a {
					if x.K != NT {
						continue
					}
					null := true
					for _, y := range a[i+1:] {
						null = null && y.K == NT && nl[y.Name]
					}
					for t := range firstSeq(a[i+1:], f, nl) {
						add(x.Name, t)
					}
					if null {
						for t := range fl[r.NT] {
							add(x.Name, t)
						}
					}
				}
			}
		}
	}
	return fl
}

// Chart says which nonterminals and alternate prefixes derive which substrings.
type Chart struct {
	C   *CFG
	In  []string
	D   map[string][][]bool   // nonterminal -> i -> j
	P   map[string][][][]bool // "NT/alt" -> prefix length -> i -> j
	key []string
}

func mat(n int) [][]bool {
	m := make([][]bool, n+1)
	for i := range m {
		m[i] = make([]bool, n+1)
	}
	return m
}

func PKey(nt string, alt int) string { return fmt.Sprintf("%s/%d", nt, alt) }

func (c *CFG) Parse(in []string) *Chart {
	n := len(in)
	ch := &Chart{C: c, In: in, D: map[string][][]bool{}, P: map[string][][][]bool{}}
	for _, nt := range c.NTs {
		ch.D[nt] = mat(n)
		for k, a := range c.Rule[nt].Alts {
			ps := make([][][]bool, len(a)+1)
			for i := range ps {
				ps[i] = mat(n)
			}
			for i := 0; i <= n; i++ {
				ps[0][i][i] = true
			}
			ch.P[PKey(nt, k)] = ps
		}
	}
	for change := true; change; {
		change = false
		for _, nt := range c.NTs {
			for k, a := range c.Rule[nt].Alts {
				ps := ch.P[PKey(nt, k)]
				for p := range a {
					for i := 0; i <= n; i++ {
						for m := i; m <= n; m++ {
							if !ps[p][i][m] {
								continue
							}
							for j := m; j <= n; j++ {
								if !ps[p+1][i][j] && ch.Sym(a[p], m, j) {
									ps[p+1][i][j] = true
									change = true
								}
							}
						}
					}
				}
				for i := 0; i <= n; i++ {
					for j := i; j <= n; j++ {
						if ps[len(a)][i][j] && !ch.D[nt][i][j] {
							ch.D[nt][i][j] = true
							change = true
						}
					}
				}
			}
		}
	}
	return ch
}

// Sym: does the symbol derive in[i:j]?
func (ch *Chart) Sym(s Sym, i, j int) bool {
	if s.K == NT {
		return ch.D[s.Name][i][j]
	}
	return j == i+1 && ch.In[i] == s.Name
}

// Accept: the start symbol derives the input.
func (ch *Chart) Accept() bool { return ch.D[ch.C.Start()][0][len(ch.In)] }

// B is a binary subtree of a complete alternate.
type B struct {
	NT           string
	Alt, L, P, R int
}

func (b B) String() string { return fmt.Sprintf("%s:%d(%d,%d,%d)", b.NT, b.Alt, b.L, b.P, b.R) }

// BSRs of nonterminal nt over [i,j).
func (ch *Chart) BSRs(nt string, i, j int) (bs []B) {
	for k, a := range ch.C.Rule[nt].Alts {
		if len(a) == 0 {
			if i == j {
				bs = append(bs, B{nt, k, i, i, i})
			}
			continue
		}
		ps := ch.P[PKey(nt, k)]
		for m := i; m <= j; m++ {
			if ps[len(a)-1][i][m] && ch.Sym(a[len(a)-1], m, j) {
				bs = append(bs, B{nt, k, i, m, j})
			}
		}
	}
	return
}

// Valid: b is a correct subtree.
func (ch *Chart) Valid(b B) bool {
	r := ch.C.Rule[b.NT]
	if r == nil || b.Alt < 0 || b.Alt >= len(r.Alts) || b.L > b.P || b.P > b.R || b.R > len(ch.In) || b.L < 0 {
		return false
	}
	a := r.Alts[b.Alt]
	if len(a) == 0 {
		return b.L == b.P && b.P == b.R
	}
	return ch.P[PKey(b.NT, b.Alt)][len(a)-1][b.L][b.P] && ch.Sym(a[len(a)-1], b.P, b.R)
}

// Splits of prefix p of the alternate over [i,j): for each symbol the set of extents.
// The extents of symbol k in some derivation of a[:p] over [i,j).
func (ch *Chart) Extents(nt string, alt, p, k, i, j int) (out [][2]int) {
	a := ch.C.Rule[nt].Alts[alt]
	ps := ch.P[PKey(nt, alt)]
	// suffix[m][x]: a[m:p] derives [x,j)
	suf := make([]map[int]bool, p+1)
	for m := range suf {
		suf[m] = map[int]bool{}
	}
	suf[p][j] = true
	for m := p - 1; m >= 0; m-- {
		for x := i; x <= j; x++ {
			for y := range suf[m+1] {
				if x <= y && ch.Sym(a[m], x, y) {
					suf[m][x] = true
				}
			}
		}
	}
	for x := i; x <= j; x++ {
		for y := x; y <= j; y++ {
			if ps[k][i][x] && ch.Sym(a[k], x, y) && suf[k+1][y] {
				out = append(out, [2]int{x, y})
			}
		}
	}
	return
}

// Useful subtrees: those of complete parses of the input.
func (ch *Chart) Useful() map[B]bool {
	m := map[B]bool{}
	seen := map[string]bool{}
	var visit func(nt string, i, j int)
	visit = func(nt string, i, j int) {
		key := fmt.Sprintf("%s,%d,%d", nt, i, j)
		if seen[key] {
			return
		}
		seen[key] = true
		for _, b := range ch.BSRs(nt, i, j) {
			m[b] = true
			a := ch.C.Rule[nt].Alts[b.Alt]
			if len(a) == 0 {
				continue
			}
			last := a[len(a)-1]
			if last.K == NT {
				visit(last.Name, b.P, b.R)
			}
			for k := 0; k < len(a)-1; k++ {
				if a[k].K == NT {
					for _, e := range ch.Extents(nt, b.Alt, len(a)-1, k, b.L, b.P) {
						visit(a[k].Name, e[0], e[1])
					}
				}
			}
		}
	}
	if ch.Accept() {
		visit(ch.C.Start(), 0, len(ch.In))
	}
	return m
}

// ViablePrefix is the length of the longest prefix of the input that can be continued to
// a sentence (all nonterminals being productive).
func (c *CFG) ViablePrefix(in []string) int {
	ch := c.Parse(in)
	// item sets, top down: (nt, alt, dot, origin) at position
	type it struct {
		nt                string
		alt, dot, org, at int
	}
	seen := map[it]bool{}
	var todo []it
	add := func(x it) {
		if !seen[x] {
			seen[x] = true
			todo = append(todo, x)
		}
	}
	for k := range c.Rule[c.Start()].Alts {
		add(it{c.Start(), k, 0, 0, 0})
	}
	max := 0
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if x.at > max {
			max = x.at
		}
		a := c.Rule[x.nt].Alts[x.alt]
		if x.dot == len(a) {
			continue
		}
		s := a[x.dot]
		if s.K == NT {
			for k := range c.Rule[s.Name].Alts {
				add(it{s.Name, k, 0, x.at, x.at})
			}
		}
		for j := x.at; j <= len(in); j++ {
			if ch.Sym(s, x.at, j) {
				add(it{x.nt, x.alt, x.dot + 1, x.org, j})
			}
		}
	}
	return max
}

// Sentences draws token strings: all strings up to a length and random sentences with
// small edits.
func (c *CFG) Sentences(rng *rand.Rand, all, random, maxLen int) (out [][]string) {
	seen := map[string]bool{}
	add := func(s []string) {
		k := fmt.Sprint(s)
		if len(s) <= maxLen && !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	lvl := [][]string{{}}
	add(nil)
	for n := 0; len(out) < all && n < maxLen; n++ {
		var next [][]string
		for _, s := range lvl {
			for _, t := range c.Terms {
				x := append(append([]string{}, s...), t)
				next = append(next, x)
				if len(out) < all {
					add(x)
				}
			}
		}
		lvl = next
		if len(lvl) > 4000 {
			break
		}
	}
	for i := 0; i < random; i++ {
		s, ok := c.derive(rng, c.Start(), maxLen)
		if !ok {
			continue
		}
		add(s)
		if len(s) > 0 {
			e := append([]string{}, s...)
			switch rng.Intn(3) {
			case 0:
				e[rng.Intn(len(e))] = c.Terms[rng.Intn(len(c.Terms))]
			case 1:
				k := rng.Intn(len(e))
				e = append(e[:k], e[k+1:]...)
			default:
				e = append(e, c.Terms[rng.Intn(len(c.Terms))])
			}
			add(e)
		}
	}
	return
}

func (c *CFG) derive(rng *rand.Rand, nt string, max int) (out []string, ok bool) {
	steps := 0
	var rec func(nt string, depth int) bool
	rec = func(nt string, depth int) bool {
		steps++
		if steps > 200 || depth > 20 || len(out) > max {
			return false
		}
		alts := c.Rule[nt].Alts
		k := rng.Intn(len(alts))
		if depth > 6 {
			for t := 0; t < 3; t++ {
				if j := rng.Intn(len(alts)); len(alts[j]) < len(alts[k]) {
					k = j
				}
			}
		}
		for _, s := range alts[k] {
			if s.K == NT {
				if !rec(s.Name, depth+1) {
					return false
				}
			} else {
				out = append(out, s.Name)
			}
		}
		return true
	}
	ok = rec(nt, 0) && len(out) <= max
	return
}
