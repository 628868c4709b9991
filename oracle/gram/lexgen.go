package gram

import (
	"math/rand"
	"strings"
)

// LexGrammar draws a grammar whose rune sets are pairwise nested or disjoint in every
// state of the automaton. nil when the draw is outside the domain.
func LexGrammar(rng *rand.Rand, pkg string) (*Grammar, []*DFAState, *NFA) {
	g := &Gen{Rand: rng}
	pools := []string{"ab", "a%d", "abc", "abcx01", "aZ9_+", "ab\"\\'", "a\n\t b", "éλж5Ⅷ", "if01 x", "-+*/a"}
	g.Chars = []rune(pools[rng.Intn(len(pools))])
	g.Wide = rng.Intn(3) > 0
	g.USets = rng.Intn(3) == 0
	gr := &Grammar{Pkg: pkg}
	names := []string{"aa", "bb", "tok", "z9", "idt", "num_", "aaa"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	n := 1 + rng.Intn(4)
	chain := rng.Intn(6) == 0 // rules built on one another
	if chain {
		n = 3 + rng.Intn(4)
	}
	var refs []string
	for i := 0; i < n; i++ {
		if chain && i > 0 && rng.Intn(5) > 0 {
			body := []*Re{{K: Ref, Ref: refs[rng.Intn(len(refs))]}}
			for k := 1 + rng.Intn(2); k > 0; k-- {
				body = append(body, g.BaseSym())
			}
			gr.Lex = append(gr.Lex, &LexRule{ID: names[i], Body: body})
			refs = append(refs, names[i])
			continue
		}
		r := &LexRule{ID: names[i], Suppress: rng.Intn(6) == 0, Body: g.Seq(rng.Intn(3), 3, refs)}
		gr.Lex = append(gr.Lex, r)
		refs = append(refs, r.ID)
	}
	if rng.Intn(2) == 0 {
		var alts [][]Sym
		for i := 1 + rng.Intn(3); i > 0; i-- {
			var s []rune
			for k := 1 + rng.Intn(3); k > 0; k-- {
				c := g.Chars[rng.Intn(len(g.Chars))]
				if !strings.ContainsRune(" \t\r\n", c) {
					s = append(s, c)
				}
			}
			clash := len(s) == 0
			for _, m := range names {
				clash = clash || m == string(s)
			}
			if !clash {
				alts = append(alts, []Sym{{Lit, string(s)}})
			}
		}
		for _, r := range gr.Lex {
			if rng.Intn(2) == 0 && !r.Suppress {
				alts = append(alts, []Sym{{Tok, r.ID}})
			}
		}
		if len(alts) > 0 {
			gr.Syn = []*SynRule{{NT: "S", Alts: alts}}
		}
	}
	nfa := BuildNFA(gr)
	st, ok := nfa.DFA(gr.Alphabet(), 60)
	if !ok {
		return nil, nil, nil
	}
	for _, s := range st {
		if len(s.Lits) > 1 {
			return nil, nil, nil
		}
		// which of several token ids is chosen is unspecified: all or none is suppressed
		for _, id := range s.IDs {
			if gr.Suppressed(id) != gr.Suppressed(s.IDs[0]) {
				return nil, nil, nil
			}
		}
	}
	return gr, st, nfa
}

// Suppressed tells whether the token is suppressed.
func (g *Grammar) Suppressed(id string) bool {
	for _, l := range g.Lex {
		if l.ID == id {
			return l.Suppress
		}
	}
	return false
}
