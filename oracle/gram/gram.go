// Package gram is an independent model of gogll grammars: it prints them in gogll's input
// language and interprets them directly. The oracles compare gogll with it.
package gram

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"
)

// Kind of a lexical expression node.
type Kind int

const (
	Char Kind = iota
	Any
	AnyOf
	Not
	Class // letter, upcase, lowcase, number
	USet  // '[\p{..}-\p{..}]'
	Group
	Opt
	Star
	Plus
	Ref
)

// Re is a lexical symbol.
type Re struct {
	K          Kind
	R          rune
	Set        []rune
	Class      string
	Incl, Excl []string
	Alts       [][]*Re
	Ref        string
}

// LexRule is a token definition.
type LexRule struct {
	ID       string
	Suppress bool
	Body     []*Re
}

// SymKind of a syntax symbol.
type SymKind int

const (
	NT SymKind = iota
	Tok
	Lit
)

// Sym is a symbol of a syntax rule. For Lit, Name is the literal's value.
type Sym struct {
	K    SymKind
	Name string
}

// SynRule has its alternates; a nil alternate is "empty".
type SynRule struct {
	NT   string
	Alts [][]Sym
}

// Grammar is a gogll specification.
type Grammar struct {
	Pkg string
	Lex []*LexRule
	Syn []*SynRule
}

func quoteChar(r rune) string {
	switch r {
	case '\'':
		return `'\''`
	case '\\':
		return `'\\'`
	case '\n':
		return `'\n'`
	case '\r':
		return `'\r'`
	case '\t':
		return `'\t'`
	}
	return "'" + string(r) + "'"
}

// QuoteStr prints a string literal.
func QuoteStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (e *Re) String() string {
	switch e.K {
	case Char:
		return quoteChar(e.R)
	case Any:
		return "."
	case AnyOf:
		return "any " + QuoteStr(string(e.Set))
	case Not:
		return "not " + QuoteStr(string(e.Set))
	case Class:
		return e.Class
	case USet:
		s := "'["
		for _, c := range e.Incl {
			s += "\\p{" + c + "}"
		}
		for _, c := range e.Excl {
			s += "-\\p{" + c + "}"
		}
		return s + "]'"
	case Ref:
		return e.Ref
	}
	var as []string
	for _, a := range e.Alts {
		as = append(as, seqString(a))
	}
	br := map[Kind]string{Group: "()", Opt: "[]", Star: "{}", Plus: "<>"}[e.K]
	return br[:1] + strings.Join(as, " | ") + br[1:]
}

func seqString(es []*Re) string {
	var ss []string
	for _, e := range es {
		ss = append(ss, e.String())
	}
	return strings.Join(ss, " ")
}

func (s Sym) String() string {
	if s.K == Lit {
		return QuoteStr(s.Name)
	}
	return s.Name
}

// AltString prints one alternate.
func AltString(a []Sym) string {
	if len(a) == 0 {
		return "empty"
	}
	var ss []string
	for _, s := range a {
		ss = append(ss, s.String())
	}
	return strings.Join(ss, " ")
}

func (g *Grammar) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %q\n", g.Pkg)
	for _, r := range g.Lex {
		if r.Suppress {
			b.WriteString("!")
		}
		fmt.Fprintf(&b, "%s : %s ;\n", r.ID, seqString(r.Body))
	}
	for _, r := range g.Syn {
		var as []string
		for _, a := range r.Alts {
			as = append(as, AltString(a))
		}
		fmt.Fprintf(&b, "%s : %s ;\n", r.NT, strings.Join(as, " | "))
	}
	return b.String()
}

// Base: the node is a set of runes.
func (e *Re) Base() bool { return e.K <= USet }

// Match: r is in the set of runes e stands for.
func (e *Re) Match(r rune) bool {
	switch e.K {
	case Char:
		return r == e.R
	case Any:
		return true
	case AnyOf:
		return hasRune(e.Set, r)
	case Not:
		return !hasRune(e.Set, r)
	case Class:
		switch e.Class {
		case "letter":
			return unicode.IsLetter(r)
		case "upcase":
			return unicode.IsUpper(r)
		case "lowcase":
			return unicode.IsLower(r)
		case "number":
			return unicode.IsNumber(r)
		}
	case USet:
		in := false
		for _, c := range e.Incl {
			in = in || unicode.Is(RangeTable(c), r)
		}
		for _, c := range e.Excl {
			in = in && !unicode.Is(RangeTable(c), r)
		}
		return in
	}
	panic("Match")
}

// RangeTable finds a Unicode category or property by its Go name.
func RangeTable(n string) *unicode.RangeTable {
	long := map[string]string{"Letter": "L", "Number": "N", "Mark": "M", "Other": "C", "Punct": "P", "Space": "Z", "Symbol": "S", "Digit": "Nd", "Lower": "Ll", "Upper": "Lu", "Title": "Lt"}
	if l, ok := long[n]; ok {
		n = l
	}
	if t, ok := unicode.Categories[n]; ok {
		return t
	}
	if t, ok := unicode.Properties[n]; ok {
		return t
	}
	panic("no range table " + n)
}

func hasRune(s []rune, r rune) bool {
	for _, x := range s {
		if x == r {
			return true
		}
	}
	return false
}

// ---------- automaton ----------

type nedge struct {
	on *Re // nil: empty move
	to int
}

// NFA of all the tokens of a grammar.
type NFA struct {
	edges  [][]nedge
	accept map[int]string // token name
	lit    map[string]bool
	start  int
}

func (n *NFA) state() int { n.edges = append(n.edges, nil); return len(n.edges) - 1 }
func (n *NFA) edge(a int, on *Re, b int) {
	n.edges[a] = append(n.edges[a], nedge{on, b})
}

func (n *NFA) seq(g *Grammar, es []*Re, from int) int {
	for _, e := range es {
		from = n.sym(g, e, from)
	}
	return from
}

func (n *NFA) sym(g *Grammar, e *Re, from int) int {
	if e.Base() {
		to := n.state()
		n.edge(from, e, to)
		return to
	}
	switch e.K {
	case Ref:
		for _, r := range g.Lex {
			if r.ID == e.Ref {
				return n.seq(g, r.Body, from)
			}
		}
		panic("undefined " + e.Ref)
	}
	in, out := n.state(), n.state()
	n.edge(from, nil, in)
	for _, a := range e.Alts {
		n.edge(n.seq(g, a, in), nil, out)
	}
	if e.K == Opt || e.K == Star {
		n.edge(from, nil, out)
	}
	if e.K == Star || e.K == Plus {
		n.edge(out, nil, in)
	}
	return out
}

// Literals of the syntax rules, sorted.
func (g *Grammar) Literals() []string {
	m := map[string]bool{}
	for _, r := range g.Syn {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K == Lit {
					m[s.Name] = true
				}
			}
		}
	}
	var ls []string
	for l := range m {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return ls
}

// BuildNFA of the lexical rules and the string literals.
func BuildNFA(g *Grammar) *NFA {
	n := &NFA{accept: map[int]string{}, lit: map[string]bool{}}
	n.start = n.state()
	for _, r := range g.Lex {
		n.accept[n.seq(g, r.Body, n.start)] = r.ID
	}
	for _, l := range g.Literals() {
		s := n.start
		for _, r := range l {
			t := n.state()
			n.edge(s, &Re{K: Char, R: r}, t)
			s = t
		}
		n.accept[s] = l
		n.lit[l] = true
	}
	return n
}

// Set is a set of NFA states, closed under empty moves.
type Set map[int]bool

func (n *NFA) closure(s Set) Set {
	var st []int
	for k := range s {
		st = append(st, k)
	}
	for len(st) > 0 {
		k := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range n.edges[k] {
			if e.on == nil && !s[e.to] {
				s[e.to] = true
				st = append(st, e.to)
			}
		}
	}
	return s
}

// Start set.
func (n *NFA) Start() Set { return n.closure(Set{n.start: true}) }

// Step over a rune.
func (n *NFA) Step(s Set, r rune) Set {
	t := Set{}
	for k := range s {
		for _, e := range n.edges[k] {
			if e.on != nil && e.on.Match(r) {
				t[e.to] = true
			}
		}
	}
	return n.closure(t)
}

// Key identifies a set.
func (s Set) Key() string {
	var ks []int
	for k := range s {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return fmt.Sprint(ks)
}

// Accepts lists the tokens accepted in s: literals and token ids.
func (n *NFA) Accepts(s Set) (lits, ids []string) {
	m := map[string]bool{}
	for k := range s {
		if a, ok := n.accept[k]; ok && !m[a] {
			m[a] = true
			if n.lit[a] {
				lits = append(lits, a)
			} else {
				ids = append(ids, a)
			}
		}
	}
	sort.Strings(lits)
	sort.Strings(ids)
	return
}

// Out lists the rune sets leaving s.
func (n *NFA) Out(s Set) (out []*Re) {
	for k := range s {
		for _, e := range n.edges[k] {
			if e.on != nil {
				out = append(out, e.on)
			}
		}
	}
	return
}

// Sample holds the runes on which rune sets are compared.
var Sample = func() (rs []rune) {
	for r := rune(0); r < 0x180; r++ {
		rs = append(rs, r)
	}
	rs = append(rs, 'ж', 'λ', 'ǅ', 'ʰ', 'ͅ', 'Ω', 'ω', 'а', 'Я', '٣', '߃', 'ก', 'ᏸ', 'Ⅷ', 'ⅷ', 'ↂ', '①', '中', '々', '〇', '　', ' ', ' ', '︀', '﷐', '𝐀', '𝟘', '𐍈', '😀', 0x10FFFF, '‐', '€', '℘', '\u2118', '\u309B', '\u200d', '\ue000', '\ufeff', 'ﬀ', 'ａ', 'Ａ', '１')
	return
}()

type runeSet string

func bits(e *Re) string {
	b := make([]byte, len(Sample))
	for i, r := range Sample {
		b[i] = '0'
		if e.Match(r) {
			b[i] = '1'
		}
	}
	return string(b)
}

// Laminar: any two of the sets are nested or disjoint on the sample, and sets that are
// equal on the sample are written the same way.
func Laminar(es []*Re) bool {
	type be struct {
		b string
		e *Re
	}
	var bs []be
	seen := map[string]bool{}
	for _, e := range es {
		k := e.String()
		if !seen[k] {
			seen[k] = true
			bs = append(bs, be{bits(e), e})
		}
	}
	for i := range bs {
		for j := i + 1; j < len(bs); j++ {
			ab, a, b := false, false, false
			for k := range Sample {
				x, y := bs[i].b[k] == '1', bs[j].b[k] == '1'
				ab = ab || x && y
				a = a || x && !y
				b = b || y && !x
			}
			if ab && a && b {
				return false
			}
		}
	}
	return true
}

// DFAState of the reference automaton.
type DFAState struct {
	Set       Set
	Access    []rune
	Lits, IDs []string
	Next      map[rune]int // over the grammar's alphabet
}

// DFA explores the reference automaton over the alphabet.
// ok is false when two overlapping rune sets meet in a state.
func (n *NFA) DFA(alpha []rune, max int) (states []*DFAState, ok bool) {
	ok = true
	idx := map[string]int{}
	add := func(s Set, acc []rune) int {
		k := s.Key()
		if i, has := idx[k]; has {
			return i
		}
		d := &DFAState{Set: s, Access: acc, Next: map[rune]int{}}
		d.Lits, d.IDs = n.Accepts(s)
		idx[k] = len(states)
		states = append(states, d)
		if !Laminar(n.Out(s)) {
			ok = false
		}
		return idx[k]
	}
	add(n.Start(), nil)
	for i := 0; i < len(states) && i < max && ok; i++ {
		for _, r := range alpha {
			t := n.Step(states[i].Set, r)
			if len(t) == 0 {
				continue
			}
			acc := append(append([]rune{}, states[i].Access...), r)
			states[i].Next[r] = add(t, acc)
		}
	}
	if len(states) > max {
		ok = false
	}
	return
}

// Alphabet picks representatives: every rune written in the grammar, plus sample runes.
func (g *Grammar) Alphabet() []rune {
	m := map[rune]bool{}
	var es []*Re
	seen := map[string]bool{}
	var walk func(*Re)
	walk = func(e *Re) {
		if e.Base() {
			if !seen[e.String()] {
				seen[e.String()] = true
				es = append(es, e)
			}
			if e.K == Char {
				m[e.R] = true
			}
			for _, r := range e.Set {
				m[r] = true
			}
		}
		for _, a := range e.Alts {
			for _, x := range a {
				walk(x)
			}
		}
	}
	for _, r := range g.Lex {
		for _, e := range r.Body {
			walk(e)
		}
	}
	for _, l := range g.Literals() {
		for _, r := range l {
			m[r] = true
		}
	}
	// one sample rune per membership pattern
	pat := map[string]int{}
	for _, r := range Sample {
		k := ""
		for _, e := range es {
			if e.Match(r) {
				k += "1"
			} else {
				k += "0"
			}
		}
		if pat[k] < 2 {
			pat[k]++
			m[r] = true
		}
	}
	var rs []rune
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

// Tok is a token of the reference lexer.
type TokRes struct {
	IDs  []string // the admissible types
	L, R int
}

// Scan is the reference lexer: white space is skipped; at each position the longest run
// the automaton can make is taken.
func (n *NFA) Scan(in []rune, suppress map[string]bool) (toks []TokRes) {
	p := 0
	for {
		for p < len(in) && unicode.IsSpace(in[p]) {
			p++
		}
		if p >= len(in) {
			break
		}
		s := n.Start()
		q := p
		for q < len(in) {
			t := n.Step(s, in[q])
			if len(t) == 0 {
				break
			}
			s = t
			q++
		}
		var ids []string
		if q == p {
			q = p + 1
			ids = []string{"Error"}
		} else {
			lits, tids := n.Accepts(s)
			switch {
			case len(lits) > 0:
				ids = lits
			case len(tids) > 0:
				ids = tids
			default:
				ids = []string{"Error"}
				if q < len(in) {
					q++
				}
			}
		}
		if !(len(ids) > 0 && suppress[ids[0]]) {
			toks = append(toks, TokRes{ids, p, q})
		}
		p = q
	}
	toks = append(toks, TokRes{[]string{"EOF"}, len(in), len(in)})
	return
}

// ---------- random lexical grammars ----------

type Gen struct {
	*rand.Rand
	Chars []rune
	USets bool
	Wide  bool // use classes and negated sets
}

func (g *Gen) pick(ss ...string) string { return ss[g.Intn(len(ss))] }

func (g *Gen) runes(n int) []rune {
	m := map[rune]bool{}
	var rs []rune
	for i := 0; i < n; i++ {
		r := g.Chars[g.Intn(len(g.Chars))]
		if !m[r] {
			m[r] = true
			rs = append(rs, r)
		}
	}
	return rs
}

// BaseSym draws a rune set.
func (g *Gen) BaseSym() *Re {
	if !g.Wide || g.Intn(3) == 0 {
		if g.Intn(5) == 0 {
			return &Re{K: AnyOf, Set: g.runes(1 + g.Intn(3))}
		}
		return &Re{K: Char, R: g.Chars[g.Intn(len(g.Chars))]}
	}
	switch g.Intn(12) {
	case 0:
		return &Re{K: Any}
	case 1, 2:
		return &Re{K: Not, Set: g.runes(1 + g.Intn(3))}
	case 3, 4:
		return &Re{K: AnyOf, Set: g.runes(1 + g.Intn(3))}
	case 5, 6, 7, 8:
		return &Re{K: Class, Class: g.pick("letter", "letter", "number", "upcase", "lowcase")}
	case 9:
		if g.USets {
			e := &Re{K: USet, Incl: []string{g.pick("Lu", "Ll", "L", "Nd", "N", "P", "Sm", "Zs", "Other_ID_Start", "Hex_Digit", "Letter")}}
			if g.Intn(3) == 0 {
				e.Incl = append(e.Incl, g.pick("Nl", "Nd", "Pc", "White_Space"))
			}
			if g.Intn(3) == 0 {
				e.Excl = append(e.Excl, g.pick("Pattern_Syntax", "Pattern_White_Space", "Lu", "Nl"))
			}
			return e
		}
	}
	return &Re{K: Char, R: g.Chars[g.Intn(len(g.Chars))]}
}

// Seq draws a regular expression. refs are the tokens that may be referenced.
func (g *Gen) Seq(depth, max int, refs []string) []*Re {
	n := 1 + g.Intn(max)
	var es []*Re
	for i := 0; i < n; i++ {
		switch {
		case depth > 0 && g.Intn(3) == 0:
			e := &Re{K: []Kind{Group, Opt, Star, Plus}[g.Intn(4)]}
			for k := 1 + g.Intn(3); k > 0; k-- {
				e.Alts = append(e.Alts, g.Seq(depth-1, 2, refs))
			}
			es = append(es, e)
		case len(refs) > 0 && g.Intn(8) == 0:
			es = append(es, &Re{K: Ref, Ref: refs[g.Intn(len(refs))]})
		default:
			es = append(es, g.BaseSym())
		}
	}
	return es
}

// Nullable: the sequence matches the empty string.
func Nullable(g *Grammar, es []*Re) bool {
	for _, e := range es {
		switch e.K {
		case Opt, Star:
		case Group, Plus:
			ok := false
			for _, a := range e.Alts {
				ok = ok || Nullable(g, a)
			}
			if !ok {
				return false
			}
		case Ref:
			for _, r := range g.Lex {
				if r.ID == e.Ref && !Nullable(g, r.Body) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
