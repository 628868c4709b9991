package main

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// ---------- expression language ----------

type SNode struct {
	Op    string // "id","int","char","str","call","sel","idx","slice","un","bin","forall","exists","nil","bool"
	Val   string
	Args  []*SNode
	Vars  []SVar
	Trigs [][]*SNode
	Src   string
}

type SVar struct{ Name, Type string }

type stok struct{ kind, v string } // kind: id int str char op eof

var specOps = []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "+", "-", "*", "/", "%", "!", "<", ">", "(", ")", "[", "]", "{", "}", ",", ".", ":"}

func lexSpec(s string) ([]stok, error) {
	var out []stok
	rs := []rune(s)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$' || rs[j] == '\'') {
				j++
			}
			out = append(out, stok{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			out = append(out, stok{"int", string(rs[i:j])})
			i = j
		case c == '"' || c == '\'' || c == '`':
			j := i + 1
			for j < len(rs) && rs[j] != c {
				if rs[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated literal in %q", s)
			}
			lit := string(rs[i : j+1])
			u, err := strconv.Unquote(lit)
			if err != nil {
				return nil, fmt.Errorf("bad literal %s: %v", lit, err)
			}
			if c == '\'' {
				out = append(out, stok{"int", strconv.Itoa(int([]rune(u)[0]))})
			} else {
				out = append(out, stok{"str", u})
			}
			i = j + 1
		default:
			ok := false
			rest := string(rs[i:])
			for _, op := range specOps {
				if strings.HasPrefix(rest, op) {
					out = append(out, stok{"op", op})
					i += len([]rune(op))
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("bad character %q in %q", string(c), s)
			}
		}
	}
	return append(out, stok{"eof", ""}), nil
}

type sparser struct {
	toks []stok
	p    int
	src  string
}

func (p *sparser) peek() stok { return p.toks[p.p] }
func (p *sparser) next() stok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) isOp(v string) bool {
	t := p.peek()
	return t.kind == "op" && t.v == v
}
func (p *sparser) expect(v string) {
	t := p.next()
	if t.v != v || t.kind != "op" {
		panic(fmt.Sprintf("expected %q, got %q in %q", v, t.v, p.src))
	}
}

func ParseSpec(s string) (n *SNode, err error) {
	toks, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{toks: toks, src: s}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	n = p.expr(0)
	if p.peek().kind != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().v, s)
	}
	n.Src = s
	return n, nil
}

func ParseSpecList(s string) (ns []*SNode, err error) {
	toks, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{toks: toks, src: s}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	for {
		ns = append(ns, p.expr(0))
		if p.isOp(",") {
			p.next()
			continue
		}
		break
	}
	if p.peek().kind != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().v, s)
	}
	return ns, nil
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *sparser) expr(min int) *SNode {
	lhs := p.unary()
	for {
		t := p.peek()
		op := t.v
		if !(t.kind == "op" || (t.kind == "id" && op == "in")) {
			return lhs
		}
		pr, ok := binPrec[op]
		if !ok || pr < min {
			return lhs
		}
		p.next()
		var rhs *SNode
		if op == "==>" {
			rhs = p.expr(pr)
		} else {
			rhs = p.expr(pr + 1)
		}
		// chained comparison a <= b < c
		if pr == 5 && lhs.Op == "bin" && isCmp(lhs.Val) && isCmp(op) {
			lhs = &SNode{Op: "bin", Val: "&&", Args: []*SNode{lhs, {Op: "bin", Val: op, Args: []*SNode{lhs.Args[1], rhs}}}}
		} else if pr == 5 && lhs.Op == "bin" && lhs.Val == "&&" && isCmp(op) && lhs.Args[1].Op == "bin" && isCmp(lhs.Args[1].Val) {
			lhs = &SNode{Op: "bin", Val: "&&", Args: []*SNode{lhs, {Op: "bin", Val: op, Args: []*SNode{lhs.Args[1].Args[1], rhs}}}}
		} else {
			lhs = &SNode{Op: "bin", Val: op, Args: []*SNode{lhs, rhs}}
		}
	}
}

func isCmp(s string) bool { return s == "<" || s == "<=" || s == ">" || s == ">=" }

func (p *sparser) unary() *SNode {
	t := p.peek()
	if t.kind == "op" && (t.v == "!" || t.v == "-") {
		p.next()
		return &SNode{Op: "un", Val: t.v, Args: []*SNode{p.unary()}}
	}
	if t.kind == "id" && (t.v == "forall" || t.v == "exists") {
		p.next()
		n := &SNode{Op: t.v}
		n.Vars = p.vars("::")
		for p.isOp("{") {
			p.next()
			var tr []*SNode
			for {
				tr = append(tr, p.expr(0))
				if p.isOp(",") {
					p.next()
					continue
				}
				break
			}
			p.expect("}")
			n.Trigs = append(n.Trigs, tr)
		}
		n.Args = []*SNode{p.expr(0)}
		return n
	}
	return p.postfix(p.primary())
}

// vars parses "a, b T, c U" up to the end token.
func (p *sparser) vars(end string) []SVar {
	var out []SVar
	var pend []string
	for !p.isOp(end) {
		name := p.next()
		if name.kind != "id" {
			panic(fmt.Sprintf("bad variable %q in %q", name.v, p.src))
		}
		pend = append(pend, name.v)
		if p.isOp(",") {
			p.next()
			continue
		}
		depth := 0
		ty := ""
		for {
			t := p.peek()
			if t.kind == "eof" {
				panic("unexpected end in variable list: " + p.src)
			}
			if depth == 0 && t.kind == "op" && (t.v == "," || t.v == end) {
				break
			}
			if t.v == "[" || t.v == "(" || t.v == "{" {
				depth++
			}
			if t.v == "]" || t.v == ")" || t.v == "}" {
				depth--
			}
			if t.kind == "id" && t.v == "map" {
				ty += t.v
			} else {
				ty += t.v
			}
			p.next()
		}
		for _, n := range pend {
			out = append(out, SVar{n, ty})
		}
		pend = nil
		if p.isOp(",") {
			p.next()
		}
	}
	p.expect(end)
	if len(pend) > 0 {
		panic("variable without type in " + p.src)
	}
	return out
}

func (p *sparser) primary() *SNode {
	t := p.next()
	switch t.kind {
	case "id":
		switch t.v {
		case "true", "false":
			return &SNode{Op: "bool", Val: t.v}
		case "nil":
			return &SNode{Op: "nil"}
		case "typeis", "as", "zero", "emptyset":
			p.expect("(")
			n := &SNode{Op: t.v}
			if t.v == "typeis" || t.v == "as" {
				n.Args = []*SNode{p.expr(0)}
				p.expect(",")
			}
			ty := ""
			depth := 0
			for !(depth == 0 && p.isOp(")")) {
				x := p.next()
				if x.kind == "eof" {
					panic("unexpected end: " + p.src)
				}
				if x.v == "(" || x.v == "[" {
					depth++
				}
				if x.v == ")" || x.v == "]" {
					depth--
				}
				ty += x.v
			}
			p.expect(")")
			n.Val = ty
			return n
		}
		return &SNode{Op: "id", Val: t.v}
	case "int":
		return &SNode{Op: "int", Val: t.v}
	case "str":
		return &SNode{Op: "str", Val: t.v}
	case "op":
		if t.v == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("unexpected %q in %q", t.v, p.src))
}

func (p *sparser) postfix(n *SNode) *SNode {
	for {
		switch {
		case p.isOp("."):
			p.next()
			id := p.next()
			n = &SNode{Op: "sel", Val: id.v, Args: []*SNode{n}}
		case p.isOp("["):
			p.next()
			i := p.expr(0)
			p.expect("]")
			n = &SNode{Op: "idx", Args: []*SNode{n, i}}
		case p.isOp("("):
			p.next()
			c := &SNode{Op: "call", Args: []*SNode{n}}
			for !p.isOp(")") {
				c.Args = append(c.Args, p.expr(0))
				if p.isOp(",") {
					p.next()
				}
			}
			p.expect(")")
			n = c
		default:
			return n
		}
	}
}

// ---------- contract files ----------

type Clause struct {
	Label string
	Expr  *SNode
	List  []*SNode
	Src   string
	Line  string
}

type LoopSpec struct {
	HasMod    bool
	Inv       []*Clause
	End       []*Clause // asserted at the end of the body, where the body's locals are visible
	Decreases *Clause
	Unroll    int
	Modifies  []*SNode
	Trusted   bool
}

type Contract struct {
	Pkg       string
	Name      string
	Params    []string // positional names, receiver first
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Exit      []*Clause // proved over the locals at every return, then available to the postconditions
	Modifies  []*SNode
	ModAny    bool
	Aborts    []*Clause
	AbortsAny bool
	Trusted   bool
	Inline    bool
	NoTerm    bool
	Cut       bool // trusted external: not to be loaded
	Loops     map[int]*LoopSpec
	Props     []string
	File      string
	Pure      bool
	Uses      []*SNode
	Initial   []string // package variables that hold the value of their initializer
	Reveal    []string // opaque definitions that may be unfolded
	Alias     map[string]string
	Key       string
	Templates []*Clause // candidate loop invariants for loops without a spec
}

type SpecFunc struct {
	Opaque bool // unfolded only where it is revealed
	Pkg    string
	Name   string
	Params []SVar
	Result string
	Body   *SNode // nil: uninterpreted
	Rec    bool
	Macro  bool
	Trig   string
	Reads  []*SNode // heap read by an uninterpreted function
}

type Axiom struct {
	Pkg     string
	Name    string
	Expr    *SNode
	Lemma   bool
	Induct  string // induction variable
	Reveal  []string
	Props   []string
	Src     string
	Uses    []string
	Trusted string
}

type Specs struct {
	Contracts map[string]*Contract
	Order     []string
	Funcs     map[string]*SpecFunc
	Axioms    []*Axiom
	Files     []string
	Framed    map[string]bool // contract functions whose value depends on what their arguments reach only
}

var kwRe = regexp.MustCompile(`^(package|define|spec|rec|axiom|lemma|func|requires|ensures|modifies|aborts|trusted|inline|loop|invariant|decreases|unroll|props|noterm|pure|use|induction|candidate|alias|exit|reads|initial|opaque|reveal|framed|end)\b`)
var labelRe = regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_\-]*)\s*:([^:].*)$`)

func (sp *Specs) ParseFile(file string, subst map[string]string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	txt := string(data)
	for k, v := range subst {
		txt = strings.ReplaceAll(txt, k, v)
	}
	sp.Files = append(sp.Files, file)
	type ent struct {
		kw, rest string
		line     int
	}
	var ents []ent
	for ln, line := range strings.Split(txt, "\n") {
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		if m := kwRe.FindString(line); m != "" {
			ents = append(ents, ent{m, strings.TrimSpace(line[len(m):]), ln + 1})
		} else if len(ents) > 0 {
			ents[len(ents)-1].rest += " " + line
		} else {
			return fmt.Errorf("%s:%d: stray text %q", file, ln+1, line)
		}
	}
	pkg := ""
	var cur *Contract
	var curAx *Axiom
	var loop *LoopSpec
	var curSF *SpecFunc
	clause := func(e ent, src string) (*Clause, error) {
		label := ""
		if m := labelRe.FindStringSubmatch(src); m != nil {
			label, src = m[1], strings.TrimSpace(m[2])
		}
		x, err := ParseSpec(src)
		if err != nil {
			return nil, fmt.Errorf("%s:%d: %v", file, e.line, err)
		}
		return &Clause{Label: label, Expr: x, Src: src, Line: fmt.Sprintf("%s:%d", file, e.line)}, nil
	}
	for _, e := range ents {
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("%s:%d: %s", file, e.line, fmt.Sprintf(f, a...))
		}
		switch e.kw {
		case "package":
			pkg = e.rest
			cur, loop, curAx = nil, nil, nil
		case "define", "spec", "rec", "opaque":
			cur, loop, curAx = nil, nil, nil
			sf, err := parseSpecFunc(e.rest, e.kw)
			if err != nil {
				return fail("%v", err)
			}
			sf.Pkg = pkg
			sf.Macro = e.kw == "define"
			sf.Rec = e.kw == "rec"
			sf.Opaque = e.kw == "opaque"
			if _, dup := sp.Funcs[sf.Name]; dup {
				return fail("duplicate spec function %s", sf.Name)
			}
			sp.Funcs[sf.Name] = sf
			curSF = sf
		case "framed":
			for _, n := range strings.Fields(e.rest) {
				if sp.Framed == nil {
					sp.Framed = map[string]bool{}
				}
				sp.Framed[n] = true
			}
		case "axiom", "lemma":
			cur, loop = nil, nil
			c, err := clause(e, e.rest)
			if err != nil {
				return err
			}
			curAx = &Axiom{Pkg: pkg, Name: c.Label, Expr: c.Expr, Lemma: e.kw == "lemma", Src: c.Src}
			sp.Axioms = append(sp.Axioms, curAx)
		case "reads":
			ns, err := ParseSpecList(e.rest)
			if err != nil || curSF == nil {
				return fail("reads: %v", err)
			}
			curSF.Reads = append(curSF.Reads, ns...)
		case "induction":
			curAx.Induct = e.rest
		case "reveal":
			if curAx != nil {
				curAx.Reveal = append(curAx.Reveal, strings.FieldsFunc(e.rest, func(r rune) bool { return r == ' ' || r == ',' })...)
			} else if cur != nil {
				cur.Reveal = append(cur.Reveal, strings.FieldsFunc(e.rest, func(r rune) bool { return r == ' ' || r == ',' })...)
			}
		case "func":
			curAx, loop = nil, nil
			c, err := parseFuncHead(e.rest)
			if err != nil {
				return fail("%v", err)
			}
			c.Pkg, c.File = pkg, file
			key := pkg + "." + c.Name
			if strings.HasPrefix(c.Name, "@") { // absolute key
				key = c.Name[1:]
			}
			c.Key = key
			if _, dup := sp.Contracts[key]; dup {
				return fail("duplicate contract %s", key)
			}
			sp.Contracts[key] = c
			sp.Order = append(sp.Order, key)
			cur = c
		case "props":
			if curAx != nil {
				curAx.Props = strings.Fields(e.rest)
			} else if cur != nil {
				cur.Props = strings.Fields(e.rest)
			}
		case "requires", "ensures", "aborts", "candidate", "exit":
			if cur == nil {
				return fail("%s outside func", e.kw)
			}
			if e.kw == "aborts" && e.rest == "any" {
				cur.AbortsAny = true
				continue
			}
			c, err := clause(e, e.rest)
			if err != nil {
				return err
			}
			switch e.kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "exit":
				cur.Exit = append(cur.Exit, c)
			case "candidate":
				cur.Templates = append(cur.Templates, c)
			default:
				cur.Aborts = append(cur.Aborts, c)
			}
		case "modifies":
			if e.rest == "any" {
				cur.ModAny = true
				continue
			}
			var ns []*SNode
			if e.rest != "" && e.rest != "nothing" {
				if ns, err = ParseSpecList(e.rest); err != nil {
					return fail("%v", err)
				}
			}
			if loop != nil {
				loop.HasMod = true
				loop.Modifies = append(loop.Modifies, ns...)
			} else {
				cur.Modifies = append(cur.Modifies, ns...)
			}
		case "use":
			ns, err := ParseSpecList(e.rest)
			if err != nil {
				return fail("%v", err)
			}
			cur.Uses = append(cur.Uses, ns...)
		case "initial":
			if cur == nil {
				return fail("initial outside func")
			}
			for _, n := range strings.Split(e.rest, ",") {
				cur.Initial = append(cur.Initial, strings.TrimSpace(n))
			}
		case "trusted":
			if curAx != nil {
				curAx.Trusted = e.rest
			} else {
				cur.Trusted = true
			}
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "noterm":
			cur.NoTerm = true
		case "alias":
			f := strings.Fields(e.rest)
			if cur.Alias == nil {
				cur.Alias = map[string]string{}
			}
			cur.Alias[f[0]] = f[1]
		case "loop":
			n, err := strconv.Atoi(e.rest)
			if err != nil {
				return fail("bad loop number")
			}
			loop = &LoopSpec{}
			cur.Loops[n] = loop
		case "invariant":
			if loop == nil {
				return fail("invariant outside loop")
			}
			c, err := clause(e, e.rest)
			if err != nil {
				return err
			}
			loop.Inv = append(loop.Inv, c)
		case "end":
			if loop == nil {
				return fail("end outside loop")
			}
			c, err := clause(e, e.rest)
			if err != nil {
				return err
			}
			loop.End = append(loop.End, c)
		case "decreases":
			c, err := clause(e, e.rest)
			if err != nil {
				return err
			}
			loop.Decreases = c
		case "unroll":
			loop.Unroll, _ = strconv.Atoi(e.rest)
		}
	}
	return nil
}

func parseSpecFunc(s, kw string) (*SpecFunc, error) {
	body := ""
	if i := strings.Index(s, " = "); i >= 0 {
		s, body = s[:i], strings.TrimSpace(s[i+3:])
	}
	toks, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{toks: toks, src: s}
	sf := &SpecFunc{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		sf.Name = p.next().v
		p.expect("(")
		sf.Params = p.vars(")")
		for p.peek().kind != "eof" {
			sf.Result += p.next().v
		}
	}()
	if err != nil {
		return nil, err
	}
	if sf.Result == "" {
		sf.Result = "bool"
	}
	if body != "" {
		sf.Body, err = ParseSpec(body)
	}
	return sf, err
}

var headRe = regexp.MustCompile(`^(\S+?)(?:\(([^()]*)\))?\s*(?:\(([^()]*)\))?$`)

// parseFuncHead: NAME(p0, p1) (r0, r1); NAME may be f, (*T).m or (T).m
func parseFuncHead(s string) (*Contract, error) {
	c := &Contract{Loops: map[int]*LoopSpec{}}
	s = strings.TrimSpace(s)
	// split the name from the parameter list: the name ends at the '(' that follows an identifier character
	i := 0
	if strings.HasPrefix(s, "@") {
		i = strings.LastIndex(s, "/")
		if i < 0 {
			i = 0
		}
	}
	depth := 0
	cut := -1
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			if j > 0 && (isIdent(s[j-1])) && depth == 0 {
				cut = j
				break
			}
			depth++
		}
		if s[j] == ')' {
			depth--
		}
	}
	if cut < 0 {
		c.Name = s
		return c, nil
	}
	c.Name = s[:cut]
	rest := s[cut:]
	parts := regexp.MustCompile(`\(([^()]*)\)`).FindAllStringSubmatch(rest, -1)
	split := func(x string) (out []string) {
		for _, p := range strings.Split(x, ",") {
			if p = strings.TrimSpace(p); p != "" {
				out = append(out, p)
			}
		}
		return
	}
	if len(parts) > 0 {
		c.Params = split(parts[0][1])
	}
	if len(parts) > 1 {
		c.Results = split(parts[1][1])
	}
	return c, nil
}

func isIdent(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
