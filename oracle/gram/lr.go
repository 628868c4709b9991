package gram

import (
	"fmt"
	"sort"
	"strings"
)

// Canonical LR(1) construction, the reference for generated LR(1) parsers.

type LRProd struct {
	Head string
	Alt  int
	Body []Sym
}

type lrItem struct {
	p, pos int
	la     string
}

type LRAct struct {
	K rune // 's' shift, 'r' reduce, 'a' accept
	N int
}

type LR struct {
	C         *CFG
	Prods     []LRProd
	Action    []map[string]LRAct
	Goto      []map[string]int
	Conflicts int
}

type lrState map[lrItem]bool

func (s lrState) key() string {
	ks := make([]string, 0, len(s))
	for i := range s {
		ks = append(ks, fmt.Sprintf("%d.%d.%s", i.p, i.pos, i.la))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// NewLR builds the tables; nil when there are more than max states.
func NewLR(c *CFG, max int) *LR {
	l := &LR{C: c}
	l.Prods = append(l.Prods, LRProd{"", 0, []Sym{{NT, c.Start()}}})
	by := map[string][]int{}
	for _, r := range c.G.Syn {
		for i, a := range r.Alts {
			by[r.NT] = append(by[r.NT], len(l.Prods))
			l.Prods = append(l.Prods, LRProd{r.NT, i, a})
		}
	}
	closure := func(s lrState) {
		var todo []lrItem
		for i := range s {
			todo = append(todo, i)
		}
		for len(todo) > 0 {
			it := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			b := l.Prods[it.p].Body
			if it.pos >= len(b) || b[it.pos].K != NT {
				continue
			}
			f, nl := c.FirstOf(b[it.pos+1:])
			las := f.List()
			if nl {
				las = append(las, it.la)
			}
			for _, p := range by[b[it.pos].Name] {
				for _, la := range las {
					n := lrItem{p, 0, la}
					if !s[n] {
						s[n] = true
						todo = append(todo, n)
					}
				}
			}
		}
	}
	s0 := lrState{{0, 0, "$"}: true}
	closure(s0)
	states := []lrState{s0}
	idx := map[string]int{s0.key(): 0}
	for i := 0; i < len(states); i++ {
		if len(states) > max {
			return nil
		}
		next := map[Sym]lrState{}
		red := map[string][]int{}
		for it := range states[i] {
			b := l.Prods[it.p].Body
			if it.pos < len(b) {
				y := b[it.pos]
				if next[y] == nil {
					next[y] = lrState{}
				}
				next[y][lrItem{it.p, it.pos + 1, it.la}] = true
			} else {
				red[it.la] = append(red[it.la], it.p)
			}
		}
		act, gt := map[string]LRAct{}, map[string]int{}
		var ys []Sym
		for y := range next {
			ys = append(ys, y)
		}
		sort.Slice(ys, func(a, b int) bool { return fmt.Sprint(ys[a]) < fmt.Sprint(ys[b]) })
		for _, y := range ys {
			n := next[y]
			closure(n)
			k := n.key()
			j, ok := idx[k]
			if !ok {
				j = len(states)
				idx[k] = j
				states = append(states, n)
			}
			if y.K == NT {
				gt[y.Name] = j
			} else {
				act[y.Name] = LRAct{'s', j}
			}
		}
		for la, ps := range red {
			sort.Ints(ps)
			if _, sh := act[la]; sh || len(ps) > 1 {
				l.Conflicts++
			}
			if _, sh := act[la]; !sh {
				if ps[0] == 0 {
					act[la] = LRAct{'a', 0}
				} else {
					act[la] = LRAct{'r', ps[0]}
				}
			}
		}
		l.Action = append(l.Action, act)
		l.Goto = append(l.Goto, gt)
	}
	return l
}

// LRTree is a node of the tree the driver must build; Tok is set for terminals.
type LRTree struct {
	F   string
	Tok int // index of the token, -1 for an inner node
	C   []*LRTree
}

// LRRun is what the driver must do.
type LRRun struct {
	OK       bool
	Loop     bool
	Calls    []string
	Tree     *LRTree
	ErrAt    int
	Expected []string
}

// Run the tables on a sequence of terminals.
func (l *LR) Run(in []string, steps int) *LRRun {
	r := &LRRun{}
	st := []int{0}
	var tr []*LRTree
	i := 0
	for ; steps > 0; steps-- {
		t := "$"
		if i < len(in) {
			t = in[i]
		}
		s := st[len(st)-1]
		a, ok := l.Action[s][t]
		if !ok {
			r.ErrAt = i
			for t := range l.Action[s] {
				r.Expected = append(r.Expected, t)
			}
			sort.Strings(r.Expected)
			return r
		}
		switch a.K {
		case 's':
			st = append(st, a.N)
			tr = append(tr, &LRTree{F: "tok", Tok: i})
			i++
		case 'r':
			p := l.Prods[a.N]
			n := len(p.Body)
			f := fmt.Sprintf("%s%d", p.Head, p.Alt)
			if n > 0 { // an empty alternate has no AST call; its attribute is nil
				r.Calls = append(r.Calls, f)
			}
			nd := &LRTree{F: f, Tok: -1, C: append([]*LRTree{}, tr[len(tr)-n:]...)}
			tr = append(tr[:len(tr)-n], nd)
			st = st[:len(st)-n]
			st = append(st, l.Goto[st[len(st)-1]][p.Head])
		case 'a':
			r.OK = true
			r.Tree = tr[0]
			return r
		}
	}
	r.Loop = true
	return r
}

func (t *LRTree) String() string {
	if t.Tok >= 0 {
		return fmt.Sprint(t.Tok)
	}
	if len(t.C) == 0 {
		return "nil"
	}
	var ss []string
	for _, c := range t.C {
		ss = append(ss, c.String())
	}
	return t.F + "(" + strings.Join(ss, " ") + ")"
}
