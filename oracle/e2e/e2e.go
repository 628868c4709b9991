// Package e2e runs the real gogll, built from the repository, on grammars and drives the
// lexers and parsers it generates. Everything happens in a scratch directory.
package e2e

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Repo and Scratch directories.
var (
	Repo    = envOr("GV_REPO", "/repo")
	Scratch = os.Getenv("GV_SCRATCH")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var gogllBin string
var buildOnce sync.Once
var buildErr error

// Gogll builds the tool from the repository's working tree.
func Gogll() (string, error) {
	buildOnce.Do(func() {
		if Scratch == "" {
			Scratch, buildErr = os.MkdirTemp("", "gv-e2e-")
			if buildErr != nil {
				return
			}
		}
		gogllBin = filepath.Join(Scratch, "gogll")
		cmd := exec.Command("go", "build", "-o", gogllBin, ".")
		cmd.Dir = Repo
		if out, err := cmd.CombinedOutput(); err != nil {
			buildErr = fmt.Errorf("go build of gogll: %v\n%s", err, out)
		}
	})
	return gogllBin, buildErr
}

// Case is one run of gogll.
type Case struct {
	Name  string // package directory, e.g. g12
	Text  string // contents of the source file; the package is gv.test/ws/<Name>
	Args  []string
	File  string // file name, default g.txt
	Parse string // "", "gll" or "lr": which parser to drive
	// results
	Dir      string
	Exit     int
	Out      string
	TimedOut bool
	Compile  string // compiler output when the generated code does not compile
	Driven   bool
}

// Pkg of the case.
func (c *Case) Pkg() string { return "gv.test/ws/" + c.Name }

// Failed: gogll ended badly (a Go panic, a fatal error or a timeout).
func (c *Case) Failed() bool {
	return c.TimedOut || strings.Contains(c.Out, "goroutine ") || c.Exit < 0
}

// Workspace of generated packages.
type Workspace struct {
	Dir string
	bin string
}

// Run gogll on every case.
func Run(name string, cases []*Case) (*Workspace, error) {
	bin, err := Gogll()
	if err != nil {
		return nil, err
	}
	ws := &Workspace{Dir: filepath.Join(Scratch, name)}
	if err := os.MkdirAll(ws.Dir, 0o755); err != nil {
		return nil, err
	}
	mod := "module gv.test/ws\n\ngo 1.17\n\nrequire github.com/goccmack/goutil v1.2.3\n"
	os.WriteFile(filepath.Join(ws.Dir, "go.mod"), []byte(mod), 0o644)
	sum, _ := os.ReadFile(filepath.Join(Repo, "go.sum"))
	os.WriteFile(filepath.Join(ws.Dir, "go.sum"), sum, 0o644)
	Parallel(len(cases), func(i int) {
		c := cases[i]
		c.Dir = filepath.Join(ws.Dir, c.Name)
		os.MkdirAll(c.Dir, 0o755)
		f := c.File
		if f == "" {
			f = "g.txt"
		}
		f = filepath.Join(c.Dir, f)
		os.WriteFile(f, []byte(c.Text), 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, append(append([]string{}, c.Args...), f)...)
		cmd.Dir = c.Dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=1GiB")
		var ob bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &ob
		err := cmd.Run()
		c.Out = clip(ob.String(), 20000)
		if ctx.Err() != nil {
			c.TimedOut = true
		}
		if err != nil {
			c.Exit = cmd.ProcessState.ExitCode()
		}
	})
	return ws, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Parallel runs f(0..n-1) on all cores.
func Parallel(n int, f func(int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

var reASTFunc = regexp.MustCompile(`(?m)^func ([A-Za-z0-9_]+)\(([^)]*)\)\s*\(interface\{\}, error\)\s*\{`)

// treeAST replaces the generated stubs by functions that build a tree.
func treeAST(dir string) error {
	f := filepath.Join(dir, "ast", "ast.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var w strings.Builder
	w.WriteString(treeSrc)
	for _, m := range reASTFunc.FindAllStringSubmatch(string(b), -1) {
		params := strings.TrimSpace(m[2])
		arg := ""
		if params != "" {
			for _, p := range strings.Split(params, ",") {
				p = strings.TrimSpace(p)
				p = strings.TrimSpace(strings.TrimSuffix(p, "interface{}"))
				if p != "" {
					if arg != "" {
						arg += ", "
					}
					arg += p
				}
			}
		}
		fmt.Fprintf(&w, "func %s(%s) (interface{}, error) {\n\treturn gvNode(%q, []interface{}{%s})\n}\n\n", m[1], m[2], m[1], arg)
	}
	return os.WriteFile(f, []byte(w.String()), 0o644)
}

const treeSrc = `package ast

import "errors"

type GvNode struct {
	F string
	C []interface{}
}

var (
	GvCalls  []string
	GvFailAt int
)

func gvNode(f string, c []interface{}) (interface{}, error) {
	GvCalls = append(GvCalls, f)
	if GvFailAt == len(GvCalls) {
		return nil, errors.New("gv-ast-failure")
	}
	return &GvNode{f, c}, nil
}

`

const lexGlue = `package main

import (
	"reflect"
	lexer "PKG/lexer"
	token "PKG/token"
)

func init() {
	g := &gram{}
	lexed := func(l *lexer.Lexer) *res {
		r := &res{I: string(l.I), Runes: len(l.I)}
		for i, t := range l.Tokens {
			k := tok{Type: int(t.Type()), ID: t.TypeID(), Name: t.Type().String(), TID: t.Type().ID(), L: t.Lext(), R: t.Rext(), Lit: string(t.Literal()), LitS: t.LiteralString(), Sup: t.Suppress(), Str: t.String()}
			k.Strip = guard(func() string { return string(t.LiteralStripEscape()) })
			k.StripS = guard(func() string { return t.LiteralStringStripEscape() })
			k.Line, k.Col = t.GetLineColumn()
			k.L2, k.C2 = l.GetLineColumnOfToken(i)
			k.L3, k.C3 = l.GetLineColumn(t.Lext())
			k.Same = reflect.DeepEqual(t.GetInput(), l.I)
			r.Toks = append(r.Toks, k)
		}
		return r
	}
	g.lex = func(in string) *res { return lexed(lexer.New([]rune(in))) }
	g.lexFile = func(f string) *res { return lexed(lexer.NewFile(f)) }
	g.str = func(in string, a, b int) *res {
		l := lexer.New([]rune(in))
		return &res{I: l.GetString(a, b)}
	}
	g.strip = func(in string, a, b int) *res {
		t := token.New(token.Error, a, b, []rune(in))
		r := &res{I: string(t.LiteralStripEscape()), S: t.LiteralStringStripEscape()}
		return r
	}
	g.table = func() *res {
		r := &res{}
		for i := range token.TypeToID {
			t := token.Type(i)
			k := tok{Type: i, ID: t.ID(), Name: t.String(), Sup: token.New(t, 0, 0, nil).Suppress()}
			k.L, k.R = -1, -1
			if x, ok := token.IDToType[k.ID]; ok {
				k.L = int(x)
			}
			if x, ok := token.StringToType[k.Name]; ok {
				k.R = int(x)
			}
			k.L2, k.C2 = len(token.IDToType), len(token.StringToType)
			k.L3, k.C3 = len(token.TypeToString), len(token.Suppress)
			r.Toks = append(r.Toks, k)
		}
		return r
	}
	PARSE
	reg["NAME"] = g
}
`

const gllParse = `
	g.gll = func(in string, full bool) *res {
		l := lexer.New([]rune(in))
		bs, errs := parser.Parse(l)
		r := &res{OK: errs == nil, HasSet: bs != nil}
		for _, t := range l.Tokens {
			r.Toks = append(r.Toks, tok{Type: int(t.Type()), ID: t.TypeID(), L: t.Lext(), R: t.Rext()})
		}
		for _, e := range errs {
			pe := perr{Slot: e.Slot.String(), Line: e.Line, Col: e.Column}
			if e.Token != nil {
				pe.Tok = e.Token.TypeID()
				pe.L = e.Token.Lext()
			}
			for t, id := range e.Expected {
				pe.Exp = append(pe.Exp, t.ID())
				if id != t.ID() {
					pe.Exp = append(pe.Exp, "?"+id)
				}
			}
			pe.Str = e.String()
			r.Errs = append(r.Errs, pe)
		}
		if bs == nil {
			return r
		}
		r.Right = bs.GetRightExtent()
		key := func(b bsr.BSR) bkey { return bkey{b.Label.Head().String(), b.Alternate(), b.LeftExtent(), b.Pivot(), b.RightExtent()} }
		all := bs.GetAll()
		if len(all) > 4000 {
			r.Big = true
			return r
		}
		for _, b := range all {
			e := bent{K: key(b)}
			if full {
				ss := b.Label.Symbols()
				e.Syms = ss.Strings()
				for i, s := range ss {
					i, s := i, s
					if s.IsNonTerminal() {
						var ks []bkey
						e.Err = append(e.Err, guard(func() string {
							for _, c := range b.GetNTChildrenI(i) {
								ks = append(ks, key(c))
							}
							return ""
						}))
						e.Ch = append(e.Ch, ks)
						n := 0
						for j := 0; j < i; j++ {
							if ss[j] == s {
								n++
							}
						}
						var ks2 []bkey
						x := guard(func() string {
							for _, c := range b.GetNTChildren(s.(symbols.NT), n) {
								ks2 = append(ks2, key(c))
							}
							return ""
						})
						if x == "" && !reflect.DeepEqual(ks, ks2) {
							e.Note = append(e.Note, "GetNTChildren differs from GetNTChildrenI")
						}
						x = guard(func() string {
							c := b.GetNTChildI(i)
							if len(ks) != 1 || key(c) != ks[0] {
								return "wrong child"
							}
							return ""
						})
						if (x == "") != (len(ks) == 1) {
							e.Note = append(e.Note, "GetNTChildI: "+x)
						}
						x = guard(func() string {
							c := b.GetNTChild(s.(symbols.NT), n)
							if len(ks) != 1 || key(c) != ks[0] {
								return "wrong child"
							}
							return ""
						})
						if (x == "") != (len(ks) == 1) {
							e.Note = append(e.Note, "GetNTChild: "+x)
						}
					} else {
						e.Ch = append(e.Ch, nil)
						pos := -1
						e.Err = append(e.Err, guard(func() string {
							t := b.GetTChildI(i)
							for k, x := range l.Tokens {
								if x == t {
									pos = k
								}
							}
							return ""
						}))
						e.Tok = append(e.Tok, [2]int{i, pos})
					}
				}
				e.N = len(guardN(func() int { return len(b.GetAllNTChildren()) }))
			}
			r.BSR = append(r.BSR, e)
		}
		for _, b := range bs.GetRoots() {
			r.Roots = append(r.Roots, key(b))
		}
		if full {
			m := len(l.Tokens) - 1
			for i := 0; i <= m; i++ {
				for j := i; j <= m; j++ {
					for _, nt := range ntNames(symbols.IsNT, NTS) {
						if bs.Contain(symbols.ToNT(nt), i, j) {
							r.Contain = append(r.Contain, bkey{nt, 0, i, 0, j})
						}
					}
				}
			}
			if m <= 12 {
				r.Amb = guard(func() string {
					if bs.IsAmbiguous() {
						return "yes"
					}
					return "no"
				})
				r.SPPF = guard(func() string {
					seen := map[string]bool{}
					var ns []string
					var walk func(n sppf.Node)
					walk = func(n sppf.Node) {
						if seen[n.Label()] {
							return
						}
						seen[n.Label()] = true
						s := n.Label() + " ->"
						switch n := n.(type) {
						case *sppf.SymbolNode:
							for _, c := range n.Children {
								s += " " + c.Label()
							}
							ns = append(ns, s)
							for _, c := range n.Children {
								walk(c)
							}
						case *sppf.IntermediateNode:
							for _, c := range n.Children {
								s += " " + c.Label()
							}
							ns = append(ns, s)
							for _, c := range n.Children {
								walk(c)
							}
						case *sppf.PackedNode:
							if n.LeftChild != nil {
								s += " " + n.LeftChild.Label()
							}
							s += " | " + n.RightChild.Label()
							ns = append(ns, s)
							if n.LeftChild != nil {
								walk(n.LeftChild)
							}
							walk(n.RightChild)
						}
					}
					walk(bs.ToSPPF())
					return strings.Join(ns, "\n")
				})
			}
		}
		return r
	}
`

const lrParse = `
	var dump func(x interface{}) *node
	dump = func(x interface{}) *node {
		switch x := x.(type) {
		case *ast.GvNode:
			n := &node{F: x.F}
			for _, c := range x.C {
				n.C = append(n.C, dump(c))
			}
			return n
		case *token.Token:
			return &node{F: "tok", P: x.TypeID(), L: x.Lext(), R: x.Rext()}
		case nil:
			return &node{F: "nil"}
		}
		return &node{F: "?"}
	}
	g.lr = func(in string, failAt int) *res {
		l := lexer.New([]rune(in))
		ast.GvCalls, ast.GvFailAt = nil, failAt
		x, err := parser.New(l).Parse()
		r := &res{OK: err == nil, Calls: ast.GvCalls}
		for _, t := range l.Tokens {
			ln, col := t.GetLineColumn()
			r.Toks = append(r.Toks, tok{ID: t.TypeID(), L: t.Lext(), R: t.Rext(), Line: ln, Col: col, Str: t.String()})
		}
		if err != nil {
			r.S = err.Error()
			r.HasSet = x != nil
			return r
		}
		r.Tree = dump(x)
		return r
	}
`

const mainSrc = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"time"
)

type tok struct {
	Type                  int
	ID, Name, TID         string
	L, R                  int
	Lit, LitS             string
	Strip, StripS         string
	Line, Col             int
	L2, C2, L3, C3        int
	Sup, Same             bool
	Str                   string
}
type bkey struct {
	NT              string
	Alt, L, P, R    int
}
type bent struct {
	K    bkey
	Syms []string
	Ch   [][]bkey
	Err  []string
	Tok  [][2]int
	Note []string
	N    int
}
type perr struct {
	Slot, Tok, Str  string
	Line, Col, L int
	Exp             []string
}
type node struct {
	F, P string
	L, R int
	C    []*node
}
type res struct {
	I, S    string
	Runes   int
	Toks    []tok
	OK      bool
	HasSet  bool
	Big     bool
	Errs    []perr
	Right   int
	BSR     []bent
	Roots   []bkey
	Contain []bkey
	Amb     string
	SPPF    string
	Tree    *node
	Calls   []string
	Panic   string
	Timeout bool
}
type gram struct {
	lex     func(string) *res
	lexFile func(string) *res
	str     func(string, int, int) *res
	strip   func(string, int, int) *res
	table   func() *res
	gll     func(string, bool) *res
	lr      func(string, int) *res
}
type req struct {
	G, Op, In string
	A, B      int
}

var reg = map[string]*gram{}

func guard(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = "panic: " + fmt.Sprint(e)
		}
	}()
	return f()
}
func guardN(f func() int) (r []int) {
	defer func() { recover() }()
	return make([]int, f())
}
func ntNames(is func(string) bool, all []string) (r []string) {
	for _, n := range all {
		if is(n) {
			r = append(r, n)
		}
	}
	return
}

func serve(q req) (r *res) {
	defer func() {
		if e := recover(); e != nil {
			r = &res{Panic: fmt.Sprint(e)}
		}
	}()
	g := reg[q.G]
	switch q.Op {
	case "lex":
		return g.lex(q.In)
	case "lexfile":
		return g.lexFile(q.In)
	case "str":
		return g.str(q.In, q.A, q.B)
	case "strip":
		return g.strip(q.In, q.A, q.B)
	case "table":
		return g.table()
	case "gll":
		return g.gll(q.In, q.A > 0)
	case "lr":
		return g.lr(q.In, q.A)
	}
	return &res{Panic: "bad op"}
}

func main() {
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	for {
		var q req
		if dec.Decode(&q) != nil {
			return
		}
		ch := make(chan *res, 1)
		go func() { ch <- serve(q) }()
		var r *res
		select {
		case r = <-ch:
		case <-time.After(4 * time.Second):
			enc.Encode(&res{Timeout: true})
			w.Flush()
			os.Exit(3)
		}
		enc.Encode(r)
		w.Flush()
	}
}
`

// Response types, mirrored from the driver.
type (
	Tok struct {
		Type           int
		ID, Name, TID  string
		L, R           int
		Lit, LitS      string
		Strip, StripS  string
		Line, Col      int
		L2, C2, L3, C3 int
		Sup, Same      bool
		Str            string
	}
	Key struct {
		NT           string
		Alt, L, P, R int
	}
	Ent struct {
		K    Key
		Syms []string
		Ch   [][]Key
		Err  []string
		Tok  [][2]int
		Note []string
		N    int
	}
	PErr struct {
		Slot, Tok, Str string
		Line, Col, L   int
		Exp            []string
	}
	Node struct {
		F, P string
		L, R int
		C    []*Node
	}
	Res struct {
		I, S    string
		Runes   int
		Toks    []Tok
		OK      bool
		HasSet  bool
		Big     bool
		Errs    []PErr
		Right   int
		BSR     []Ent
		Roots   []Key
		Contain []Key
		Amb     string
		SPPF    string
		Tree    *Node
		Calls   []string
		Panic   string
		Timeout bool
	}
	Req struct {
		G, Op, In string
		A, B      int
	}
)

// Compile builds the driver over all the cases for which gogll succeeded. Cases whose
// generated code does not compile get c.Compile set and are left out.
func (ws *Workspace) Compile(cases []*Case, nts func(*Case) []string) error {
	var live []*Case
	for _, c := range cases {
		if c.Exit == 0 && !c.TimedOut {
			if c.Parse == "lr" {
				if err := treeAST(c.Dir); err != nil {
					c.Compile = err.Error()
					continue
				}
			}
			live = append(live, c)
		}
	}
	drv := filepath.Join(ws.Dir, "driver")
	for round := 0; round < 4; round++ {
		os.RemoveAll(drv)
		os.MkdirAll(drv, 0o755)
		os.WriteFile(filepath.Join(drv, "main.go"), []byte(mainSrc), 0o644)
		for _, c := range live {
			src := lexGlue
			imp := ""
			switch c.Parse {
			case "gll":
				p := gllParse
				var q []string
				for _, n := range nts(c) {
					q = append(q, fmt.Sprintf("%q", n))
				}
				p = strings.ReplaceAll(p, "NTS", "[]string{"+strings.Join(q, ",")+"}")
				src = strings.ReplaceAll(src, "PARSE", p)
				imp = "\t\"strings\"\n\tparser \"PKG/parser\"\n\tbsr \"PKG/parser/bsr\"\n\tsymbols \"PKG/parser/symbols\"\n\tsppf \"PKG/sppf\"\n"
			case "lr":
				src = strings.ReplaceAll(src, "PARSE", lrParse)
				imp = "\tparser \"PKG/parser\"\n\tast \"PKG/ast\"\n"
			default:
				src = strings.ReplaceAll(src, "PARSE", "")
			}
			src = strings.Replace(src, "\t\"reflect\"\n", "\t\"reflect\"\n"+imp, 1)
			src = strings.ReplaceAll(strings.ReplaceAll(src, "PKG", c.Pkg()), "NAME", c.Name)
			os.WriteFile(filepath.Join(drv, c.Name+".go"), []byte(src), 0o644)
		}
		ws.bin = filepath.Join(ws.Dir, "driver.bin")
		cmd := exec.Command("go", "build", "-gcflags=all=-N -l", "-o", ws.bin, "./driver")
		cmd.Args = []string{"go", "build", "-o", ws.bin, "./driver"}
		cmd.Dir = ws.Dir
		out, err := cmd.CombinedOutput()
		if err == nil {
			for _, c := range live {
				c.Driven = true
			}
			return nil
		}
		bad := map[string]bool{}
		for _, m := range regexp.MustCompile(`(?m)^(?:# gv\.test/ws/|)(g[A-Za-z0-9_]*)/`).FindAllStringSubmatch(string(out), -1) {
			bad[m[1]] = true
		}
		for _, m := range regexp.MustCompile(`driver/(g[A-Za-z0-9_]*)\.go`).FindAllStringSubmatch(string(out), -1) {
			bad[m[1]] = true
		}
		var rest []*Case
		for _, c := range live {
			if bad[c.Name] {
				var ls []string
				for _, l := range strings.Split(string(out), "\n") {
					if strings.Contains(l, c.Name+"/") || strings.Contains(l, c.Name+".go") {
						ls = append(ls, l)
					}
				}
				c.Compile = clip(strings.Join(ls, "\n"), 3000)
			} else {
				rest = append(rest, c)
			}
		}
		if len(rest) == len(live) {
			return fmt.Errorf("driver does not build: %s", clip(string(out), 4000))
		}
		live = rest
	}
	return fmt.Errorf("driver does not build")
}

type client struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
}

func (ws *Workspace) client() (*client, error) {
	c := &client{cmd: exec.Command(ws.bin)}
	c.cmd.Env = append(os.Environ(), "GOMEMLIMIT=1500MiB", "GOGC=50")
	c.cmd.Dir = ws.Dir
	var err error
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := c.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.out = json.NewDecoder(bufio.NewReaderSize(o, 1<<20))
	return c, c.cmd.Start()
}

func (c *client) stop() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

// Do answers all requests.
func (ws *Workspace) Do(reqs []Req) []*Res {
	out := make([]*Res, len(reqs))
	n := runtime.NumCPU()
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			var c *client
			for i := w; i < len(reqs); i += n {
				if c == nil {
					var err error
					if c, err = ws.client(); err != nil {
						out[i] = &Res{Panic: "driver: " + err.Error()}
						continue
					}
				}
				b, _ := json.Marshal(reqs[i])
				r := &Res{}
				if _, err := c.in.Write(append(b, '\n')); err != nil {
					r.Panic = "the program ended"
				} else if err := c.out.Decode(r); err != nil {
					r.Panic = "the program ended"
				}
				out[i] = r
				if r.Timeout || r.Panic == "the program ended" {
					c.stop()
					c = nil
				}
			}
			if c != nil {
				c.stop()
			}
		}()
	}
	wg.Wait()
	return out
}
