package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// overlay replaces source files while loading (used by the mutation self-test only).
type mutant struct {
	file string
	text string
	desc string
}

// mutants of the body of one function: small edits of operators, constants, conditions
// and statements. The self-test counts how many the contracts reject.
func mutantsOf(v *Verifier, fi *FuncInfo) []mutant {
	fset := v.L.fset
	file := fset.Position(fi.Decl.Pos()).Filename
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []mutant
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	edit := func(from, to token.Pos, s, desc string) {
		t := string(src[:off(from)]) + s + string(src[off(to):])
		out = append(out, mutant{file, t, fmt.Sprintf("%s:%d: %s", filepath.Base(file), fset.Position(from).Line, desc)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
	}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, o := range swap[n.Op] {
				edit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, fmt.Sprintf("%s -> %s in %s", n.Op, o, text(n)))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				edit(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+"+1")
			}
			if n.Kind == token.CHAR {
				edit(n.Pos(), n.End(), "'#'", n.Value+" -> '#'")
			}
			if n.Kind == token.STRING && len(n.Value) > 2 {
				edit(n.Pos(), n.End(), "\"#\"", n.Value+" -> #")
			}
		case *ast.Ident:
			if n.Name == "true" {
				edit(n.Pos(), n.End(), "false", "true -> false")
			}
			if n.Name == "false" {
				edit(n.Pos(), n.End(), "true", "false -> true")
			}
		case *ast.IfStmt:
			edit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate if "+text(n.Cond))
			if n.Else != nil {
				edit(n.Else.Pos(), n.Else.End(), "{}", "drop else branch")
			}
		case *ast.IncDecStmt:
			o := "--"
			if n.Tok == token.DEC {
				o = "++"
			}
			edit(n.TokPos, n.TokPos+2, o, text(n)+" -> "+o)
		case *ast.SliceExpr:
			if n.Low != nil {
				edit(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1", "slice low+1 in "+text(n))
			}
			if n.High != nil {
				edit(n.High.Pos(), n.High.End(), text(n.High)+"-1", "slice high-1 in "+text(n))
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt:
					edit(s.Pos(), s.End(), "", "drop "+text(s))
				case *ast.AssignStmt:
					if s.Tok == token.ASSIGN || s.Tok != token.DEFINE {
						edit(s.Pos(), s.End(), "", "drop "+text(s))
					}
				case *ast.BranchStmt:
					if s.Tok == token.CONTINUE {
						edit(s.Pos(), s.End(), "break", "continue -> break")
						edit(s.Pos(), s.End(), "", "drop continue")
					}
					if s.Tok == token.BREAK {
						edit(s.Pos(), s.End(), "", "drop break")
					}
				}
			}
		}
		return true
	})
	return out
}

func cmdMutate(args []string) {
	fs := flag.NewFlagSet("mutate", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	only := fs.String("f", "", "only functions whose key contains this")
	par := fs.Int("j", 6, "")
	fs.Parse(args)
	files := fs.Args()
	v, err := newVerifier(*repo, nil, files)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	type job struct {
		key string
		m   mutant
	}
	var jobs []job
	for _, k := range v.Sp.Order {
		c := v.Sp.Contracts[k]
		if c.Trusted || c.Inline || !strings.Contains(k, *only) {
			continue
		}
		if err := v.loadFor(c.Pkg); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if fi := v.L.byKey[k]; fi != nil {
			for _, m := range mutantsOf(v, fi) {
				jobs = append(jobs, job{k, m})
			}
		}
	}
	var mu sync.Mutex
	var surv []string
	killed, invalid := 0, 0
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			w, err := newVerifier(*repo, nil, files)
			if err == nil {
				w.L.overlay = map[string]string{j.m.file: j.m.text}
				w.Fast = true
				err = w.loadFor(w.Sp.Contracts[j.key].Pkg)
			}
			mu.Lock()
			if err != nil {
				invalid++
				mu.Unlock()
				return
			}
			mu.Unlock()
			r := w.Func(j.key)
			mu.Lock()
			defer mu.Unlock()
			if r.OK() {
				surv = append(surv, j.key+"  "+j.m.desc)
			} else {
				killed++
			}
		}()
	}
	wg.Wait()
	sort.Strings(surv)
	for _, s := range surv {
		fmt.Println("SURVIVES", s)
	}
	fmt.Printf("%d mutants rejected, %d accepted, %d do not compile\n", killed, len(surv), invalid)
}
