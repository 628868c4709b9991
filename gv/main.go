package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

const modPath = "github.com/goccmack/gogll/v3"

func goutilDir() string {
	if d := os.Getenv("GV_GOUTIL"); d != "" {
		return d
	}
	ms, _ := filepath.Glob("/root/go/pkg/mod/github.com/goccmack/goutil@*")
	if len(ms) > 0 {
		return ms[len(ms)-1]
	}
	return "/nonexistent"
}

func newVerifier(repo string, extra map[string]string, files []string) (*Verifier, error) {
	roots := map[string]string{modPath: repo, "github.com/goccmack/goutil": goutilDir()}
	for k, d := range extra {
		roots[k] = d
	}
	l := NewLoader(roots)
	sp := &Specs{Contracts: map[string]*Contract{}, Funcs: map[string]*SpecFunc{}}
	for _, f := range files {
		if err := sp.ParseFile(f, nil); err != nil {
			return nil, err
		}
	}
	return &Verifier{L: l, Sp: sp, FP: NewFootprints(l, sp), Quick: 2 * time.Second, Long: 12 * time.Second, Workers: 8, sem: make(chan struct{}, 8)}, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gv verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "mutate":
		cmdMutate(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "verify":
		cmdVerify(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	only := fs.String("f", "", "only functions whose key contains this")
	dump := fs.String("dump", "", "dump failed queries to dir")
	dumpAll := fs.Bool("dumpall", false, "dump every query")
	all := fs.Bool("v", false, "list every obligation")
	inst := fs.String("inst", "", "verify the code generated for this instance (gll, lr) against the contracts in -verif")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	files := fs.Args()
	var v *Verifier
	var err error
	if *inst != "" {
		scratch, _ := os.MkdirTemp("", "gv-inst-")
		defer os.RemoveAll(scratch)
		ins, err1 := generate(*repo, *verif, scratch)
		if err1 != nil {
			fmt.Fprintln(os.Stderr, err1)
			os.Exit(2)
		}
		v, err = newInstVerifier(*repo, *verif, ins[*inst])
	} else {
		v, err = newVerifier(*repo, nil, files)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v.DumpDir = *dump
	var keys []string
	for _, k := range v.Sp.Order {
		c := v.Sp.Contracts[k]
		if err := v.loadFor(c.Pkg); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if c.Trusted || c.Inline {
			continue
		}
		if *only == "" || regexp.MustCompile(*only).MatchString(k) {
			keys = append(keys, k)
		}
	}
	reps := make([]*FuncReport, 0)
	if *only == "" || strings.HasPrefix(*only, "lemma") {
		for i, a := range v.Sp.Axioms {
			if a.Lemma {
				reps = append(reps, v.lemma(i))
			}
		}
	}
	t0 := time.Now()
	fr := make([]*FuncReport, len(keys))
	for i, k := range keys {
		fr[i] = v.Func(k)
	}
	reps = append(reps, fr...)
	bad := 0
	for _, r := range reps {
		n, ok := 0, 0
		for _, o := range r.Obls {
			if o.Cand != nil {
				continue
			}
			n++
			if o.ok() {
				ok++
			}
		}
		fmt.Printf("%-70s %d/%d %.1fs", r.Key, ok, n, r.Secs)
		if r.Error != "" {
			fmt.Printf("  ERROR %s", r.Error)
			bad++
		}
		fmt.Println()
		for _, o := range r.Obls {
			if o.Cand != nil {
				if *all {
					fmt.Printf("    cand %s %s\n", o.Name, o.Res.Status)
				}
				continue
			}
			if !o.ok() || *all || o.Res.Secs > 3 {
				if !o.ok() {
					bad++
				}
				fmt.Printf("    %-8s %s  %s:%d  %s [%s %.1fs]\n", o.Res.Status, o.Name, shortFile(o.Pos.Filename), o.Pos.Line, o.Src, o.Res.Solver, o.Res.Secs)
				if o.Part != "" && !o.ok() {
					fmt.Printf("        part: %.300s\n", o.Part)
				}
				if *dump != "" && (*dumpAll || !o.ok()) {
					fmt.Println("       ", dumpQuery(*dump, o.Name, o.Query))
				}
			}
		}
		for _, s := range r.NoTerm {
			fmt.Println("    no termination argument:", s)
		}
		if *all {
			for _, a := range r.Assumptions {
				fmt.Println("    assumes:", a)
			}
		}
	}
	solverMu.Lock()
	var ss []string
	for k, n := range solverCount {
		ss = append(ss, fmt.Sprintf("%s: %d queries %.1fs", k, n, solverTime[k]))
	}
	sort.Strings(ss)
	fmt.Printf("wall %.1fs; %s\n", time.Since(t0).Seconds(), strings.Join(ss, "; "))
	if bad > 0 && *inst == "" {
		os.Exit(1)
	}
}

func (v *Verifier) loadFor(pkg string) error {
	_, err := v.L.Load(pkg)
	return err
}
