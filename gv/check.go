package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// CheckConf describes the check of one property (one entry of checks.json).
type CheckConf struct {
	Level     string
	Roots     []string // regular expressions over function keys, with $GEN for the package of generated code
	Instances []string // where $GEN roots are verified: repo, gll, lr
	Oracles   []string // programs below oracle/cmd
	Trusted   []string
	Note      string
}

type oracleFinding struct {
	Prop, Key, What string
	Detail          map[string]interface{}
}

type oracleStats struct {
	Prop, Area, Rule string
	Evals, Distinct  int
	Samples, Notes   []string
}

type oracleOut struct {
	Findings []*oracleFinding
	Stats    []*oracleStats
	Name     string  `json:"-"`
	Err      string  `json:"-"`
	Secs     float64 `json:"-"`
}

type instance struct {
	name string
	gen  string
	dir  string // root of the generated module, "" for repo
}

func specFiles(verif string, inst string) []string {
	fs, _ := filepath.Glob(filepath.Join(verif, "contracts", "*.spec"))
	sort.Strings(fs)
	var out []string
	for _, f := range fs {
		b := filepath.Base(f)
		switch {
		case strings.HasPrefix(b, "gen_"):
		case strings.HasPrefix(b, "genlr_"):
			if inst != "lr" {
				continue
			}
		case strings.HasPrefix(b, "onlygll_"):
			if inst != "gll" {
				continue
			}
		case strings.HasPrefix(b, "gengll_"):
			if inst == "lr" {
				continue
			}
		default:
			if inst != "repo" {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func newInstVerifier(repo, verif string, in instance) (*Verifier, error) {
	roots := map[string]string{modPath: repo, "github.com/goccmack/goutil": goutilDir()}
	if in.dir != "" {
		roots[in.gen] = in.dir
	}
	l := NewLoader(roots)
	sp := &Specs{Contracts: map[string]*Contract{}, Funcs: map[string]*SpecFunc{}}
	for _, f := range specFiles(verif, in.name) {
		if err := sp.ParseFile(f, map[string]string{"$GEN": in.gen}); err != nil {
			return nil, err
		}
	}
	return &Verifier{L: l, Sp: sp, FP: NewFootprints(l, sp), Quick: 3 * time.Second, Long: 15 * time.Second, Workers: 8, sem: make(chan struct{}, 8), Deadline: time.Now().Add(700 * time.Second)}, nil
}

// generate runs gogll, built from the repository, on the grammars the contracts of
// generated code are checked on.
func generate(repo, verif, scratch string) (map[string]instance, error) {
	bin := filepath.Join(scratch, "gogll")
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("gogll does not build: %s", tail(string(out), 2000))
	}
	res := map[string]instance{}
	for _, k := range []struct{ name, flag string }{{"gll", "-gll"}, {"lr", "-knuth"}} {
		dir := filepath.Join(scratch, "gen", k.name)
		os.MkdirAll(dir, 0o755)
		gen := "gv.test/" + k.name
		src, err := os.ReadFile(filepath.Join(verif, "contracts", "grammar.md"))
		if err != nil {
			return nil, err
		}
		os.WriteFile(filepath.Join(dir, "g.md"), []byte(strings.ReplaceAll(string(src), "$GEN", gen)), 0o644)
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+gen+"\n\ngo 1.15\n\nrequire github.com/goccmack/goutil v1.2.3\n"), 0o644)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		c := exec.CommandContext(ctx, bin, k.flag, "g.md")
		c.Dir = dir
		out, err := c.CombinedOutput()
		cancel()
		if err != nil {
			return nil, fmt.Errorf("gogll %s fails on the contract grammar: %v %s", k.flag, err, tail(string(out), 2000))
		}
		res[k.name] = instance{k.name, gen, dir}
	}
	return res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type instReport struct {
	in   instance
	reps []*FuncReport
	err  string
}

func verifyInstance(repo, verif string, in instance, conf *CheckConf) *instReport {
	ir := &instReport{in: in}
	v, err := newInstVerifier(repo, verif, in)
	if err != nil {
		ir.err = err.Error()
		return ir
	}
	// the whole program first: footprints and interface calls are taken over all of it
	for _, k := range v.Sp.Order {
		if err := v.loadFor(v.Sp.Contracts[k].Pkg); err != nil {
			ir.err = err.Error()
			return ir
		}
	}
	var todo []string
	seen := map[string]bool{}
	add := func(k string) {
		c := v.Sp.Contracts[k]
		if c == nil || c.Trusted || c.Inline || seen[k] {
			return
		}
		seen[k] = true
		todo = append(todo, k)
	}
	for _, r := range conf.Roots {
		isGen := strings.Contains(r, "$GEN")
		if in.name != "repo" && !isGen {
			continue
		}
		re := regexp.MustCompile("^(" + strings.ReplaceAll(r, "$GEN", regexp.QuoteMeta(in.gen)) + ")$")
		n := 0
		for _, k := range v.Sp.Order {
			if re.MatchString(k) {
				add(k)
				n++
			}
		}
		if n == 0 && !(isGen && in.name != "repo") && !(isGen && in.name == "repo" && !contains2(conf.Instances, "repo")) {
			ir.err = "no contract matches " + r
			return ir
		}
	}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if err := v.loadFor(v.Sp.Contracts[k].Pkg); err != nil {
			ir.reps = append(ir.reps, &FuncReport{Key: k, Error: err.Error()})
			continue
		}
		r := v.Func(k)
		if !r.OK() && !v.late() {
			// once more, with more time
			q, l := v.Quick, v.Long
			v.Quick, v.Long = 2*q, 2*l
			if r.Error == "" {
				r = v.Func(k)
			}
			v.Quick, v.Long = q, l
		}
		ir.reps = append(ir.reps, r)
		for _, d := range r.Deps {
			add(d)
		}
	}
	// every lemma of the packages these contracts are about
	pkgs := map[string]bool{}
	for k := range seen {
		pkgs[v.Sp.Contracts[k].Pkg] = true
	}
	for i, a := range v.Sp.Axioms {
		if a.Lemma && pkgs[a.Pkg] {
			r := v.lemma(i)
			if !r.OK() && r.Error == "" && !v.late() {
				v.Quick, v.Long = 2*v.Quick, 2*v.Long
				r = v.lemma(i)
				v.Quick, v.Long = v.Quick/2, v.Long/2
			}
			ir.reps = append(ir.reps, r)
		}
	}
	return ir
}

func contains2(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func runOracle(repo, verif, scratch, name, prop string, timeout time.Duration) *oracleOut {
	t0 := time.Now()
	o := &oracleOut{Name: name}
	defer func() { o.Secs = time.Since(t0).Seconds() }()
	bin := filepath.Join(scratch, "oracle-"+name)
	b := exec.Command("go", "build", "-o", bin, "./cmd/"+name)
	b.Dir = filepath.Join(verif, "oracle")
	if out, err := b.CombinedOutput(); err != nil {
		o.Err = "does not build against this tree: " + tail(string(out), 1500)
		return o
	}
	work := filepath.Join(scratch, "work-"+name)
	os.MkdirAll(work, 0o755)
	res := filepath.Join(scratch, name+".json")
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Dir = work
	c.Env = append(os.Environ(), "GV_OUT="+res, "GV_SCRATCH="+work, "GV_REPO="+repo, "GV_PROP="+prop)
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err := c.Run()
	data, rerr := os.ReadFile(res)
	if rerr == nil {
		if jerr := json.Unmarshal(data, o); jerr != nil {
			o.Err = jerr.Error()
		}
	}
	if err != nil {
		o.Err = fmt.Sprintf("%v: %s", err, tail(buf.String(), 1500))
	}
	return o
}

type violation struct {
	File  string
	What  string
	Known bool
	NFIF  bool
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	noOracle := fs.Bool("no-oracle", false, "proof only")
	noProof := fs.Bool("no-proof", false, "oracles only")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	os.Setenv("VERIF_TIER", *tier)
	if os.Getenv("VERIF_SEED") == "" {
		os.Setenv("VERIF_SEED", "1")
	}
	var seed int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	t0 := time.Now()
	data, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	confs := map[string]*CheckConf{}
	if err := json.Unmarshal(data, &confs); err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	conf := confs[*prop]
	if conf == nil {
		fmt.Println("no check for", *prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "gv-check-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	limit := 300 * time.Second
	if *tier == "thorough" {
		limit = 800 * time.Second
	}
	var outs []*oracleOut
	var reps []*instReport
	var wg sync.WaitGroup
	var mu sync.Mutex
	if !*noOracle {
		for _, n := range conf.Oracles {
			n := n
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := runOracle(*repo, *verif, scratch, n, *prop, limit)
				mu.Lock()
				outs = append(outs, o)
				mu.Unlock()
			}()
		}
	}
	if !*noProof && len(conf.Roots) > 0 {
		insts := map[string]instance{"repo": {"repo", modPath, ""}}
		needGen := false
		for _, i := range conf.Instances {
			needGen = needGen || i != "repo"
		}
		var genErr error
		if needGen {
			gi, err := generate(*repo, *verif, scratch)
			genErr = err
			for k, i := range gi {
				insts[k] = i
			}
		}
		names := []string{"repo"}
		for _, i := range conf.Instances {
			if i != "repo" {
				names = append(names, i)
			}
		}
		for _, n := range names {
			n := n
			wg.Add(1)
			go func() {
				defer wg.Done()
				var r *instReport
				if in, ok := insts[n]; ok {
					c := *conf
					if n == "repo" && !contains2(conf.Instances, "repo") {
						c.Roots = nil
						for _, x := range conf.Roots {
							if !strings.Contains(x, "$GEN") {
								c.Roots = append(c.Roots, x)
							}
						}
					}
					r = verifyInstance(*repo, *verif, in, &c)
				} else {
					r = &instReport{in: instance{name: n}, err: fmt.Sprint(genErr)}
				}
				mu.Lock()
				reps = append(reps, r)
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	sort.Slice(reps, func(i, j int) bool { return reps[i].in.name > reps[j].in.name })
	sort.Slice(outs, func(i, j int) bool { return outs[i].Name < outs[j].Name })
	return report(*prop, *tier, seed, *verif, conf, reps, outs, t0)
}

type knownFinding struct{ prop, key, text string }

func loadKnown(file string) (ks []knownFinding) {
	data, _ := os.ReadFile(file)
	re := regexp.MustCompile(`^finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			ks = append(ks, knownFinding{m[1], m[2], m[3]})
		}
	}
	return
}

func report(prop, tier string, seed int, verif string, conf *CheckConf, reps []*instReport, outs []*oracleOut, t0 time.Time) int {
	rdir := filepath.Join(verif, "replay", prop)
	os.RemoveAll(rdir)
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	nviol := 0
	writeReplay := func(name string, v interface{}) string {
		os.MkdirAll(rdir, 0o755)
		f := filepath.Join(rdir, name+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		return f
	}
	// proof
	obls, disch, covers := 0, 0, 0
	type failed struct {
		Instance, Function, Obligation, Source, Position, Status, Solver, Output, Query string
	}
	var fails []failed
	var fnames []string
	assumps := map[string]bool{}
	noterm := map[string]bool{}
	trusted := map[string]bool{}
	by := map[string]int{}
	for _, t := range conf.Trusted {
		trusted[t] = true
	}
	nfun := 0
	for _, ir := range reps {
		if ir.err != "" {
			fails = append(fails, failed{Instance: ir.in.name, Obligation: "instance", Output: ir.err})
		}
		for _, r := range ir.reps {
			nfun++
			nm := strings.Replace(r.Key, modPath+"/", "", 1)
			n, ok := 0, 0
			if r.Error != "" {
				fails = append(fails, failed{Instance: ir.in.name, Function: r.Key, Obligation: r.Key, Output: r.Error})
			}
			for _, o := range r.Obls {
				if o.Cand != nil {
					continue
				}
				if o.Cover {
					covers++
				} else {
					obls++
					n++
				}
				if o.ok() {
					if !o.Cover {
						disch++
						ok++
						by[o.Res.Solver]++
					}
					continue
				}
				fails = append(fails, failed{ir.in.name, r.Key, o.Name, o.Src, fmt.Sprintf("%s:%d", shortFile(o.Pos.Filename), o.Pos.Line), o.Res.Status, o.Res.Solver, tail(o.Res.Output, 2000), tail(o.Query, 60000)})
			}
			fnames = append(fnames, fmt.Sprintf("%s [%s] %d/%d", nm, ir.in.name, ok, n))
			for _, a := range r.Assumptions {
				assumps[a] = true
			}
			for _, a := range r.NoTerm {
				noterm[nm+": "+a] = true
			}
		}
	}
	// oracles
	evals, distinct := 0, 0
	var rules, samples, notes []string
	var bounded []map[string]interface{}
	concrete := 0
	var seenKnown = map[string]bool{}
	for _, o := range outs {
		if o.Err != "" {
			notes = append(notes, "bounded check "+o.Name+": "+o.Err)
		}
		for _, s := range o.Stats {
			if s.Prop != prop {
				continue
			}
			evals += s.Evals
			distinct += s.Distinct
			rules = append(rules, o.Name+": "+s.Rule)
			samples = append(samples, s.Samples...)
			notes = append(notes, s.Notes...)
			bounded = append(bounded, map[string]interface{}{"program": "oracle/cmd/" + o.Name, "label": "bounded, not proved", "rule": s.Rule, "evaluations": s.Evals, "distinct_nontrivial": s.Distinct, "seconds": o.Secs})
		}
		for _, f := range o.Findings {
			if f.Prop != prop {
				continue
			}
			isKnown := false
			for _, k := range known {
				if k.prop == prop && k.key == f.Key {
					isKnown = true
					if !seenKnown[k.key] {
						seenKnown[k.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.text, k.key)
					}
				}
			}
			if isKnown {
				continue
			}
			concrete++
			nviol++
			if concrete <= 5 {
				p := writeReplay(fmt.Sprintf("input-%d", concrete), map[string]interface{}{"property": prop, "kind": "failing input replayed against the code of /repo", "what": f.What, "key": f.Key, "detail": f.Detail, "program": "oracle/cmd/" + o.Name, "seed": seed, "tier": tier, "reproduce": fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s %s", seed, prop, tier), "failed_obligations": len(fails)})
				fmt.Printf("failing input: %s\n", f.What)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			}
		}
	}
	if len(fails) > 0 {
		for i, f := range fails {
			fmt.Printf("obligation not discharged: [%s] %s %s %s %s %s\n", f.Instance, f.Obligation, f.Position, f.Source, f.Status, tail(strings.SplitN(f.Output, "\n", 2)[0], 300))
			if i > 20 {
				break
			}
		}
		nviol += len(fails)
		if len(fails) > 40 {
			fails = fails[:40]
		}
		p := writeReplay("obligations", map[string]interface{}{"property": prop, "kind": "failed proof obligations", "obligations": fails, "failing_inputs_found": concrete})
		if concrete == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		}
	}
	wall := time.Since(t0).Seconds()
	solverMu.Lock()
	st := map[string]interface{}{}
	for k, n := range solverCount {
		st[k] = map[string]interface{}{"queries": n, "seconds": solverTime[k]}
	}
	solverMu.Unlock()
	if len(samples) > 6 {
		samples = samples[:6]
	}
	cov := map[string]interface{}{
		"explanation": conf.Note,
	}
	if nfun > 0 {
		cov["functions_under_contract"] = fnames
		cov["obligations"] = obls
		cov["discharged"] = disch
		cov["reachability_checks"] = covers
		cov["discharged_by"] = by
		cov["solver"] = st
		cov["checker_cmd"] = fmt.Sprintf("/verif/bin/gv check -prop %s -no-oracle", prop)
		cov["trusted_base"] = append([]string{"gv (the verification-condition generator in /verif/gv), go/parser and go/types, z3 4.8.12/5.x and cvc5 1.1.2"}, sortedKeys(trusted)...)
		if len(noterm) > 0 {
			cov["termination_not_proved"] = sortedKeys(noterm)
		}
	}
	if len(outs) > 0 {
		cov["bounded"] = bounded
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = strings.Join(rules, " | ")
		cov["samples"] = samples
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": conf.Level, "coverage": cov, "assumptions": sortedKeys(assumps), "wall_s": wall, "violations": nviol}
	if len(assumps) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged; bounded: %d cases (%d distinct); %d violations; %.1fs\n", prop, nfun, disch, obls, evals, distinct, nviol, wall)
	for _, n := range notes {
		fmt.Println("note:", tail(n, 600))
	}
	if nviol > 0 {
		return 1
	}
	return 0
}
