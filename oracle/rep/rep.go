// Package rep collects what an oracle found and covered.
package rep

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"sync"
)

// Finding is a concrete failing input.
type Finding struct {
	Prop   string
	Key    string // identifies the failure for the known-findings file
	What   string
	Detail map[string]any
}

// Stats of one property.
type Stats struct {
	Prop     string
	Area     string
	Evals    int
	Distinct int
	Rule     string
	Samples  []string
	Notes    []string
}

// Out is written as one JSON document.
type Out struct {
	Findings []*Finding
	Stats    []*Stats
}

var (
	mu   sync.Mutex
	out  Out
	sts  = map[string]*Stats{}
	seen = map[string]map[string]bool{}
	cnt  = map[string]int{}
)

// Fail records a failing input; at most 20 per property are kept.
func Fail(prop, key, what string, detail map[string]any) {
	mu.Lock()
	defer mu.Unlock()
	cnt[prop]++
	if cnt[prop] <= 20 {
		out.Findings = append(out.Findings, &Finding{prop, key, what, detail})
	}
}

// Rule sets how cases are made.
func Rule(prop, area, rule string) {
	mu.Lock()
	defer mu.Unlock()
	st(prop).Rule = rule
	st(prop).Area = area
}

func st(p string) *Stats {
	if sts[p] == nil {
		sts[p] = &Stats{Prop: p}
		seen[p] = map[string]bool{}
	}
	return sts[p]
}

// Eval counts a case; key identifies it among the distinct ones ("" = trivial).
func Eval(prop, key string, sample string) {
	mu.Lock()
	defer mu.Unlock()
	s := st(prop)
	s.Evals++
	if key != "" && !seen[prop][key] {
		seen[prop][key] = true
		s.Distinct++
		if sample != "" && len(s.Samples) < 4 {
			s.Samples = append(s.Samples, sample)
		}
	}
}

// Note adds a remark.
func Note(prop, n string) {
	mu.Lock()
	defer mu.Unlock()
	s := st(prop)
	if len(s.Notes) < 10 {
		s.Notes = append(s.Notes, n)
	}
}

// Flush writes the report to the file named by GV_OUT, or stdout.
func Flush() {
	mu.Lock()
	defer mu.Unlock()
	var ks []string
	for k := range sts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out.Stats = nil
	for _, k := range ks {
		out.Stats = append(out.Stats, sts[k])
	}
	b, _ := json.MarshalIndent(&out, "", " ")
	if f := os.Getenv("GV_OUT"); f != "" {
		os.WriteFile(f, b, 0o644)
		return
	}
	fmt.Println(string(b))
}

// Seed from VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Scale picks by tier.
func Scale(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}
