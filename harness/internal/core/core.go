// Package core holds what every check shares: the run context, the rapid
// driver, replay files, known findings and the evidence file.
package core

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Infra is panicked with when the harness itself cannot do its work; the
// process then ends with an exit code that is neither "holds" nor "violated".
type Infra struct{ Msg string }

func Infraf(format string, a ...any) { panic(Infra{fmt.Sprintf(format, a...)}) }

// Discard is panicked with when a generated case turns out not to be in the
// domain of its property. The case is not judged; too many of them end the
// check without an answer.
type Discard struct{ Msg string }

// Discardf discards the case.
func Discardf(format string, a ...any) { panic(Discard{fmt.Sprintf(format, a...)}) }

// maxDiscards is how many cases a check can discard.
const maxDiscards = 20

var errDiscarded = errors.New("discarded")

// Discarded counts a case that is discarded.
func (r *Run) Discarded(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.excluded["discarded: outside of the domain"]++
	if n := r.excluded["discarded: outside of the domain"]; n > maxDiscards {
		Infraf("%d cases discarded, the last: %s", n, msg)
	}
}

// Run is the context of one check of one property.
type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	Scratch  string
	Verif    string
	Repo     string
	Start    time.Time
	Level    string
	Rule     string
	Assume   []string
	mu       sync.Mutex
	evals    int
	distinct map[string]bool
	classes  map[string]int
	excluded map[string]int
	samples  []any
	extra    map[string]any
	viol     []Violation
	Known    []KnownFinding
	subs     []Sub
}

// Violation is one shrunk failing case.
type Violation struct {
	Sub    string
	Case   any
	Err    string
	Replay string
}

// Sub is one executable statement of a property.
type Sub interface {
	SubName() string
	RunSub(r *Run)
	ReplaySub(r *Run, raw json.RawMessage) error
}

func NewRun(prop, tier string, seed int64, scratch, verif, repo string) *Run {
	return &Run{Prop: prop, Tier: tier, Seed: seed, Scratch: scratch, Verif: verif, Repo: repo,
		Start: time.Now(), Level: "exploration", distinct: map[string]bool{}, classes: map[string]int{},
		excluded: map[string]int{}, extra: map[string]any{}}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *Run) N(quick, thorough int) int {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			quick, thorough = max(1, int(float64(quick)*f)), max(1, int(float64(thorough)*f))
		}
	}
	if r.Thorough() {
		return thorough
	}
	return quick
}

// SeedFor derives the seed of a named generator from VERIF_SEED.
func (r *Run) SeedFor(name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.Prop, name)
	return h.Sum64()>>2 | 1
}

// Count records one evaluated case.
func (r *Run) Count(sub string, c any, nontrivial bool, classes ...string) {
	b, _ := json.Marshal(c)
	sum := sha256.Sum256(b)
	key := sub + ":" + hex.EncodeToString(sum[:10])
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.classes["sub:"+sub]++
	for _, cl := range classes {
		r.classes[cl]++
	}
	if nontrivial && !r.distinct[key] {
		r.distinct[key] = true
		n := 0
		for _, s := range r.samples {
			if m, ok := s.(map[string]any); ok && m["sub"] == sub {
				n++
			}
		}
		if n < 2 && len(r.samples) < 12 {
			v := any(json.RawMessage(b))
			if len(b) > 4000 {
				v = string(b[:4000]) + "..."
			}
			r.samples = append(r.samples, map[string]any{"sub": sub, "case": v})
		}
	}
}

// Class bumps a class counter.
func (r *Run) Class(names ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, n := range names {
		r.classes[n]++
	}
}

func (r *Run) ClassN(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.classes[name] += n
}

// Exclude counts what a generator left out because of a known finding.
func (r *Run) Exclude(name string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.excluded[name] += n
}

func (r *Run) Extra(name string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.extra[name] = v
}

// ReplayFile is what a violation is written to.
type ReplayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// Violate records a shrunk failure and writes its replay file.
func (r *Run) Violate(sub string, c any, msg string) {
	b, err := json.Marshal(c)
	if err != nil {
		Infraf("marshal failing case: %v", err)
	}
	sum := sha256.Sum256(b)
	dir := filepath.Join(r.Verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", r.Prop, sub, hex.EncodeToString(sum[:6])))
	out, _ := json.MarshalIndent(ReplayFile{r.Prop, sub, msg, b}, "", " ")
	if err := os.WriteFile(p, out, 0o644); err != nil {
		Infraf("write replay: %v", err)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol = append(r.viol, Violation{sub, c, msg, p})
	fmt.Printf("--- %s/%s: %s\n", r.Prop, sub, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
}

func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// KnownFinding is a committed description of a genuine defect that was
// recorded instead of repaired.
type KnownFinding struct {
	ID       string          `json:"id"`
	Property string          `json:"property"`
	What     string          `json:"what"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	// Match must occur in the error the case fails with.
	Match string `json:"match"`
}

type KnownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func LoadKnown(verif, prop string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		Infraf("known findings: %v", err)
	}
	var f KnownFile
	if err := json.Unmarshal(b, &f); err != nil {
		Infraf("known findings: %v", err)
	}
	var out []KnownFinding
	for _, k := range f.Findings {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

// WriteEvidence writes evidence/<id>.json.
func (r *Run) WriteEvidence() {
	classes := map[string]int{}
	for k, v := range r.classes {
		classes[k] = v
	}
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
		"classes":             classes,
	}
	if len(r.excluded) > 0 {
		cov["excluded_by_known_finding_or_domain"] = r.excluded
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assume,
		"wall_s": float64(int(time.Since(r.Start).Seconds()*100)) / 100, "violations": len(r.viol),
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		Infraf("evidence: %v", err)
	}
	dir := filepath.Join(r.Verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), b, 0o644); err != nil {
		Infraf("evidence: %v", err)
	}
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- rapid driver ----

type tbImpl struct {
	name   string
	failed bool
	logs   []string
}

type stopTB struct{}

func (t *tbImpl) Helper()                 {}
func (t *tbImpl) Name() string            { return t.name }
func (t *tbImpl) Logf(f string, a ...any) { t.logs = append(t.logs, fmt.Sprintf(f, a...)) }
func (t *tbImpl) Log(a ...any)            { t.logs = append(t.logs, fmt.Sprint(a...)) }
func (t *tbImpl) Skipf(string, ...any)    { panic(stopTB{}) }
func (t *tbImpl) Skip(...any)             { panic(stopTB{}) }
func (t *tbImpl) SkipNow()                { panic(stopTB{}) }
func (t *tbImpl) Errorf(f string, a ...any) {
	t.failed = true
	t.Logf(f, a...)
}
func (t *tbImpl) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbImpl) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopTB{}) }
func (t *tbImpl) Fatal(a ...any)            { t.Error(a...); panic(stopTB{}) }
func (t *tbImpl) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *tbImpl) Fail()                     { t.failed = true }
func (t *tbImpl) Failed() bool              { return t.failed }

var initOnce sync.Once

func initRapid() {
	initOnce.Do(func() {
		testing.Init()
		_ = flag.CommandLine.Parse(nil)
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", "20s")
	})
}

func set(name, v string) {
	if err := flag.Set(name, v); err != nil {
		Infraf("flag %s: %v", name, err)
	}
}

// Prop is an executable property over generated cases of type T.
type Prop[T any] struct {
	Name       string
	Gen        *rapid.Generator[T]
	Oracle     func(r *Run, c T) error
	NonTrivial func(c T) bool
	Classify   func(c T) []string
	Quick      int
	Thorough   int
}

func (p Prop[T]) SubName() string { return p.Name }

// Safe runs f and turns a panic into an error.
func Safe(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if inf, ok := x.(Infra); ok {
				panic(inf)
			}
			if d, ok := x.(Discard); ok {
				panic(d)
			}
			err = fmt.Errorf("panic: %v\n%s", x, trimStack(string(debug.Stack())))
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (p Prop[T]) RunSub(r *Run) {
	initRapid()
	n := r.N(p.Quick, p.Thorough)
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(r.SeedFor(p.Name), 10))
	var lastFail *T
	var lastErr error
	var infra *Infra
	tb := &tbImpl{name: r.Prop + "_" + p.Name}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopTB); !ok {
					panic(x)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if infra != nil {
				return
			}
			c := p.Gen.Draw(t, "case")
			if lastFail == nil {
				var cl []string
				if p.Classify != nil {
					cl = p.Classify(c)
				}
				r.Count(p.Name, c, p.NonTrivial == nil || p.NonTrivial(c), cl...)
			}
			var err error
			func() {
				defer func() {
					if x := recover(); x != nil {
						switch x := x.(type) {
						case Infra:
							infra = &x
						case Discard:
							if lastFail == nil { // not while shrinking
								r.Discarded(x.Msg)
							}
						default:
							panic(x)
						}
					}
				}()
				err = Safe(func() error { return p.Oracle(r, c) })
			}()
			if err != nil {
				cc := c
				lastFail, lastErr = &cc, err
				t.Fatalf("violated") // one constant message: shrinking compares failures
			}
		})
	}()
	if infra != nil {
		panic(*infra)
	}
	if tb.failed {
		if lastFail == nil {
			Infraf("%s/%s: generator: %s", r.Prop, p.Name, strings.Join(tb.logs, "\n"))
		}
		r.Violate(p.Name, *lastFail, lastErr.Error())
	}
}

func (p Prop[T]) ReplaySub(r *Run, raw json.RawMessage) error {
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		Infraf("replay case: %v", err)
	}
	return Safe(func() error { return p.Oracle(r, c) })
}

// Execute runs all subs of a property, replays its known findings, writes the
// evidence and returns the exit code.
func Execute(r *Run, subs []Sub) int {
	r.subs = subs
	only := os.Getenv("VERIF_ONLY")
	known := 0
	for _, k := range LoadKnown(r.Verif, r.Prop) {
		sub := FindSub(subs, k.Sub)
		if sub == nil {
			Infraf("known finding %s: no sub %q", k.ID, k.Sub)
		}
		err := sub.ReplaySub(r, k.Case)
		switch {
		case err == nil:
			fmt.Printf("note: known finding %s no longer fails\n", k.ID)
		case k.Match != "" && !strings.Contains(err.Error(), k.Match):
			r.Violate(k.Sub, k.Case, fmt.Sprintf("known finding %s fails in a new way: %v", k.ID, err))
		default:
			known++
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k.ID, k.What)
		}
	}
	r.Extra("known_findings_replayed", known)
	for _, s := range subs {
		if only != "" && only != s.SubName() {
			continue
		}
		t := time.Now()
		s.RunSub(r)
		fmt.Printf("%s/%s done in %.1fs\n", r.Prop, s.SubName(), time.Since(t).Seconds())
	}
	r.WriteEvidence()
	if r.Violations() > 0 {
		return 1
	}
	return 0
}

func FindSub(subs []Sub, name string) Sub {
	for _, s := range subs {
		if s.SubName() == name {
			return s
		}
	}
	return nil
}
