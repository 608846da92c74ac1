package props

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	astraJSON "github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// histCase are two programs, a history of generations of them in one process
// and another order and selection of the routes of the first.
type histCase struct {
	P, Q    prog.Program
	Hist    []int // 0: P, 1: Q, 2: P with some of its routes
	Perm    []int
	Keep    []bool
	Collide bool
}

var repeatOuts = []prog.Out{{Mode: "openapi", Path: "openapi.json"}, {Mode: "openapi", Path: "openapi.yaml"}, {Mode: "json", Path: "debug.json"}, {Mode: "azure", Path: "functions"}}

// permute puts the elements in the order of the keys.
func permute[T any](s []T, keys []int) []T {
	out := append([]T{}, s...)
	for i := range out {
		if len(keys) > 0 {
			j := keys[i%len(keys)] % len(out)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (c histCase) some(routes []prog.JobRoute) []prog.JobRoute {
	var out []prog.JobRoute
	for i, rt := range routes {
		if len(c.Keep) > 0 && c.Keep[i%len(c.Keep)] {
			out = append(out, rt)
		}
	}
	if len(out) == 0 {
		out = routes[:1]
	}
	return out
}

func (c histCase) run(r *core.Run) error {
	p, q := newProject(r, &c.P), newProject(r, &c.Q)
	err := c.check(r, p, q)
	q.remove()
	return p.verdict(err)
}

func (c histCase) check(r *core.Run, p, q *project) error {
	first, again := p.job(repeatOuts), p.job(repeatOuts)
	if err := runJobs(r, first); err != nil {
		return err
	}
	want, _ := split(tree(p.dir), repeatOuts)
	if err := complete(want, repeatOuts); err != nil {
		return err
	}
	same := func(what string) error {
		got, _ := split(tree(p.dir), repeatOuts)
		if d := treeDiff(want, got); d != "" {
			return fmt.Errorf("%s differs from the first one in a process of its own: %s", what, d)
		}
		return nil
	}
	p.removeOutputs(repeatOuts)
	if err := runJobs(r, again); err != nil {
		return fmt.Errorf("a second generation fails: %w", err)
	}
	if err := same("a second generation in a new process"); err != nil {
		return err
	}
	doc, err := decodeJSON([]byte(body(want["openapi.json"])))
	if err != nil {
		return err
	}

	// other programs first, then P
	some := p.job(nil)
	some.Routes = c.some(some.Routes)
	some.Outs = []prog.Out{{Mode: "openapi", Path: "some.json"}}
	var jobs []prog.Job
	for _, h := range c.Hist {
		jobs = append(jobs, []prog.Job{p.job(repeatOuts), q.job(repeatOuts), some}[h%3])
	}
	p.removeOutputs(repeatOuts)
	perm := p.job([]prog.Out{{Mode: "openapi", Path: "perm.json"}})
	perm.Routes = permute(perm.Routes, c.Perm)
	jobs = append(jobs, p.job(repeatOuts), some, perm)
	if err := runJobs(r, jobs...); err != nil {
		return fmt.Errorf("a generation after others in the same process fails: %w", err)
	}
	if err := same(fmt.Sprintf("a generation after others (%v) in the same process", c.Hist)); err != nil {
		return err
	}
	other, err := p.doc("perm.json")
	if err != nil {
		return err
	}
	if d := firstDiff("", doc, other); d != "" {
		return fmt.Errorf("the document depends on the order of the routes (left: as generated first): %s", d)
	}
	part, err := p.doc("some.json")
	if err != nil {
		return err
	}
	sim := newSimilar(doc, part)
	n := 0
	for _, rt := range some.Routes {
		a, b := operation(doc, rt.Path, rt.Method), operation(part, rt.Path, rt.Method)
		if b == nil || a == nil {
			return fmt.Errorf("the document of some of the routes has no operation of %s %s", rt.Method, rt.Path)
		}
		if d := sim.diff("", a, b); d != "" {
			return fmt.Errorf("the operation of %s %s depends on the other routes (left: with all): %s", rt.Method, rt.Path, d)
		}
		n++
	}
	if m := operations(part); m != n {
		return fmt.Errorf("the document of %d routes has %d operations", n, m)
	}
	if !c.Collide {
		for a, b := range sim.names {
			if a != b {
				return fmt.Errorf("the component %s is called %s when some routes are missing", a, b)
			}
		}
	}
	return nil
}

// body is the content of a file of a tree.
func body(s string) string { return s[strings.Index(s, " ")+1:] }

func (p *project) doc(file string) (map[string]any, error) {
	b, err := os.ReadFile(filepath.Join(p.dir, file))
	if err != nil {
		return nil, fmt.Errorf("the output %s is missing", file)
	}
	return decodeJSON(b)
}

func operation(doc map[string]any, path, method string) any {
	return dig(doc, "paths", prog.OpenAPIPath(path), strings.ToLower(method))
}

func operations(doc map[string]any) int {
	n := 0
	paths, _ := doc["paths"].(map[string]any)
	for _, item := range paths {
		m, _ := item.(map[string]any)
		for k := range m {
			switch k {
			case "get", "put", "post", "delete", "options", "head", "patch", "trace":
				n++
			}
		}
	}
	return n
}

// similar compares parts of two documents through their references, which may
// have other names as long as the same name stands for the same component.
type similar struct {
	a, b        map[string]any // the schemas
	names, back map[string]string
}

func newSimilar(a, b map[string]any) *similar {
	sa, _ := dig(a, "components", "schemas").(map[string]any)
	sb, _ := dig(b, "components", "schemas").(map[string]any)
	return &similar{a: sa, b: sb, names: map[string]string{}, back: map[string]string{}}
}

func (s *similar) diff(path string, a, b any) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return firstDiff(path, a, b)
		}
		ra, isa := x["$ref"].(string)
		rb, isb := y["$ref"].(string)
		if isa && isb {
			na, nb := strings.TrimPrefix(ra, "#/components/schemas/"), strings.TrimPrefix(rb, "#/components/schemas/")
			ka, seen := s.names[na]
			kb, used := s.back[nb]
			if seen != used || seen && (ka != nb || kb != na) {
				return fmt.Sprintf("%s: %s stands for %s, but there are %q and %q", path, na, nb, ka, kb)
			}
			if seen {
				return ""
			}
			s.names[na], s.back[nb] = nb, na
			return s.diff(path+"->"+na, s.a[na], s.b[nb])
		}
		for _, k := range core.SortedKeys(x) {
			if _, ok := y[k]; !ok {
				return fmt.Sprintf("%s.%s only on the left: %s", path, k, clip(js(x[k])))
			}
			if d := s.diff(path+"."+k, x[k], y[k]); d != "" {
				return d
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s.%s only on the right: %s", path, k, clip(js(y[k])))
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return firstDiff(path, a, b)
		}
		for i := range x {
			if d := s.diff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	}
	return firstDiff(path, a, b)
}

// svcHist are services generated one after another in one process.
type svcHist struct {
	A, B svcState
	Perm []int
	N    int
}

func (h svcHist) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	a := h.A.service(dir)
	want := generated(r, a)
	for i := 0; i <= h.N; i++ {
		generated(r, h.B.service(dir))
		fresh := h.A.service(dir)
		if d := treeDiff(want, generated(r, fresh)); d != "" {
			return fmt.Errorf("the outputs of a service change after another one: %s", d)
		}
	}
	if d := treeDiff(want, generated(r, a)); d != "" {
		return fmt.Errorf("the outputs of a service change when it is generated again: %s", d)
	}
	// the same outputs once more
	out := tmpDir(r)
	defer rmDir(r, out)
	must(os.MkdirAll(filepath.Join(out, ".astra"), 0o755))
	a.WorkDir = out
	outs := []astra.ServiceFunction{openapi.Generate("openapi.json"), openapi.Generate("openapi.yaml"), astraJSON.Generate("out"), azureFunctions.Generate("azure")}
	for i := 0; i < 2; i++ {
		for j, f := range outs {
			if err := core.Safe(func() error { return f(a) }); err != nil && want[[]string{"error of openapi.json", "error of openapi.yaml", "error of json", "error of azure"}[j]] == "" {
				return fmt.Errorf("output %d fails in run %d: %v", j, i+1, err)
			}
		}
		got := tree(out)
		for k, v := range want {
			if !strings.HasPrefix(k, "error of ") && k != ".astra/" && !strings.HasPrefix(k, ".astra/") && got[k] != v {
				return fmt.Errorf("%s is another one in run %d of the same outputs", k, i+1)
			}
		}
	}
	// another order of routes and components
	turned := h.A
	turned.Routes, turned.Components = permute(h.A.Routes, h.Perm), permute(h.A.Components, h.Perm)
	got := generated(r, turned.service(dir))
	if want["error of openapi.json"] == "" {
		da, err := decodeJSON([]byte(body(want["openapi.json"])))
		if err != nil {
			return err
		}
		db, err := decodeJSON([]byte(body(got["openapi.json"])))
		if err != nil {
			return err
		}
		if d := firstDiff("", da, db); d != "" {
			return fmt.Errorf("the document depends on the order of routes and components: %s", d)
		}
	}
	for k, v := range want {
		if strings.HasPrefix(k, "azure/") && strings.Count(k, "/") > 1 && got[k] != v {
			return fmt.Errorf("the Azure function %s depends on the order of routes", k)
		}
	}
	return nil
}

// nameOrder is the order in which components are found, which their names must not depend on.
func (c nameCase) nameOrder(r *core.Run) error {
	gen := func(c nameCase, reverse bool) (map[string]any, error) {
		dir := tmpDir(r)
		defer rmDir(r, dir)
		s := c.service(dir)
		if reverse {
			slices.Reverse(s.Components)
			slices.Reverse(s.Routes)
		}
		if err := openapi.Generate("o.json")(s); err != nil {
			return nil, fmt.Errorf("generation fails: %v", err)
		}
		raw, err := os.ReadFile(filepath.Join(dir, "o.json"))
		if err != nil {
			return nil, err
		}
		return decodeJSON(raw)
	}
	a, err := gen(c, false)
	if err != nil {
		return err
	}
	b, err := gen(c, true)
	if err != nil {
		return err
	}
	turned := c
	turned.Swap++
	d, err := gen(turned, false)
	if err != nil {
		return err
	}
	for _, other := range []map[string]any{b, d} {
		if diff := firstDiff("", a, other); diff != "" {
			return fmt.Errorf("the document depends on the order of routes and components: %s", diff)
		}
	}
	return nil
}

func init() {
	register("C09", func(r *core.Run) []core.Sub {
		r.Rule = "programs, collide: two programs; the first is generated twice in processes of its own, after up to 4 generations of the other one, of itself and of some of its routes in one process, with its routes in another order, and with some of its routes. services: states of services, generated before and after another one, and in another order. names: up to 8 components in clashing packages, found in three orders. Non-trivial: two routes and two types."
		r.Assume = []string{stubAssume, "routes have handlers of their own"}
		collide := genAll
		collide.Collide, collide.Pkgs = true, 5
		mk := func(g prog.Gen, col bool) *rapid.Generator[histCase] {
			return rapid.Custom(func(t *rapid.T) histCase {
				return histCase{P: g.Draw().Draw(t, "p"), Q: g.Draw().Draw(t, "q"), Hist: rapid.SliceOfN(rapid.IntRange(0, 2), 1, 4).Draw(t, "hist"),
					Perm: rapid.SliceOfN(rapid.IntRange(0, 9), 1, 6).Draw(t, "perm"), Keep: rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "keep"), Collide: col}
			})
		}
		sub := func(name string, g prog.Gen, col bool, quick, thorough int) core.Sub {
			return core.ParProp[histCase]{Name: name, Quick: quick, Thorough: thorough, Gen: mk(g, col),
				NonTrivial: func(c histCase) bool { return twoRoutes(c.P) && len(c.Hist) > 0 },
				Classify: func(c histCase) []string {
					return []string{fmt.Sprintf("history:%d", len(c.Hist)), fmt.Sprintf("routes:%d", len(c.P.Routes))}
				},
				Shrink: func(c histCase, fails func(histCase) bool) histCase {
					for i := len(c.Hist) - 1; i >= 0; i-- {
						d := c
						d.Hist = append(append([]int{}, c.Hist[:i]...), c.Hist[i+1:]...)
						if fails(d) {
							c = d
						}
					}
					c.P = prog.Shrink(c.P, func(p prog.Program) bool { d := c; d.P = p; return fails(d) })
					c.Q = prog.Shrink(c.Q, func(p prog.Program) bool { d := c; d.Q = p; return fails(d) })
					return c
				},
				Oracle: func(r *core.Run, c histCase) error { return c.run(r) },
			}
		}
		return []core.Sub{
			sub("programs", genAll, false, 200, 3500),
			sub("collide", collide, true, 120, 2000),
			core.Prop[svcHist]{Name: "services", Quick: 1000, Thorough: 40000,
				Gen: rapid.Custom(func(t *rapid.T) svcHist {
					return svcHist{A: genState.Draw(t, "a"), B: genState.Draw(t, "b"), Perm: rapid.SliceOfN(rapid.IntRange(0, 9), 1, 6).Draw(t, "perm"), N: rapid.IntRange(0, 2).Draw(t, "n")}
				}),
				NonTrivial: func(h svcHist) bool { return len(h.A.Routes) > 0 && len(h.A.Components) > 0 && h.A.Config != nil },
				Oracle:     func(r *core.Run, h svcHist) error { return h.run(r) },
			},
			core.Prop[nameCase]{Name: "names", Gen: genNames, Quick: 2500, Thorough: 150000,
				NonTrivial: func(c nameCase) bool { return len(c.Comps) > 2 },
				Oracle:     func(r *core.Run, c nameCase) error { return c.nameOrder(r) },
			},
		}
	})
}
