package props

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	astraJSON "github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// ---- structural validity ----

var (
	schemaName = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)
	mediaName  = regexp.MustCompile(`^[a-zA-Z0-9!#$&^_.+*-]+/[a-zA-Z0-9!#$&^_.+*-]+$`)
	statusName = regexp.MustCompile(`^([1-5][0-9][0-9]|[1-5]XX|default)$`)
	pathVar    = regexp.MustCompile(`\{([^{}]*)\}`)
)

type validator struct {
	schemas map[string]any
	loose   bool // text that came from outside is not checked
	ids     map[string]string
}

// validDoc checks that a document is structurally an OpenAPI 3.0 document.
func validDoc(doc map[string]any, loose bool) error {
	v := &validator{loose: loose, ids: map[string]string{}}
	v.schemas, _ = dig(doc, "components", "schemas").(map[string]any)
	if s, _ := doc["openapi"].(string); !strings.HasPrefix(s, "3.0.") {
		return fmt.Errorf("openapi is %v", doc["openapi"])
	}
	info, _ := doc["info"].(map[string]any)
	for _, k := range []string{"title", "version"} {
		if _, ok := info[k].(string); !ok {
			return fmt.Errorf("info has no %s", k)
		}
	}
	paths, ok := doc["paths"].(map[string]any)
	if !ok {
		return fmt.Errorf("there are no paths")
	}
	for p, item := range paths {
		if !strings.HasPrefix(p, "/") {
			return fmt.Errorf("the path %q does not start with a slash", p)
		}
		ops, ok := item.(map[string]any)
		if !ok {
			return fmt.Errorf("the path %s is no object", p)
		}
		for m, op := range ops {
			switch m {
			case "get", "put", "post", "delete", "options", "head", "patch", "trace":
				o, ok := op.(map[string]any)
				if !ok {
					return fmt.Errorf("the operation %s %s is no object", m, p)
				}
				if err := v.operation(p, o); err != nil {
					return fmt.Errorf("%s %s: %w", m, p, err)
				}
			default:
				return fmt.Errorf("the path %s has a field %s", p, m)
			}
		}
	}
	for n, s := range v.schemas {
		if !loose && !schemaName.MatchString(n) {
			return fmt.Errorf("the component name %q is not allowed", n)
		}
		if err := v.schema(s); err != nil {
			return fmt.Errorf("component %s: %w", n, err)
		}
	}
	return nil
}

func (v *validator) operation(path string, op map[string]any) error {
	for k := range op {
		switch k {
		case "tags", "summary", "description", "externalDocs", "operationId", "parameters", "requestBody", "responses", "callbacks", "deprecated", "security", "servers":
		default:
			return fmt.Errorf("the operation has a field %s", k)
		}
	}
	if id, ok := op["operationId"].(string); ok && !v.loose {
		if prev, used := v.ids[id]; used {
			return fmt.Errorf("the operationId %s is also of %s", id, prev)
		}
		v.ids[id] = path
	}
	vars := map[string]bool{}
	for _, m := range pathVar.FindAllStringSubmatch(path, -1) {
		if !strings.HasSuffix(m[1], "*") {
			vars[m[1]] = true
		}
	}
	seen := map[string]bool{}
	params, _ := op["parameters"].([]any)
	for _, x := range params {
		p, _ := x.(map[string]any)
		name, _ := p["name"].(string)
		in, _ := p["in"].(string)
		if name == "" && !v.loose {
			return fmt.Errorf("a parameter in %s has no name", in)
		}
		if seen[in+" "+name] {
			return fmt.Errorf("the %s parameter %s is there twice", in, name)
		}
		seen[in+" "+name] = true
		switch in {
		case "path":
			if !strings.Contains(path, "{"+name+"*}") {
				if !vars[name] {
					return fmt.Errorf("the path parameter %s is not in the path", name)
				}
				if p["required"] != true {
					return fmt.Errorf("the path parameter %s is not required", name)
				}
				delete(vars, name)
			}
		case "query", "header", "cookie":
		default:
			return fmt.Errorf("the parameter %s is in %q", name, in)
		}
		if err := v.schema(p["schema"]); err != nil {
			return fmt.Errorf("parameter %s: %w", name, err)
		}
	}
	for n := range vars {
		if v.loose {
			break
		}
		return fmt.Errorf("the path parameter %s is not declared", n)
	}
	if b, has := op["requestBody"]; has {
		if err := v.content(dig(b, "content"), true); err != nil {
			return fmt.Errorf("body: %w", err)
		}
	}
	responses, _ := op["responses"].(map[string]any)
	for code, x := range responses {
		if !v.loose && !statusName.MatchString(code) {
			return fmt.Errorf("the status %q is no status", code)
		}
		r, _ := x.(map[string]any)
		if _, ok := r["description"].(string); !ok {
			return fmt.Errorf("the response %s has no description", code)
		}
		if c, has := r["content"]; has {
			if err := v.content(c, false); err != nil {
				return fmt.Errorf("response %s: %w", code, err)
			}
		}
		if hs, has := r["headers"]; has {
			m, ok := hs.(map[string]any)
			if !ok {
				return fmt.Errorf("the headers of %s are no object", code)
			}
			for n, h := range m {
				if err := v.schema(dig(h, "schema")); err != nil {
					return fmt.Errorf("header %s of %s: %w", n, code, err)
				}
			}
		}
	}
	return nil
}

func (v *validator) content(x any, needed bool) error {
	c, ok := x.(map[string]any)
	if !ok || needed && len(c) == 0 {
		return fmt.Errorf("there is no content")
	}
	for ct, mt := range c {
		if !v.loose && !mediaName.MatchString(strings.SplitN(ct, ";", 2)[0]) {
			return fmt.Errorf("%q is no media type", ct)
		}
		if s, has := mt.(map[string]any)["schema"]; has {
			if err := v.schema(s); err != nil {
				return fmt.Errorf("%s: %w", ct, err)
			}
		}
	}
	return nil
}

func (v *validator) schema(x any) error {
	s, ok := x.(map[string]any)
	if !ok {
		return fmt.Errorf("there is no schema")
	}
	if ref, has := s["$ref"]; has {
		r, _ := ref.(string)
		name, is := strings.CutPrefix(r, "#/components/schemas/")
		if _, there := v.schemas[name]; (!is || !there) && !v.loose {
			return fmt.Errorf("the reference %q does not resolve", r)
		}
		if len(s) > 1 {
			return fmt.Errorf("the reference %q has siblings", r)
		}
		return nil
	}
	for k, e := range s {
		switch k {
		case "type":
			switch e {
			case "string", "number", "integer", "boolean", "object":
			case "array":
				if _, ok := s["items"]; !ok && !v.loose {
					return fmt.Errorf("the array has no items")
				}
			default:
				if !v.loose {
					return fmt.Errorf("there is no type %v", e)
				}
			}
		case "items", "not":
			if err := v.schema(e); err != nil {
				return fmt.Errorf("%s: %w", k, err)
			}
		case "additionalProperties":
			if _, is := e.(bool); !is {
				if err := v.schema(e); err != nil {
					return fmt.Errorf("%s: %w", k, err)
				}
			}
		case "properties":
			m, ok := e.(map[string]any)
			if !ok {
				return fmt.Errorf("the properties are no object")
			}
			for n, p := range m {
				if err := v.schema(p); err != nil {
					return fmt.Errorf("%s: %w", n, err)
				}
			}
		case "allOf", "anyOf", "oneOf":
			l, ok := e.([]any)
			if !ok || len(l) == 0 {
				return fmt.Errorf("%s is no list", k)
			}
			for _, p := range l {
				if err := v.schema(p); err != nil {
					return fmt.Errorf("%s: %w", k, err)
				}
			}
		case "enum", "required":
			l, ok := e.([]any)
			if !ok || len(l) == 0 {
				return fmt.Errorf("%s is no list", k)
			}
			if k == "required" {
				seen := map[any]bool{}
				for _, n := range l {
					if _, is := n.(string); !is || seen[n] {
						return fmt.Errorf("required lists %v", l)
					}
					seen[n] = true
				}
			}
		}
	}
	return nil
}

// docDiff compares documents; that there is no contact or license can be said by an empty object or by none.
func docDiff(a, b map[string]any) string {
	return firstDiff("", plainDoc(a), plainDoc(b))
}

func plainDoc(doc map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range doc {
		if k == "info" {
			v = dropEmpty(v.(map[string]any))
		}
		out[k] = v
	}
	return out
}

// ---- outputs of one run ----

type formatCase struct {
	P    prog.Program
	Outs []prog.Out
	Old  []string // what is at the outputs before
	Cfg  *astra.Config
	Safe bool // names cannot collide
}

var formatOuts = func() []prog.Out {
	var out []prog.Out
	for _, p := range []string{"openapi.json", "openapi.yaml", "openapi.yml", "plain", "api.JSON", "api.v1", "v1.0.yaml", "x.yaml.json", "x.json.yml", ".yaml", ".json", "docs/deep/spec.yaml", "docs/my api", "json", "yaml", "a.yamlx", "./dot.yml", "docs/../up.yaml", "ünï.json"} {
		out = append(out, prog.Out{Mode: "openapi", Path: p})
	}
	for _, p := range []string{"debug.json", "raw", "raw.yaml", "docs/deep/dump", "d.json.txt"} {
		out = append(out, prog.Out{Mode: "json", Path: p})
	}
	for _, p := range []string{"functions", "docs/fn", "az.ure"} {
		out = append(out, prog.Out{Mode: "azure", Path: p})
	}
	return out
}()

func (c formatCase) run(r *core.Run) error {
	p := newProject(r, &c.P)
	return p.verdict(c.check(r, p))
}

func (c formatCase) check(r *core.Run, p *project) error {
	must(os.MkdirAll(filepath.Join(p.dir, "docs", "deep"), 0o755))
	outs := append([]prog.Out{}, c.Outs...)
	for i := range outs {
		outs[i].Path = filepath.ToSlash(filepath.Clean(outs[i].Path))
	}
	for i, o := range outs {
		old := ""
		if len(c.Old) > 0 {
			old = c.Old[i%len(c.Old)]
		}
		f := filepath.Join(p.dir, outFile(o))
		if o.Mode == "azure" {
			if old != "" {
				must(os.MkdirAll(filepath.Join(f, "old"), 0o755))
				must(os.WriteFile(filepath.Join(f, "old", "x"), []byte(old), 0o644))
			}
			continue
		}
		switch old {
		case "long":
			must(os.WriteFile(f, []byte(strings.Repeat("}]# old\n", 40000)), 0o644))
		case "short":
			must(os.WriteFile(f, []byte("x"), 0o600))
		}
	}
	job := p.job(c.Outs)
	job.Config = c.Cfg
	if err := runJobs(r, job); err != nil {
		return err
	}
	all, _ := split(tree(p.dir), outs)
	if err := complete(all, outs); err != nil {
		return err
	}
	// each alone
	p.removeOutputs(outs)
	must(os.MkdirAll(filepath.Join(p.dir, "docs", "deep"), 0o755))
	var jobs []prog.Job
	for i := range c.Outs {
		j := p.job(c.Outs[i : i+1])
		j.Config = c.Cfg
		jobs = append(jobs, j)
	}
	if err := runJobs(r, jobs...); err != nil {
		return fmt.Errorf("one output alone: %w", err)
	}
	alone, _ := split(tree(p.dir), outs)
	for k, v := range all {
		if w, ok := alone[k]; !ok || body(w) != body(v) {
			return fmt.Errorf("%s is another one when it is the only output (left: with others): %s", k, lineDiff(body(v), body(w)))
		}
	}
	if len(all) != len(alone) {
		return fmt.Errorf("the outputs alone are %v, together %v", core.SortedKeys(alone), core.SortedKeys(all))
	}

	var doc map[string]any
	var from string
	for _, o := range outs {
		if o.Mode != "openapi" {
			continue
		}
		f := outFile(o)
		b := []byte(body(all[f]))
		var d map[string]any
		var err error
		if strings.HasSuffix(f, ".json") {
			d, err = decodeJSON(b)
		} else {
			if d, err = decodeYAML(b); err == nil && strings.HasPrefix(strings.TrimSpace(string(b)), "{") {
				err = fmt.Errorf("it is JSON")
			}
		}
		if err != nil || d == nil {
			return fmt.Errorf("%s (given as %s) is not in the format of its name: %v", f, o.Path, err)
		}
		if doc != nil {
			if x := docDiff(doc, d); x != "" {
				return fmt.Errorf("%s and %s differ: %s", from, f, x)
			}
		}
		doc, from = d, f
		if err := validDoc(d, false); err != nil {
			return fmt.Errorf("%s is not valid: %w", f, err)
		}
	}
	if doc == nil {
		return nil
	}
	for _, o := range outs {
		switch o.Mode {
		case "json":
			if err := c.sameStory(doc, []byte(body(all[outFile(o)]))); err != nil {
				return fmt.Errorf("%s and %s: %w", from, outFile(o), err)
			}
		case "azure":
			fns := map[string]bool{}
			for k := range all {
				if rest, is := strings.CutPrefix(k, outFile(o)+"/"); is && strings.HasSuffix(rest, "/function.json") {
					fns[filepath.Dir(rest)] = true
				}
			}
			if len(fns) != operations(doc) {
				return fmt.Errorf("%s has %d operations, %s has the functions %v", from, operations(doc), outFile(o), core.SortedKeys(fns))
			}
		}
	}
	return nil
}

// sameStory compares the routes and components of the JSON output with a document.
func (c formatCase) sameStory(doc map[string]any, b []byte) error {
	dump, err := decodeJSON(b)
	if err != nil {
		return err
	}
	routes, _ := dump["routes"].([]any)
	if len(routes) != operations(doc) {
		return fmt.Errorf("%d routes and %d operations", len(routes), operations(doc))
	}
	for _, x := range routes {
		path, _ := dig(x, "path").(string)
		method, _ := dig(x, "method").(string)
		op, _ := operation(doc, path, method).(map[string]any)
		if op == nil {
			return fmt.Errorf("the route %s %s has no operation", method, path)
		}
		if a, b := dig(x, "operationId"), op["operationId"]; a != b {
			return fmt.Errorf("the route %s %s has the operationId %v and %v", method, path, a, b)
		}
		if a, b := dig(x, "doc"), op["description"]; a != b {
			return fmt.Errorf("the route %s %s is described as %v and %v", method, path, a, b)
		}
		codes := map[string]bool{}
		rts, _ := dig(x, "returnTypes").([]any)
		for _, rt := range rts {
			codes[fmt.Sprint(dig(rt, "statusCode"))] = true
		}
		rs, _ := op["responses"].(map[string]any)
		for k := range rs {
			if !codes[k] {
				return fmt.Errorf("the route %s %s has no return type of status %s", method, path, k)
			}
		}
		if len(rs) != len(codes) {
			return fmt.Errorf("the route %s %s has the statuses %v and %v", method, path, core.SortedKeys(codes), core.SortedKeys(rs))
		}
	}
	comps, _ := dump["components"].([]any)
	schemas, _ := dig(doc, "components", "schemas").(map[string]any)
	if !c.Safe {
		return nil
	}
	want := map[string]bool{}
	for _, x := range comps {
		name, _ := dig(x, "name").(string)
		pkg, _ := dig(x, "package").(string)
		want[pkg[strings.LastIndex(pkg, "/")+1:]+"."+name] = true
	}
	got := map[string]bool{}
	for n := range schemas {
		found := false
		for w := range want {
			if prog.NamesType(n, w) || prog.NamesType(viewName(n), w) {
				got[w], found = true, true
			}
		}
		if !found {
			return fmt.Errorf("the schema %s is of none of the components %v", n, core.SortedKeys(want))
		}
	}
	for w := range want {
		if !got[w] {
			return fmt.Errorf("the component %s has no schema", w)
		}
	}
	return nil
}

// viewName is the name of a component without its encoding.
func viewName(n string) string {
	if parts := strings.Split(n, "."); len(parts) > 2 {
		i := len(parts) - 2
		return strings.Join(append(append([]string{}, parts[:i]...), parts[i+1]), ".")
	}
	return n
}

// ---- states of services ----

type formatState struct {
	State svcState
	Order []int
}

func (c formatState) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	must(os.MkdirAll(filepath.Join(dir, ".astra"), 0o755))
	s := c.State.service(dir)
	if s.Config == nil {
		return nil
	}
	alone := map[string]string{}
	for i, g := range c.outputs() {
		d := tmpDir(r)
		must(os.MkdirAll(filepath.Join(d, ".astra"), 0o755))
		err := core.Safe(func() error { return g(c.State.service(d)) })
		for k, v := range tree(d) {
			alone[k] = v
		}
		rmDir(r, d)
		if err != nil && i != 3 {
			return fmt.Errorf("output %d: %w", i, err)
		}
	}
	outs := c.outputs()
	for _, i := range permute([]int{0, 1, 2, 3}, c.Order) {
		if err := core.Safe(func() error { return outs[i](s) }); err != nil && i != 3 {
			return fmt.Errorf("output %d after others: %w", i, err)
		}
	}
	for k, v := range tree(dir) {
		if alone[k] != v && !strings.HasPrefix(k, ".astra/") {
			return fmt.Errorf("%s is another one when it is the only output: %s", k, lineDiff(v, alone[k]))
		}
	}
	a, err := decodeJSON([]byte(body(alone["openapi.json"])))
	if err != nil {
		return err
	}
	b, err := decodeYAML([]byte(body(alone["openapi.yaml"])))
	if err != nil {
		return err
	}
	if d := docDiff(a, b); d != "" {
		return fmt.Errorf("the JSON and the YAML document differ (left: JSON): %s", d)
	}
	return validDoc(a, true)
}

func (c formatState) outputs() []astra.ServiceFunction {
	return []astra.ServiceFunction{openapi.Generate("openapi.json"), openapi.Generate("openapi.yaml"), astraJSON.Generate("out"), azureFunctions.Generate("azure")}
}

func init() {
	register("C12", func(r *core.Run) []core.Sub {
		r.Rule = "programs: programs of all kinds with 1 to 5 outputs of 27 modes and names, over missing, shorter and longer old ones; together, each alone, against each other and against the structure of OpenAPI 3.0. states: random states of services, the outputs in any order. Non-trivial: two routes and two types, and two outputs."
		r.Assume = []string{stubAssume, "routes have handlers of their own; operations without responses and catch-all parameters are as documented"}
		gen := genAll
		gen.Maps = true
		gen.Views = []string{"json", "xml", "form"}
		collide := gen
		collide.Collide, collide.Pkgs = true, 5
		listed := genAll
		listed.Views, listed.Maps, listed.Depth, listed.Kinds = []string{"json", "form", "xml"}, true, 3, []string{"named", "named", "inline", "factory"}
		listed.Weights = map[string]int{"resp": 3, "bind": 3}
		draw := func(g prog.Gen, safe bool) *rapid.Generator[formatCase] {
			return rapid.Custom(func(t *rapid.T) formatCase {
				c := formatCase{P: g.Draw().Draw(t, "p"), Cfg: genCfg.Draw(t, "cfg"), Safe: safe,
					Outs: rapid.SliceOfNDistinct(rapid.SampledFrom(formatOuts), 1, 5, outFile).Draw(t, "outs"),
					Old:  rapid.SliceOfN(rapid.SampledFrom([]string{"", "short", "long"}), 0, 4).Draw(t, "old")}
				return c
			})
		}
		sub := func(name string, g *rapid.Generator[formatCase], quick, thorough int) core.Sub {
			return core.ParProp[formatCase]{Name: name, Quick: quick, Thorough: thorough, Gen: g,
				NonTrivial: func(c formatCase) bool { return twoRoutes(c.P) && len(c.Outs) > 1 },
				Classify: func(c formatCase) []string {
					var out []string
					for _, o := range c.Outs {
						out = append(out, "out:"+o.Mode+" "+o.Path)
					}
					return out
				},
				Shrink: func(c formatCase, fails func(formatCase) bool) formatCase {
					for _, e := range []func(*formatCase){func(c *formatCase) { c.Cfg = prog.DefaultConfig() }, func(c *formatCase) { c.Old = nil }} {
						d := c
						e(&d)
						if fails(d) {
							c = d
						}
					}
					for i := len(c.Outs) - 1; i >= 0 && len(c.Outs) > 1; i-- {
						d := c
						d.Outs = append(append([]prog.Out{}, c.Outs[:i]...), c.Outs[i+1:]...)
						if fails(d) {
							c = d
						}
					}
					c.P = prog.Shrink(c.P, func(p prog.Program) bool { d := c; d.P = p; return fails(d) })
					return c
				},
				Oracle: func(r *core.Run, c formatCase) error { return c.run(r) },
			}
		}
		return []core.Sub{
			sub("programs", draw(gen, true), 220, 4000),
			sub("collide", draw(collide, false), 120, 2000),
			core.ParProp[prog.Program]{Name: "listing", Quick: 250, Thorough: 6000,
				Gen: listed.Draw(),
				NonTrivial: func(p prog.Program) bool {
					return named(p, func(d *prog.TypeDecl) bool { return d.T.K == "struct" && len(d.T.Fields) > 1 })
				},
				Shrink: prog.Shrink,
				Oracle: func(r *core.Run, p prog.Program) error {
					return env(r).Generate(&p, func(j *prog.Job) { j.Outs = append(j.Outs, prog.Out{Mode: "json", Path: "listing.json"}) }, func(o prog.Outcome) error {
						if o.Err != nil {
							return o.Err
						}
						b, err := os.ReadFile(filepath.Join(o.Dir, "listing.json"))
						if err != nil {
							return err
						}
						dump, err := prog.DecodeJSON(b)
						if err != nil {
							return err
						}
						return prog.NewCtx(&p).CompareDump(dump, o.Rd)
					})
				},
			},
			core.Prop[formatState]{Name: "states", Quick: 1500, Thorough: 50000,
				Gen: rapid.Custom(func(t *rapid.T) formatState {
					return formatState{State: genState.Draw(t, "state"), Order: rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(t, "order")}
				}),
				NonTrivial: func(c formatState) bool {
					return c.State.Config != nil && len(c.State.Routes) > 0 && len(c.State.Components) > 0
				},
				Oracle: func(r *core.Run, c formatState) error { return c.run(r) },
			},
		}
	})
}
