package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// nameComp is a component with a mark of its own in every view.
type nameComp struct {
	Pkg, Name string
	Kind      string   // plain, tagged, views, enum, slice, map, empty
	Views     []string // tag keys of tagged and views
	Refs      []int    // components it has fields, elements or embedded structs of
	Embed     bool
}

type nameCase struct {
	Comps []nameComp
	Swap  int // the order in which components are found
}

var viewCT = map[string]string{"json": "application/json", "xml": "application/xml", "yaml": "application/yaml"}

func (c nameComp) prop(i int, view string) string {
	if c.Kind == "views" {
		for _, v := range c.Views {
			if v == view {
				return fmt.Sprintf("m%d-%s", i, view)
			}
		}
		return ""
	}
	return fmt.Sprintf("m%d", i)
}

func (c nameComp) supports(view string) bool {
	if c.Kind != "views" && c.Kind != "tagged" {
		return true
	}
	for _, v := range c.Views {
		if v == view {
			return true
		}
	}
	return false
}

func (c nameCase) service(dir string) *astra.Service {
	s := quietService(dir)
	s.Config = &astra.Config{Title: "T", Version: "1", Host: "localhost", Port: 80, BasePath: "/"}
	for n := range c.Comps {
		i := (n + c.Swap) % len(c.Comps)
		k := c.Comps[i]
		f := astra.Field{Name: k.Name, Package: k.Pkg}
		switch k.Kind {
		case "enum":
			f.Type, f.EnumValues = "string", []any{fmt.Sprintf("m%d", i)}
		case "empty":
			f.Type, f.StructFields, f.Doc = "struct", map[string]astra.Field{}, fmt.Sprintf("m%d", i)
		default:
			f.Type, f.StructFields = "struct", map[string]astra.Field{}
			mark := astra.Field{Name: "Mark", Type: "string"}
			switch k.Kind {
			case "plain":
				mark.Name = fmt.Sprintf("m%d", i)
			default:
				mark.StructFieldBindingTags = astTraversal.BindingTagMap{}
				for _, v := range k.Views {
					mark.StructFieldBindingTags[astTraversal.BindingTagType(v)] = astTraversal.BindingTag{Name: k.prop(i, v)}
				}
			}
			f.StructFields[mark.Name] = mark
			for n, j := range k.Refs {
				t := c.Comps[j]
				name := fmt.Sprintf("R%d", n)
				e := astra.Field{Name: name, Type: t.Name, Package: t.Pkg}
				switch n % 3 {
				case 1:
					el := astra.Field{Type: t.Name, Package: t.Pkg}
					e = astra.Field{Name: name, Type: "slice", SliceType: t.Name, Package: t.Pkg, Elem: &el}
				case 2:
					el := astra.Field{Type: t.Name, Package: t.Pkg}
					e = astra.Field{Name: name, Type: "map", MapKeyType: "string", MapValueType: t.Name, Package: t.Pkg, Elem: &el}
				}
				f.StructFields[name] = e
			}
		}
		s.Components = append(s.Components, f)
		r := astra.Route{Handler: fmt.Sprintf("main.H%d", i), Path: fmt.Sprintf("/r%d", i), Method: "POST"}
		for st, v := range []string{"json", "xml", "yaml"} {
			if k.supports(v) {
				r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200 + st, ContentType: viewCT[v], Field: astra.Field{Type: k.Name, Package: k.Pkg}})
				r.Body = append(r.Body, astra.BodyParam{IsBound: true, ContentType: viewCT[v], Field: astra.Field{Type: k.Name, Package: k.Pkg}})
			}
		}
		if k.supports("form") {
			r.Body = append(r.Body, astra.BodyParam{IsBound: true, ContentType: "application/x-www-form-urlencoded", Field: astra.Field{Type: k.Name, Package: k.Pkg}})
		}
		s.Routes = append(s.Routes, r)
	}
	return s
}

func (c nameCase) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	if err := openapi.Generate("o.json")(c.service(dir)); err != nil {
		return fmt.Errorf("generation fails: %v", err)
	}
	raw, err := os.ReadFile(filepath.Join(dir, "o.json"))
	if err != nil {
		return err
	}
	doc, err := decodeJSON(raw)
	if err != nil {
		return err
	}
	comps, _ := doc["components"].(map[string]any)
	schemas, _ := comps["schemas"].(map[string]any)
	if err := refsResolve(doc, schemas); err != nil {
		return err
	}
	owner := map[string]int{}
	check := func(what string, i int, view string, sv any) error {
		s, _ := sv.(map[string]any)
		ref, ok := s["$ref"].(string)
		if !ok {
			return fmt.Errorf("%s is not a reference but %s", what, clip(js(sv)))
		}
		name := strings.TrimPrefix(ref, "#/components/schemas/")
		if o, ok := owner[name]; ok && o != i {
			return fmt.Errorf("component %s is the name of %s.%s and of %s.%s", name, c.Comps[i].Pkg, c.Comps[i].Name, c.Comps[o].Pkg, c.Comps[o].Name)
		}
		owner[name] = i
		k := c.Comps[i]
		target, _ := schemas[name].(map[string]any)
		if err := c.marked(i, view, target); err != nil {
			return fmt.Errorf("%s is %s, which is not the %s view of %s.%s: %v", what, ref, view, k.Pkg, k.Name, err)
		}
		if c.plain(i) && k.Kind != "views" && len(c.viewed(i, map[int]bool{})) == 0 {
			if want := k.Pkg[strings.LastIndex(k.Pkg, "/")+1:] + "." + k.Name; name != want {
				return fmt.Errorf("%s.%s clashes with nothing but is called %s instead of %s", k.Pkg, k.Name, name, want)
			}
		}
		return nil
	}
	paths, _ := doc["paths"].(map[string]any)
	for i, k := range c.Comps {
		item, _ := paths[fmt.Sprintf("/r%d", i)].(map[string]any)
		op, _ := item["post"].(map[string]any)
		for st, v := range []string{"json", "xml", "yaml"} {
			if !k.supports(v) {
				continue
			}
			if err := check(fmt.Sprintf("response %d of route %d", 200+st, i), i, v, dig(op, "responses", fmt.Sprint(200+st), "content", viewCT[v], "schema")); err != nil {
				return err
			}
			if err := check(fmt.Sprintf("body %s of route %d", v, i), i, v, dig(op, "requestBody", "content", viewCT[v], "schema")); err != nil {
				return err
			}
		}
		if k.supports("form") {
			if err := check(fmt.Sprintf("form of route %d", i), i, "form", dig(op, "requestBody", "content", "application/x-www-form-urlencoded", "schema")); err != nil {
				return err
			}
		}
		for n, j := range k.Refs {
			for _, v := range []string{"json", "xml", "yaml"} {
				if !k.supports(v) || !c.Comps[j].supports(v) {
					continue
				}
				ref, _ := dig(op, "requestBody", "content", viewCT[v], "schema", "$ref").(string)
				f := dig(schemas, strings.TrimPrefix(ref, "#/components/schemas/"), "properties", fmt.Sprintf("R%d", n))
				switch n % 3 {
				case 1:
					f = dig(f, "items")
				case 2:
					f = dig(f, "additionalProperties")
				}
				if err := check(fmt.Sprintf("field R%d of %s.%s", n, k.Pkg, k.Name), j, v, f); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// viewed are the components with several views that a component refers to.
func (c nameCase) viewed(i int, seen map[int]bool) []int {
	if seen[i] {
		return nil
	}
	seen[i] = true
	var out []int
	if c.Comps[i].Kind == "views" {
		out = append(out, i)
	}
	for _, j := range c.Comps[i].Refs {
		out = append(out, c.viewed(j, seen)...)
	}
	return out
}

// plain tells whether no other package has the same last path element.
func (c nameCase) plain(i int) bool {
	last := func(p string) string { return p[strings.LastIndex(p, "/")+1:] }
	if strings.Contains(last(c.Comps[i].Pkg), ".") {
		return false
	}
	for j, k := range c.Comps {
		if j != i && k.Pkg != c.Comps[i].Pkg && last(k.Pkg) == last(c.Comps[i].Pkg) {
			return false
		}
	}
	return true
}

func (c nameCase) marked(i int, view string, s map[string]any) error {
	k := c.Comps[i]
	switch k.Kind {
	case "enum":
		if js(s["enum"]) != fmt.Sprintf(`["m%d"]`, i) {
			return fmt.Errorf("its enum is %s", clip(js(s["enum"])))
		}
	case "empty":
		if s["description"] != fmt.Sprintf("m%d", i) {
			return fmt.Errorf("its description is %v", s["description"])
		}
	default:
		props, _ := s["properties"].(map[string]any)
		if _, ok := props[k.prop(i, view)]; !ok || len(props) != 1+len(k.Refs) {
			return fmt.Errorf("its properties are %v", core.SortedKeys(props))
		}
	}
	return nil
}

// dig follows keys into a decoded document.
func dig(v any, keys ...string) any {
	for _, k := range keys {
		m, _ := v.(map[string]any)
		v = m[k]
	}
	return v
}

// refsResolve checks every reference of a document.
func refsResolve(v any, schemas map[string]any) error {
	switch x := v.(type) {
	case map[string]any:
		for _, k := range core.SortedKeys(x) {
			e := x[k]
			if ref, ok := e.(string); k == "$ref" && ok {
				name, local := strings.CutPrefix(ref, "#/components/schemas/")
				if _, found := schemas[name]; !local || !found {
					return fmt.Errorf("the reference %q does not resolve", ref)
				}
			}
			if err := refsResolve(e, schemas); err != nil {
				return err
			}
		}
	case []any:
		for _, e := range x {
			if err := refsResolve(e, schemas); err != nil {
				return err
			}
		}
	}
	return nil
}

var genNames = rapid.Custom(func(t *rapid.T) nameCase {
	elems := []string{"a", "b", "models", "models", "types", "v1", "json", "form", "internal", "x-y", "A", "models2", "models.v2", "a.json", "a.b"}
	var pkgs []string
	genPkg := func() string {
		if len(pkgs) > 0 {
			old := rapid.SampledFrom(pkgs).Draw(t, "old")
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				return old
			case 1: // nested
				return old + "/" + rapid.SampledFrom(elems).Draw(t, "el")
			case 2: // suffix
				if i := strings.Index(old, "/"); i >= 0 {
					return old[i+1:]
				}
			case 3: // the same end
				parts := strings.Split(old, "/")
				n := rapid.IntRange(1, min(3, len(parts))).Draw(t, "end")
				return rapid.SampledFrom([]string{"example.com", "a", "github.com/o", "b/models"}).Draw(t, "root") + "/" + strings.Join(parts[len(parts)-n:], "/")
			}
		}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		p := rapid.SampledFrom([]string{"example.com", "github.com/acme/svc", "app", "main", "a"}).Draw(t, "root")
		for ; n > 0; n-- {
			p += "/" + rapid.SampledFrom(elems).Draw(t, "el")
		}
		return p
	}
	var c nameCase
	seen := map[string]bool{}
	for n := rapid.IntRange(1, 8).Draw(t, "comps"); n > 0; n-- {
		k := nameComp{Pkg: genPkg(), Name: rapid.SampledFrom([]string{"User", "User", "Order", "json", "A", "User2"}).Draw(t, "name"),
			Kind: rapid.SampledFrom([]string{"plain", "plain", "tagged", "views", "enum", "empty"}).Draw(t, "kind")}
		if seen[k.Pkg+"."+k.Name] {
			continue
		}
		seen[k.Pkg+"."+k.Name] = true
		pkgs = append(pkgs, k.Pkg)
		if k.Kind == "tagged" || k.Kind == "views" {
			k.Views = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"json", "xml", "yaml", "form", "header"}), 1, 4, rapid.ID[string]).Draw(t, "views")
			if len(k.Views) < 2 {
				k.Kind = "tagged"
			}
		}
		c.Comps = append(c.Comps, k)
	}
	for i := range c.Comps {
		if k := &c.Comps[i]; k.Kind == "plain" || k.Kind == "views" {
			for n := rapid.IntRange(0, 3).Draw(t, "refs"); n > 0; n-- {
				k.Refs = append(k.Refs, rapid.IntRange(0, len(c.Comps)-1).Draw(t, "ref"))
			}
		}
	}
	c.Swap = rapid.IntRange(0, 7).Draw(t, "swap")
	return c
})

func init() {
	register("C04", func(r *core.Run) []core.Sub {
		r.Rule = "names: up to 8 components with a mark of their own, in packages with nested, suffix-related and equal ends of paths, referring to each other, used in every encoding. programs: Go modules with up to 6 such packages and up to 8 types. scoped: programs with types declared in functions that shadow each other and those of the package, aliases of them, instances of generic types with such and other arguments, and embedding of them. Non-trivial: two packages end the same; scoped: two different types that are used have the same name and package."
		r.Assume = []string{stubAssume}
		gen := prog.Gen{Pkgs: 6, Types: 8, MinTypes: 3, Depth: 1, Embed: true, Collide: true, Handlers: 3, Stmts: 6, Named: true, Enums: true, Recurse: true,
			Weights: map[string]int{"resp": 3, "bind": 1}}
		tagged := gen
		tagged.Views, tagged.Options = []string{"json", "xml"}, true
		same := func(p prog.Program) bool {
			seen := map[string]bool{}
			for _, k := range p.Pkgs {
				last := k.Path[strings.LastIndex(k.Path, "/")+1:]
				if seen[last] {
					return true
				}
				seen[last] = true
			}
			return false
		}
		return []core.Sub{
			core.Prop[nameCase]{Name: "names", Gen: genNames, Quick: 20000, Thorough: 400000,
				NonTrivial: func(c nameCase) bool {
					for i := range c.Comps {
						if !c.plain(i) {
							return true
						}
					}
					return false
				},
				Classify: func(c nameCase) []string {
					var out []string
					for _, k := range c.Comps {
						out = append(out, "kind:"+k.Kind)
					}
					return out
				},
				Oracle: func(r *core.Run, c nameCase) error { return c.run(r) },
			},
			compareProp("programs", gen, prog.Cmp{Responses: true, Requests: true}, 500, 8000, same),
			compareProp("tagged", tagged, prog.Cmp{Responses: true, Requests: true}, 300, 5000, same),
			scopedProp(400, 8000),
		}
	})
}
