package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/utils"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

// azRoute is a route of an Azure Functions generation.
type azRoute struct {
	Pkg, Name, Method string
	Segs              []azSeg
	Reversed          bool // path parameters listed from the last
}

type azSeg struct {
	Prefix, Kind, Name, Type string // Kind: "" : *
}

type azRun struct{ Routes []azRoute }

type azHist struct {
	Dir      string // output directory
	Leftover []string
	Temp     bool // what a killed generation left in the temporary directory
	Runs     []azRun
}

// azTypes is the constraint for each type, from the documentation of Azure Functions route constraints.
var azTypes = map[string]string{"string": "alpha", "int": "long", "int32": "int", "int64": "long", "uint": "long", "uint32": "int", "uint64": "long",
	"float32": "float", "float64": "double", "bool": "bool"}

func (r azRoute) path() string {
	if len(r.Segs) == 0 {
		return "/"
	}
	var b strings.Builder
	for _, s := range r.Segs {
		b.WriteString("/" + s.Prefix + s.Kind + s.Name)
	}
	return b.String()
}

func (r azRoute) template() string {
	if len(r.Segs) == 0 {
		return "/"
	}
	var b strings.Builder
	for _, s := range r.Segs {
		b.WriteString("/" + s.Prefix)
		switch s.Kind {
		case ":":
			b.WriteString("{" + s.Name + ":" + azTypes[s.Type] + "}")
		case "*":
			b.WriteString("{" + s.Name + ":" + azTypes[s.Type] + "?}")
		}
	}
	return b.String()
}

func (r azRoute) route() astra.Route {
	out := astra.Route{Handler: r.Pkg + "." + r.Name, Method: r.Method, Path: r.path()}
	allString := true
	for _, s := range r.Segs {
		if s.Kind == "" {
			continue
		}
		allString = allString && s.Type == "string"
		p := astra.Param{Name: s.Name, IsRequired: s.Kind == ":", Field: astra.Field{Type: s.Type}}
		if r.Reversed {
			out.PathParams = append([]astra.Param{p}, out.PathParams...)
		} else {
			out.PathParams = append(out.PathParams, p)
		}
	}
	if allString && !r.Reversed {
		out.PathParams = utils.ExtractParamsFromPath(out.Path)
	}
	return out
}

var genAzRoutes = rapid.Custom(func(t *rapid.T) azRun {
	var run azRun
	seen := map[string]bool{}
	for n := rapid.IntRange(0, 6).Draw(t, "routes"); n > 0; n-- {
		r := azRoute{
			Pkg:      rapid.SampledFrom([]string{"main", "example.com/app/api", "github.com/acme/v2.x/handlers", "example.com/a.b/c"}).Draw(t, "pkg"),
			Name:     rapid.SampledFrom([]string{"GetUser", "listItems", "A", "create_order", "Größe", "Get", "GetUser2"}).Draw(t, "name"),
			Method:   rapid.SampledFrom([]string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE"}).Draw(t, "method"),
			Reversed: rapid.IntRange(0, 3).Draw(t, "rev") == 0,
		}
		if seen[r.Name] {
			continue
		}
		seen[r.Name] = true
		k := rapid.IntRange(0, 5).Draw(t, "segs")
		names := map[string]bool{}
		for i := 0; i < k; i++ {
			s := azSeg{Prefix: rapid.SampledFrom([]string{"users", "a", "id", "v1.0", "a-b", "x{y}", "q+1", "größe", "$", "%20"}).Draw(t, "static")}
			if kind := rapid.IntRange(0, 2).Draw(t, "kind"); kind > 0 {
				s.Kind = ":"
				if rapid.IntRange(0, 2).Draw(t, "mixed") > 0 {
					s.Prefix = ""
				}
				if kind == 2 && i == k-1 {
					s.Kind, s.Prefix = "*", ""
				}
				s.Name = rapid.SampledFrom([]string{"id", "idx", "i", "id2", "user_id", "user", "userID", "a.b", "n-1", "ü", "$1", "${1}"}).Draw(t, "name")
				for names[s.Name] {
					s.Name += "x"
				}
				names[s.Name] = true
				s.Type = rapid.SampledFrom([]string{"string", "string", "int", "int32", "int64", "uint", "uint32", "uint64", "float32", "float64", "bool"}).Draw(t, "type")
			}
			r.Segs = append(r.Segs, s)
		}
		run.Routes = append(run.Routes, r)
	}
	return run
})

func init() {
	register("C11", func(r *core.Run) []core.Sub {
		r.Rule = "Histories of up to 3 generations of up to 6 routes with handlers of unique names into one directory, that may hold leftovers, nested or not; paths of up to 5 segments with required and optional parameters of every type, names that start or contain each other, and static text with regular expression and template characters. Non-trivial: a route with two parameters or a second generation."
		r.Assume = []string{"handler names are unique by their last part, as the property says; routes are given to the generator with the parameters that the gin input finds, or with typed ones"}
		return []core.Sub{
			core.Prop[azHist]{
				Name: "functions", Quick: 8000, Thorough: 150000,
				Gen: rapid.Custom(func(t *rapid.T) azHist {
					h := azHist{
						Dir:  rapid.SampledFrom([]string{"azure", "out/azure", "fn.d", "a b", "./az", "out/../az2"}).Draw(t, "dir"),
						Temp: rapid.IntRange(0, 3).Draw(t, "temp") == 0,
						Runs: rapid.SliceOfN(genAzRoutes, 1, 3).Draw(t, "runs"),
					}
					h.Leftover = rapid.SliceOfN(rapid.SampledFrom([]string{"Old/function.json", "GetUser/function.json", "GetUser/extra.txt", "host.json", "A/b/c", "listItems/"}), 0, 3).Draw(t, "left")
					return h
				}),
				NonTrivial: func(h azHist) bool {
					if len(h.Runs) > 1 {
						return true
					}
					for _, r := range h.Runs[0].Routes {
						n := 0
						for _, s := range r.Segs {
							if s.Kind != "" {
								n++
							}
						}
						if n > 1 {
							return true
						}
					}
					return false
				},
				Oracle: func(r *core.Run, h azHist) error { return h.run(r) },
			},
			core.Prop[azRun]{
				Name: "extract", Quick: 8000, Thorough: 150000, Gen: genAzRoutes,
				NonTrivial: func(c azRun) bool { return len(c.Routes) > 0 },
				Oracle: func(r *core.Run, c azRun) error {
					for _, rt := range c.Routes {
						got := utils.ExtractParamsFromPath(rt.path())
						var want []astra.Param
						for _, s := range rt.Segs {
							if s.Kind != "" {
								want = append(want, astra.Param{Name: s.Name, Field: astra.Field{Type: "string"}, IsRequired: s.Kind == ":"})
							}
						}
						if len(got) != len(want) || len(got) > 0 && !deepEq(got, want) {
							return fmt.Errorf("parameters of %s are %s, want %s", rt.path(), js(got), js(want))
						}
						if m := utils.MapPathParams(rt.path(), func(p string) string { return p }); m != rt.path() {
							return fmt.Errorf("mapping the parameters of %s to themselves gives %s", rt.path(), m)
						}
					}
					return nil
				},
			},
		}
	})
}

func (h azHist) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	out := filepath.Join(dir, h.Dir)
	must(os.MkdirAll(filepath.Dir(out), 0o755))
	must(os.MkdirAll(filepath.Join(dir, "out"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "keep.txt"), []byte("keep"), 0o644))
	for _, l := range h.Leftover {
		p := filepath.Join(out, l)
		if strings.HasSuffix(l, "/") {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte("old"), 0o644))
	}
	if h.Temp {
		must(os.MkdirAll(filepath.Join(dir, ".astra", "azure", "GetUser"), 0o755))
		must(os.WriteFile(filepath.Join(dir, ".astra", "azure", "Old"), nil, 0o644))
	}
	for i, run := range h.Runs {
		s := quietService(dir)
		outputs.WithAzureFunctionsOutput(h.Dir)(s)
		want := map[string]azRoute{}
		for _, rt := range run.Routes {
			s.AddRoute(rt.route())
			want[rt.Name] = rt
		}
		if err := s.Setup(); err != nil {
			return fmt.Errorf("generation %d: setup: %v", i, err)
		}
		if err := s.Generate(); err != nil {
			return fmt.Errorf("generation %d fails: %v", i, err)
		}
		if err := s.Teardown(); err != nil {
			return fmt.Errorf("generation %d: teardown: %v", i, err)
		}
		got := tree(out)
		if _, err := os.Stat(out); err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		paths := map[string]bool{}
		for name := range want {
			paths[name+"/"] = true
			paths[name+"/function.json"] = true
		}
		for p := range got {
			if !paths[p] {
				return fmt.Errorf("generation %d: %s is in the output, want %v", i, p, core.SortedKeys(paths))
			}
		}
		for p := range paths {
			if _, ok := got[p]; !ok {
				return fmt.Errorf("generation %d: %s is not in the output", i, p)
			}
		}
		for name, rt := range want {
			raw, err := os.ReadFile(filepath.Join(out, name, "function.json"))
			if err != nil {
				return err
			}
			var fn struct{ Bindings []map[string]any }
			if err := json.Unmarshal(raw, &fn); err != nil {
				return fmt.Errorf("%s/function.json: %v", name, err)
			}
			var in, outb []map[string]any
			for _, b := range fn.Bindings {
				switch {
				case b["type"] == "httpTrigger" && b["direction"] == "in":
					in = append(in, b)
				case b["type"] == "http" && b["direction"] == "out":
					outb = append(outb, b)
				default:
					return fmt.Errorf("%s has the binding %s", name, js(b))
				}
			}
			if len(in) != 1 || len(outb) != 1 {
				return fmt.Errorf("%s has the bindings %s", name, js(fn.Bindings))
			}
			if in[0]["name"] == "" || outb[0]["name"] == "" || in[0]["name"] == nil || outb[0]["name"] == nil {
				return fmt.Errorf("%s has a binding without a name", name)
			}
			if got := in[0]["route"]; got != rt.template() {
				return fmt.Errorf("%s: the route of %s is %q, want %q", name, rt.path(), got, rt.template())
			}
			var methods []string
			list, _ := in[0]["methods"].([]any)
			for _, m := range list {
				methods = append(methods, strings.ToLower(fmt.Sprint(m)))
			}
			sort.Strings(methods)
			wantM := []string{strings.ToLower(rt.Method), "options"}
			sort.Strings(wantM)
			if rt.Method == "OPTIONS" && len(methods) == 1 {
				wantM = wantM[:1]
			}
			if fmt.Sprint(methods) != fmt.Sprint(wantM) {
				return fmt.Errorf("%s: the methods of %s are %v", name, rt.Method, methods)
			}
		}
		rest := tree(dir)
		for p := range rest {
			if strings.HasPrefix(p, ".astra") {
				return fmt.Errorf("generation %d leaves %s", i, p)
			}
		}
		if !strings.HasSuffix(rest["keep.txt"], "keep") {
			return fmt.Errorf("generation %d changes a file next to its output", i)
		}
	}
	return nil
}
