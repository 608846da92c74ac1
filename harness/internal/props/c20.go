package props

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/ls6-events/astra"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

type retKey struct {
	Type, Pkg, CT string
	Status        int
}

type retHist struct {
	Batches [][]retKey
}

var genRetKey = rapid.Custom(func(t *rapid.T) retKey {
	return retKey{
		Type:   rapid.SampledFrom([]string{"string", "User", "slice", "nil", "Order"}).Draw(t, "type"),
		Pkg:    rapid.SampledFrom([]string{"", "example.com/a", "example.com/b", "main"}).Draw(t, "pkg"),
		CT:     rapid.SampledFrom([]string{"application/json", "application/xml", "text/plain", ""}).Draw(t, "ct"),
		Status: rapid.SampledFrom([]int{200, 201, 400, 404, 500}).Draw(t, "status"),
	}
})

type compKey struct {
	Name, Pkg string
	Tag       int // tells apart equal keys
}

type compHist struct{ Batches [][]compKey }

type routeOp struct {
	Replace bool
	Path    string
	Method  string
	Tag     int
}

func init() {
	register("C20", func(r *core.Run) []core.Sub {
		r.Rule = "Histories of batched additions (responses, components) or additions/replacements (routes) drawn from small alphabets so that duplicates are frequent; non-trivial: at least one duplicate key and at least two distinct keys."
		r.Assume = []string{"a response is identified by field type, package, status code and content type; a component by name and package; a route by path and method (as documented in safePushing.go and routes.go)"}
		dupRet := func(c retHist) bool {
			seen, n := map[retKey]bool{}, 0
			for _, b := range c.Batches {
				for _, k := range b {
					n++
					seen[k] = true
				}
			}
			return len(seen) >= 2 && n > len(seen)
		}
		return []core.Sub{
			core.Prop[retHist]{
				Name: "responses", Quick: 20000, Thorough: 300000,
				Gen: rapid.Custom(func(t *rapid.T) retHist {
					alpha := rapid.SliceOfN(genRetKey, 1, 5).Draw(t, "alphabet")
					return retHist{rapid.SliceOfN(rapid.SliceOfN(rapid.SampledFrom(alpha), 0, 5), 1, 6).Draw(t, "batches")}
				}),
				NonTrivial: dupRet,
				Oracle: func(r *core.Run, c retHist) error {
					var got, want []astra.ReturnType
					seen := map[retKey]bool{}
					for bi, b := range c.Batches {
						var args []astra.ReturnType
						for _, k := range b {
							rt := astra.ReturnType{StatusCode: k.Status, ContentType: k.CT, Field: astra.Field{Type: k.Type, Package: k.Pkg}}
							args = append(args, rt)
							if !seen[k] {
								seen[k] = true
								want = append(want, rt)
							}
						}
						got = astra.AddReturnType(got, args...)
						if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
							return fmt.Errorf("after batch %d: got %s, want %s", bi, js(got), js(want))
						}
					}
					// adding everything once more changes nothing
					for _, b := range c.Batches {
						for _, k := range b {
							got = astra.AddReturnType(got, astra.ReturnType{StatusCode: k.Status, ContentType: k.CT, Field: astra.Field{Type: k.Type, Package: k.Pkg}})
						}
					}
					if len(got) != len(want) {
						return fmt.Errorf("re-adding grew the set to %d, want %d", len(got), len(want))
					}
					return nil
				},
			},
			core.Prop[compHist]{
				Name: "components", Quick: 20000, Thorough: 300000,
				Gen: rapid.Custom(func(t *rapid.T) compHist {
					k := rapid.Custom(func(t *rapid.T) compKey {
						return compKey{
							Name: rapid.SampledFrom([]string{"A", "B", "C", "Aa"}).Draw(t, "name"),
							Pkg:  rapid.SampledFrom([]string{"x", "y", "x/y", "main"}).Draw(t, "pkg"),
							Tag:  rapid.IntRange(0, 1000).Draw(t, "tag"),
						}
					})
					return compHist{rapid.SliceOfN(rapid.SliceOfN(k, 0, 5), 1, 6).Draw(t, "batches")}
				}),
				NonTrivial: func(c compHist) bool {
					seen, n := map[string]bool{}, 0
					for _, b := range c.Batches {
						for _, k := range b {
							n++
							seen[k.Pkg+"."+k.Name] = true
						}
					}
					return len(seen) >= 2 && n > len(seen)
				},
				Oracle: func(r *core.Run, c compHist) error {
					var got, want []astra.Field
					seen := map[string]bool{}
					for bi, b := range c.Batches {
						var args []astra.Field
						for _, k := range b {
							f := astra.Field{Name: k.Name, Package: k.Pkg, Type: "struct", Doc: fmt.Sprint(k.Tag)}
							args = append(args, f)
							if !seen[k.Pkg+"|"+k.Name] {
								seen[k.Pkg+"|"+k.Name] = true
								want = append(want, f)
							}
						}
						got = astra.AddComponent(got, args...)
						if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
							return fmt.Errorf("after batch %d: got %s, want %s", bi, js(got), js(want))
						}
					}
					return nil
				},
			},
			core.Prop[[]routeOp]{
				Name: "routes", Quick: 20000, Thorough: 300000,
				Gen: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) routeOp {
					return routeOp{
						Replace: rapid.Bool().Draw(t, "replace"),
						Path:    rapid.SampledFrom([]string{"/a", "/a/:id", "/b", "/A"}).Draw(t, "path"),
						Method:  rapid.SampledFrom([]string{"GET", "POST", "PUT"}).Draw(t, "method"),
						Tag:     rapid.IntRange(0, 1000).Draw(t, "tag"),
					}
				}), 1, 14),
				NonTrivial: func(c []routeOp) bool {
					n := 0
					seen := map[string]bool{}
					for _, o := range c {
						if o.Replace && seen[o.Path+o.Method] {
							n++
						}
						if !o.Replace {
							seen[o.Path+o.Method] = true
						}
					}
					return n > 0 && len(seen) > 1
				},
				Oracle: func(r *core.Run, c []routeOp) error {
					s := &astra.Service{}
					var want []astra.Route
					for i, o := range c {
						rt := astra.Route{Path: o.Path, Method: o.Method, Handler: fmt.Sprint("h", o.Tag)}
						if o.Replace {
							s.ReplaceRoute(rt)
							for j := range want {
								if want[j].Path == o.Path && want[j].Method == o.Method {
									want[j] = rt
									break
								}
							}
						} else {
							s.AddRoute(rt)
							want = append(want, rt)
						}
						if len(s.Routes) != len(want) || (len(want) > 0 && !reflect.DeepEqual(s.Routes, want)) {
							return fmt.Errorf("after op %d: got %s, want %s", i, js(s.Routes), js(want))
						}
					}
					return nil
				},
			},
		}
	})
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}
