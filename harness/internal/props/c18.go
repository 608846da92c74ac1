package props

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/outputs/openapi"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

var genConfig = rapid.Custom(func(t *rapid.T) astra.Config {
	txt := func(l string) string { return genText.Draw(t, l) }
	opt := func(l string, f func() string) string {
		if rapid.IntRange(0, 2).Draw(t, l+"?") == 0 {
			return ""
		}
		return f()
	}
	return astra.Config{
		Title: txt("title"), Description: opt("description", func() string { return txt("desc") }), Version: txt("version"),
		Contact: astra.Contact{Name: txt("cname"), URL: txt("curl"), Email: txt("cmail")},
		License: astra.License{Name: txt("lname"), URL: txt("lurl")},
		Secure:  rapid.Bool().Draw(t, "secure"),
		Host: opt("host", func() string {
			return rapid.OneOf(rapid.SampledFrom([]string{"localhost", "api.example.com", "::1", "0.0.0.0", " ", "[::1]", "host:1", "LOCALHOST", "a b", "http://x"}), genText).Draw(t, "host")
		}),
		BasePath: opt("base", func() string {
			return rapid.OneOf(rapid.SampledFrom([]string{"/", "/v1", "/a/b/", "v2", ".", "/.", "//", " ", "/ ", "?q=1", "/{v}"}), genText).Draw(t, "base")
		}),
		Port: rapid.OneOf(rapid.SampledFrom([]int{0, 1, 80, 443, 8000, 65535, -1, 70000}), rapid.Int()).Draw(t, "port"),
	}
})

type builderCase struct {
	Ops []builderOp
}

type builderOp struct {
	Field  string
	Config astra.Config // the value of Field is taken from here
}

var builderFields = []string{"title", "description", "version", "contact", "license", "secure", "host", "base", "port", "build"}

type docCase struct {
	Config    astra.Config
	YAML      bool
	Validated bool
	Twice     bool
}

// validated is the model of Config.Validate.
func validated(c astra.Config) (astra.Config, bool) {
	if c.Host == "" {
		c.Host = "localhost"
	}
	if c.BasePath == "" {
		c.BasePath = "/"
	}
	return c, c.Port != 0
}

func setOf(set bool, k, v string, m map[string]any) {
	if set || v != "" {
		m[k] = v
	}
}

// wantInfo is the info object of a configuration.
func wantInfo(c astra.Config) map[string]any {
	if c.Description == "" {
		c.Description = "Generated by astra"
	}
	contact, license := map[string]any{}, map[string]any{"name": c.License.Name}
	setOf(false, "name", c.Contact.Name, contact)
	setOf(false, "url", c.Contact.URL, contact)
	setOf(false, "email", c.Contact.Email, contact)
	setOf(false, "url", c.License.URL, license)
	return map[string]any{"title": c.Title, "description": c.Description, "version": c.Version, "contact": contact, "license": license}
}

// dropEmpty removes empty texts, whether they are written out is no matter.
func dropEmpty(m map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		if sub, ok := v.(map[string]any); ok {
			out[k] = dropEmpty(sub)
			continue
		}
		if v != "" && v != nil {
			out[k] = v
		}
	}
	return out
}

func init() {
	register("C18", func(r *core.Run) []core.Sub {
		r.Rule = "Configurations with arbitrary text in every field (empty, control characters, YAML and JSON syntax, non-ASCII), any port; setter histories of the builder; documents written as JSON and YAML. Non-trivial: a host, base path, port or description that is empty, or text that is not plain letters."
		plain := func(s string) bool {
			for _, c := range s {
				if c < 'a' || c > 'z' {
					return false
				}
			}
			return true
		}
		nt := func(c astra.Config) bool {
			return c.Host == "" || c.BasePath == "" || c.Port == 0 || c.Description == "" || !plain(c.Title) || !plain(c.Description)
		}
		return []core.Sub{
			core.Prop[astra.Config]{
				Name: "validate", Quick: 20000, Thorough: 400000, Gen: genConfig, NonTrivial: nt,
				Oracle: func(r *core.Run, c astra.Config) error {
					want, ok := validated(c)
					got := c
					err := got.Validate()
					if (err == nil) != ok {
						return fmt.Errorf("Validate returns %v for port %d", err, c.Port)
					}
					if !ok {
						if !errors.Is(err, astra.ErrConfigPortRequired) {
							return fmt.Errorf("the missing port is reported as %v", err)
						}
						// which defaults a refused configuration has is not specified
						if got.Host == "" {
							want.Host = ""
						}
						if got.BasePath == "" {
							want.BasePath = ""
						}
					}
					if got != want {
						return fmt.Errorf("Validate makes %s of %s, want %s", js(got), js(c), js(want))
					}
					again := got
					if err2 := again.Validate(); (err2 == nil) != ok || ok && again != got {
						return fmt.Errorf("a second Validate: %v, %s", err2, js(again))
					}
					return nil
				},
			},
			core.Prop[builderCase]{
				Name: "builder", Quick: 5000, Thorough: 300000,
				Gen: rapid.Custom(func(t *rapid.T) builderCase {
					op := rapid.Custom(func(t *rapid.T) builderOp {
						return builderOp{rapid.SampledFrom(builderFields).Draw(t, "field"), genConfig.Draw(t, "value")}
					})
					return builderCase{rapid.SliceOfN(op, 0, 12).Draw(t, "ops")}
				}),
				NonTrivial: func(c builderCase) bool { return len(c.Ops) >= 2 },
				Oracle: func(r *core.Run, c builderCase) error {
					b := astra.NewConfigBuilder()
					var want astra.Config
					for i, op := range append(c.Ops, builderOp{Field: "build"}) {
						v := op.Config
						switch op.Field {
						case "title":
							b, want.Title = b.SetTitle(v.Title), v.Title
						case "description":
							b, want.Description = b.SetDescription(v.Description), v.Description
						case "version":
							b, want.Version = b.SetVersion(v.Version), v.Version
						case "contact":
							b, want.Contact = b.SetContact(v.Contact), v.Contact
						case "license":
							b, want.License = b.SetLicense(v.License), v.License
						case "secure":
							b, want.Secure = b.SetSecure(v.Secure), v.Secure
						case "host":
							b, want.Host = b.SetHost(v.Host), v.Host
						case "base":
							b, want.BasePath = b.SetBasePath(v.BasePath), v.BasePath
						case "port":
							b, want.Port = b.SetPort(v.Port), v.Port
						default:
							built, err := b.Build()
							w, ok := validated(want)
							if (err == nil) != ok {
								return fmt.Errorf("op %d: Build returns error %v with port %d", i, err, want.Port)
							}
							if ok && (built == nil || *built != w) {
								return fmt.Errorf("op %d: Build returns %s, want %s", i, js(built), js(w))
							}
							if !ok {
								if built != nil {
									return fmt.Errorf("op %d: Build returns a configuration with an error", i)
								}
								// defaults may or may not have been filled in
								if want.Host == "" || want.BasePath == "" {
									b = b.SetHost(want.Host).SetBasePath(want.BasePath)
								}
							} else {
								want = w
							}
						}
					}
					return nil
				},
			},
			core.Prop[docCase]{
				Name: "document", Quick: 4000, Thorough: 100000,
				Gen: rapid.Custom(func(t *rapid.T) docCase {
					return docCase{genConfig.Draw(t, "config"), rapid.Bool().Draw(t, "yaml"), rapid.Bool().Draw(t, "validated"), rapid.Bool().Draw(t, "twice")}
				}),
				NonTrivial: func(c docCase) bool { return nt(c.Config) },
				Oracle: func(r *core.Run, c docCase) error {
					dir := tmpDir(r)
					defer rmDir(r, dir)
					s := quietService(dir)
					cfg := c.Config
					if c.YAML {
						for _, f := range []*string{&cfg.Title, &cfg.Description, &cfg.Version, &cfg.Contact.Name, &cfg.Contact.URL, &cfg.Contact.Email, &cfg.License.Name, &cfg.License.URL, &cfg.Host, &cfg.BasePath} {
							if !yamlSafe(*f) {
								r.Exclude("text that the YAML library itself loses", 1)
								*f = "x"
							}
						}
					}
					if c.Validated {
						if cfg.Port == 0 {
							cfg.Port = 8000
						}
						if err := cfg.Validate(); err != nil {
							return err
						}
					}
					want := cfg
					astra.WithConfig(&cfg)(s)
					name := "openapi.json"
					if c.YAML {
						name = "openapi.yaml"
					}
					runs := 1
					if c.Twice {
						runs = 2
					}
					for i := 0; i < runs; i++ {
						if err := openapi.Generate(name)(s); err != nil {
							return fmt.Errorf("generation failed: %v", err)
						}
					}
					raw, err := os.ReadFile(filepath.Join(dir, name))
					if err != nil {
						return err
					}
					decode := decodeJSON
					if c.YAML {
						decode = decodeYAML
					}
					doc, err := decode(raw)
					if err != nil {
						return fmt.Errorf("the document does not decode: %v", err)
					}
					info, _ := doc["info"].(map[string]any)
					if d := firstDiff("info", dropEmpty(wantInfo(want)), dropEmpty(info)); d != "" {
						return fmt.Errorf("%s (want left)", d)
					}
					for _, k := range []string{"title", "version"} {
						if _, ok := info[k].(string); !ok {
							return fmt.Errorf("info has no %s", k)
						}
					}
					scheme := "http"
					if want.Secure {
						scheme = "https"
					}
					servers, _ := doc["servers"].([]any)
					url := fmt.Sprintf("%s://%s:%d%s", scheme, want.Host, want.Port, want.BasePath)
					if len(servers) != 1 || servers[0].(map[string]any)["url"] != url {
						return fmt.Errorf("servers are %s, want %q", js(servers), url)
					}
					return nil
				},
			},
			core.Prop[bool]{
				Name: "refused", Quick: 4, Thorough: 4, Gen: rapid.Bool(),
				Oracle: func(r *core.Run, yaml bool) error {
					dir := tmpDir(r)
					defer rmDir(r, dir)
					name := "openapi.json"
					if yaml {
						name = "openapi.yaml"
					}
					s := quietService(dir)
					if err := openapi.Generate(name)(s); !errors.Is(err, astra.ErrConfigNotFound) {
						return fmt.Errorf("without a configuration Generate returns %v", err)
					}
					s = quietService(dir)
					outputs.WithOpenAPIOutput(name)(s)
					if err := s.Generate(); !errors.Is(err, astra.ErrConfigNotFound) {
						return fmt.Errorf("without a configuration the output returns %v", err)
					}
					if t := tree(dir); len(t) > 0 {
						return fmt.Errorf("a document is written without a configuration: %s", js(core.SortedKeys(t)))
					}
					return nil
				},
			},
		}
	})
}
