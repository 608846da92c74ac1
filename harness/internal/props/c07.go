package props

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	astraJSON "github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

type cacheCase struct {
	State svcState
	File  string // default: the path in the working directory
	Over  string // what is at the path before
	Via   string
	Prior *svcState // the service that is loaded into, if not a new one
}

// generated is what every output writes for a service.
func generated(r *core.Run, s *astra.Service) map[string]string {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	must(os.MkdirAll(filepath.Join(dir, ".astra"), 0o755))
	keep := s.WorkDir
	s.WorkDir = dir
	defer func() { s.WorkDir = keep }()
	out := map[string]string{}
	for _, g := range []struct {
		name string
		f    astra.ServiceFunction
	}{{"openapi.json", openapi.Generate("openapi.json")}, {"openapi.yaml", openapi.Generate("openapi.yaml")}, {"json", astraJSON.Generate("out")}, {"azure", azureFunctions.Generate("azure")}} {
		err := core.Safe(func() error { return g.f(s) })
		if err != nil {
			out["error of "+g.name] = err.Error()
		}
	}
	for k, v := range tree(dir) {
		out[k] = v
	}
	return out
}

func init() {
	register("C07", func(r *core.Run) []core.Sub {
		r.Rule = "Services with random configuration, inputs, outputs, up to 3 routes with every kind of parameter, body and response, up to 4 components (nested structs, collections, tags of every encoding, enum values of every type and size), type mappings; cached as JSON and YAML at any path, over what is there, and loaded into new or used services. Non-trivial: a route or component and a configuration."
		r.Assume = []string{"an empty and a missing list or map are the same; text that the YAML library itself does not keep is not used; cache paths end in .json, .yaml or .yml, the formats that can be loaded"}
		return []core.Sub{
			core.Prop[cacheCase]{
				Name: "roundtrip", Quick: 5000, Thorough: 100000,
				Gen: rapid.Custom(func(t *rapid.T) cacheCase {
					c := cacheCase{
						State: genState.Draw(t, "state"),
						File:  rapid.SampledFrom([]string{"default", "c.json", "c.yaml", "c.yml", "sub dir/cäche.yaml", "a.b/c.json", ".yaml", ".json", "yaml.json", "json.yml"}).Draw(t, "file"),
						Over:  rapid.SampledFrom([]string{"", "", "old", "longer", "dir"}).Draw(t, "over"),
						Via:   rapid.SampledFrom([]string{"path", "field"}).Draw(t, "via"),
					}
					if rapid.IntRange(0, 3).Draw(t, "prior?") == 0 {
						p := genState.Draw(t, "prior")
						c.Prior = &p
					}
					return c
				}),
				NonTrivial: func(c cacheCase) bool {
					return len(c.State.Routes)+len(c.State.Components) > 0 && c.State.Config != nil
				},
				Classify: func(c cacheCase) []string { return []string{"file:" + c.File, "over:" + c.Over} },
				Oracle:   func(r *core.Run, c cacheCase) error { return c.run(r) },
			},
		}
	})
}

func (c cacheCase) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	s := c.State.service(dir)
	file := filepath.Join(dir, ".astra", "cache.json")
	if c.File != "default" {
		file = filepath.Join(dir, c.File)
		s.CachePath = file
	}
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	switch c.Over {
	case "old":
		must(os.WriteFile(file, []byte("{}"), 0o644))
	case "longer":
		must(os.WriteFile(file, make([]byte, 100000), 0o644))
	case "dir":
		must(os.MkdirAll(filepath.Join(file, "x"), 0o755))
	}
	before := snapshot(s)
	if err := s.Cache(); err != nil {
		return fmt.Errorf("Cache fails: %v", err)
	}
	if after := snapshot(s); after != before {
		return fmt.Errorf("Cache changes the service from %s to %s", clip(before), clip(after))
	}
	load := quietService(dir)
	if c.Prior != nil {
		load = c.Prior.service(dir)
		load.GetTypeMapping("x", "y") // the mapping is in use already
	}
	var err error
	if c.Via == "path" {
		err = load.LoadCacheFromCustomPath(file)
	} else {
		load.CachePath = s.CachePath
		err = load.LoadCache()
	}
	if err != nil {
		return fmt.Errorf("the cache does not load: %v", err)
	}
	if got := snapshot(load); got != before {
		return fmt.Errorf("the restored service differs: %s", lineDiff(before, got))
	}
	a, b := generated(r, s), generated(r, load)
	if d := treeDiff(a, b); d != "" {
		return fmt.Errorf("the outputs of the restored service differ: %s", d)
	}
	return nil
}

// lineDiff shows where two snapshots part.
func lineDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-80)
	return fmt.Sprintf("want ...%s\n got ...%s", clip(a[from:]), clip(b[from:]))
}
