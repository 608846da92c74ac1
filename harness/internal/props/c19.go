package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
)

// pipe is a pipeline run: what is registered, which call is made and what fails.
type pipe struct {
	Inputs  []pipeIn
	Outputs []pipeOut
	API     string // parse, setup, complete, both, stages
	Cache   string // "" json yaml default
	Fault   string // of the environment
	Config  bool
	Clean   bool // the input adds a component of the main package
}

type pipeIn struct{ CreateErr, ParseErr, Sabotage string }

type pipeOut struct {
	Kind     string // fake openapi json azure
	Err      string
	Sabotage string
	Path     string
}

var pipeFaults = []string{"", "", "", "", "astra is a file", "cache dir missing", "cache is a directory", "workdir missing"}

var genPipe = rapid.Custom(func(t *rapid.T) pipe {
	someErr := func(l string, of int) string {
		if rapid.IntRange(0, of-1).Draw(t, l+"?") == 0 {
			return rapid.SampledFrom([]string{"boom", "no such route", "x"}).Draw(t, l)
		}
		return ""
	}
	sab := func(l string) string {
		if rapid.IntRange(0, 7).Draw(t, l+"?") == 0 {
			return "cache"
		}
		return ""
	}
	p := pipe{
		API:    rapid.SampledFrom([]string{"parse", "parse", "both", "stages", "setup", "complete"}).Draw(t, "api"),
		Cache:  rapid.SampledFrom([]string{"", "json", "yaml", "default"}).Draw(t, "cache"),
		Fault:  rapid.SampledFrom(pipeFaults).Draw(t, "fault"),
		Config: rapid.IntRange(0, 3).Draw(t, "config") > 0,
		Clean:  rapid.Bool().Draw(t, "clean"),
	}
	of := rapid.SampledFrom([]int{4, 8, 100}).Draw(t, "errors")
	for i := rapid.IntRange(0, 3).Draw(t, "inputs"); i > 0; i-- {
		p.Inputs = append(p.Inputs, pipeIn{someErr("create", of), someErr("parse", of), sab("insab")})
	}
	for i := rapid.IntRange(0, 4).Draw(t, "outputs"); i > 0; i-- {
		o := pipeOut{Kind: rapid.SampledFrom([]string{"fake", "fake", "fake", "openapi", "json", "azure"}).Draw(t, "kind")}
		if o.Kind == "fake" {
			o.Err, o.Sabotage = someErr("gen", of), sab("outsab")
		} else {
			o.Path = rapid.SampledFrom([]string{"good", "good", "good", "missing/dir", "isdir"}).Draw(t, "path") + map[string]string{"openapi": ".json", "json": ".json"}[o.Kind]
		}
		p.Outputs = append(p.Outputs, o)
	}
	return p
})

type stageErr struct{ s string }

func (e *stageErr) Error() string { return e.s }

// run runs the pipeline against the real service and the model at once.
func (p pipe) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	work := filepath.Join(dir, "w")
	must(os.MkdirAll(work, 0o755))
	must(os.WriteFile(filepath.Join(work, "go.mod"), []byte("module example.com/pipe\n\ngo 1.21\n"), 0o644))
	must(os.WriteFile(filepath.Join(work, "main.go"), []byte("package main\n\nfunc main() {}\n"), 0o644))
	s := quietService(work)
	if p.Fault == "workdir missing" {
		must(os.RemoveAll(work))
		must(os.WriteFile(work, nil, 0o644)) // and it cannot be made
	}
	if p.Fault == "astra is a file" {
		must(os.WriteFile(filepath.Join(work, ".astra"), nil, 0o644))
	}
	if p.Config {
		s.SetConfig(&astra.Config{Title: "T", Port: 1})
	}
	cacheDir := filepath.Join(dir, "cache")
	s.CacheEnabled = p.Cache != ""
	cachePath := filepath.Join(work, ".astra", "cache.json")
	if p.Cache == "json" || p.Cache == "yaml" {
		s.CachePath = filepath.Join(cacheDir, "c."+p.Cache)
		cachePath = s.CachePath
	}
	cacheBroken := false
	switch {
	case p.Fault == "cache dir missing" && (p.Cache == "json" || p.Cache == "yaml"):
		cacheBroken = true
	default:
		must(os.MkdirAll(cacheDir, 0o755))
	}
	_ = cachePath
	// sabotage makes the next caching fail
	sabotage := func() {
		if p.Cache == "json" || p.Cache == "yaml" {
			must(os.RemoveAll(cacheDir))
			must(os.WriteFile(cacheDir, nil, 0o644))
		}
	}
	var log []string
	injected := map[string]error{}
	fn := func(name, msg, sab string, extra func(*astra.Service)) astra.ServiceFunction {
		err := &stageErr{msg + " of " + name}
		injected[name] = err
		return func(got *astra.Service) error {
			log = append(log, name)
			if got != s {
				log = append(log, "another service")
			}
			if sab != "" {
				sabotage()
			}
			if extra != nil {
				extra(got)
			}
			if msg != "" {
				return err
			}
			return nil
		}
	}
	for i, in := range p.Inputs {
		i := i
		astra.Option(func(s *astra.Service) {
			s.Inputs = append(s.Inputs, astra.Input{Mode: astra.InputMode(fmt.Sprintf("in%d", i)),
				CreateRoutes: fn(fmt.Sprintf("create%d", i), in.CreateErr, in.Sabotage, nil),
				ParseRoutes: fn(fmt.Sprintf("parse%d", i), in.ParseErr, "", func(s *astra.Service) {
					if p.Clean && i == 0 {
						if pkg, err := s.GetMainPackageName(); err == nil {
							s.Components = append(s.Components, astra.Field{Name: "M", Package: pkg, Type: "struct"})
						}
					}
				})})
		})(s)
	}
	for i, o := range p.Outputs {
		name := fmt.Sprintf("gen%d", i)
		switch o.Kind {
		case "fake":
			s.Outputs = append(s.Outputs, astra.Output{Mode: astra.OutputMode(name), Generate: fn(name, o.Err, o.Sabotage, func(s *astra.Service) {
				for _, c := range s.Components {
					if c.Name == "M" && c.Package != "main" {
						log = append(log, "not clean: "+c.Package)
					}
				}
			})})
		case "openapi":
			outputs.WithOpenAPIOutput(o.Path)(s)
		case "json":
			outputs.WithJSONOutput(o.Path)(s)
		case "azure":
			outputs.WithAzureFunctionsOutput(o.Path)(s)
		}
	}
	if p.Fault == "" {
		for _, o := range p.Outputs {
			if strings.HasPrefix(o.Path, "isdir") && o.Kind != "azure" {
				must(os.MkdirAll(filepath.Join(work, o.Path), 0o755))
			}
		}
	}

	// the model
	var want []string
	var wantErr error // an injected error, or errAny
	errAny := errors.New("some error")
	failed := false
	fail := func(err error) { failed, wantErr = true, err }
	cached := func() {
		if !failed && s.CacheEnabled && cacheBroken {
			fail(errAny)
		}
	}
	setup := func() {
		if p.Fault == "workdir missing" || p.Fault == "astra is a file" {
			fail(errAny)
			return
		}
		cached()
	}
	stage := func(name, msg, sab string) {
		if failed {
			return
		}
		want = append(want, name)
		if sab != "" && (p.Cache == "json" || p.Cache == "yaml") {
			cacheBroken = true
		}
		if msg != "" {
			fail(injected[name])
		}
	}
	create := func() {
		for i, in := range p.Inputs {
			stage(fmt.Sprintf("create%d", i), in.CreateErr, in.Sabotage)
		}
		cached()
	}
	parse := func() {
		for i, in := range p.Inputs {
			stage(fmt.Sprintf("parse%d", i), in.ParseErr, "")
		}
		cached()
	}
	clean := func() {
		if failed {
			return
		}
		if p.Fault == "workdir missing" || p.Fault == "astra is a file" {
			fail(errAny)
		}
		cached()
	}
	generate := func() {
		for i, o := range p.Outputs {
			if failed {
				return
			}
			bad := p.Fault == "workdir missing" || p.Fault == "astra is a file" && o.Kind == "azure"
			switch o.Kind {
			case "fake":
				stage(fmt.Sprintf("gen%d", i), o.Err, o.Sabotage)
			case "openapi":
				if !p.Config {
					fail(astra.ErrConfigNotFound)
				} else if bad || strings.HasPrefix(o.Path, "missing") || strings.HasPrefix(o.Path, "isdir") && p.Fault == "" {
					fail(errAny)
				}
			case "json":
				if bad || strings.HasPrefix(o.Path, "missing") || strings.HasPrefix(o.Path, "isdir") && p.Fault == "" {
					fail(errAny)
				}
			case "azure":
				if bad || strings.HasPrefix(o.Path, "missing") {
					fail(errAny)
				}
			}
		}
		cached()
	}
	type call struct {
		name  string
		real  func() error
		model func()
	}
	guard := func(f ...func()) func() {
		return func() {
			if len(p.Inputs) == 0 || len(p.Outputs) == 0 {
				fail(errAny)
				return
			}
			for _, g := range f {
				if !failed {
					g()
				}
			}
		}
	}
	var calls []call
	switch p.API {
	case "parse":
		calls = []call{{"Parse", s.Parse, guard(setup, create, parse, clean, generate)}}
	case "setup":
		calls = []call{{"SetupParse", s.SetupParse, guard(setup, create)}}
	case "both":
		calls = []call{{"SetupParse", s.SetupParse, guard(setup, create)}, {"CompleteParse", s.CompleteParse, guard(parse, clean, generate)}}
	case "complete":
		if p.Fault == "" {
			// the main package is copied into the temporary directory, which Setup makes
			must(os.MkdirAll(filepath.Join(work, ".astra"), 0o755))
		}
		calls = []call{{"CompleteParse", s.CompleteParse, guard(parse, clean, generate)}}
		if p.Fault != "" {
			return nil
		}
	default:
		calls = []call{{"Setup", s.Setup, setup}, {"CreateRoutes", s.CreateRoutes, create}, {"ParseRoutes", s.ParseRoutes, parse}, {"Clean", s.Clean, clean}, {"Generate", s.Generate, generate}}
	}
	if p.Fault == "cache is a directory" && (p.Cache == "json" || p.Cache == "yaml") {
		must(os.MkdirAll(s.CachePath, 0o755)) // is replaced
	}
	for _, c := range calls {
		log, want = nil, nil
		c.model()
		err := c.real()
		switch {
		case !failed && err != nil:
			return fmt.Errorf("%s fails with %v though no stage does", c.name, err)
		case failed && err == nil:
			return fmt.Errorf("%s returns no error, but %v is due; stages run: %v", c.name, wantErr, log)
		case failed && wantErr != errAny && !errors.Is(err, wantErr):
			return fmt.Errorf("%s returns %v instead of %v", c.name, err, wantErr)
		}
		if strings.Join(log, " ") != strings.Join(want, " ") {
			return fmt.Errorf("%s runs the stages %v, want %v", c.name, log, want)
		}
		if failed {
			return nil
		}
	}
	if p.Fault == "" {
		for _, o := range p.Outputs {
			if o.Kind != "fake" && p.API != "setup" {
				if _, err := os.Stat(filepath.Join(work, o.Path)); err != nil {
					return fmt.Errorf("no error, but no output: %v", err)
				}
			}
		}
	}
	return nil
}

func must(err error) {
	if err != nil {
		core.Infraf("%v", err)
	}
}

// brokenCache is a cache file that is damaged.
type brokenCache struct {
	Ext    string
	State  svcState
	Prior  svcState
	Damage string
	At     int
	Via    string // path or field
}

func init() {
	register("C19", func(r *core.Run) []core.Sub {
		r.Rule = "Pipelines of up to 3 inputs and 4 outputs (fakes that log, and the real OpenAPI, JSON and Azure outputs), run by Parse, SetupParse and CompleteParse or stage by stage, with injected stage errors, missing configuration, unwritable outputs, unusable work and cache paths, and a cache that breaks between two stages; caches that are truncated, damaged, missing or of an unknown format. Non-trivial: at least one input and one output and a fault, or a cache that does not load."
		r.Assume = []string{"failing system calls are produced by files in the place of directories and missing directories, as root ignores permissions; the removal of the temporary directory at the end is not made to fail"}
		return []core.Sub{
			core.Prop[pipe]{
				Name: "pipeline", Quick: 6000, Thorough: 120000, Gen: genPipe,
				NonTrivial: func(p pipe) bool {
					bad := p.Fault != ""
					for _, i := range p.Inputs {
						bad = bad || i != pipeIn{}
					}
					for _, o := range p.Outputs {
						bad = bad || o.Err != "" || o.Sabotage != "" || o.Path != "" && !strings.HasPrefix(o.Path, "good")
					}
					return len(p.Inputs) > 0 && len(p.Outputs) > 0 && bad
				},
				Classify: func(p pipe) []string {
					return []string{"api:" + p.API, "cache:" + p.Cache, "fault:" + p.Fault, fmt.Sprintf("inputs:%d", len(p.Inputs)), fmt.Sprintf("outputs:%d", len(p.Outputs))}
				},
				Oracle: func(r *core.Run, p pipe) error { return p.run(r) },
			},
			core.Prop[brokenCache]{
				Name: "cache", Quick: 3000, Thorough: 60000,
				Gen: rapid.Custom(func(t *rapid.T) brokenCache {
					return brokenCache{
						Ext:    rapid.SampledFrom([]string{".json", ".json", ".yaml", ".yml", ".txt", ""}).Draw(t, "ext"),
						State:  genState.Draw(t, "state"),
						Prior:  genState.Draw(t, "prior"),
						Damage: rapid.SampledFrom([]string{"truncate", "byte", "type", "missing", "empty", "none", "directory"}).Draw(t, "damage"),
						At:     rapid.IntRange(0, 1<<20).Draw(t, "at"),
						Via:    rapid.SampledFrom([]string{"path", "field"}).Draw(t, "via"),
					}
				}),
				NonTrivial: func(c brokenCache) bool { return c.Damage != "none" },
				Classify:   func(c brokenCache) []string { return []string{"damage:" + c.Damage, "ext:" + c.Ext} },
				Oracle:     func(r *core.Run, c brokenCache) error { return c.run(r) },
			},
		}
	})
}

func (c brokenCache) run(r *core.Run) error {
	dir := tmpDir(r)
	defer rmDir(r, dir)
	file := filepath.Join(dir, "cache"+c.Ext)
	src := c.State.service(dir)
	src.CachePath = file
	if err := src.Cache(); err != nil {
		return fmt.Errorf("caching fails: %v", err)
	}
	raw, err := os.ReadFile(file)
	must(err)
	mustFail := c.Ext == ".txt" || c.Ext == ""
	trimmed := strings.TrimSpace(string(raw))
	switch c.Damage {
	case "truncate":
		raw = raw[:c.At%max(1, len(trimmed))]
		mustFail = mustFail || c.Ext == ".json"
	case "byte":
		if len(raw) > 0 {
			raw[c.At%len(raw)] = byte(c.At >> 8)
		}
	case "empty":
		raw = nil
		mustFail = true
	case "type":
		// a list where an object is due, or a text where a list is due
		var v map[string]any
		dec := json.Unmarshal
		enc := json.Marshal
		if strings.HasPrefix(c.Ext, ".y") {
			dec, enc = yaml.Unmarshal, yaml.Marshal
		}
		if dec(raw, &v) != nil {
			return nil
		}
		switch c.At % 4 {
		case 0:
			v["config"] = []any{1}
		case 1:
			v["routes"] = "x"
		case 2:
			v["components"] = map[string]any{"a": 1}
		case 3:
			v["inputs"] = []any{map[string]any{"mode": []any{}}}
		}
		raw, err = enc(v)
		must(err)
		mustFail = true
	case "missing":
		mustFail = true
	case "directory":
		mustFail = true
	}
	must(os.RemoveAll(file))
	switch c.Damage {
	case "missing":
	case "directory":
		must(os.MkdirAll(file, 0o755))
	default:
		must(os.WriteFile(file, raw, 0o644))
	}
	prior := c.Prior.service(dir)
	before := snapshot(prior)
	if c.Via == "path" {
		err = prior.LoadCacheFromCustomPath(file)
	} else {
		prior.CachePath = file
		err = prior.LoadCache()
	}
	if err == nil && mustFail {
		return fmt.Errorf("a cache with the damage %q loads without an error", c.Damage)
	}
	if err != nil && c.Damage == "none" && !mustFail {
		return fmt.Errorf("an intact cache does not load: %v", err)
	}
	if err != nil {
		if after := snapshot(prior); after != before {
			return fmt.Errorf("a cache that does not load (%v) changes the service:\nfrom %s\nto   %s", err, clip(before), clip(after))
		}
	}
	return nil
}
