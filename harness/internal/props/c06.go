package props

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/ls6-events/astra"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

type cliCase struct {
	P      prog.Program
	Config *astra.Config
	Outs   []prog.Out
	Deny   []prog.Deny
	Cache  string // relative to the project; "": the default
	How    string // where the command runs and how the paths are given
	Again  int    // more generations from the same cache
	Single bool
	Edit   string // what happens between setup and generation
}

func (c cliCase) run(r *core.Run) error {
	p := newProject(r, &c.P)
	return p.verdict(c.check(r, p))
}

func (c cliCase) check(r *core.Run, p *project) error {
	p.mkOutDirs(c.Outs)
	job := p.job(c.Outs)
	job.Config, job.Deny, job.Single = c.Config, c.Deny, c.Single
	if err := runJobs(r, job); err != nil {
		return fmt.Errorf("direct generation: %w", err)
	}
	want, rest := split(tree(p.dir), c.Outs)
	if err := complete(want, c.Outs); err != nil {
		return fmt.Errorf("direct generation: %w", err)
	}
	p.removeOutputs(c.Outs)

	job.Mode = "setup"
	cache := ".astra/cache.json"
	if c.Cache != "" {
		cache = c.Cache
		job.CachePath = filepath.Join(p.dir, cache)
		must(os.MkdirAll(filepath.Dir(job.CachePath), 0o755))
	}
	if err := runJobs(r, job); err != nil {
		return fmt.Errorf("setup: %w", err)
	}
	mine, _ := split(tree(p.dir), c.Outs)
	if len(mine) > 0 {
		return fmt.Errorf("setup writes %v", core.SortedKeys(mine))
	}
	if _, err := os.Stat(filepath.Join(p.dir, cache)); err != nil {
		return fmt.Errorf("setup writes no cache %s", cache)
	}
	cacheFile := filepath.Join(p.dir, cache)
	cwd, args := p.dir, []string{"generate"}
	switch c.How {
	case "default":
		if c.Cache != "" {
			args = append(args, "-c", c.Cache)
		}
	case "absolute":
		cwd = tmpDir(r)
		defer rmDir(r, cwd)
		args = append(args, "-c", cacheFile, "-d", p.dir)
	case "relative":
		cwd = filepath.Dir(p.dir)
		b := filepath.Base(p.dir)
		args = append(args, "--dir", b, "--cache", filepath.Join(b, cache))
	case "inside":
		cwd = filepath.Join(p.dir, "sub", "deep")
		must(os.MkdirAll(cwd, 0o755))
		args = append(args, "-d", "../..", "-c", filepath.Join("../..", cache))
	case "moved": // the cache is somewhere else by then
		cwd = tmpDir(r)
		defer rmDir(r, cwd)
		moved := filepath.Join(cwd, "moved"+filepath.Ext(cache))
		must(os.Rename(cacheFile, moved))
		args = append(args, "-c", filepath.Base(moved), "-d", p.dir)
	}
	for n := 0; n <= c.Again; n++ {
		if err := runCLI(r, cwd, args...); err != nil {
			return fmt.Errorf("astra generate (run %d, %s) fails: %w", n+1, c.How, err)
		}
		got, restNow := split(tree(p.dir), c.Outs)
		if d := treeDiff(want, got); d != "" {
			return fmt.Errorf("astra generate (run %d, %s) differs from direct generation: %s", n+1, c.How, d)
		}
		for k, v := range rest {
			if restNow[k] != v {
				return fmt.Errorf("astra generate changes %s", k)
			}
		}
	}
	return nil
}

func init() {
	register("C06", func(r *core.Run) []core.Sub {
		r.Rule = "Programs of all kinds with a random configuration, up to 4 outputs of 9 forms, deny lists, custom type mappings; set up with the cache at the default or another path, in JSON or YAML, then generated up to 3 times by the astra command from 5 kinds of working directories. Non-trivial: two routes, two types, and a mapping, deny list or second output."
		r.Assume = []string{stubAssume, "the setup runs as the documentation has it (WithCLI and SetupParse)"}
		gen := genAll
		gen.Maps = true
		return []core.Sub{core.ParProp[cliCase]{
			Name: "cli", Quick: 260, Thorough: 4500,
			Gen: rapid.Custom(func(t *rapid.T) cliCase {
				c := cliCase{P: gen.Draw().Draw(t, "p"), Config: genCfg.Draw(t, "cfg"), Outs: genOuts.Draw(t, "outs"),
					Cache: rapid.SampledFrom([]string{"", "", "", "cache.yaml", "tmp/my cache.yml", "x/y.json"}).Draw(t, "cache"),
					How:   rapid.SampledFrom([]string{"default", "absolute", "relative", "inside", "moved"}).Draw(t, "how"),
					Again: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "again"), Single: rapid.Bool().Draw(t, "single")}
				c.Deny = drawDeny(t, c.P)
				return c
			}),
			NonTrivial: func(c cliCase) bool {
				return twoRoutes(c.P) && (len(c.P.Maps) > 0 || len(c.Deny) > 0 || len(c.Outs) > 1)
			},
			Classify: func(c cliCase) []string {
				out := []string{"how:" + c.How, "cache:" + c.Cache, fmt.Sprintf("deny:%d", len(c.Deny))}
				for _, o := range c.Outs {
					out = append(out, "out:"+o.Mode+" "+filepath.Ext(o.Path))
				}
				return out
			},
			Shrink: func(c cliCase, fails func(cliCase) bool) cliCase {
				for _, e := range []func(*cliCase){func(c *cliCase) { c.Config = prog.DefaultConfig() }, func(c *cliCase) { c.Deny = nil }, func(c *cliCase) { c.Again = 0 },
					func(c *cliCase) { c.Outs = c.Outs[:1] }, func(c *cliCase) { c.Outs = c.Outs[len(c.Outs)-1:] }, func(c *cliCase) { c.Cache = "" }, func(c *cliCase) { c.How = "default" }, func(c *cliCase) { c.Single = false }} {
					d := c
					e(&d)
					if fails(d) {
						c = d
					}
				}
				c.P = prog.Shrink(c.P, func(p prog.Program) bool { d := c; d.P = p; return fails(d) })
				return c
			},
			Oracle: func(r *core.Run, c cliCase) error { return c.run(r) },
		}}
	})
}

// drawDeny draws a deny list with entries for paths of the program and others.
func drawDeny(t *rapid.T, p prog.Program) []prog.Deny {
	var out []prog.Deny
	for n := rapid.IntRange(0, 2).Draw(t, "denies"); n > 0; n-- {
		path := rapid.SampledFrom(p.Routes).Draw(t, "denied").Path
		switch rapid.IntRange(0, 3).Draw(t, "dk") {
		case 0:
			out = append(out, prog.Deny{Kind: "exact", Text: path})
		case 1:
			out = append(out, prog.Deny{Kind: "regex", Text: "^" + path[:3] + "($|/)"})
		case 2:
			out = append(out, prog.Deny{Kind: "prefix", Text: path})
		default:
			out = append(out, prog.Deny{Kind: "exact", Text: "/none"})
		}
	}
	return out
}
