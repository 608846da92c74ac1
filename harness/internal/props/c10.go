package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// extraFiles are files a project can have next to its program. A content that
// starts with "->" is a link, a name that ends in a slash a directory.
var extraFiles = map[string]map[string]string{
	"readme":    {"README.md": "# hi\n", "LICENSE": "x"},
	"git":       {".git/config": "[core]\n", ".git/HEAD": "ref: x\n", ".gitignore": "*.tmp\n"},
	"nested":    {"zz/.astra/keep.txt": "mine\n", "zz/.astra/astramain/x.txt": "mine"},
	"astramain": {"astramain/a.go": "package astramain\n\nconst A = 1\n"},
	"tests":     {"main_test.go": "package main\n\nvar zzInner = 1\n", "outer_test.go": "package main_test\n\nvar zzOuter = 1\n"},
	"lock":      {".#main.go": "->nobody@host.1:2"},
	"godir":     {"dir.go/": "", "dir.go/note.txt": "a directory"},
	"linkdir":   {"linked/x.txt": "x", "link.go": "->linked"},
	"skipped":   {"_skip.go": "no go here", ".hidden.go": "package"},
	"ignored":   {"tool.go": "//go:build ignore\n\npackage tool\n\nfunc main() {}\n", "sys_windows.go": "package main\n\nconst zzSys = 1\n"},
	"comment":   {"doc.go": "// Package main is the main package.\npackage main // it is\n"},
	"embed":     {"emb.go": "package main\n\nimport _ \"embed\"\n\n//go:embed data.txt\nvar zzData string\n", "data.txt": "data"},
	"module":    {"zzmod/go.mod": "module example.com/zz\n\ngo 1.21\n", "zzmod/z.go": "package zz\n"},
	"testdata":  {"testdata/bad.go": "package bad; func {"},
	"empty":     {"empty/": "", "empty/deep/": ""},
	"links":     {"ln.txt": "->README.md", "loop": "->loop"},
	"odd":       {"sp ace/ü.txt": "x", "main.go.orig": "package main", "cache.json": "{}", "astra": "not a dir"},
}

// leftovers are what can be in the temporary directory.
var leftovers = map[string]map[string]string{
	"empty":    {".astra/": ""},
	"ignore":   {".astra/.gitignore": "*\n"},
	"halfign":  {".astra/.gitignore": ""},
	"main":     {".astra/.gitignore": "*\n", ".astra/astramain/main.go": "package astramain\n\nfunc broken( {"},
	"mainold":  {".astra/astramain/old.go": "package astramain\n\ntype Old struct{}\n", ".astra/astramain/sub/": ""},
	"mainfile": {".astra/astramain": "a file"},
	"mainlink": {".astra/astramain": "->.."},
	"cache":    {".astra/cache.json": "{\"routes\": [", ".astra/cache.yaml": "a: ["},
	"cacheold": {".astra/cache.json": `{"routes":[{"path":"/old","method":"GET"}],"components":[{"name":"Old","type":"struct"}]}`},
	"azure":    {".astra/azureFunctions/old/function.json": "{", ".astra/azureFunctions/host.json": "{}"},
	"azurefil": {".astra/azureFunctions": "a file"},
	"outdirs":  {".astra/functions/x/function.json": "{", ".astra/out/fn/": "", ".astra/fn": "x"},
	"stray":    {".astra/tmp/x": "y", ".astra/openapi.json": "{}"},
}

func writeFiles(dir string, files map[string]string) {
	for _, k := range core.SortedKeys(files) {
		v, f := files[k], filepath.Join(dir, k)
		for d := filepath.Dir(f); len(d) > len(dir); d = filepath.Dir(d) {
			if st, err := os.Lstat(d); err == nil && !st.IsDir() { // of another leftover
				must(os.Remove(d))
			}
		}
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		switch {
		case strings.HasSuffix(k, "/"):
			if st, err := os.Lstat(filepath.Clean(f)); err == nil && !st.IsDir() {
				must(os.Remove(filepath.Clean(f)))
			}
			must(os.MkdirAll(f, 0o755))
		case strings.HasPrefix(v, "->"):
			if _, err := os.Lstat(f); err != nil {
				must(os.Symlink(v[2:], f))
			}
		default:
			if _, err := os.Lstat(f); err != nil {
				must(os.WriteFile(f, []byte(v), 0o644))
			}
		}
	}
}

// mtimes are the times of the files of a directory.
func mtimes(dir string) map[string]time.Time {
	out := map[string]time.Time{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			out[rel] = info.ModTime()
		}
		return nil
	})
	return out
}

// event is what happens before the next generation.
type event struct {
	K string // die, timer, fault, left, out, ok
	S string
	N int
}

type leftCase struct {
	P      prog.Program
	Outs   []prog.Out
	Extras []string
	Events []event
	Final  string // "", cacheparse
	Where  string // "", workdir, rel: how the project directory is given
	Cache  string
}

func (c leftCase) run(r *core.Run) error {
	p := newProject(r, &c.P)
	return p.verdict(c.check(r, p))
}

func (c leftCase) job(r *core.Run, p *project) (prog.Job, func()) {
	j := p.job(c.Outs)
	done := func() {}
	switch c.Where {
	case "workdir":
		j.WorkDir = p.dir
		j.Dir = tmpDir(r)
		d := j.Dir
		done = func() { rmDir(r, d) }
	case "parent":
		j.WorkDir = filepath.Base(p.dir)
		j.Dir = filepath.Dir(p.dir)
	}
	return j, done
}

// around are the files of the module outside of the main package's directory.
func (p *project) around() map[string]string {
	m := map[string]string{}
	if p.p.Main == "" {
		return m
	}
	root := strings.TrimSuffix(p.dir, "/"+p.p.Main)
	for k, v := range tree(root) {
		if !strings.HasPrefix(k, p.p.Main+"/") {
			m[k] = v
		}
	}
	return m
}

func (c leftCase) check(r *core.Run, p *project) error {
	for _, e := range c.Extras {
		writeFiles(p.dir, extraFiles[e])
	}
	p.mkOutDirs(c.Outs)
	before, times := tree(p.dir), mtimes(p.dir)
	around := p.around()
	clean := func(what string) (map[string]string, error) {
		mine, rest := split(tree(p.dir), c.Outs)
		for k := range mine { // not there before
			if v, ok := before[k]; ok && v != "" {
				core.Infraf("the output %s is a file of the project", k)
			}
		}
		if d := treeDiff(before, rest); d != "" {
			return nil, fmt.Errorf("%s changes the project: %s", what, d)
		}
		if d := treeDiff(around, p.around()); d != "" {
			return nil, fmt.Errorf("%s changes the module around the project: %s", what, d)
		}
		now := mtimes(p.dir)
		for k, t := range times {
			if !now[k].Equal(t) {
				return nil, fmt.Errorf("%s writes %s", what, k)
			}
		}
		return mine, complete(mine, c.Outs)
	}
	j, done := c.job(r, p)
	defer done()
	if err := runJobs(r, j); err != nil {
		return fmt.Errorf("a generation in a clean directory: %w", err)
	}
	want, err := clean("a generation in a clean directory")
	if err != nil {
		return err
	}
	if c.Where != "" && c.Where != "parent" {
		if t := tree(j.Dir); len(t) > 0 {
			return fmt.Errorf("a generation for another directory leaves %v in the current one", core.SortedKeys(t))
		}
	}

	dirty := false
	for _, e := range c.Events {
		dirty = dirty || e.K != "ok"
		switch e.K {
		case "left":
			writeFiles(p.dir, leftovers[e.S])
		case "die":
			d := j
			d.DieAt = e.S
			if _, err := env(r).RunJobs(prog.Timeout, d); err == nil || err == prog.ErrTimeout {
				core.Infraf("the process did not die at %s: %v", e.S, err)
			}
		case "timer":
			_, _ = env(r).RunJobs(time.Duration(e.N)*time.Millisecond, j)
		case "ok":
			if err := runJobs(r, j); err != nil {
				return fmt.Errorf("another generation: %w", err)
			}
		case "cached":
			d := j
			d.Mode = "cacheparse"
			if err := runJobs(r, d); err != nil {
				return fmt.Errorf("a cached generation: %w", err)
			}
		case "setup":
			d := j
			d.Mode = "setup"
			if err := runJobs(r, d); err != nil {
				return fmt.Errorf("a setup: %w", err)
			}
		case "fault": // an output cannot be written
			o := c.Outs[e.N%len(c.Outs)]
			if o.Mode == "azure" {
				continue
			}
			f := filepath.Join(p.dir, outFile(o))
			must(os.RemoveAll(f))
			must(os.MkdirAll(filepath.Join(f, "full"), 0o755))
			rs, err := env(r).RunJobs(prog.Timeout, j)
			if err != nil || rs[0].Panic != "" {
				return fmt.Errorf("a generation whose output %s is a directory crashes: %v %v", outFile(o), err, rs)
			}
			if rs[0].Err == "" {
				return fmt.Errorf("a generation whose output %s is a directory succeeds", outFile(o))
			}
			must(os.RemoveAll(f))
		case "partial": // an output was not written to its end, or is longer
			o := c.Outs[e.N%len(c.Outs)]
			f := filepath.Join(p.dir, outFile(o))
			if o.Mode == "azure" {
				f = filepath.Join(f, "leftover", "function.json")
				must(os.MkdirAll(filepath.Dir(f), 0o755))
			}
			must(os.WriteFile(f, []byte(strings.Repeat("{\"x\": ", 1+e.N*400)), 0o644))
		}
	}
	if len(c.Events) == 0 {
		return nil
	}
	final := j
	final.Mode = c.Final
	if c.Final == "cacheparse" && c.Cache != "" {
		final.CachePath = filepath.Join(p.dir, c.Cache)
	}
	if err := runJobs(r, final); err != nil {
		return fmt.Errorf("the generation after %v: %w", c.Events, err)
	}
	what := fmt.Sprintf("the generation after %v", c.Events)
	if c.Final == "cacheparse" {
		if err := c.cached(p, before, dirty); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
	}
	got, err := clean(what)
	if err != nil {
		return err
	}
	if d := treeDiff(want, got); d != "" {
		return fmt.Errorf("%s has other outputs than the first one: %s", what, d)
	}
	return nil
}

// cached checks the temporary directory of a cached generation, and removes it.
func (c leftCase) cached(p *project, before map[string]string, dirty bool) error {
	left := tree(filepath.Join(p.dir, ".astra"))
	cache := "cache.json"
	if c.Cache != "" {
		b, err := os.ReadFile(filepath.Join(p.dir, c.Cache))
		if err != nil || len(b) == 0 {
			return fmt.Errorf("there is no cache %s", c.Cache)
		}
		must(os.Remove(filepath.Join(p.dir, c.Cache)))
		cache = ""
	} else if left[cache] == "" {
		return fmt.Errorf("there is no cache in the temporary directory, but %v", core.SortedKeys(left))
	}
	for k := range left {
		switch {
		case k == ".gitignore" || k == cache:
		case strings.HasPrefix(k, "astramain"):
			return fmt.Errorf("%s is left in the temporary directory", k)
		case !dirty:
			return fmt.Errorf("%s is left in the temporary directory", k)
		}
	}
	if _, ok := left[".gitignore"]; !ok {
		return fmt.Errorf("there is no ignore file in the temporary directory")
	}
	must(os.RemoveAll(filepath.Join(p.dir, ".astra")))
	return nil
}

// outFile is the file or directory of an output.
func outFile(o prog.Out) string {
	for p := range outPaths([]prog.Out{o}) {
		return strings.TrimSuffix(p, "/")
	}
	return ""
}

func drawEvent(t *rapid.T, outs int) event {
	switch rapid.IntRange(0, 9).Draw(t, "event") {
	case 0, 1, 2:
		return event{K: "left", S: rapid.SampledFrom(core.SortedKeys(leftovers)).Draw(t, "left")}
	case 3, 4:
		return event{K: "die", S: rapid.SampledFrom([]string{"create", "parse", "0", "1", strconv.Itoa(outs)}).Draw(t, "at")}
	case 5:
		return event{K: "timer", N: rapid.SampledFrom([]int{5, 20, 40, 60, 80, 100, 130, 170, 220, 300}).Draw(t, "ms")}
	case 6:
		return event{K: "fault", N: rapid.IntRange(0, 3).Draw(t, "n")}
	case 7:
		return event{K: "partial", N: rapid.IntRange(0, 3).Draw(t, "n")}
	default:
		return event{K: rapid.SampledFrom([]string{"ok", "cached", "setup"}).Draw(t, "more")}
	}
}

func init() {
	register("C10", func(r *core.Run) []core.Sub {
		r.Rule = "Programs in directories with up to 4 of 17 kinds of other files (links, directories named like sources, ignored sources, tests, embedded files, other modules), up to 4 outputs, given as the current directory or by the option; then up to 4 events: the process killed before and after every stage and output or at a random time, an output that cannot be written or was written in part, cached and CLI setups, 13 kinds of leftovers in the temporary directory; then a last generation, direct or cached. Non-trivial: two routes and two types, and an event or two extras."
		r.Assume = []string{stubAssume, "the temporary directory is not a link and holds nothing of the user's"}
		return []core.Sub{core.ParProp[leftCase]{
			Name: "tree", Quick: 300, Thorough: 5000,
			Gen: rapid.Custom(func(t *rapid.T) leftCase {
				c := leftCase{P: genAll.Draw().Draw(t, "p"), Outs: genOuts.Draw(t, "outs"),
					Extras: rapid.SliceOfNDistinct(rapid.SampledFrom(core.SortedKeys(extraFiles)), 0, 4, rapid.ID[string]).Draw(t, "extras"),
					Final:  rapid.SampledFrom([]string{"", "", "", "cacheparse"}).Draw(t, "final"),
					Where:  rapid.SampledFrom([]string{"", "", "", "workdir", "parent"}).Draw(t, "where")}
				for n := rapid.IntRange(0, 4).Draw(t, "events"); n > 0; n-- {
					c.Events = append(c.Events, drawEvent(t, len(c.Outs)))
				}
				if c.Final == "cacheparse" {
					c.Cache = rapid.SampledFrom([]string{"", "", "state.yaml"}).Draw(t, "cache")
				}
				return c
			}),
			NonTrivial: func(c leftCase) bool { return twoRoutes(c.P) && (len(c.Events) > 0 || len(c.Extras) > 1) },
			Classify: func(c leftCase) []string {
				out := []string{"final:" + c.Final, "where:" + c.Where}
				for _, e := range c.Events {
					out = append(out, "event:"+e.K+" "+e.S)
				}
				for _, e := range c.Extras {
					out = append(out, "extra:"+e)
				}
				return out
			},
			Shrink: func(c leftCase, fails func(leftCase) bool) leftCase {
				for i := len(c.Events) - 1; i >= 0; i-- {
					d := c
					d.Events = append(append([]event{}, c.Events[:i]...), c.Events[i+1:]...)
					if fails(d) {
						c = d
					}
				}
				for i := len(c.Extras) - 1; i >= 0; i-- {
					d := c
					d.Extras = append(append([]string{}, c.Extras[:i]...), c.Extras[i+1:]...)
					if fails(d) {
						c = d
					}
				}
				for i := len(c.Outs) - 1; i >= 0 && len(c.Outs) > 1; i-- {
					d := c
					d.Outs = append(append([]prog.Out{}, c.Outs[:i]...), c.Outs[i+1:]...)
					if fails(d) {
						c = d
					}
				}
				for _, e := range []func(*leftCase){func(c *leftCase) { c.Final = "" }, func(c *leftCase) { c.Where = "" }} {
					d := c
					e(&d)
					if fails(d) {
						c = d
					}
				}
				c.P = prog.Shrink(c.P, func(p prog.Program) bool { d := c; d.P = p; return fails(d) })
				return c
			},
			Oracle: func(r *core.Run, c leftCase) error { return c.run(r) },
		}}
	})
}
