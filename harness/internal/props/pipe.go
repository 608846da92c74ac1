package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ls6-events/astra"
	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// runJobs runs jobs in one process and reports the first that fails.
func runJobs(r *core.Run, jobs ...prog.Job) error {
	rs, err := env(r).RunJobs(prog.Timeout, jobs...)
	if err != nil {
		return err
	}
	for i, res := range rs {
		if res.Panic != "" {
			return fmt.Errorf("run %d panicked: %s", i+1, res.Panic)
		}
		if res.Err != "" {
			return fmt.Errorf("run %d failed: %s", i+1, res.Err)
		}
	}
	return nil
}

// project is a program written to a directory of its own.
type project struct {
	r   *core.Run
	p   *prog.Program
	dir string
	rd  *prog.Rendered
}

func newProject(r *core.Run, p *prog.Program) *project {
	dir, rd := env(r).Write(p)
	return &project{r: r, p: p, dir: dir, rd: rd}
}

func (p *project) remove() { env(p.r).Remove(p.dir) }

// job is a generation of the project.
func (p *project) job(outs []prog.Out) prog.Job {
	return prog.Job{Dir: p.dir, Routes: p.p.JobRoutes(p.rd), Config: prog.DefaultConfig(), Outs: outs, Maps: p.p.Maps}
}

// verdict compiles the program if there is a fault, and removes it.
func (p *project) verdict(err error) error {
	if err != nil || os.Getenv("VERIF_COMPILE") != "" {
		if cerr := env(p.r).Compiles(p.dir); cerr != nil {
			if os.Getenv("VERIF_COMPILE") != "" {
				core.Infraf("generated program does not compile: %v\n%s\n(%v)", cerr, p.p, err)
			}
			core.Discardf("generated program does not compile: %v\n%s\n(%v)", cerr, p.p, err)
		}
	}
	p.remove()
	return err
}

// newFiles are the files of b that a does not have, or has otherwise.
func newFiles(a, b map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			out[k] = v
		}
	}
	return out
}

// outPaths are the files and directories that outputs may write.
func outPaths(outs []prog.Out) map[string]bool {
	m := map[string]bool{}
	for _, o := range outs {
		switch o.Mode {
		case "azure":
			m[o.Path+"/"] = true
		case "json":
			m[strings.TrimSuffix(o.Path, ".json")+".json"] = true
		default:
			p := o.Path
			if !strings.HasSuffix(p, ".json") && !strings.HasSuffix(p, ".yaml") && !strings.HasSuffix(p, ".yml") {
				p += ".json"
			}
			m[p] = true
		}
	}
	return m
}

// split parts a tree into what the outputs wrote and the rest.
func split(t map[string]string, outs []prog.Out) (mine, rest map[string]string) {
	mine, rest = map[string]string{}, map[string]string{}
	paths := outPaths(outs)
	for k, v := range t {
		is := paths[k]
		for p := range paths {
			is = is || strings.HasSuffix(p, "/") && strings.HasPrefix(k, p)
		}
		if is {
			mine[k] = v
		} else {
			rest[k] = v
		}
	}
	return mine, rest
}

// complete tells whether all outputs are there.
func complete(mine map[string]string, outs []prog.Out) error {
	for p := range outPaths(outs) {
		if _, ok := mine[p]; !ok {
			return fmt.Errorf("the output %s is missing; there are %v", p, core.SortedKeys(mine))
		}
	}
	return nil
}

// removeOutputs deletes what the outputs wrote.
func (p *project) removeOutputs(outs []prog.Out) {
	for o := range outPaths(outs) {
		must(os.RemoveAll(filepath.Join(p.dir, o)))
	}
}

// mkOutDirs makes the directories the outputs are written to.
func (p *project) mkOutDirs(outs []prog.Out) {
	for o := range outPaths(outs) {
		must(os.MkdirAll(filepath.Dir(filepath.Join(p.dir, strings.TrimSuffix(o, "/"))), 0o755))
	}
}

var genOuts = rapid.Custom(func(t *rapid.T) []prog.Out {
	pool := []prog.Out{{Mode: "openapi", Path: "openapi.json"}, {Mode: "openapi", Path: "openapi.yaml"}, {Mode: "openapi", Path: "docs/spec.yml"}, {Mode: "openapi", Path: "plain"},
		{Mode: "openapi", Path: "api.txt"}, {Mode: "json", Path: "debug.json"}, {Mode: "json", Path: "raw"}, {Mode: "openapi", Path: "API.JSON"}, {Mode: "openapi", Path: "docs/Spec.YAML"}, {Mode: "openapi", Path: "v1.2/api"}, {Mode: "json", Path: "Raw.Json"}, {Mode: "azure", Path: "functions"}, {Mode: "azure", Path: "out/fn"}}
	return rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 1, 4, rapid.ID[prog.Out]).Draw(t, "outs")
})

// genAll is a generator of programs of all kinds whose handlers have names of their own.
var genAll = prog.Gen{Pkgs: 3, Types: 6, MinTypes: 2, Depth: 2, Embed: true, Recurse: true, Alias: true, Odd: true, Enums: true, Docs: true, PkgForms: true,
	Handlers: 3, Helpers: 2, HForms: true, Stmts: 4, Ctl: 1, XForms: true, VForms: true, Methods: true, Views: []string{"json", "form"}, Options: true,
	Ext: []string{"time.Time", "uuid.UUID", "error", "gin.H"}, Kinds: []string{"named"},
	Weights: map[string]int{"resp": 3, "in": 2, "bind": 2, "header": 1, "call": 2, "ctl": 1}}

func twoRoutes(p prog.Program) bool { return len(p.Routes) >= 2 && len(p.Types) >= 2 }

// ---- the command line tool ----

var (
	cliOnce sync.Once
	cliPath string
)

// cliTool builds the astra command of /repo.
func cliTool(r *core.Run) string {
	cliOnce.Do(func() {
		src := filepath.Join(r.Repo, "cli", "astra")
		mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
		must(err)
		sums := map[string]bool{}
		for _, f := range []string{filepath.Join(src, "go.sum"), filepath.Join(r.Repo, "go.sum")} {
			b, err := os.ReadFile(f)
			must(err)
			for _, l := range strings.Split(string(b), "\n") {
				if l != "" {
					sums[l] = true
				}
			}
		}
		must(os.WriteFile(filepath.Join(r.Scratch, "cli.mod"), mod, 0o644))
		must(os.WriteFile(filepath.Join(r.Scratch, "cli.sum"), []byte(strings.Join(core.SortedKeys(sums), "\n")+"\n"), 0o644))
		cliPath = filepath.Join(r.Scratch, "astra-cli")
		cmd := exec.Command("go", "build", "-modfile="+filepath.Join(r.Scratch, "cli.mod"), "-o", cliPath, ".")
		cmd.Dir = src
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		if out, err := cmd.CombinedOutput(); err != nil {
			core.Infraf("building the command line tool: %v\n%s", err, out)
		}
	})
	return cliPath
}

// runCLI runs the command line tool.
func runCLI(r *core.Run, cwd string, args ...string) error {
	ctx, cancel := context.WithTimeout(context.Background(), prog.Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, cliTool(r), args...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "PWD="+cwd)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if ctx.Err() != nil {
		return prog.ErrTimeout
	}
	if err != nil {
		s := out.String()
		if len(s) > 1500 {
			s = s[len(s)-1500:]
		}
		return fmt.Errorf("%v: %s", err, s)
	}
	return nil
}

var errNoChange = errors.New("unchanged")

var genCfg = rapid.Custom(func(t *rapid.T) *astra.Config {
	c := genConfig.Draw(t, "config")
	if c.Port == 0 {
		c.Port = 8080
	}
	for _, f := range []*string{&c.Title, &c.Description, &c.Version, &c.Contact.Name, &c.Contact.URL, &c.Contact.Email, &c.License.Name, &c.License.URL, &c.Host, &c.BasePath} {
		if !yamlSafe(*f) || strings.ToValidUTF8(*f, "") != *f {
			*f = "x"
		}
	}
	return &c
})
