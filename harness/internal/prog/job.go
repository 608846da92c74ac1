package prog

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rs/zerolog"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cli"
	astraGin "github.com/ls6-events/astra/inputs/gin"
	"github.com/ls6-events/astra/outputs"

	"verif/harness/internal/core"
)

// JobRoute is what gin would report of a registered route.
type JobRoute struct {
	Method, Path, Handler, File string
	Line                        int
}

// Out is a requested output.
type Out struct{ Mode, Path string }

// Deny is a deny list entry: exact, regex, prefix (a predicate).
type Deny struct{ Kind, Text string }

// Job is one generation in a worker process.
type Job struct {
	Dir       string
	WorkDir   string // option, if set
	Routes    []JobRoute
	Config    *astra.Config
	Outs      []Out
	Maps      [][]Mapping
	Single    bool // mappings through WithCustomTypeMappingSingle
	Deny      []Deny
	Mode      string // parse (default), setup (CLI setup mode), cli (load the cache and complete), setupcomplete, cacheparse
	CachePath string
	Regs      []Reg               // custom functions to register
	Orders    map[string][]string // what they know of the functions they handle
	DieAt     string              // stop the process at a point
}

// Result is the outcome of a job.
type Result struct {
	Err   string
	Panic string
	Log   []string
}

// Worker runs the jobs read from stdin one after another in this process.
func Worker() int {
	var jobs []Job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, "worker:", err)
		return 9
	}
	var results []Result
	real := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	for _, j := range jobs {
		results = append(results, runJob(j))
	}
	_ = json.NewEncoder(real).Encode(results)
	return 0
}

func runJob(j Job) (res Result) {
	defer func() {
		if x := recover(); x != nil {
			res.Panic = fmt.Sprintf("%v\n%s", x, repoFrames(string(debug.Stack())))
		}
	}()
	if err := os.Chdir(j.Dir); err != nil {
		return Result{Err: "harness: " + err.Error()}
	}
	_ = os.Setenv("PWD", j.Dir)
	s := astra.New(j.options(&res)...)
	var err error
	switch j.Mode {
	case "", "parse", "cacheparse":
		err = s.Parse()
	case "setup":
		err = s.SetupParse()
	case "setupcomplete":
		if err = s.SetupParse(); err == nil {
			err = s.CompleteParse()
		}
	default:
		err = errors.New("harness: unknown mode " + j.Mode)
	}
	if err != nil {
		res.Err = err.Error()
	}
	return res
}

func (j Job) options(res *Result) []astra.Option {
	var opts []astra.Option
	opts = append(opts, astra.WithCustomLogger(zerolog.New(logSink())))
	if j.WorkDir != "" {
		opts = append(opts, astra.WithCustomWorkDir(j.WorkDir))
	}
	if j.Mode == "setup" {
		opts = append(opts, cli.WithCLI())
	}
	if j.Mode == "cacheparse" {
		opts = append(opts, func(s *astra.Service) { s.CacheEnabled = true })
	}
	if j.CachePath != "" {
		opts = append(opts, func(s *astra.Service) { s.CacheEnabled = true; s.CachePath = j.CachePath })
	}
	if j.Config != nil {
		c := *j.Config
		opts = append(opts, astra.WithConfig(&c))
	}
	for _, d := range j.Deny {
		switch d.Kind {
		case "exact":
			opts = append(opts, astra.WithPathDenyList(d.Text))
		case "regex":
			opts = append(opts, astra.WithPathDenyListRegex(regexp.MustCompile(d.Text)))
		default:
			opts = append(opts, astra.WithPathDenyListFunc(func(p string) bool { return strings.HasPrefix(p, d.Text) }))
		}
	}
	for _, m := range j.Maps {
		if j.Single {
			for _, e := range m {
				opts = append(opts, astra.WithCustomTypeMappingSingle(e.Key, e.Type, e.Format))
			}
			continue
		}
		mm := map[string]astra.TypeFormat{}
		for _, e := range m {
			mm[e.Key] = astra.TypeFormat{Type: e.Type, Format: e.Format}
		}
		opts = append(opts, astra.WithCustomTypeMapping(mm))
	}
	opts = append(opts, customOptions(j.Regs, j.Orders, res)...)
	routes := j.Routes
	opts = append(opts, func(s *astra.Service) {
		s.Inputs = append(s.Inputs, astra.Input{
			Mode: "gin",
			CreateRoutes: func(s *astra.Service) error {
				for _, r := range routes {
					denied := false
					for _, d := range s.PathDenyList {
						denied = denied || d(r.Path)
					}
					if denied {
						continue
					}
					s.AddRoute(astra.Route{Handler: r.Handler, File: r.File, LineNo: r.Line, Path: r.Path, Method: r.Method,
						PathParams: []astra.Param{}, Body: []astra.BodyParam{}, QueryParams: []astra.Param{}, ReturnTypes: []astra.ReturnType{}})
				}
				return nil
			},
			ParseRoutes: astraGin.ParseRoutes(),
		})
	})
	for i, o := range j.Outs {
		switch o.Mode {
		case "openapi":
			opts = append(opts, outputs.WithOpenAPIOutput(o.Path))
		case "json":
			opts = append(opts, outputs.WithJSONOutput(o.Path))
		case "azure":
			opts = append(opts, outputs.WithAzureFunctionsOutput(o.Path))
		}
		_ = i
	}
	if j.DieAt != "" {
		opts = append(opts, dieAt(j.DieAt))
	}
	return opts
}

// dieAt ends the process, as a kill would, before the n-th output or after the routes are parsed.
func dieAt(point string) astra.Option {
	die := func(*astra.Service) error {
		_ = syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	return func(s *astra.Service) {
		switch point {
		case "create":
			in := s.Inputs[0].CreateRoutes
			s.Inputs[0].CreateRoutes = func(s *astra.Service) error { _ = in(s); return die(s) }
		case "parse":
			in := s.Inputs[0].ParseRoutes
			s.Inputs[0].ParseRoutes = func(s *astra.Service) error { _ = in(s); return die(s) }
		default: // before the n-th output
			n, _ := strconv.Atoi(point)
			n = min(n, len(s.Outputs))
			s.Outputs = slices.Insert(s.Outputs, n, astra.Output{Mode: "x", Generate: die})
		}
	}
}

func repoFrames(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "ls6-events/astra") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Env is where programs are written and run.
type Env struct {
	Root  string // scratch
	Self  string // harness binary
	Repo  string
	n     atomic.Int64
	stubs string
}

// NewEnv writes the stub modules.
func NewEnv(r *core.Run) *Env {
	self, err := os.Executable()
	if err != nil {
		core.Infraf("executable: %v", err)
	}
	e := &Env{Root: r.Scratch, Self: self, Repo: r.Repo, stubs: filepath.Join(r.Scratch, "stubs")}
	for mod, src := range map[string][2]string{ginPath: {"gin", ginStub}, uuidPath: {"uuid", uuidStub}} {
		dir := filepath.Join(e.stubs, src[0])
		must(os.MkdirAll(dir, 0o755))
		must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.18\n"), 0o644))
		must(os.WriteFile(filepath.Join(dir, src[0]+".go"), []byte(src[1]), 0o644))
	}
	return e
}

func must(err error) {
	if err != nil {
		core.Infraf("%v", err)
	}
}

// Dir makes a new scratch directory.
func (e *Env) Dir() string {
	d := filepath.Join(e.Root, fmt.Sprintf("p%d", e.n.Add(1)))
	must(os.MkdirAll(d, 0o755))
	return d
}

// Remove deletes a scratch directory.
func (e *Env) Remove(dir string) {
	if rest, ok := strings.CutPrefix(dir, e.Root+"/p"); ok {
		rest, _, _ = strings.Cut(rest, "/")
		_ = os.RemoveAll(e.Root + "/p" + rest)
	}
}

// GoMod is the go.mod of a program with stub dependencies.
func (e *Env) GoMod(p *Program) string {
	mod := []string{"module %s", "module %q", "module %s // was module old.example/x", "// module old.example/x\n\nmodule\t%s", "module (\n\t%s\n)"}[p.ModAs%5]
	return fmt.Sprintf(mod+"\n\ngo %s\n\nrequire (\n\t%s v1.10.0\n\t%s v1.6.0\n)\n\nreplace %s => %s\n\nreplace %s => %s\n",
		p.Mod, p.Go, ginPath, uuidPath, ginPath, filepath.Join(e.stubs, "gin"), uuidPath, filepath.Join(e.stubs, "uuid"))
}

// Write renders the program with stub dependencies into a new directory.
func (e *Env) Write(p *Program) (string, *Rendered) {
	dir := e.Dir()
	rd := p.Render(false, "")
	rd.main = p.Main
	must(rd.Write(dir, e.GoMod(p), ""))
	return filepath.Join(dir, p.Main), rd
}

// JobRoutes are the routes of the program as gin would report them.
func (p *Program) JobRoutes(rd *Rendered) []JobRoute {
	var out []JobRoute
	for _, r := range p.Routes {
		h := rd.Handlers[r.Fn]
		if rd.main != "" { // files are relative to the directory it is run in
			var err error
			h.File, err = filepath.Rel(rd.main, rd.place(h.File))
			must(err)
		}
		out = append(out, JobRoute{Method: r.Method, Path: r.Path, Handler: h.Name, File: h.File, Line: h.Line})
	}
	return out
}

// DefaultConfig is a configuration for programs whose configuration does not matter.
func DefaultConfig() *astra.Config {
	return &astra.Config{Title: "T", Version: "1.0", Host: "localhost", Port: 8000, BasePath: "/"}
}

// ErrTimeout is returned when a worker does not end in time.
var ErrTimeout = errors.New("worker timeout")

// RunJobs runs the jobs in one new process.
func (e *Env) RunJobs(timeout time.Duration, jobs ...Job) ([]Result, error) {
	in, err := json.Marshal(jobs)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.Self, "worker")
	cmd.Dir = jobs[0].Dir
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	err = cmd.Run()
	if os.Getenv("VERIF_LOG") != "" {
		fmt.Fprintln(os.Stderr, errb.String())
	}
	if ctx.Err() != nil {
		return nil, ErrTimeout
	}
	var results []Result
	if jerr := json.Unmarshal(out.Bytes(), &results); jerr != nil {
		msg := errb.String()
		if len(msg) > 3000 {
			msg = msg[:1500] + "\n...\n" + msg[len(msg)-1500:]
		}
		return nil, fmt.Errorf("generation crashed: %v\n%s", err, msg)
	}
	for _, r := range results {
		if strings.HasPrefix(r.Err, "harness:") {
			core.Infraf("%s", r.Err)
		}
	}
	return results, nil
}

// Outcome is what a generation left.
type Outcome struct {
	Dir string
	Doc map[string]any // decoded OpenAPI document
	Raw []byte
	Rd  *Rendered
	Err error // generation failed, panicked or hung
	Log []string
}

// Timeout is how long a generation may take before it counts as hung.
const Timeout = 120 * time.Second

// Generate renders the program, generates its OpenAPI document in a new
// process and decodes it, and gives the outcome to check. If that finds a
// fault the program is compiled: one that does not compile is a mistake of the
// generator, not of astra.
func (e *Env) Generate(p *Program, edit func(*Job), check func(Outcome) error) error {
	dir, rd := e.Write(p)
	defer e.Remove(dir)
	o := Outcome{Dir: dir, Rd: rd}
	if err := e.generate(p, edit, &o); err != nil {
		o.Err = err
	}
	err := o.Err
	if check != nil {
		err = check(o)
	}
	if err != nil || alwaysCompile {
		if cerr := e.Compiles(dir); cerr != nil {
			if alwaysCompile {
				core.Infraf("generated program does not compile: %v\n%s\n(%v)", cerr, p, err)
			}
			core.Discardf("generated program does not compile: %v\n%s\n(%v)", cerr, p, err)
		}
	}
	return err
}

var alwaysCompile = os.Getenv("VERIF_COMPILE") != ""

func (e *Env) generate(p *Program, edit func(*Job), o *Outcome) error {
	j := Job{Dir: o.Dir, Routes: p.JobRoutes(o.Rd), Config: DefaultConfig(), Outs: []Out{{"openapi", "openapi.json"}}, Maps: p.Maps, Regs: p.Regs, Orders: p.Orders()}
	if edit != nil {
		edit(&j)
	}
	rs, err := e.RunJobs(Timeout, j)
	if err != nil {
		return err
	}
	o.Log = rs[0].Log
	if rs[0].Panic != "" {
		return fmt.Errorf("generation panicked: %s", rs[0].Panic)
	}
	if rs[0].Err != "" {
		return fmt.Errorf("generation failed: %s", rs[0].Err)
	}
	o.Raw, err = os.ReadFile(filepath.Join(o.Dir, "openapi.json"))
	if err != nil {
		return fmt.Errorf("no OpenAPI document: %v", err)
	}
	o.Doc, err = DecodeJSON(o.Raw)
	return err
}

// DecodeJSON decodes a document, keeping numbers exact.
func DecodeJSON(b []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var doc map[string]any
	if err := d.Decode(&doc); err != nil {
		return nil, fmt.Errorf("the OpenAPI document is not JSON: %v", err)
	}
	return doc, nil
}

// Compiles builds the program.
func (e *Env) Compiles(dir string) error {
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", "/dev/null", "./...")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

// logSink is where the log of a generation goes.
func logSink() io.Writer {
	if os.Getenv("VERIF_LOG") != "" {
		return os.Stderr
	}
	return io.Discard
}
