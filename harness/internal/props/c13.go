package props

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"

	"pgregory.net/rapid"

	"verif/harness/internal/core"
	"verif/harness/internal/prog"
)

// servicesCase is a program whose documents are generated one after another in
// one process by services with different mappings.
type servicesCase struct {
	P      prog.Program
	Maps   [][][]prog.Mapping // of each service
	Single bool               // the mappings are given one by one
}

func (c servicesCase) run(r *core.Run) error {
	p := newProject(r, &c.P)
	return p.verdict(c.check(r, p))
}

func (c servicesCase) check(r *core.Run, p *project) error {
	var jobs []prog.Job
	for i, m := range c.Maps {
		j := p.job([]prog.Out{{Mode: "openapi", Path: fmt.Sprintf("o%d.json", i)}})
		j.Maps, j.Single = m, c.Single
		jobs = append(jobs, j)
	}
	if err := runJobs(r, jobs...); err != nil {
		return err
	}
	for i, m := range c.Maps {
		b, err := os.ReadFile(filepath.Join(p.dir, fmt.Sprintf("o%d.json", i)))
		if err != nil {
			return err
		}
		doc, err := prog.DecodeJSON(b)
		if err != nil {
			return err
		}
		q := c.P
		q.Maps = m
		if err := prog.NewCtx(&q).CompareDoc(doc, prog.Cmp{Responses: true, Requests: true}); err != nil {
			return fmt.Errorf("service %d of %d, mappings %s: %w", i+1, len(c.Maps), js(m), err)
		}
	}
	return nil
}

func servicesProp(gen prog.Gen) core.Sub {
	gen.Depth, gen.Types, gen.Stmts = 2, 4, 4
	gen.Ext = []string{"time.Time", "uuid.UUID", "time.Time", "uuid.UUID", "time.Duration"}
	return core.ParProp[servicesCase]{
		Name: "services", Quick: 300, Thorough: 5000,
		Gen: rapid.Custom(func(t *rapid.T) servicesCase {
			c := servicesCase{P: gen.Draw().Draw(t, "p"), Single: rapid.Bool().Draw(t, "single")}
			c.Maps = append(c.Maps, c.P.Maps)
			pool := slices.Concat(c.P.Maps...)
			for _, key := range []string{"time.Time", "github.com/google/uuid.UUID"} {
				pool = append(pool, prog.Mapping{Key: key, Type: "integer", Format: "int64"}, prog.Mapping{Key: key, Type: "string", Format: "x"})
			}
			for n := rapid.IntRange(1, 3).Draw(t, "services"); n > 0; n-- {
				var maps [][]prog.Mapping
				for k := rapid.IntRange(0, 2).Draw(t, "maps"); k > 0; k-- {
					maps = append(maps, []prog.Mapping{rapid.SampledFrom(pool).Draw(t, "map")})
				}
				c.Maps = append(c.Maps, maps)
			}
			if rapid.Bool().Draw(t, "reverse") {
				slices.Reverse(c.Maps)
			}
			return c
		}),
		NonTrivial: func(c servicesCase) bool {
			n := map[string]bool{}
			for _, m := range c.Maps {
				n[js(m)] = true
			}
			return len(n) > 1
		},
		Classify: func(c servicesCase) []string { return []string{fmt.Sprintf("services:%d", len(c.Maps))} },
		Shrink: func(c servicesCase, fails func(servicesCase) bool) servicesCase {
			for i := 0; i < len(c.Maps); {
				d := c
				d.Maps = slices.Delete(slices.Clone(c.Maps), i, i+1)
				if len(d.Maps) > 0 && fails(d) {
					c = d
				} else {
					i++
				}
			}
			c.P = prog.Shrink(c.P, func(p prog.Program) bool { d := c; d.P = p; return fails(d) })
			return c
		},
		Oracle: func(r *core.Run, c servicesCase) error { return c.run(r) },
	}
}
