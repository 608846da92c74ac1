package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// ParProp is a property whose cases cost much more than drawing them: they are
// evaluated on all cores. Case i is drawn from a seed of its own, so that the
// cases do not depend on the scheduling, and a failing case is shrunk by a
// function of its type instead of by its bits.
type ParProp[T any] struct {
	Name       string
	Gen        *rapid.Generator[T]
	Oracle     func(r *Run, c T) error
	NonTrivial func(c T) bool
	Classify   func(c T) []string
	// Shrink returns the smallest case it finds for which fails still holds.
	Shrink   func(c T, fails func(T) bool) T
	Quick    int
	Thorough int
	Budget   time.Duration // quick: no new case after this; thorough: ten times
	Workers  int
}

func (p ParProp[T]) SubName() string { return p.Name }

// draw draws a case, or reports why it cannot.
func draw[T any](g *rapid.Generator[T], seed int) T {
	return g.Example(seed)
}

func (p ParProp[T]) RunSub(r *Run) {
	initRapid()
	n := r.N(p.Quick, p.Thorough)
	budget := p.Budget
	if budget == 0 {
		budget = 100 * time.Second
	}
	if r.Thorough() {
		budget *= 12
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		_, _ = fmt.Sscan(s, &n)
	}
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	base := int(r.SeedFor(p.Name) & 0x3fffffffffffff)
	start := time.Now()
	var next, ran atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var infra *Infra
	var crash any
	firstBad := -1
	var badCase T
	var badErr error
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					if inf, ok := x.(Infra); ok {
						infra = &inf
					} else {
						crash = x
					}
					mu.Unlock()
					stop.Store(true)
				}
			}()
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n || (i > 0 && time.Since(start) > budget) {
					return
				}
				c := draw(p.Gen, base+i)
				err := p.judge(r, c)
				ran.Add(1)
				if err == errDiscarded {
					continue
				}
				var cl []string
				if p.Classify != nil {
					cl = p.Classify(c)
				}
				r.Count(p.Name, c, p.NonTrivial == nil || p.NonTrivial(c), cl...)
				if err != nil {
					mu.Lock()
					if firstBad < 0 || i < firstBad {
						firstBad, badCase, badErr = i, c, err
					}
					mu.Unlock()
					stop.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	if crash != nil {
		panic(crash)
	}
	if firstBad < 0 && infra != nil {
		panic(*infra)
	}
	if int(ran.Load()) < n && firstBad < 0 {
		r.Extra("budget_"+p.Name, fmt.Sprintf("%d of %d cases within %s", ran.Load(), n, budget))
	}
	if firstBad < 0 {
		return
	}
	c, err := badCase, badErr
	if p.Shrink != nil && os.Getenv("VERIF_NOSHRINK") == "" {
		deadline := time.Now().Add(30 * time.Second)
		c = p.Shrink(c, func(c2 T) (bad bool) {
			if time.Now().After(deadline) {
				return false
			}
			defer func() {
				if recover() != nil { // not a case any more
					bad = false
				}
			}()
			e := Safe(func() error { return p.Oracle(r, c2) })
			if e != nil {
				err = e
			}
			return e != nil
		})
	}
	r.Violate(p.Name, c, err.Error())
}

// judge evaluates a case.
func (p ParProp[T]) judge(r *Run, c T) (err error) {
	defer func() {
		if x := recover(); x != nil {
			d, ok := x.(Discard)
			if !ok {
				panic(x)
			}
			r.Discarded(d.Msg)
			err = errDiscarded
		}
	}()
	return Safe(func() error { return p.Oracle(r, c) })
}

func (p ParProp[T]) ReplaySub(r *Run, raw json.RawMessage) error {
	initRapid()
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		Infraf("replay case: %v", err)
	}
	return Safe(func() error { return p.Oracle(r, c) })
}
