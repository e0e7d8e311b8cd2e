package main

import (
	"encoding/json"
	"math/rand"
	"sync"
)

// race runs programs whose last part is executed by several goroutines, which
// render and derive the same builders without synchronisation.  Each
// goroutine records a scenario of its own: the common part, what it did, and
// a last rendering of every shared builder once all of them are done.
func race(n int, seed int64, out string) {
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, raceScenario(seed*1000003+int64(i))...)
	}
	write(out, lines)
}

func clone(ops []T) []T {
	var r []T
	check(json.Unmarshal([]byte(jsonText(ops)), &r))
	return r
}

func raceScenario(seed int64) []string {
	p := profiles["C06"]()
	g := &gen{r: rand.New(rand.NewSource(seed)), p: &p}
	pr := &program{g: g, w: newWorld(false)}
	kinds := []string{"select", "insert", "update", "delete"}
	if g.p1(0.5) {
		pr.start("select")
	}
	pr.start(g.weighted(kinds, p.kinds))
	for k := p.calls[0] + g.n(p.calls[1]-p.calls[0]+1); k > 0 && len(pr.last) > 0; k-- {
		if g.p1(p.branch) {
			pr.derive(1 + g.n(len(g.metas)))
		} else {
			pr.derive(pr.last[len(pr.last)-1])
		}
	}
	for _, h := range append([]int{}, pr.last...) {
		pr.complete(h)
	}
	shared := len(g.metas)
	if shared == 0 {
		return nil
	}
	hot := 1 + g.n(shared)
	if g.p1(0.7) {
		hot = shared
	}
	workers := 3 + g.n(3)
	prs := make([]*program, workers)
	for k := range prs {
		w := newWorld(false)
		for h, b := range pr.w.pool {
			w.pool[h] = b
		}
		for id, x := range pr.w.shared {
			w.shared[id] = x
		}
		pk := p
		values := map[string][]T{}
		for s, l := range g.shared {
			values[s] = clone(l)
		}
		prs[k] = &program{
			g: &gen{r: rand.New(rand.NewSource(seed*31 + int64(k))), p: &pk, metas: append([]meta{}, g.metas...), ids: g.ids, shared: values},
			w: w, ops: clone(pr.ops), rs: make([]rendering, len(pr.rs)), last: []int{hot},
		}
	}
	var ready, done sync.WaitGroup
	ready.Add(1)
	for k := range prs {
		done.Add(1)
		go func(w *program, k int) {
			defer done.Done()
			ready.Wait()
			for i := 0; i < 6; i++ {
				if len(w.g.metas) == shared && (i+k)%2 == 0 || w.g.p1(0.35) {
					h := hot
					if w.g.p1(0.4) {
						h = 1 + w.g.n(len(w.g.metas))
					}
					w.render(h)
				} else {
					h := hot
					if w.g.p1(0.5) {
						h = 1 + w.g.n(len(w.g.metas))
					}
					w.last = []int{h}
					w.derive(h)
				}
			}
		}(prs[k], k)
	}
	ready.Done()
	done.Wait()
	var lines []string
	for _, w := range prs {
		for h := shared + 1; h <= len(w.g.metas); h++ {
			w.render(h)
		}
		for h := 1; h <= shared; h++ {
			w.render(h)
		}
		finish(w.g, w.ops, w.rs, options{lin: true})
		lines = append(lines, scenarioText(w.ops))
	}
	return lines
}
