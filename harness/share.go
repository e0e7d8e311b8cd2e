package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
)

// share executes the programs of MCShare.tla: the shared part first, then each
// of the other steps in a goroutine, while others render what is shared.  The
// position of the program being executed is printed, for the race detector
// may end the process.
func share(in, out string, times int) {
	f, err := os.Open(in)
	check(err)
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		line, err := r.ReadString('\n')
		if line = strings.TrimSpace(line); line != "" {
			var doc string
			check(json.Unmarshal([]byte(line), &doc))
			var s struct {
				Shared int `json:"shared"`
				Ev     []T `json:"ev"`
			}
			check(json.Unmarshal([]byte(doc), &s))
			fmt.Printf("%d\n", i)
			for k := 0; k < times; k++ {
				if why := shareOnce(s.Ev, s.Shared, k); why != "" {
					check(os.WriteFile(out, []byte(jsonText(T{"ev": s.Ev, "why": why})+"\n"), 0o644))
					os.Exit(4)
				}
			}
		}
		if err != nil {
			return
		}
	}
}

// part is what one goroutine does.
type part struct {
	w   *world
	ops []T
	at  []int // handle of each construction
	rs  []rendering
	oks []bool
}

func (p *part) run() {
	for i, op := range p.ops {
		ok, r := p.w.step(op, p.at[i])
		p.oks, p.rs = append(p.oks, ok), append(p.rs, r)
	}
}

func shareOnce(ev []T, shared, turn int) string {
	w := newWorld(false)
	calls, renders := []T{}, map[int]T{}
	for i, op := range ev {
		switch {
		case i < shared:
			if ok, _ := w.step(op, i+1); !ok {
				return "panicked on a valid call"
			}
		case isConstruction(op):
			calls = append(calls, op)
		default:
			renders[num(op, "h")] = op
		}
	}
	fresh := func() *part {
		p := &part{w: newWorld(false)}
		for h, b := range w.pool {
			p.w.pool[h] = b
		}
		return p
	}
	show := func(p *part, h, order int) {
		op := clone([]T{renders[h]})[0]
		op["ord"] = order % 6
		p.ops, p.at = append(p.ops, op), append(p.at, 0)
	}
	owner := map[int]*part{}
	used := map[int]bool{shared: true}
	var parts []*part
	for i, op := range calls {
		h, from := shared+1+i, num(op, "h")
		p := owner[from]
		if p == nil {
			p = fresh()
			parts = append(parts, p)
			used[from] = true
			if (i+turn)%2 == 1 {
				show(p, from, i+turn)
			}
		}
		owner[h] = p
		p.ops, p.at = append(p.ops, clone([]T{op})[0]), append(p.at, h)
		show(p, h, i+turn)
	}
	for k := 0; k < 2; k++ {
		p := fresh()
		for h := 1; h <= shared; h++ {
			if used[h] {
				show(p, h, h+k+turn)
				show(p, h, h+2*k+turn+3)
			}
		}
		parts = append(parts, p)
	}
	var ready, done sync.WaitGroup
	ready.Add(1)
	for _, p := range parts {
		done.Add(1)
		go func(p *part) {
			defer done.Done()
			ready.Wait()
			p.run()
		}(p)
	}
	ready.Done()
	done.Wait()
	last := &part{w: w}
	for h := 1; h <= shared; h++ {
		if renders[h] != nil {
			show(last, h, turn)
		}
	}
	last.run()
	on := map[string]bool{"ok": true, "q": true, "n": true, "s": true, "args": true}
	for _, p := range append(parts, last) {
		finish(nil, p.ops, p.rs, options{})
		want := make([]interface{}, len(p.ops))
		for i, op := range p.ops {
			want[i] = true
			if isConstruction(op) {
				op["ok"] = p.oks[i]
			}
		}
		if why, _ := judge(p.ops, want, on); why != "" {
			return why + " (a goroutine, among others)"
		}
	}
	return ""
}
