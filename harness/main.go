// Command harness drives the real loukoum and records what it does.
//
//	harness gen -profile C01 -n 3000 -seed 1 -out FILE    random programs, executed and recorded
//	harness again -in FILE -out FILE                      recorded programs, executed again in the reverse order
//	harness replay -in FILE -out FILE                     programs given as operations, executed and recorded
//	harness expect -in FILE -focus ASPECTS -out FILE      behaviours of the specification, compared with the code
//	harness race -n 100 -seed 1 -out FILE                 concurrent programs (build with -race)
//	harness share -n 3 -in FILE -out FILE                 concurrent programs of the specification, each n times
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness gen|replay|expect|race|share ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	profile := fs.String("profile", "", "")
	n := fs.Int("n", 1000, "")
	seed := fs.Int64("seed", 1, "")
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	focus := fs.String("focus", "", "")
	hang := fs.String("hang", "", "where to write a program that does not end")
	check(fs.Parse(os.Args[2:]))
	switch os.Args[1] {
	case "gen":
		generate(*profile, *n, *seed, *out, *hang)
	case "extremes":
		extremesOf(*profile, *seed, *out, *hang)
	case "again":
		again(*profile, *in, *out, *hang)
	case "replay":
		replay(*profile, *in, *out, *hang)
	case "expect":
		expect(*profile, *focus, *in, *out, *hang)
	case "race":
		race(*n, *seed, *out)
	case "share":
		share(*in, *out, *n)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// watchdog ends the process when a program runs for too long or takes too
// much memory: the code under test does not terminate.
type watchdog struct {
	mu   sync.Mutex
	busy map[int]*watched
	path string
}

type watched struct {
	since time.Time
	ops   func() []T
}

func newWatchdog(path string) *watchdog {
	d := &watchdog{busy: map[int]*watched{}, path: path}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			d.mu.Lock()
			for _, w := range d.busy {
				age := time.Since(w.since)
				if age > 60*time.Second || ms.HeapAlloc > 10<<30 && age > 3*time.Second {
					if d.path != "" {
						check(os.WriteFile(d.path, []byte(jsonText(T{"ev": w.ops(), "hang": true})+"\n"), 0o644))
					}
					fmt.Fprintln(os.Stderr, "HANG: a program does not end")
					os.Exit(3)
				}
			}
			d.mu.Unlock()
		}
	}()
	return d
}

func (d *watchdog) enter(i int, ops func() []T) {
	d.mu.Lock()
	d.busy[i] = &watched{time.Now(), ops}
	d.mu.Unlock()
}
func (d *watchdog) leave(i int) {
	d.mu.Lock()
	delete(d.busy, i)
	d.mu.Unlock()
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	work := make(chan int)
	for k := 0; k < runtime.GOMAXPROCS(0); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		work <- i
	}
	close(work)
	wg.Wait()
}

func scenarioText(ops []T) string {
	if ops == nil {
		ops = []T{}
	}
	return jsonText(T{"ev": ops})
}

func write(path string, lines []string) {
	f, err := os.Create(path)
	check(err)
	b := bufio.NewWriterSize(f, 1<<20)
	for _, l := range lines {
		if l == "" {
			continue
		}
		_, err = b.WriteString(l + "\n")
		check(err)
	}
	check(b.Flush())
	check(f.Close())
}

func generate(profile string, n int, seed int64, out, hang string) {
	lines := make([]string, n)
	dog := newWatchdog(hang)
	parallel(n, func(i int) {
		g := &gen{r: rand.New(rand.NewSource(seed*1000003 + int64(i)))}
		dog.enter(i, func() []T { return []T{{"op": "generate", "profile": profile, "seed": seed, "index": i}} })
		var ops []T
		switch profile {
		case "C15":
			ops = g.joinScenario()
		case "C16":
			ops = g.lexScenario()
		default:
			p := profiles[profile]()
			g.p = &p
			ops = g.program()
		}
		dog.leave(i)
		if len(ops) > 0 {
			lines[i] = scenarioText(ops)
		}
	})
	write(out, lines)
}

func readScenarios(path string) [][]T {
	f, err := os.Open(path)
	check(err)
	defer f.Close()
	var r [][]T
	d := json.NewDecoder(bufio.NewReaderSize(f, 1<<20))
	for d.More() {
		var s struct {
			Ev []T `json:"ev"`
		}
		check(d.Decode(&s))
		r = append(r, s.Ev)
	}
	return r
}

// again executes recorded programs in this process, the last one first, and
// says of every operation whether it did what was recorded.
func again(profile, in, out, hang string) {
	p := profiles[profile]()
	scs := readScenarios(in)
	lines := make([]string, len(scs))
	dog := newWatchdog(hang)
	parallel(len(scs), func(i int) {
		i = len(scs) - 1 - i
		ops := scs[i]
		dog.enter(i, func() []T { return ops })
		oks, rs := run(ops, p.opts.mutate)
		for j, op := range ops {
			switch {
			case isConstruction(op):
				op["same"] = boolean(op, "same") && oks[j] == boolean(op, "ok")
			case str(op, "op") == "render":
				same := boolean(op, "same") && rs[j].nok == boolean(op, "nok") && rs[j].sok == boolean(op, "sok")
				for k, v := range rs[j].observed() {
					same = same && sameJSON(v, op[k])
				}
				op["same"] = same
			}
		}
		dog.leave(i)
		lines[i] = scenarioText(ops)
	})
	write(out, lines)
}

// replay executes given programs again and records them.
func replay(profile, in, out, hang string) {
	p := base()
	if f, ok := profiles[profile]; ok {
		p = f()
	}
	scs := readScenarios(in)
	lines := make([]string, len(scs))
	dog := newWatchdog(hang)
	parallel(len(scs), func(i int) {
		ops := scs[i]
		dog.enter(i, func() []T { return ops })
		lines[i] = scenarioText(execute(ops, &p, int64(i)))
		dog.leave(i)
	})
	write(out, lines)
}

// execute runs the operations of a program, replacing all of its results.
func execute(ops []T, p *prof, seed int64) []T {
	g := &gen{r: rand.New(rand.NewSource(seed)), p: p}
	w := newWorld(p.opts.mutate)
	rs := make([]rendering, len(ops))
	next := 1
	for i, op := range ops {
		switch str(op, "op") {
		case "join":
			observeJoin(op)
			continue
		case "lex":
			observeLex(op)
			continue
		case "is":
			w.observeIs(op)
			continue
		case "stmt":
			w.observeStmt(op)
			continue
		case "parts":
			w.observeParts(op)
			continue
		}
		var ok bool
		ok, rs[i] = w.step(op, next)
		if isConstruction(op) {
			op["ok"] = ok
			op["kept"] = !w.touched
			if ok {
				next++
			}
		}
	}
	finish(g, ops, rs, p.opts)
	return ops
}
