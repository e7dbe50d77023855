package main

// Replays the state graph of spec/MapStore.tla on real databases: after every step the tables are compared with the
// specification's state, after every update also what is served.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"fpkiverif/lib"
)

func init() { drivers["db"] = dbDriver }

type dbGraph struct {
	*lib.Graph
	states []*uState
	acts   []*uAct
}

func loadDBGraph(path string) *dbGraph {
	g := &dbGraph{Graph: lib.LoadGraph(path)}
	for _, s := range g.States {
		x := &uState{}
		if err := json.Unmarshal(s, x); err != nil {
			lib.Fatal("state %s: %v", s, err)
		}
		g.states = append(g.states, x)
	}
	for _, e := range g.Edges {
		x := &uAct{}
		if err := json.Unmarshal(e.Act, x); err != nil {
			lib.Fatal("action %s: %v", e.Act, err)
		}
		g.acts = append(g.acts, x)
	}
	return g
}

type dbJob struct {
	g *dbGraph
	w []int
}

type dbRun struct {
	res     *lib.Result
	u       *universe
	how     string
	answers *answerer
	w       *dbWorld
}

// walk replays one walk of the graph; it reports the first disagreement.
func (r *dbRun) walk(j dbJob) {
	w, g := r.w, j.g
	w.reset()
	done := []string{}
	bad := func(key, what string, i int) {
		r.res.Violate(key, what+fmt.Sprintf(" (after %v)", done), map[string]any{"walk": g.Acts(j.w[:i+1]), "calls": done,
			"universe": r.u, "want": g.states[g.Edges[j.w[i]].To]})
	}
	for i, e := range j.w {
		a, t := g.acts[e], g.states[g.Edges[e].To]
		var err error
		switch a.Op {
		case "Store":
			how := r.how
			if how == "mixed" {
				how = []string{"keep", "keep", "overwrite"}[w.rng.Intn(3)]
			}
			done = append(done, "Store "+a.B+" "+how)
			err = guardErr(func() error { return w.store(r.u, r.u.Batches[a.B], how) })
		case "Prune":
			done = append(done, fmt.Sprintf("Prune %d", a.T))
			err = guardErr(func() error { return w.prune(a.T) })
		case "Update":
			done = append(done, "Update")
			err = guardErr(w.update)
		}
		if err != nil {
			bad("error", "the call fails: "+err.Error(), i)
			return
		}
		r.res.Eval(1)
		if k, what := w.checkTables(r.u, t); k != "" {
			bad(k, what, i)
			return
		}
		if a.Op == "Update" {
			if k, what := w.checkServed(r.u, t); k != "" {
				bad(k, what, i)
				return
			}
			if r.answers != nil && a.Ans != nil {
				if k, what := r.answers.check(r, t, a.Ans); k != "" {
					bad(k, what, i)
					return
				}
			}
		} else if i == len(j.w)-1 || w.rng.Intn(3) == 0 {
			// between updates the published root stays what the last update made it
			if k, what := w.checkTree(r.u, t.Served); k != "" {
				bad(k+"-between", what, i)
				return
			}
		}
		if w.rng.Intn(6) == 0 {
			w.restart()
		}
	}
	r.res.Trace(1)
	if len(j.w) <= 8 {
		r.res.Sample(map[string]any{"universe": w.name, "calls": done})
	}
}

func dbDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("db", flag.ExitOnError)
	port := fs.Int("port", 0, "")
	upath := fs.String("universe", "", "")
	edges := fs.String("edges", "", "")
	nw := fs.Int("worlds", 6, "")
	how := fs.String("how", "mixed", "")
	maxLen := fs.Int("len", 40, "")
	budget := fs.Duration("budget", 60*time.Second, "")
	random := fs.Int("random", 0, "random walks after the covering ones")
	answers := fs.Bool("answers", false, "")
	zone := fs.String("zone", "", "")
	lists := fs.Int("lists", 0, "number of long-list queries")
	crash := fs.Bool("crash", false, "")
	fs.Parse(args)
	setZone(*zone)

	g := loadDBGraph(*edges)
	u := loadUniverse(*upath, lib.Seed())
	rng := rand.New(rand.NewSource(lib.Seed()))
	// stores that change nothing are as interesting as others: every edge is walked, in random order, as far as time allows
	walks := g.CoverWalks(rng, *maxLen)
	rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	for i := 0; i < *random; i++ {
		walks = append(walks, g.RandomWalk(rng, *maxLen, func(e int) float64 {
			if g.acts[e].Op == "Update" && g.Edges[e].From != g.Edges[e].To {
				return 3
			}
			return 1
		}))
	}
	if *crash { // updates matter most
		rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	}
	total := 0
	for _, w := range walks {
		total += len(w)
	}
	st := &crashStats{last: map[string]int{}, next: map[string]int{}, cmds: map[string]int{}, shapes: map[string]map[string]int{}}
	var ans *answerer
	if *answers {
		ans = newAnswerer(u)
	}
	jobs := make(chan dbJob)
	var wg sync.WaitGroup
	var covered sync.Map
	var ncov atomic.Int64
	for i := 0; i < *nw; i++ {
		w := newDBWorld(*port, fmt.Sprintf("verif_%d", i), lib.Seed()*100+int64(i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.close()
			r := &dbRun{res: res, u: u, how: *how, w: w, answers: ans}
			if i == 0 && *lists > 0 {
				dbLongLists(res, w, *lists)
			}
			for j := range jobs {
				if res.NumViolations() < 8 {
					if *crash {
						r.crashWalk(j, st)
					} else {
						r.walk(j)
					}
					for _, e := range j.w {
						if _, ok := covered.LoadOrStore(e, true); !ok {
							ncov.Add(1)
						}
					}
				}
			}
		}()
	}
	t0 := time.Now()
	n := 0
	for _, w := range walks {
		if time.Since(t0) > *budget {
			break
		}
		jobs <- dbJob{g, w}
		n++
	}
	close(jobs)
	wg.Wait()
	if *crash {
		res.Note("interrupted at", st.cmds)
	}
	res.Note("walks", fmt.Sprintf("%d of %d walks, %d of %d edges of %d states, %.1fs", n, len(walks), ncov.Load(), len(g.Edges),
		len(g.States), time.Since(t0).Seconds()))
}

// setZone makes the process believe it runs in another time zone.
func setZone(z string) {
	if z == "" {
		return
	}
	d, err := time.ParseDuration(z)
	lib.Must(err)
	time.Local = time.FixedZone("verif", int(d.Seconds()))
}
