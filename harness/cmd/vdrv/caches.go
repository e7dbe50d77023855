package main

// Concurrent use of the caches, recorded for spec/CacheRuns.tla, and walks of spec/Lru.tla.

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/cache"
	"github.com/netsec-ethz/fpki/pkg/common"
)

func init() {
	drivers["cache"] = cacheDriver
	drivers["lru"] = lruDriver
}

type cacheEvent struct {
	K string
	C int
	I []int
	A bool
}

func cacheID(i int) *common.SHA256Output {
	x := common.SHA256Hash32Bytes([]byte(fmt.Sprint("id", i)))
	return &x
}

func cacheDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("cache", flag.ExitOnError)
	out := fs.String("runs", "", "")
	budget := fs.Duration("budget", 20*time.Second, "")
	fs.Parse(args)
	f, err := os.Create(*out)
	lib.Must(err)
	defer f.Close()
	end := time.Now().Add(*budget)
	rng := rand.New(rand.NewSource(lib.Seed()*17 + 3))
	recorded, n := 0, 0
	max := lib.Pick(300, 2000)
	for time.Now().Before(end) && res.NumViolations() < 4 {
		n++
		var c cache.Cache
		var what string
		ids := 1 + rng.Intn(6)
		many := 1 // identifiers that are always added together, one of the specification
		if rng.Intn(4) > 0 {
			many = []int{1, 1, 4, 60}[rng.Intn(4)]
			c, what = cache.NewPresenceCache(rng.Intn(4)), "presence"
		} else {
			c, what = cache.NewLruCache(ids+rng.Intn(3)), "bounded"
		}
		readers, writers := 1+rng.Intn(4), 1+rng.Intn(3)
		per := []int{2, 6, 200}[rng.Intn(3)]
		var mu sync.Mutex
		var ev []cacheEvent
		see := func(k string, who int, id []int, a bool) {
			mu.Lock()
			ev = append(ev, cacheEvent{k, who, append([]int{}, id...), a})
			mu.Unlock()
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		seed := rng.Int63()
		keep := per < 200 // long runs are not recorded, so that nothing slows them down
		added := map[int]bool{}
		for k := 0; k < readers+writers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed + int64(k)))
				<-start
				for j := 0; j < per; j++ {
					if rng.Intn(3) == 0 {
						runtime.Gosched()
					}
					if k < readers {
						i := rng.Intn(ids)
						if keep {
							see("ask", k, []int{i}, false)
						}
						a := c.Contains(cacheID(i + 100*rng.Intn(many)))
						if keep {
							see("told", k, []int{i}, a)
						}
						continue
					}
					var l []int
					var p []*common.SHA256Output
					for m := 1 + rng.Intn(3); m > 0; m-- {
						i := rng.Intn(ids)
						l = append(l, i)
						for g := 0; g < many; g++ {
							p = append(p, cacheID(i+100*g))
						}
					}
					if many > 1 {
						rng.Shuffle(len(p), func(a, b int) { p[a], p[b] = p[b], p[a] })
					}
					if keep {
						see("add", k, l, false)
					}
					c.AddIDs(p...)
					if keep {
						see("added", k, l, false)
					} else {
						for _, i := range l {
							if !c.Contains(cacheID(i + 100*rng.Intn(many))) {
								res.Violate("lost", fmt.Sprintf("the %s cache does not have an identifier whose insertion has returned", what), nil)
							}
							mu.Lock()
							added[i] = true
							mu.Unlock()
						}
					}
				}
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			res.Violate("hang", fmt.Sprintf("%d readers and %d writers of the %s cache do not come to an end", readers, writers, what), nil)
			return
		}
		res.Eval(1)
		res.Trace(1)
		if !keep {
			for i := 0; i < ids; i++ {
				if c.Contains(cacheID(i+100*rng.Intn(many))) != added[i] {
					res.Violate("content", fmt.Sprintf("the %s cache says %v of an identifier that was added: %v", what, !added[i], added[i]), nil)
				}
			}
			if p, ok := c.(*cache.PresenceCache); ok && p.Size() != len(added)*many {
				res.Violate("size", fmt.Sprintf("the presence cache has %d elements, %d were added", p.Size(), len(added)*many), nil)
			}
		}
		if c.Contains(cacheID(-1)) {
			res.Violate("invented", "the "+what+" cache has an identifier that was never added", nil)
		}
		if keep && recorded < max && len(ev) < 100 {
			recorded++
			b, _ := json.Marshal(map[string]any{"what": what, "ev": ev})
			f.Write(append(b, '\n'))
		}
	}
	res.Count("recorded", recorded)
	if cache.NewNoCache().Contains(cacheID(1)) {
		res.Violate("invented", "the empty cache has an identifier", nil)
	}
}

func lruDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("lru", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	capa := fs.Int("cap", 1, "")
	fs.Parse(args)
	g := lib.LoadGraph(*edges)
	type st struct{ Order, Ever []int }
	states := make([]st, len(g.States))
	for i, s := range g.States {
		lib.Must(json.Unmarshal(s, &states[i]))
	}
	rng := rand.New(rand.NewSource(lib.Seed()))
	for _, walk := range g.CoverWalks(rng, 40) {
		c := cache.NewLruCache(*capa)
		var done [][]int
		for _, e := range walk {
			var xs []int
			lib.Must(json.Unmarshal(g.Edges[e].Act, &xs))
			var p []*common.SHA256Output
			for _, x := range xs {
				p = append(p, cacheID(x))
			}
			if rng.Intn(3) == 0 {
				c.Contains(cacheID(1 + rng.Intn(4)))
			}
			c.AddIDs(p...)
			done = append(done, xs)
			t := states[g.Edges[e].To]
			res.Eval(1)
			in := func(l []int, x int) bool {
				for _, y := range l {
					if x == y {
						return true
					}
				}
				return false
			}
			for x := 0; x <= 5; x++ {
				got := c.Contains(cacheID(x))
				if got && !in(t.Ever, x) {
					res.Violate("lru-invented", fmt.Sprintf("capacity %d, after adding %v: has %d", *capa, done, x), done)
				}
				if !got && in(t.Order, x) {
					res.Violate("lru-lost", fmt.Sprintf("capacity %d, after adding %v: %d, one of the most recent, is missing", *capa, done, x), done)
				}
			}
			if c.Len() > *capa {
				res.Violate("lru-size", fmt.Sprintf("capacity %d exceeded: %d", *capa, c.Len()), done)
			}
		}
		res.Trace(1)
	}
}
