package main

// Interrupts the calls of MapStore behaviours at their storage operations (spec/MapCycle.tla): the connection dies
// before or after a command, a command fails, or the server thread is killed in the middle of a stored procedure.

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"
)

type crashStats struct {
	mu     sync.Mutex
	last   map[string]int // commands of the last complete call of a kind
	next   map[string]int
	cmds   map[string]int
	shapes map[string]map[string]int
}

// pick chooses the command to interrupt: all kinds of commands a call was seen to send are equally likely.
func (c *crashStats) pick(rng interface{ Intn(int) int }, op string) (shape string, at int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.shapes[op]) == 0 || rng.Intn(4) == 0 {
		n := max(c.last[op], 10)
		c.next[op]++
		return "", c.next[op]%n + 1
	}
	sh := sortedKeys(c.shapes[op])
	x := sh[rng.Intn(len(sh))]
	return x, 1 + rng.Intn(c.shapes[op][x])
}

func (c *crashStats) done(op string, n int, shapes map[string]int) {
	c.mu.Lock()
	c.last[op] = n
	if c.shapes[op] == nil {
		c.shapes[op] = map[string]int{}
	}
	for s, n := range shapes {
		c.shapes[op][s] = max(n, c.shapes[op][s])
	}
	c.mu.Unlock()
}

func (c *crashStats) cut(fault, cmd string) {
	c.mu.Lock()
	c.cmds[fault+": "+lib.Shape([]byte(cmd))]++
	c.mu.Unlock()
}

// quiet waits until the server has nothing left to do for this database.
func (w *dbWorld) quiet() {
	for i := 0; i < 3000; i++ {
		r := w.rows("SELECT COUNT(*) FROM information_schema.processlist WHERE db=? AND command NOT IN ('Sleep') AND info NOT LIKE '%processlist%'", w.name)
		if r[0][0].String == "0" {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	lib.Fatal("server does not come to rest")
}

// killAt runs the call while writes to a table block, and kills the client and its server threads once they do.
func (w *dbWorld) killAt(table string, call func() error) (err error, hit bool) {
	c, e := w.raw.Conn(context.Background())
	lib.Must(e)
	defer c.Close()
	_, e = c.ExecContext(bg, "LOCK TABLES "+table+" READ")
	lib.Must(e)
	done := make(chan error, 1)
	go func() { done <- guardErr(call) }()
	for {
		select {
		case err = <-done:
			_, e = c.ExecContext(bg, "UNLOCK TABLES")
			lib.Must(e)
			return err, false
		case <-time.After(2 * time.Millisecond):
		}
		r := w.rows("SELECT id FROM information_schema.processlist WHERE db=? AND state LIKE 'Waiting for table%'", w.name)
		if len(r) == 0 {
			continue
		}
		time.Sleep(time.Duration(w.rng.Intn(15)) * time.Millisecond) // other partitions go on meanwhile
		w.proxy.Kill()
		for {
			r := w.rows("SELECT id FROM information_schema.processlist WHERE db=? AND state LIKE 'Waiting for table%'", w.name)
			if len(r) == 0 {
				break
			}
			for _, x := range r {
				w.raw.Exec("KILL CONNECTION " + x[0].String)
			}
			time.Sleep(time.Millisecond)
		}
		err = <-done
		_, e = c.ExecContext(bg, "UNLOCK TABLES")
		lib.Must(e)
		return err, true
	}
}

func (r *dbRun) crashWalk(j dbJob, st *crashStats) {
	w, g := r.w, j.g
	w.reset()
	done := []string{}
	var prevStore func() error
	for i, e := range j.w {
		a, f, t := g.acts[e], g.states[g.Edges[e].From], g.states[g.Edges[e].To]
		bad := func(key, what string) {
			r.res.Violate(key, what+fmt.Sprintf(" (after %v)", done), map[string]any{"walk": g.Acts(j.w[:i+1]), "calls": done,
				"universe": r.u, "want": t})
		}
		var call func() error
		name := a.Op
		switch a.Op {
		case "Store":
			how := []string{"keep", "keep", "overwrite"}[w.rng.Intn(3)]
			call = w.storeCall(r.u, r.u.Batches[a.B], how)
			name += " " + a.B + " " + how
		case "Prune":
			name += fmt.Sprintf(" %d", a.T)
			call = func() error { return w.prune(a.T) }
		case "Update":
			call = w.update
		}
		interrupted := 0
		var published []map[string]uLists // what interrupted updates may have published
		detour := false
		for try := 0; ; try++ {
			var err error
			fault, hit := "none", false
			what := name
			pick := w.rng.Intn(10)
			if try >= 3 || try > 0 && pick < 5 {
				pick = -1 // run through
			}
			switch {
			case pick < 0:
				w.proxy.Arm(0, false)
				err = guardErr(call)
				sh := w.proxy.Shapes()
				n, _ := w.proxy.Disarm()
				if err == nil {
					st.done(a.Op, n, sh)
				}
			case pick < 6:
				shape, k := st.pick(w.rng, a.Op)
				after := pick >= 3
				w.proxy.ArmShape(shape, k, after, false)
				err = guardErr(call)
				_, cmd := w.proxy.Disarm()
				hit = cmd != ""
				fault = "cut before"
				if after {
					fault = "cut after"
				}
				what = fmt.Sprintf("%s {%s command %s#%d: %.60q}", name, fault, shape, k, cmd)
				st.cut(fault, cmd)
			case pick < 8:
				shape, k := st.pick(w.rng, a.Op)
				w.proxy.ArmShape(shape, k, false, true)
				err = guardErr(call)
				_, cmd := w.proxy.Disarm()
				hit = cmd != ""
				fault = "fail"
				what = fmt.Sprintf("%s {command %s#%d fails: %.60q}", name, shape, k, cmd)
				st.cut(fault, cmd)
			default:
				tabs := map[string][]string{"Store": {"certs", "dirty", "domains", "domain_certs", "policies", "domain_policies"},
					"Prune": {"dirty", "certs", "domain_certs"}, "Update": {"domain_payloads", "domains", "dirty", "tree", "root"}}[a.Op]
				tab := tabs[w.rng.Intn(len(tabs))]
				err, hit = w.killAt(tab, call)
				fault = "kill"
				what = fmt.Sprintf("%s {killed writing to %s}", name, tab)
				w.proxy.Disarm()
				if hit {
					st.cut(fault, tab)
				}
			}
			w.quiet()
			if fault != "none" && hit {
				interrupted++
				done = append(done, what)
				if fault != "fail" || w.rng.Intn(2) == 0 {
					w.restart()
				}
			} else {
				done = append(done, name)
			}
			r.res.Eval(1)
			if err != nil && !hit {
				bad("error", "the call fails: "+err.Error())
				return
			}
			if err != nil && strings.HasPrefix(err.Error(), "panic") {
				bad("panic", "the call panics: "+err.Error())
				return
			}
			if err == nil { // the call says it is done
				break
			}
			// what is published is the old or the new tree, whole
			k1, w1 := w.checkTree(r.u, f.Served)
			if a.Op == "Update" {
				for _, sv := range append([]map[string]uLists{t.Served}, published...) {
					if k1 == "" {
						break
					}
					if k2, w2 := w.checkTree(r.u, sv); k2 != "tree" && k2 != "" {
						continue
					} else {
						k1, w1 = k2, w2
					}
				}
			}
			if k1 != "" {
				bad(k1+"-interrupted", w1)
				return
			}
			if a.Op == "Update" && try < 3 && w.rng.Intn(4) == 0 { // something else is stored before the update is repeated
				outs := g.Out[g.Edges[e].From]
				if detour {
					outs = nil
				}
				for _, k := range w.rng.Perm(len(outs)) {
					x := g.acts[outs[k]]
					if x.Op != "Store" {
						continue
					}
					done = append(done, "Store "+x.B+" meanwhile")
					if err := guardErr(func() error { return w.store(r.u, r.u.Batches[x.B], "keep") }); err != nil {
						bad("error", "storing after an interrupted update fails: "+err.Error())
						return
					}
					from := g.Edges[outs[k]].To
					for _, y := range g.Out[from] {
						if g.acts[y].Op == "Update" {
							published = append(published, t.Served)
							f, t, detour = g.states[from], g.states[g.Edges[y].To], true
							break
						}
					}
					break
				}
			}
			if prevStore != nil && w.rng.Intn(3) == 0 { // the whole cycle is repeated from its beginning
				done = append(done, "(store again)")
				if err := guardErr(prevStore); err != nil {
					bad("error", "repeating the store fails: "+err.Error())
					return
				}
			}
		}
		if k, what := w.checkTables(r.u, t); k != "" {
			bad(k, what)
			return
		}
		if a.Op == "Update" {
			if k, what := w.checkServed(r.u, t); k != "" {
				bad(k, what)
				return
			}
		}
		r.res.Count("interruptions", interrupted)
		if detour { // elsewhere in the graph than the walk
			r.res.Count("stored between an interrupted update and its repetition", 1)
			break
		}
		prevStore = nil
		if a.Op == "Store" {
			prevStore = call
		}
	}
	r.res.Trace(1)
	if len(j.w) <= 6 {
		r.res.Sample(map[string]any{"universe": w.name, "calls": done})
	}
}
