package main

// Replays walks of spec/BulkRuns.tla on the real bulk ingestion (updater.Manager): certificates of the specification
// stand for families of certificates that share names, workers and batch sizes vary, loads into the database fail.

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/statistics"
)

func init() { drivers["bulk"] = bulkDriver }

type bulkState struct{ Must, May []string }
type bulkAct struct {
	Op string
	S  []string
	Ok bool
}

type bulkWorld struct {
	*dbWorld
	fams map[string][]updater.Certificate
	all  map[string]string // certificate identifier -> family
}

func (w *bulkWorld) build(rng *rand.Rand, size int) {
	w.fams, w.all = map[string][]updater.Certificate{}, map[string]string{}
	shared := make([]string, 2+rng.Intn(6))
	for i := range shared {
		shared[i] = fmt.Sprintf("shared%d.example.com", i)
	}
	var prev []updater.Certificate
	for _, f := range strings.Split("a b c d e f", " ") {
		n := 1 + rng.Intn(size)
		for i := 0; i < n; i++ {
			raw := make([]byte, 1+rng.Intn(900))
			if rng.Intn(40) == 0 {
				raw = make([]byte, 50000+rng.Intn(50000))
			}
			rng.Read(raw)
			c := updater.Certificate{Raw: raw, CertID: sha256.Sum256(raw),
				NotAfter: epoch.Add(time.Duration(rng.Intn(1e6)) * time.Second).In(time.FixedZone("x", (rng.Intn(24)-12)*3600))}
			if len(prev) > 0 && rng.Intn(3) > 0 {
				id := prev[rng.Intn(len(prev))].CertID
				c.ParentID = &id
			}
			switch rng.Intn(4) {
			case 0:
			case 1:
				c.Names = []string{fmt.Sprintf("%s%d.own.org", f, i)}
			default:
				for _, j := range rng.Perm(len(shared))[:1+rng.Intn(2)] {
					c.Names = append(c.Names, shared[j])
				}
				if rng.Intn(2) == 0 {
					c.Names = append(c.Names, fmt.Sprintf("%s%d.own.org", f, i))
				}
				if rng.Intn(4) == 0 {
					c.Names = append(c.Names, c.Names[0])
				}
			}
			w.all[string(c.CertID[:])] = f
			w.fams[f] = append(w.fams[f], c)
			prev = append(prev, c)
		}
	}
}

// expected rows of the tables for a set of families
func (w *bulkWorld) rowsOf(fams []string) map[string]map[string]bool {
	out := map[string]map[string]bool{"certs": {}, "domains": {}, "domain_certs": {}, "dirty": {}}
	for _, f := range fams {
		for _, c := range w.fams[f] {
			p := ""
			if c.ParentID != nil {
				p = string(c.ParentID[:])
			}
			out["certs"][fmt.Sprintf("%x|%x|%s|%x", c.CertID, p, c.NotAfter.UTC().Format(time.DateTime), sha256.Sum256(c.Raw))] = true
			for _, n := range c.Names {
				out["domains"][fmt.Sprintf("%x|%s", nameID(n), n)] = true
				out["domain_certs"][fmt.Sprintf("%x|%x", nameID(n), c.CertID)] = true
				out["dirty"][fmt.Sprintf("%x", nameID(n))] = true
			}
		}
	}
	return out
}

func (w *bulkWorld) stored() map[string]map[string]bool {
	out := map[string]map[string]bool{"certs": {}, "domains": {}, "domain_certs": {}, "dirty": {}}
	for _, r := range w.rows("SELECT cert_id,parent_id,expiration,payload FROM certs") {
		out["certs"][fmt.Sprintf("%x|%x|%s|%x", r[0].String, r[1].String, r[2].String, sha256.Sum256([]byte(r[3].String)))] = true
	}
	for _, r := range w.rows("SELECT domain_id,domain_name FROM domains") {
		out["domains"][fmt.Sprintf("%x|%s", r[0].String, r[1].String)] = true
	}
	for _, r := range w.rows("SELECT domain_id,cert_id FROM domain_certs") {
		out["domain_certs"][fmt.Sprintf("%x|%x", r[0].String, r[1].String)] = true
	}
	for _, r := range w.rows("SELECT domain_id FROM dirty") {
		out["dirty"][fmt.Sprintf("%x", r[0].String)] = true
	}
	return out
}

// excuse tells that a missing association is another one of the known finding; whether there was one
func byName(rows map[string]bool) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for r := range rows {
		if out[r[:64]] == nil {
			out[r[:64]] = map[string]bool{}
		}
		out[r[:64]][r] = true
	}
	return out
}

func between(got, must, may map[string]map[string]bool, excuse func(row string) bool) (string, string, bool) {
	excused := false
	for _, t := range []string{"certs", "domains", "domain_certs", "dirty"} {
		var miss, extra []string
		for k := range must[t] {
			if t == "domain_certs" && !got[t][k] && excuse != nil && excuse(k) {
				excused = true
				continue
			}
			if !got[t][k] {
				miss = append(miss, k)
			}
		}
		for k := range got[t] {
			if !must[t][k] && !may[t][k] {
				extra = append(extra, k)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		if len(miss) > 0 {
			return "missing-" + t, fmt.Sprintf("%d of %d rows are missing in %s, e.g. %.150s", len(miss), len(must[t]), t, miss[0]), excused
		}
		if len(extra) > 0 {
			return "extra-" + t, fmt.Sprintf("%d rows too many in %s, e.g. %.150s", len(extra), t, extra[0]), excused
		}
	}
	return "", "", excused
}

// one stream through the manager
func (w *bulkWorld) run(m *updater.Manager, stream []updater.Certificate, feeders int, hang time.Duration) (err error, hung bool) {
	done := make(chan error, 1)
	over := make(chan struct{})
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	m.Resume(ctx)
	go func() {
		e := guardErr(func() error { return m.Wait(ctx) })
		close(over)
		done <- e
	}()
	var wg sync.WaitGroup
	in := m.IncomingCertChan
	for k := 0; k < feeders; k++ {
		part := []updater.Certificate{}
		for i := k; i < len(stream); i += feeders {
			part = append(part, stream[i])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, c := range part {
				select {
				case in <- c:
				case <-over:
					return
				}
			}
		}()
	}
	fed := make(chan struct{})
	go func() { wg.Wait(); m.Stop(); close(fed) }()
	select {
	case err = <-done:
		<-fed
		return err, false
	case <-time.After(hang):
		return nil, true
	}
}

func bulkDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("bulk", flag.ExitOnError)
	port := fs.Int("port", 0, "")
	edges := fs.String("edges", "", "")
	nw := fs.Int("worlds", 5, "")
	budget := fs.Duration("budget", 40*time.Second, "")
	hang := fs.Duration("hang", 60*time.Second, "")
	fs.Parse(args)
	g := lib.LoadGraph(*edges)
	var states []bulkState
	var acts []bulkAct
	for _, s := range g.States {
		var x bulkState
		lib.Must(json.Unmarshal(s, &x))
		states = append(states, x)
	}
	for _, e := range g.Edges {
		var x bulkAct
		lib.Must(json.Unmarshal(e.Act, &x))
		acts = append(acts, x)
	}
	end := time.Now().Add(*budget)
	var wg sync.WaitGroup
	var mu sync.Mutex
	shapes := map[string]int{}
	var once sync.Once
	for i := 0; i < *nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(lib.Seed()*1000 + int64(i)))
			w := &bulkWorld{dbWorld: newDBWorld(*port, fmt.Sprintf("bulk_%d", i), lib.Seed()*100+int64(i))}
			defer w.close()
			for time.Now().Before(end) && res.NumViolations() < 7 {
				walk := g.RandomWalk(rng, 2+rng.Intn(8), func(e int) float64 {
					if acts[e].Op == "Forget" {
						return 0.7
					}
					if !acts[e].Ok {
						return 0.7
					}
					return 1
				})
				w.build(rng, []int{3, 20, 60}[rng.Intn(3)])
				w.reset()
				W := []int{1, 2, 3, 4, 5, 8, 16}[rng.Intn(7)]
				B := []int{1, 2, 3, 7, 16, 64, 1000}[rng.Intn(7)]
				var m *updater.Manager
				done := []string{fmt.Sprintf("workers %d, batch %d", W, B)}
				bad := func(key, what string) {
					sizes := map[string]int{}
					for f, c := range w.fams {
						sizes[f] = len(c)
					}
					res.Violate(key, what+fmt.Sprintf(" (after %v)", done), map[string]any{"calls": done, "walk": g.Acts(walk), "families": sizes})
				}
				ok := true
				var owed []map[string]map[string]bool // associations of every successful run, by name
				var since []string // families stored since the work list was emptied
				for _, e := range walk {
					a, t := acts[e], states[g.Edges[e].To]
					if a.Op == "Forget" {
						done = append(done, "forget")
						w.reset()
						since, m, owed = nil, nil, nil // what a failed run left over in the manager may be stored by its next run
						continue
					}
					if m == nil || rng.Intn(4) == 0 {
						var err error
						perr := guardErr(func() error {
							m, err = updater.NewManager(W, w.conn, B, statistics.NewStatistics(time.Hour, nil))
							return err
						})
						if perr != nil {
							bad("new", fmt.Sprintf("no manager with %d workers: %v", W, perr))
							ok = false
							break
						}
						done = append(done, "new")
					}
					var stream []updater.Certificate
					for _, f := range a.S {
						for _, c := range w.fams[f] {
							stream = append(stream, c)
							if rng.Intn(5) == 0 {
								stream = append(stream, c)
							}
						}
					}
					rng.Shuffle(len(stream), func(i, j int) { stream[i], stream[j] = stream[j], stream[i] })
					feeders := 1 + rng.Intn(3)
					desc := fmt.Sprintf("run %v (%d certificates, %d feeders)", a.S, len(stream), feeders)
					if !a.Ok {
						shape := []string{"LOAD DATA CONCURRENT INFILE ", "", "", ""}[rng.Intn(4)]
						at := 1 + rng.Intn(12)
						w.proxy.ArmShape(shape, at, false, true)
						desc += fmt.Sprintf(" {load %d fails}", at)
					} else {
						w.proxy.Arm(0, false)
					}
					err, hung := w.run(m, stream, feeders, *hang)
					for s, n := range w.proxy.Shapes() {
						mu.Lock()
						shapes[s] += n
						mu.Unlock()
					}
					_, cmd := w.proxy.Disarm()
					done = append(done, desc)
					res.Eval(1)
					if hung {
						bad("hang", "the ingestion does not end")
						ok = false
						break
					}
					hit := cmd != ""
					must, may := t.Must, t.May
					if !a.Ok && !hit { // the failure never happened: as the successful step
						must = append(append([]string{}, t.Must...), a.S...)
					}
					if err == nil && hit {
						bad("swallowed", fmt.Sprintf("a load failed (%.60q) but success was reported", cmd))
						ok = false
						break
					}
					if err != nil && !hit {
						bad("error", "ingestion fails: "+err.Error())
						ok = false
						break
					}
					if err != nil && strings.HasPrefix(err.Error(), "panic") {
						bad("panic", err.Error())
						ok = false
						break
					}
					got := w.stored()
					if err == nil {
						since = append(since, a.S...)
						owed = append(owed, byName(w.rowsOf(a.S)["domain_certs"]))
					}
					mustRows := w.rowsOf(must)
					mayRows := w.rowsOf(append(append([]string{}, may...), must...))
					mustRows["dirty"] = w.rowsOf(since)["dirty"]
					// the known finding: a name is associated with only one of the certificates of a run that have it
					excuse := func(row string) bool {
						name := row[:64]
						for _, o := range owed {
							if !o[name][row] {
								continue
							}
							some := false
							for r := range o[name] {
								some = some || got["domain_certs"][r]
							}
							if !some || len(o[name]) < 2 {
								return false
							}
						}
						return true
					}
					k, what, known := between(got, mustRows, mayRows, excuse)
					if known {
						once.Do(func() {
							res.Violate("shared-name", fmt.Sprintf("a name that several certificates of a run have is associated with only one of them (after %v)", done), nil)
						})
					}
					if k != "" {
						bad(k, what)
						ok = false
						break
					}
					if !a.Ok && !hit {
						break
					}
					if rng.Intn(3) == 0 && err == nil { // an update cycle empties the work list
						_, e := w.raw.Exec("DELETE FROM dirty")
						lib.Must(e)
						done = append(done, "(work list emptied)")
						since = nil
					}
				}
				if ok {
					res.Trace(1)
					if len(done) < 6 {
						res.Sample(map[string]any{"calls": done})
					}
				}
			}
		}()
	}
	wg.Wait()
	res.Note("commands", shapes)
	// files of failed runs
	fsn, _ := filepath.Glob(updater.TemporaryDir + "fpki-ingest-*")
	for _, f := range fsn {
		os.Remove(f)
	}
	_ = common.SHA256Output{}
}
