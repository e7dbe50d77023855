package main

// Fetching from growing logs into the database: walks of spec/Progress.tla replayed on the real updater with logs that
// give the batches the walk says; after each step the recorded positions and the stored certificates are compared.

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
)

func init() { drivers["progress"] = progressDriver }

var errPlanned = fmt.Errorf("planned failure")

// progressPlan is what the next steps shall do.
type progressPlan struct {
	log   int // the log that gives the next batch
	n     int // entries in it
	fail  string
	op    int // the operation that fails in storing
	fired bool
}

type progressConn struct {
	db.Conn
	w *progressWorld
}

func (c progressConn) op(i int, f func() error) error {
	p := &c.w.plan
	if p.op == i && p.fail == "store" {
		p.fired = true
		return errPlanned
	}
	if err := f(); err != nil {
		return err
	}
	// the last one: all of it was stored before
	if p.op == i && p.fail == "stored" {
		p.fired = true
		c.w.partial = true
		return errPlanned
	}
	return nil
}
func (c progressConn) UpdateCerts(ctx context.Context, ids []common.SHA256Output, parents []*common.SHA256Output, exps []time.Time, payloads [][]byte) error {
	return c.op(0, func() error { return c.Conn.UpdateCerts(ctx, ids, parents, exps, payloads) })
}
func (c progressConn) InsertDomainsIntoDirty(ctx context.Context, ids []common.SHA256Output) error {
	return c.op(1, func() error { return c.Conn.InsertDomainsIntoDirty(ctx, ids) })
}
func (c progressConn) UpdateDomains(ctx context.Context, ids []common.SHA256Output, names []string) error {
	return c.op(2, func() error { return c.Conn.UpdateDomains(ctx, ids, names) })
}
func (c progressConn) UpdateDomainCerts(ctx context.Context, ids, certs []common.SHA256Output) error {
	return c.op(3, func() error { return c.Conn.UpdateDomainCerts(ctx, ids, certs) })
}
func (c progressConn) LastCTlogServerState(ctx context.Context, url string) (int64, []byte, error) {
	if c.w.plan.fail == "position" && url == c.w.urls[c.w.plan.log] {
		c.w.plan.fired = true
		return 0, nil, errPlanned
	}
	return c.Conn.LastCTlogServerState(ctx, url)
}
func (c progressConn) UpdateLastCTlogServerState(ctx context.Context, url string, size int64, sth []byte) error {
	p := &c.w.plan
	if p.fail == "record" {
		p.fired = true
		return errPlanned
	}
	if err := c.Conn.UpdateLastCTlogServerState(ctx, url, size, sth); err != nil {
		return err
	}
	if p.fail == "recorded" {
		p.fired = true
		return errPlanned
	}
	return nil
}

type progressLog struct {
	w          *progressWorld
	l          int
	next, last int64
	started    bool
}

func (f *progressLog) Initialize(time.Time) error {
	if f.w.plan.fail == "initialise" && f.w.plan.log == f.l {
		f.w.plan.fired = true
		return errPlanned
	}
	return nil
}
func (f *progressLog) URL() string { return f.w.urls[f.l] }
func (f *progressLog) GetCurrentState(_ context.Context, orig logfetcher.State) (logfetcher.State, error) {
	if f.w.plan.fail == "size" && f.w.plan.log == f.l {
		f.w.plan.fired = true
		return logfetcher.State{}, errPlanned
	}
	n := int64(f.w.size[f.l]) * progressScale
	return logfetcher.State{Size: uint64(n), STH: f.w.head(f.l, n)}, nil
}
func (f *progressLog) StartFetching(start, end int64) {
	f.next, f.last, f.started = start, end, true
	size, _, err := f.w.db.conn.LastCTlogServerState(bg, f.URL())
	lib.Must(err)
	if start != size {
		f.w.fail("resume", fmt.Sprintf("log %d is fetched from %d on, the recorded position is %d", f.l, start, size))
	}
	if end != int64(f.w.size[f.l])*progressScale-1 {
		f.w.fail("resume", fmt.Sprintf("log %d is fetched up to %d, it has %d entries", f.l, end, f.w.size[f.l]*progressScale))
	}
}
func (f *progressLog) StopFetching() { f.started = false }
func (f *progressLog) NextBatch(ctx context.Context) bool {
	return f.w.plan.log == f.l && f.w.plan.n > 0 && f.started && f.next <= f.last
}
func (f *progressLog) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	if f.w.plan.fail == "fetch" {
		f.w.plan.fired = true
		return nil, nil, 0, errPlanned
	}
	cs, chains, ex := []ctx509.Certificate{}, [][]*ctx509.Certificate{}, 0
	for k := int64(0); k < int64(f.w.plan.n)*progressScale; k++ {
		e := f.w.entry(f.l, f.next)
		f.next++
		if e.excluded {
			ex++
			continue
		}
		cs = append(cs, *e.cert)
		chains = append(chains, e.chain)
	}
	return cs, chains, ex, nil
}

const progressScale = 3

type progressEntry struct {
	cert     *ctx509.Certificate
	chain    []*ctx509.Certificate
	excluded bool
}

type progressWorld struct {
	res     *lib.Result
	db      *dbWorld
	urls    map[int]string
	size    map[int]int
	plan    progressPlan
	partial bool
	cas     []*ctx509.Certificate
	entries map[string]progressEntry
	hide    bool // an entry of the specification may consist of excluded ones only
	failed  bool
	acts    []json.RawMessage
}

func (w *progressWorld) fail(key, what string) {
	w.failed = true
	w.res.Violate(key, what, w.acts)
}

func (w *progressWorld) head(l int, n int64) []byte {
	return []byte(fmt.Sprintf("head %d of log %d", n, l))
}

func (w *progressWorld) entry(l int, i int64) progressEntry {
	k := fmt.Sprint(l, "/", i)
	if e, ok := w.entries[k]; ok {
		return e
	}
	h := sha256.Sum256([]byte(k))
	e := progressEntry{excluded: i%progressScale == int64(h[0])%progressScale || (w.hide && (i/progressScale)%2 == 0)}
	e.cert = makeCert(int64(l)<<32+i+1, "", []string{fmt.Sprintf("e%d.l%d.com", i, l), fmt.Sprintf("x%d.l%d.com", i, l)}, time.Date(2080, 1, 1, int(i), 0, 0, 0, time.UTC))
	for j := 0; j < int(h[1])%4; j++ {
		e.chain = append(e.chain, w.cas[(int(h[2])+j)%len(w.cas)])
	}
	w.entries[k] = e
	return e
}

// missing tells which of the entries of a log is not stored with all that belongs to it.
func (w *progressWorld) missing(certs map[string]bool, names map[string]bool, e progressEntry) string {
	all := append([]*ctx509.Certificate{e.cert}, e.chain...)
	for k, c := range all {
		id := sha256.Sum256(c.Raw)
		row := func(parent string) string {
			return fmt.Sprintf("%x|%x|%s|%x", id, parent, c.NotAfter.UTC().Format(time.DateTime), sha256.Sum256(c.Raw))
		}
		parent := ""
		if k+1 < len(all) {
			p := sha256.Sum256(all[k+1].Raw)
			parent = string(p[:])
		}
		if k == 0 && !certs[row(parent)] {
			return "the certificate (with its parent, expiration and payload)"
		}
		if k > 0 {
			// one certificate may be in several chains, with another parent in each
			found := false
			for _, p := range append([]*ctx509.Certificate{nil}, w.cas...) {
				parent := ""
				if p != nil {
					x := sha256.Sum256(p.Raw)
					parent = string(x[:])
				}
				found = found || certs[row(parent)]
			}
			if !found {
				return fmt.Sprintf("certificate %d of the chain (with its expiration and payload)", k)
			}
		}
	}
	id := sha256.Sum256(e.cert.Raw)
	for _, n := range e.cert.DNSNames {
		if !names[fmt.Sprintf("%x|%x", nameID(n), id)] {
			return "that " + n + " has the certificate"
		}
	}
	return ""
}

func (w *progressWorld) tables() (certs, names map[string]bool) {
	certs, names = map[string]bool{}, map[string]bool{}
	for _, r := range w.db.rows("SELECT cert_id,parent_id,expiration,payload FROM certs") {
		certs[fmt.Sprintf("%x|%x|%s|%x", r[0].String, r[1].String, r[2].String, sha256.Sum256([]byte(r[3].String)))] = true
	}
	for _, r := range w.db.rows("SELECT domain_id,cert_id FROM domain_certs") {
		names[fmt.Sprintf("%x|%x", r[0].String, r[1].String)] = true
	}
	return
}

type progressState struct {
	Size, Rec     []int
	Stored        [][]int
	At            int
	Open          bool
	Last, Target  int
	Fails, Cycles int
}

func (w *progressWorld) compare(s *progressState) {
	certs, names := w.tables()
	for l := 1; l <= len(s.Rec); l++ {
		size, sth, err := w.db.conn.LastCTlogServerState(bg, w.urls[l])
		lib.Must(err)
		want := int64(s.Rec[l-1]) * progressScale
		if size != want {
			w.fail("position", fmt.Sprintf("the recorded position of log %d is %d instead of %d", l, size, want))
			return
		}
		if want > 0 && string(sth) != string(w.head(l, want)) {
			w.fail("head", fmt.Sprintf("the recorded head of log %d is %q, its position is %d", l, sth, size))
			return
		}
		for _, i := range s.Stored[l-1] {
			for j := int64(i) * progressScale; j < int64(i+1)*progressScale; j++ {
				e := w.entry(l, j)
				if e.excluded {
					continue
				}
				if m := w.missing(certs, names, e); m != "" {
					w.fail("stored", fmt.Sprintf("entry %d of log %d was processed, but %s is not stored", j, l, m))
					return
				}
			}
		}
	}
}

func progressDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("progress", flag.ExitOnError)
	graph := fs.String("graph", "", "")
	port := fs.Int("port", 0, "")
	budget := fs.Duration("budget", time.Minute, "")
	lib.Must(fs.Parse(args))
	defer quiet()()
	setZone("")
	rng := rand.New(rand.NewSource(lib.Seed()))
	g := lib.LoadGraph(*graph)
	walks := g.CoverWalks(rng, 40)
	rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	states := make([]progressState, len(g.States))
	for i, s := range g.States {
		lib.Must(json.Unmarshal(s, &states[i]))
		for k := range states[i].Stored {
			sort.Ints(states[i].Stored[k])
		}
	}
	deadline := time.Now().Add(*budget)
	var mu sync.Mutex
	ran, next := 0, 0
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		seed := rng.Int63()
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed))
			w := newDBWorld(*port, fmt.Sprintf("progress%d", k), seed)
			defer w.close()
			cas := []*ctx509.Certificate{}
			for j := int64(0); j < 4; j++ {
				cas = append(cas, makeCert(900+j, "", nil, time.Date(2070, 1, 1, int(j), 0, 0, 0, time.UTC)))
			}
			for time.Now().Before(deadline) && res.NumViolations() < 10 {
				mu.Lock()
				if next >= len(walks) {
					mu.Unlock()
					break
				}
				walk := walks[next]
				next++
				mu.Unlock()
				if err := guardErr(func() error { progressWalk(res, w, rng, g, states, walk, cas); return nil }); err != nil {
					res.Violate("crash", err.Error(), g.Acts(walk))
				}
				mu.Lock()
				ran++
				mu.Unlock()
			}
			for j := 0; j < lib.Pick(4, 30); j++ {
				progressLocal(res, w, rng, cas)
			}
		}()
	}
	wg.Wait()
	res.Note("walks", len(walks))
	res.Note("walks_run", ran)
}

func progressWalk(res *lib.Result, d *dbWorld, rng *rand.Rand, g *lib.Graph, states []progressState, walk []int, cas []*ctx509.Certificate) {
	d.reset()
	w := &progressWorld{res: res, db: d, size: map[int]int{}, cas: cas, entries: map[string]progressEntry{}}
	w.urls = [][]map[int]string{{
		{1: "https://log/a", 2: "https://log/a/"}, {1: "https://log/a", 2: "https://LOG/a"}, {1: "https://log/aa", 2: "https://log/a"}, {1: "https://log/2024", 2: "https://log/2025"},
	}}[0][rng.Intn(4)]
	first := states[g.Init[0]]
	for l, n := range first.Size {
		w.size[l+1] = n
	}
	w.hide = true
	for _, e := range walk {
		var a struct{ How string }
		lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
		if a.How == "store" || a.How == "stored" {
			w.hide = false // there is something to store in each batch
		}
	}
	w.hide = w.hide && rng.Intn(2) == 0
	var u *updater.MapUpdater
	fresh := func() {
		u = &updater.MapUpdater{Fetchers: []logfetcher.Fetcher{&progressLog{w: w, l: 1}, &progressLog{w: w, l: 2}}, Conn: progressConn{d.conn, w}}
	}
	fresh()
	idle := true
	for _, e := range walk {
		var a struct {
			What, How string
			Log, N    int
		}
		lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
		w.acts = append(w.acts, g.Edges[e].Act)
		t := &states[g.Edges[e].To]
		w.plan = progressPlan{op: rng.Intn(4)}
		switch a.What {
		case "grow":
			w.size[a.Log] += a.N
		case "cycle":
			if a.How == "restart" {
				if rng.Intn(3) == 0 {
					d.restart()
				}
				fresh()
			}
			lib.Must(u.StartFetchingRemaining())
			idle = false
		case "open":
			// happens when the next batch is asked for
			if a.How == "-" {
				break
			}
			w.plan.log, w.plan.fail = a.Log, a.How
			if ok, err := u.NextBatch(bg); err == nil || ok {
				w.fail("failure", fmt.Sprintf("opening log %d failed (%s), but the next batch is %v, error %v", a.Log, a.How, ok, err))
				return
			}
			idle = true
		case "skip":
			if t.At != 0 {
				break
			}
			if ok, err := u.NextBatch(bg); err != nil || ok {
				w.fail("end", fmt.Sprintf("all logs were fetched, but there is a next batch (%v, error %v)", ok, err))
				return
			}
			idle = true
		case "batch":
			w.plan.log, w.plan.n = a.Log, a.N
			if ok, err := u.NextBatch(bg); err != nil || !ok {
				w.fail("batch", fmt.Sprintf("log %d has a batch, but the updater says %v, error %v", a.Log, ok, err))
				return
			}
			if a.How != "-" {
				w.plan.fail = a.How
			}
			if a.How == "stored" {
				w.plan.op = 3
			}
			_, err := u.UpdateNextBatch(bg)
			if a.How != "-" && !w.plan.fired {
				// this way to fail doesn't occur here
				res.Count("not_fired", 1)
				return
			}
			if (err == nil) != (a.How == "-") {
				w.fail("batch", fmt.Sprintf("a batch of log %d (failing: %s) ends with error %v", a.Log, a.How, err))
				return
			}
			idle = idle || a.How != "-"
		}
		if w.failed {
			return
		}
		// what the updater does only when asked for the next batch has not happened yet
		_ = idle
		w.compare(t)
		if w.failed {
			return
		}
		res.Eval(1)
	}
	res.Trace(1)
}

// progressLocal: certificates that are given directly, with their chains.
func progressLocal(res *lib.Result, d *dbWorld, rng *rand.Rand, cas []*ctx509.Certificate) {
	d.reset()
	w := &progressWorld{res: res, db: d, cas: cas, entries: map[string]progressEntry{}}
	u := &updater.MapUpdater{Conn: d.conn}
	var es []progressEntry
	n := 1 + rng.Intn(6)
	raw, chains := [][]byte{}, [][][]byte{}
	lens := []int{}
	for i := 0; i < n; i++ {
		e := progressEntry{cert: makeCert(rng.Int63(), "", []string{fmt.Sprintf("d%d.com", i)}, time.Date(2080, 1, 1, rng.Intn(1000), 0, 0, 0, time.UTC))}
		var ch [][]byte
		for j, at := 0, rng.Intn(4); j < rng.Intn(4); j++ {
			e.chain = append(e.chain, cas[(at+j)%4])
			ch = append(ch, cas[(at+j)%4].Raw)
		}
		es = append(es, e)
		raw = append(raw, e.cert.Raw)
		chains = append(chains, ch)
		lens = append(lens, len(ch))
	}
	w.acts = []json.RawMessage{json.RawMessage(fmt.Sprintf(`"chains of %v"`, lens))}
	if err := guardErr(func() error { return u.UpdateCertsLocally(bg, raw, chains) }); err != nil {
		w.fail("local", fmt.Sprintf("storing certificates with chains of %v: %v", lens, err))
		return
	}
	certs, names := w.tables()
	for i, e := range es {
		if m := w.missing(certs, names, e); m != "" {
			w.fail("local", fmt.Sprintf("certificate %d of those with chains of %v: %s is not stored", i, lens, m))
			return
		}
	}
	res.Eval(1)
}
