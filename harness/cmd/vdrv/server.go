package main

// The map server's update requests: walks of spec/Server.tla as schedules of requesters and of the phases of the cycles
// they cause (each phase is held, and let go or made to fail, at one of its database operations); the histories are
// checked against spec/ServerRuns.tla. After an update that succeeded the answers must contain what it fetched.

import (
	"context"
	crand "crypto/rand"
	"encoding/json"
	"encoding/pem"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
)

func init() { drivers["server"] = serverDriver }

type srvEvent struct {
	K string
	C int
	P string
	S bool
}

type srvKey struct{}

var srvStart sync.Mutex

type opWait struct {
	phase string
	goOn  chan error
}

// srvWorld is a map server on a scratch database, with a log that grows by an entry in each cycle.
type srvWorld struct {
	res    *lib.Result
	db     *dbWorld
	dir    string
	server *mapserver.MapServer
	stop   context.CancelFunc

	mu       sync.Mutex
	ev       []srvEvent
	held     []*opWait
	gating   bool
	active   int
	upto     map[int]int // requester -> entries fetched in its cycle
	entries  []*ctx509.Certificate
	unloaded bool // in this walk loading the tree failed
	served   int  // entries that are known to be served
}

func (w *srvWorld) add(e srvEvent) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

type srvConn struct {
	db.Conn
	w      *srvWorld
	reload bool
}

func (c srvConn) do(ctx context.Context, phase string, f func() error) error {
	id, _ := ctx.Value(srvKey{}).(int)
	w := c.w
	w.mu.Lock()
	w.ev = append(w.ev, srvEvent{"op", id, phase, true})
	if id != 0 {
		w.active = id
	}
	var o *opWait
	if w.gating {
		o = &opWait{phase, make(chan error, 1)}
		w.held = append(w.held, o)
	}
	w.mu.Unlock()
	var err error
	if o != nil {
		err = <-o.goOn
	}
	if err == nil {
		err = f()
	}
	w.add(srvEvent{"opend", id, phase, err == nil})
	return err
}
func (c srvConn) PruneCerts(ctx context.Context, now time.Time) error {
	return c.do(ctx, "prune", func() error { return c.Conn.PruneCerts(ctx, now) })
}
func (c srvConn) LastCTlogServerState(ctx context.Context, url string) (size int64, sth []byte, err error) {
	err = c.do(ctx, "fetch", func() (err error) { size, sth, err = c.Conn.LastCTlogServerState(ctx, url); return })
	return
}
func (c srvConn) UpdateCerts(ctx context.Context, ids []common.SHA256Output, parents []*common.SHA256Output, exps []time.Time, payloads [][]byte) error {
	return c.do(ctx, "certs", func() error { return c.Conn.UpdateCerts(ctx, ids, parents, exps, payloads) })
}
func (c srvConn) RecomputeDirtyDomainsCertAndPolicyIDs(ctx context.Context) error {
	return c.do(ctx, "coalesce", func() error { return c.Conn.RecomputeDirtyDomainsCertAndPolicyIDs(ctx) })
}
func (c srvConn) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
	return c.do(ctx, "save", func() error { return c.Conn.SaveRoot(ctx, root) })
}
func (c srvConn) CleanupDirty(ctx context.Context) error {
	return c.do(ctx, "clean", func() error { return c.Conn.CleanupDirty(ctx) })
}
func (c srvConn) LoadRoot(ctx context.Context) (r *common.SHA256Output, err error) {
	if !c.reload {
		return c.Conn.LoadRoot(ctx)
	}
	err = c.do(ctx, "reload", func() (err error) { r, err = c.Conn.LoadRoot(ctx); return })
	return
}

// srvLog is the log: it has one more entry in each cycle.
type srvLog struct {
	w          *srvWorld
	next, last int64
}

func (l *srvLog) Initialize(time.Time) error {
	w := l.w
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.entries)
	c := makeCert(int64(n)+1, "", []string{fmt.Sprintf("e%d.com", n)}, time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC))
	w.entries = append(w.entries, c)
	w.upto[w.active] = n + 1
	return nil
}
func (l *srvLog) URL() string { return "https://log" }
func (l *srvLog) GetCurrentState(context.Context, logfetcher.State) (logfetcher.State, error) {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	n := len(l.w.entries)
	return logfetcher.State{Size: uint64(n), STH: []byte(fmt.Sprint("sth", n))}, nil
}
func (l *srvLog) StartFetching(start, end int64)     { l.next, l.last = start, end }
func (l *srvLog) StopFetching()                      {}
func (l *srvLog) NextBatch(ctx context.Context) bool { return l.next <= l.last }
func (l *srvLog) ReturnNextBatch() ([]ctx509.Certificate, [][]*ctx509.Certificate, int, error) {
	l.w.mu.Lock()
	defer l.w.mu.Unlock()
	var cs []ctx509.Certificate
	var chains [][]*ctx509.Certificate
	for k := 0; k < 4 && l.next <= l.last; k++ {
		cs = append(cs, *l.w.entries[l.next])
		chains = append(chains, []*ctx509.Certificate{})
		l.next++
	}
	return cs, chains, 0, nil
}

func (w *srvWorld) start(key []byte, cert []byte) {
	lib.Must(os.WriteFile(w.dir+"/key.pem", key, 0o600))
	lib.Must(os.WriteFile(w.dir+"/cert.pem", cert, 0o600))
	ctx, cancel := context.WithCancel(bg)
	srvStart.Lock() // they would deadlock on disabling the redo log
	defer srvStart.Unlock()
	s, err := mapserver.NewMapServer(ctx, &config.Config{
		CTLogServerURLs:     []string{"https://log"},
		DBConfig:            w.db.config(),
		CertificatePemFile:  w.dir + "/cert.pem",
		PrivateKeyPemFile:   w.dir + "/key.pem",
		CsvIngestionMaxRows: 10,
	})
	lib.Must(err)
	s.Updater.Fetchers = []logfetcher.Fetcher{&srvLog{w: w}}
	s.Updater.Conn = srvConn{s.Updater.Conn, w, false}
	gating := w.gating
	w.gating = false
	s.Responder, err = responder.NewMapResponder(bg, srvConn{s.Conn, w, true}, s.Key)
	lib.Must(err)
	w.gating = gating
	w.server, w.stop = s, cancel
}

func (w *srvWorld) end() {
	w.stop()
	w.server.Conn.Close()
	w.server.Updater.Conn.(srvConn).Conn.Close()
	w.server = nil
}

// reflects tells what of the first n entries is not served.
func (w *srvWorld) reflects(n int) string {
	for k := w.served; k < n; k++ {
		name := fmt.Sprintf("e%d.com", k)
		a, err := w.server.Responder.GetProof(bg, name)
		if err != nil {
			return name + ": " + err.Error()
		}
		id := common.SHA256Hash32Bytes(w.entries[k].Raw)
		if len(a) != 1 || a[0].PoI.ProofType != mapcommon.PoP || string(a[0].DomainEntry.CertIDs) != string(id[:]) {
			return name + ": is not in the answer"
		}
	}
	w.served = n
	return ""
}

func selfSignedPEM() (key, cert []byte) {
	k := rsaKeyOf(1024)
	c := &ctx509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)}
	der, err := ctx509.CreateCertificate(crand.Reader, c, c, &k.PublicKey, k)
	lib.Must(err)
	return pemKey(k), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func serverDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("server", flag.ExitOnError)
	graph := fs.String("graph", "", "")
	out := fs.String("runs", "", "")
	port := fs.Int("port", 0, "")
	maybes := fs.String("maybe", "", "")
	budget := fs.Duration("budget", 10*time.Second, "")
	fs.Parse(args)
	defer quiet()()
	maybe := map[string]bool{"after2": true}
	for _, m := range strings.Split(*maybes, ",") {
		maybe[m] = true
	}
	rng := rand.New(rand.NewSource(lib.Seed()*37 + 11))
	g := lib.LoadGraph(*graph)
	f, err := os.Create(*out)
	lib.Must(err)
	defer f.Close()
	var fmu sync.Mutex
	key, cert := selfSignedPEM()
	weight, stops := make([]float64, len(g.Edges)), make([]bool, len(g.Edges))
	for k, e := range g.Edges {
		var a struct {
			What string
			Ok   bool
		}
		lib.Must(json.Unmarshal(e.Act, &a))
		weight[k] = map[string]float64{"ask": 0.3, "cancel": 0.03, "stop": 0.02}[a.What]
		if weight[k] == 0 {
			weight[k] = 1
		}
		if a.What == "phase" && !a.Ok {
			weight[k] = 0.1
		}
		stops[k] = a.What == "stop"
	}
	end := time.Now().Add(*budget)
	var wg sync.WaitGroup
	for p := 0; p < 6; p++ {
		rng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &srvWorld{res: res, db: newDBWorld(*port, fmt.Sprintf("server%d", p), rng.Int63()), upto: map[int]int{}}
			defer w.db.close()
			w.dir = fmt.Sprintf("%s/server%d", lib.Scratch(), p)
			lib.Must(os.MkdirAll(w.dir, 0o700))
			for time.Now().Before(end) && res.NumViolations() < 3 {
				if w.server == nil {
					w.start(key, cert)
				}
				w.ev, w.gating, w.unloaded = nil, true, false
				walk := g.RandomWalk(rng, 60, func(e int) float64 { return weight[e] })
				if rng.Intn(4) > 0 { // most walks go on with the same server
					for k, e := range walk {
						if stops[e] {
							walk = walk[:k]
							break
						}
					}
				}
				if !w.walk(g, walk, maybe, rng) {
					return // something hangs
				}
				b, _ := json.Marshal(map[string]any{"what": "schedule", "ev": w.ev})
				fmu.Lock()
				f.Write(append(b, '\n'))
				fmu.Unlock()
				res.Trace(1)
			}
			if w.server != nil {
				w.end()
			}
		}()
	}
	wg.Wait()
}

func (w *srvWorld) walk(g *lib.Graph, walk []int, maybe map[string]bool, rng *rand.Rand) bool {
	type req struct {
		id     int
		done   chan bool // of the call: was it without error
		cancel context.CancelFunc
	}
	reqs := map[string]*req{}
	ids := 0
	stopped := false
	s := w.server
	acts := []map[string]any{}
	ask := func(who string) *req {
		ids++
		ctx, cancel := context.WithCancel(context.WithValue(bg, srvKey{}, ids))
		r := &req{ids, make(chan bool, 1), cancel}
		w.add(srvEvent{"ask", r.id, "-", !maybe[who]})
		go func() {
			defer func() {
				if p := recover(); p != nil {
					w.res.Violate("crash", fmt.Sprintf("a request crashes: %v", p), acts)
					r.done <- false
				}
			}()
			var err error
			started := "?"
			if maybe[who] {
				var y bool
				y, err = s.PruneAndUpdateIfPossible(ctx)
				started = map[bool]string{true: "yes", false: "no"}[y]
			} else {
				err = s.PruneAndUpdate(ctx)
			}
			w.add(srvEvent{"ret", r.id, started, err == nil})
			r.done <- err == nil
		}()
		return r
	}
	release := func(fail bool, wait time.Duration) bool {
		for t := time.Now(); ; time.Sleep(200 * time.Microsecond) {
			w.mu.Lock()
			if len(w.held) > 0 {
				o := w.held[0]
				w.held = w.held[1:]
				w.mu.Unlock()
				if fail {
					w.unloaded = w.unloaded || o.phase == "reload"
					o.goOn <- fmt.Errorf("injected failure of %s", o.phase)
				} else {
					o.goOn <- nil
				}
				return true
			}
			w.mu.Unlock()
			if time.Since(t) > wait {
				return false
			}
		}
	}
	isHeld := func() bool { w.mu.Lock(); defer w.mu.Unlock(); return len(w.held) > 0 }
	stuck := func(what string) bool {
		w.mu.Lock()
		ev := append([]srvEvent{}, w.ev...)
		w.mu.Unlock()
		w.res.Violate("stuck", what, map[string]any{"walk": acts, "events": ev})
		return false
	}
	// finish waits until the request has returned, letting everything go on
	finish := func(r *req, letGo bool) (ok, in bool) {
		for t := time.Now(); time.Since(t) < 30*time.Second; {
			select {
			case ok := <-r.done:
				return ok, true
			case <-time.After(time.Millisecond):
				if letGo {
					release(false, 0)
				}
			}
		}
		return false, false
	}
	drain := func() bool {
		for t := time.Now(); len(reqs) > 0; {
			if time.Since(t) > 40*time.Second {
				return stuck("a request is never answered")
			}
			release(false, time.Millisecond)
			for who, r := range reqs {
				select {
				case <-r.done:
					delete(reqs, who)
				default:
				}
			}
		}
		return true
	}
	for _, e := range walk {
		var a map[string]any
		lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
		acts = append(acts, a)
		who, _ := a["who"].(string)
		ok, _ := a["ok"].(bool)
		switch a["what"] {
		case "ask":
			if o := reqs[who]; o != nil { // its last request has not returned here although it may have
				select {
				case <-o.done:
				case <-time.After(20 * time.Millisecond):
					continue
				}
			}
			busy := isHeld()
			r := ask(who)
			reqs[who] = r
			if busy && maybe[who] {
				if _, in := finish(r, false); !in {
					return stuck("a request for an update if none is running waits for the one that is running")
				}
				delete(reqs, who)
			}
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		case "phase":
			release(!ok, 100*time.Millisecond)
		case "cancel":
			if r := reqs[who]; r != nil {
				w.add(srvEvent{"cancel", r.id, "-", true})
				r.cancel()
			}
		case "stop":
			if !stopped {
				stopped = true
				w.add(srvEvent{"stop", 0, "-", true})
				w.stop()
			}
		}
		for who, r := range reqs {
			select {
			case <-r.done:
				delete(reqs, who)
			default:
			}
		}
	}
	if !drain() {
		return false
	}
	w.mu.Lock()
	w.gating = false
	for _, o := range w.held {
		o.goOn <- nil
	}
	w.held = nil
	w.mu.Unlock()
	if stopped {
		time.Sleep(2 * time.Millisecond)
		for _, who := range []string{"after", "after2"} {
			r := ask(who)
			if _, in := finish(r, true); !in {
				return stuck("a request made after the server was told to exit is never answered")
			}
		}
		w.end()
		return true
	}
	if !w.unloaded {
		for k := 0; k < w.served; k++ {
			if a, err := s.Responder.GetProof(bg, fmt.Sprintf("e%d.com", k)); err != nil || len(a) != 1 || a[0].PoI.ProofType != mapcommon.PoP {
				w.res.Violate("unanswered", fmt.Sprintf("a query fails although loading the tree never did: %v", err), acts)
				break
			}
		}
	}
	// nothing runs now: a request is served, and everything fetched is in the answers
	r := ask("last")
	ok, in := finish(r, true)
	if !in {
		return stuck("a request is never answered though no update is running")
	}
	if !ok {
		w.res.Violate("refused", "an update fails though nothing did", acts)
		return true
	}
	w.mu.Lock()
	n := w.upto[r.id]
	w.mu.Unlock()
	if n == 0 {
		w.res.Violate("nothing", "an update succeeds without having fetched anything", acts)
	}
	if d := w.reflects(n); d != "" {
		w.res.Violate("not-served", "an update succeeds, and an entry is not served: "+d, acts)
	}
	return true
}
