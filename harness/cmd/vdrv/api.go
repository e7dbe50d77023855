package main

// Replays spec/Api.tla on real map servers and gRPC services, which listen at ports of this machine.

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcclient"
	"github.com/netsec-ethz/fpki/pkg/grpc/grpcserver"
	"github.com/netsec-ethz/fpki/pkg/mapserver"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func init() { drivers["api"] = apiDriver }

var apiNames = map[string]string{"one": "one.com", "sub": "a.one.com", "deep": "x-1.a.one.com", "two": "two.co.uk", "no": "nothing.org"}
var apiIll = map[string][]string{"ill1": {"", "com", ".one.com", "-one.com"}, "ill2": {"a..com", "one com", "one_.com/", "*.*.one.com", strings.Repeat("a.", 200) + "com"}}
var apiParent = map[string]string{"sub": "one", "deep": "sub"}

const apiLate = 20 * time.Second

type apiEntry struct {
	Name string
	C, P []string
}
type apiAnswer struct {
	Bad bool
	Es  []json.RawMessage
}
type apiAsk struct {
	K, N string
	L    []string
	A    apiAnswer
}
type apiState struct {
	At   map[string]int
	Ver  map[string]int
	Asks map[string][]apiAsk
}
type apiAct struct {
	Op, S string
	P     int
	Ok    bool
}

// apiGate holds retrievals of certificates' payloads.
type apiGate struct {
	db.Conn
	mu      sync.Mutex
	holding bool
	arrived chan struct{}
	goOn    chan struct{}
}

func (g *apiGate) hold() {
	g.mu.Lock()
	g.holding, g.arrived, g.goOn = true, make(chan struct{}), make(chan struct{})
	g.mu.Unlock()
}
func (g *apiGate) RetrieveCertificatePayloads(ctx context.Context, ids []common.SHA256Output) ([][]byte, error) {
	g.mu.Lock()
	h, a, o := g.holding, g.arrived, g.goOn
	g.holding = false
	g.mu.Unlock()
	if h {
		close(a)
		<-o
		ctx = context.WithoutCancel(ctx)
	}
	return g.Conn.RetrieveCertificatePayloads(ctx, ids)
}

type apiBase struct {
	w       *dbWorld
	payload map[string][]byte
	id      map[string]common.SHA256Output
}

type apiSvc struct {
	name   string
	base   *apiBase
	server *mapserver.MapServer // nil: gRPC
	exit   context.CancelFunc
	gate   *apiGate
	// while it listens
	port   int
	tls    bool
	cancel context.CancelFunc
	quit   chan byte
	ended  chan error
}

type apiWorld struct {
	res    *lib.Result
	rng    *rand.Rand
	bases  map[string]*apiBase
	svcs   map[string]*apiSvc
	ports  []int
	taken  map[int]net.Listener
	hist   []any
	flight chan *apiReply
	client *http.Client
	pub    *ctx509.Certificate
}

type apiReply struct {
	code int
	body []byte
	err  error
}

func (w *apiWorld) bad(key, f string, x ...any) bool {
	w.res.Violate(key, fmt.Sprintf(f, x...)+fmt.Sprintf(" (%d steps)", len(w.hist)), w.hist)
	return false
}

// items of a database and version; the serial numbers differ between the databases
func (b *apiBase) item(which int, item string) (cert *ctx509.Certificate, pol common.PolicyDocument) {
	name := map[string]string{"c1": "one", "c2": "sub", "c3": "two", "c4": "two", "p1": "one", "p2": "sub", "p3": "two"}[item]
	n := which*100 + int(item[1])
	if item[0] == 'c' {
		cert = makeCert(int64(n), "", []string{apiNames[name]}, time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC))
		b.payload[item], b.id[item] = cert.Raw, sha256Sum(cert.Raw)
		return
	}
	p := makePolicy(n, apiNames[name])
	raw, err := p.Raw()
	lib.Must(err)
	b.payload[item], b.id[item] = raw, sha256Sum(raw)
	return nil, p
}

func sha256Sum(b []byte) (r common.SHA256Output) { copy(r[:], sha(b)); return }

var apiStored = map[string][][]string{"A": {{"c1", "c2", "p1"}, {"c3", "p2"}}, "B": {{"c4", "p3"}, {"c1"}}}

// grow stores what the version adds, and replaces the tree.
func (w *apiWorld) grow(base string, v int) error {
	b := w.bases[base]
	var names [][]string
	var ids []common.SHA256Output
	var parents []*common.SHA256Output
	var certs []ctx509.Certificate
	var exps []time.Time
	var pols []common.PolicyDocument
	for _, it := range apiStored[base][v] {
		c, p := b.item(int(base[0]-'A')+1, it)
		if c == nil {
			pols = append(pols, p)
			continue
		}
		names, ids, parents, certs, exps = append(names, c.DNSNames), append(ids, b.id[it]), append(parents, nil), append(certs, *c), append(exps, c.NotAfter)
	}
	if err := updater.UpdateWithKeepExisting(bg, b.w.conn, names, ids, parents, certs, exps, pols); err != nil {
		return err
	}
	if err := b.w.update(); err != nil {
		return err
	}
	for _, s := range w.svcs {
		if s.base == b && s.server != nil {
			if err := s.server.Responder.ReloadRootAndSignTreeHead(bg, s.server.Key); err != nil {
				return err
			}
		}
	}
	return nil
}

func dialable(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// start makes a service listen; what it returns is nil if it did not within the time.
func (w *apiWorld) start(s *apiSvc, port int, want bool) bool {
	s.port, s.ended = port, make(chan error, 1)
	if s.server != nil {
		var ctx context.Context
		ctx, s.cancel = context.WithCancel(bg)
		s.tls = w.rng.Intn(3) == 0
		s.server.HttpAPIPort = port
		listen := s.server.ListenWithoutTLS
		if s.tls {
			listen = s.server.Listen
		}
		go func() { s.ended <- guardErr(func() error { return listen(ctx) }) }()
	} else {
		g, err := grpcserver.NewGRPCServer(bg, s.base.w.conn, w.svcs["w1"].server.Key)
		if err != nil {
			return w.bad("grpc-new", "creating the gRPC service: %v", err)
		}
		s.quit = make(chan byte, 1)
		go func() { s.ended <- guardErr(func() error { return g.StartWork(s.quit, port) }) }()
	}
	end := time.Now().Add(apiLate)
	for {
		select {
		case err := <-s.ended:
			if want {
				return w.bad("start", "%s does not listen at its free port: it returns %v", s.name, err)
			}
			if err == nil {
				return w.bad("start-silent", "%s cannot listen as its port is taken, but returns no error", s.name)
			}
			s.port = 0
			return true
		case <-time.After(2 * time.Millisecond):
		}
		if want && dialable(port) {
			return true
		}
		if time.Now().After(end) {
			return w.bad("start-hangs", "%s (port taken: %v) does neither listen nor return", s.name, !want)
		}
	}
}

func (w *apiWorld) stop(s *apiSvc, how string) bool {
	switch {
	case s.server == nil:
		s.quit <- 1
	case how == "cancel":
		s.cancel()
	default:
		over := make(chan bool)
		go func() { s.server.Shutdown(bg); close(over) }()
		select {
		case <-over:
		case <-time.After(apiLate):
			return w.bad("shutdown-hangs", "Shutdown of %s does not return", s.name)
		}
	}
	select {
	case err := <-s.ended:
		if err != nil {
			return w.bad("stop-error", "%s was stopped (%s) and returns the error %v", s.name, how, err)
		}
	case <-time.After(apiLate):
		return w.bad("stop-hangs", "%s was stopped (%s) but goes on listening", s.name, how)
	}
	if dialable(s.port) {
		return w.bad("stop-serves", "%s was stopped (%s) and has returned, but its port still accepts connections", s.name, how)
	}
	s.port = 0
	return true
}

func (w *apiWorld) fetch(s *apiSvc, path string, q url.Values) *apiReply {
	proto := "http"
	if s.tls {
		proto = "https"
	}
	r, err := w.client.Get(fmt.Sprintf("%s://127.0.0.1:%d%s?%s", proto, s.port, path, q.Encode()))
	if err != nil {
		return &apiReply{err: err}
	}
	defer r.Body.Close()
	if s.tls && !bytes.Equal(r.TLS.PeerCertificates[0].Raw, w.pub.Raw) {
		return &apiReply{err: fmt.Errorf("another certificate than the server's")}
	}
	b, err := io.ReadAll(r.Body)
	return &apiReply{r.StatusCode, b, err}
}

// ids is the parameter for a list, repeated.
func (w *apiWorld) ids(rng *rand.Rand, s *apiSvc, l []string, times int) string {
	var sb strings.Builder
	for i := 0; i < times; i++ {
		for _, it := range l {
			id, ok := s.base.id[it]
			if !ok {
				id = sha256Sum([]byte("unknown " + it))
			}
			h := hex.EncodeToString(id[:])
			if rng.Intn(4) == 0 {
				h = strings.ToUpper(h)
			}
			switch it {
			case "short":
				h = h[:[]int{1, 2, 32, 62, 63}[rng.Intn(5)]]
			case "long":
				h += "00"
			case "nothex":
				k := rng.Intn(64)
				h = h[:k] + []string{"g", "x", "-", " ", "/", "é"[:1]}[rng.Intn(6)] + h[k+1:]
			}
			sb.WriteString(h)
		}
	}
	return sb.String()
}

var apiPath = map[string]string{"certs": "/getcertpayloads", "policies": "/getpolicypayloads", "both": "/getpayloads"}

// payloads compares the answer to a list of identifiers.
func (s *apiSvc) payloads(r *apiReply, a apiAnswer, times int) (string, string) {
	if r.err != nil {
		return "request", r.err.Error()
	}
	if a.Bad {
		if r.code != http.StatusBadRequest {
			return "accepted", fmt.Sprintf("status %d for a malformed list", r.code)
		}
		return "", ""
	}
	if r.code != http.StatusOK {
		return "refused", fmt.Sprintf("status %d: %.200s", r.code, r.body)
	}
	var got [][]byte
	if err := json.Unmarshal(r.body, &got); err != nil {
		return "unreadable", err.Error()
	}
	if len(got) != times*len(a.Es) {
		return "length", fmt.Sprintf("%d payloads, %d were asked", len(got), times*len(a.Es))
	}
	for i, g := range got {
		var it string
		lib.Must(json.Unmarshal(a.Es[i%len(a.Es)], &it))
		if !bytes.Equal(g, s.base.payload[it]) || (it == "null") != (g == nil) {
			return "payload", fmt.Sprintf("position %d is %.20x, not %s", i, g, it)
		}
	}
	return "", ""
}

func (w *apiWorld) proof(s *apiSvc, q string, got []*mapcommon.MapServerResponse, a apiAnswer) (string, string) {
	if len(got) != len(a.Es) {
		return "chain", fmt.Sprintf("%d entries, want %d", len(got), len(a.Es))
	}
	var root []byte
	if rows := s.base.w.rows("SELECT key32 FROM root"); len(rows) == 1 {
		root = []byte(rows[0][0].String)
	}
	key := w.svcs["w1"].server.Key
	for i, e := range got {
		var want apiEntry
		lib.Must(json.Unmarshal(a.Es[i], &want))
		if e == nil {
			return "null", fmt.Sprintf("entry %d is null", i)
		}
		if e.DomainEntry.DomainName != apiNames[want.Name] {
			return "name", fmt.Sprintf("entry %d is about %q", i, e.DomainEntry.DomainName)
		}
		if !bytes.Equal(e.PoI.Root, root) {
			return "root", fmt.Sprintf("entry %d is under root %x, published is %x", i, e.PoI.Root, root)
		}
		if err := crypto.VerifySignedBytes(e.PoI.Root, e.TreeHeadSig, &key.PublicKey); err != nil {
			return "signature", err.Error()
		}
		if pt, ok, err := prover.VerifyProofByDomain(e); err != nil || !ok || (pt == mapcommon.PoP) != (len(want.C)+len(want.P) > 0) {
			return "verify", fmt.Sprintf("entry %d (%s): proof type %v, verified %v, error %v", i, want.Name, pt, ok, err)
		}
		list := func(its []string) []byte {
			var l [][]byte
			for _, it := range its {
				id := s.base.id[it]
				l = append(l, id[:])
			}
			return glue(l)
		}
		if !bytes.Equal(e.DomainEntry.CertIDs, list(want.C)) || !bytes.Equal(e.DomainEntry.PolicyIDs, list(want.P)) {
			return "lists", fmt.Sprintf("entry %d (%s) lists %x and %x", i, want.Name, e.DomainEntry.CertIDs, e.DomainEntry.PolicyIDs)
		}
	}
	return "", ""
}

func (w *apiWorld) ask(rng *rand.Rand, s *apiSvc, q apiAsk) (key, what string) {
	if q.K != "proof" {
		times := 1
		if len(q.L) > 0 && rng.Intn(5) == 0 && !q.A.Bad {
			times = 2 + rng.Intn(1400/len(q.L))
		}
		v := url.Values{}
		if len(q.L) > 0 || rng.Intn(2) == 0 {
			v.Set("ids", w.ids(rng, s, q.L, times))
		}
		if rng.Intn(3) == 0 {
			v.Set("domain", "one.com")
		}
		return s.payloads(w.fetch(s, apiPath[q.K], v), q.A, times)
	}
	name := apiNames[q.N]
	if ill := apiIll[q.N]; ill != nil {
		name = ill[rng.Intn(len(ill))]
	} else if rng.Intn(4) == 0 {
		name = []string{"www.", "*."}[rng.Intn(2)] + name
	}
	var got []*mapcommon.MapServerResponse
	if s.server == nil {
		var err error
		if e := guardErr(func() error { got, err = grpcclient.GetProofs(name, s.port); return nil }); e != nil {
			return "grpc-crash", e.Error()
		}
		if q.A.Bad {
			if err == nil {
				return "accepted", fmt.Sprintf("the malformed name %q is answered", name)
			}
			return "", ""
		}
		if err != nil {
			return "grpc", err.Error()
		}
		return w.proof(s, name, got, q.A)
	}
	r := w.fetch(s, "/getproof", url.Values{"domain": {name}})
	switch {
	case r.err != nil:
		return "request", r.err.Error()
	case q.A.Bad && r.code != http.StatusBadRequest:
		return "accepted", fmt.Sprintf("status %d for the malformed name %q", r.code, name)
	case q.A.Bad:
		return "", ""
	case r.code != http.StatusOK:
		return "refused", fmt.Sprintf("status %d for %q: %.200s", r.code, name, r.body)
	}
	if err := json.Unmarshal(r.body, &got); err != nil {
		return "unreadable", err.Error()
	}
	return w.proof(s, name, got, q.A)
}

// burst asks many things at once.
func (w *apiWorld) burst(st *apiState, share int) bool {
	type job struct {
		s *apiSvc
		q apiAsk
		r *rand.Rand
	}
	var jobs []job
	for n, qs := range st.Asks {
		for _, q := range qs {
			if w.rng.Intn(share) == 0 {
				jobs = append(jobs, job{w.svcs[n], q, rand.New(rand.NewSource(w.rng.Int63()))})
			}
		}
	}
	w.rng.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	ch := make(chan job)
	var wg sync.WaitGroup
	good := true
	var mu sync.Mutex
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				key, what := "", ""
				for try := 0; try < 3; try++ {
					if key, what = w.ask(j.r, j.s, j.q); !strings.Contains(what, "deadline exceeded") {
						break
					}
				}
				w.res.Eval(1)
				if key != "" {
					mu.Lock()
					good = false
					kind := "web"
					if j.s.server == nil {
						kind = "grpc"
					}
					w.bad(kind+"-"+key, "%s, asked %s %s %v: %s", j.s.name, j.q.K, j.q.N, j.q.L, what)
					mu.Unlock()
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return good
}

func apiDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("api", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	statesF := fs.String("states", "", "")
	port := fs.Int("port", 0, "")
	budget := fs.Duration("budget", 20*time.Second, "")
	fs.Parse(args)
	os.Args = os.Args[:1] // the gRPC packages parse the flags of the process
	defer quiet()()
	g := lib.LoadGraph(*edges)
	at := map[string]*apiState{}
	lib.ReadLines(*statesF, func(l []byte) {
		var r struct {
			K json.RawMessage
			S *apiState
		}
		lib.Must(json.Unmarshal(l, &r))
		if i := g.Index(r.K); i >= 0 {
			at[string(g.States[i])] = r.S
		}
	})
	if len(at) != len(g.States) {
		lib.Fatal("%d states are described, %d are in the graph", len(at), len(g.States))
	}
	flights := map[string][]struct {
		S string
		L []string
		A apiAnswer
	}{}
	acts := make([]apiAct, len(g.Edges))
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	for _, s := range g.States {
		var k []json.RawMessage
		lib.Must(json.Unmarshal(s, &k))
		f := flights[string(s)]
		lib.Must(json.Unmarshal(k[4], &f))
		flights[string(s)] = f
	}
	rng := rand.New(rand.NewSource(lib.Seed()*43 + 1))
	key, cert := selfSignedPEM()
	end := time.Now().Add(*budget)
	walks := g.CoverWalks(rng, 50)
	rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for p := 0; p < 4; p++ {
		rng := rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &apiWorld{res: res, rng: rng, bases: map[string]*apiBase{}, svcs: map[string]*apiSvc{}, client: &http.Client{Timeout: apiLate,
				Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: p%2 == 0, MaxIdleConnsPerHost: 8}}}
			dir := fmt.Sprintf("%s/api%d", lib.Scratch(), p)
			lib.Must(os.MkdirAll(dir, 0o700))
			lib.Must(os.WriteFile(dir+"/key.pem", key, 0o600))
			lib.Must(os.WriteFile(dir+"/cert.pem", cert, 0o600))
			var err error
			w.pub, err = util.CertificateFromPEMBytes(cert)
			lib.Must(err)
			for b := range apiStored {
				w.bases[b] = &apiBase{w: newDBWorld(*port, fmt.Sprintf("api%d%s", p, b), rng.Int63())}
				defer w.bases[b].w.close()
			}
			for len(w.ports) < 2 {
				if c := 21000 + p*1000 + rng.Intn(1000); !dialable(c) {
					if l, err := net.Listen("tcp", fmt.Sprintf(":%d", c)); err == nil {
						l.Close()
						w.ports = append(w.ports, c)
					}
				}
			}
			for time.Now().Before(end) && res.NumViolations() < 3 {
				mu.Lock()
				var walk []int
				if next < len(walks) {
					walk = walks[next]
					next++
				}
				mu.Unlock()
				if walk == nil {
					walk = g.RandomWalk(rng, 40, func(int) float64 { return 1 })
				}
				if !w.walk(g, acts, at, flights, walk, dir) {
					return
				}
				res.Trace(1)
			}
		}()
	}
	wg.Wait()
	res.Note("api", fmt.Sprintf("%d of %d covering walks", min(next, len(walks)), len(walks)))
}

func (w *apiWorld) walk(g *lib.Graph, acts []apiAct, at map[string]*apiState, flights map[string][]struct {
	S string
	L []string
	A apiAnswer
}, walk []int, dir string) bool {
	w.hist, w.taken, w.flight = nil, map[int]net.Listener{}, nil
	for n, b := range w.bases {
		b.w.reset()
		b.payload, b.id = map[string][]byte{}, map[string]common.SHA256Output{}
		for v := range apiStored[n] { // identifiers are known before
			for _, it := range apiStored[n][v] {
				b.item(int(n[0]-'A')+1, it)
			}
		}
		for k, it := range []string{"c1", "c2", "c3", "c4", "p1", "p2", "p3"} { // those of the other database
			if _, ok := b.id[it]; !ok {
				b.id[it] = sha256Sum([]byte{byte(k), n[0]})
			}
		}
		w.svcs = map[string]*apiSvc{}
		if err := guardErr(func() error { return w.grow(n, 0) }); err != nil {
			return w.bad("grow", "storing: %v", err)
		}
	}
	w.svcs = map[string]*apiSvc{}
	for n, b := range map[string]string{"w1": "A", "w2": "B"} {
		ctx, exit := context.WithCancel(bg)
		srvStart.Lock() // they would deadlock on disabling the redo log
		s, err := mapserver.NewMapServer(ctx, &config.Config{CTLogServerURLs: []string{"https://log"}, DBConfig: w.bases[b].w.config(), CertificatePemFile: dir + "/cert.pem", PrivateKeyPemFile: dir + "/key.pem", CsvIngestionMaxRows: 10})
		srvStart.Unlock()
		lib.Must(err)
		gate := &apiGate{Conn: s.Conn}
		s.Conn, s.ReadTimeout, s.WriteTimeout = gate, time.Minute, time.Minute
		w.svcs[n] = &apiSvc{name: n, base: w.bases[b], server: s, gate: gate, exit: exit}
	}
	w.svcs["g1"] = &apiSvc{name: "g1", base: w.bases["A"]}
	good := true
	defer func() {
		if !good {
			return // something may hang
		}
		if w.flight != nil {
			for _, s := range w.svcs {
				if s.gate != nil && s.gate.goOn != nil {
					select {
					case <-s.gate.goOn:
					default:
						close(s.gate.goOn)
					}
				}
			}
			<-w.flight
		}
		for _, s := range w.svcs {
			if s.port != 0 {
				w.stop(s, "stop")
			}
			if s.server != nil {
				s.exit()
				s.server.Conn.Close()
				s.gate.Conn.Close()
				s.server.Updater.Conn.Close()
			}
		}
		for _, l := range w.taken {
			l.Close()
		}
	}()
	var target *apiSvc
	for _, e := range walk {
		a, from, to := acts[e], string(g.States[g.Edges[e].From]), string(g.States[g.Edges[e].To])
		w.hist = append(w.hist, a)
		switch a.Op {
		case "start":
			good = w.start(w.svcs[a.S], w.ports[a.P-1], a.Ok)
		case "stop", "cancel":
			good = w.stop(w.svcs[a.S], a.Op)
		case "take":
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", w.ports[a.P-1]))
			if err != nil {
				good = w.bad("port-kept", "a port that no service uses any more cannot be taken: %v", err)
				break
			}
			w.taken[a.P] = l
		case "give":
			w.taken[a.P].Close()
			delete(w.taken, a.P)
		case "grow":
			if err := guardErr(func() error { return w.grow(a.S, at[to].Ver[a.S]) }); err != nil {
				good = w.bad("grow", "storing: %v", err)
			}
		case "send":
			f := flights[to][0]
			target = w.svcs[f.S]
			target.gate.hold()
			w.flight = make(chan *apiReply, 1)
			ch, s, q := w.flight, *target, url.Values{"ids": {w.ids(w.rng, target, f.L, 1)}}
			go func() { ch <- w.fetch(&s, apiPath["certs"], q) }()
			select {
			case <-target.gate.arrived:
			case <-time.After(apiLate):
				good = w.bad("send", "a request does not arrive at the database")
			}
		case "reply":
			close(target.gate.goOn)
			r := <-w.flight
			w.flight = nil
			if key, what := target.payloads(r, flights[from][0].A, 1); key != "" {
				good = w.bad("flight-"+key, "a request to %s on its way (listening: %v) is answered: %s", target.name, target.port != 0, what)
			}
		}
		w.res.Eval(1)
		if good && a.Op != "send" && w.flight == nil {
			if st := at[to]; st != nil && len(st.Asks) > 0 {
				good = w.burst(st, 1+w.rng.Intn(4)*2)
			}
		}
		if !good {
			return false
		}
	}
	return true
}
