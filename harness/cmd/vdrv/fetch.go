package main

// The fetcher of a log's entries: walks of spec/Fetch.tla replayed against a server that holds each request until the
// walk answers it; the histories are checked against spec/FetchRuns.tla. Besides, whole ranges around the fetcher's own
// batch sizes, with servers that give few entries per answer.

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"fpkiverif/lib"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/tls"
	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
)

func init() { drivers["fetch"] = fetchDriver }

type fetchEvent struct {
	K    string
	A, B int64
	S    bool
}

// logContent gives the entries of a log, made from a template with the serial number replaced.
type logContent struct {
	tmpl   []byte
	serial int // offset of the 8 bytes
	cas    [][]byte
}

func newLogContent() *logContent {
	const serial = 0x4142434445464748
	c := makeCert(serial, "", []string{"a.com"}, time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC))
	l := &logContent{tmpl: c.Raw}
	b := binary.BigEndian.AppendUint64(nil, serial)
	l.serial = bytes.Index(c.Raw, b)
	if l.serial < 0 || bytes.Count(c.Raw, b) != 1 {
		lib.Fatal("no place for the serial number")
	}
	for k := int64(0); k < 3; k++ {
		l.cas = append(l.cas, makeCert(7+k, fmt.Sprint("ca", k), nil, time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)).Raw)
	}
	return l
}

func (l *logContent) cert(i int64) []byte {
	r := bytes.Clone(l.tmpl)
	binary.BigEndian.PutUint64(r[l.serial:], 0x4142434400000000+uint64(i))
	return r
}
func (l *logContent) index(c *ctx509.Certificate) int64 {
	if c.SerialNumber == nil || !c.SerialNumber.IsInt64() {
		return -1
	}
	i := c.SerialNumber.Int64() - 0x4142434400000000
	if !bytes.Equal(c.Raw, l.cert(i)) {
		return -1
	}
	return i
}
func (l *logContent) chain(i int64) (r [][]byte) {
	for k := int64(0); k < i%4; k++ {
		r = append(r, l.cas[(i+k)%3])
	}
	return r
}

func (l *logContent) leaf(i int64, spoil string) map[string]string {
	cert, chain := ct.ASN1Cert{Data: l.cert(i)}, []ct.ASN1Cert{}
	for _, c := range l.chain(i) {
		chain = append(chain, ct.ASN1Cert{Data: c})
	}
	switch spoil {
	case "cert":
		cert.Data = cert.Data[:len(cert.Data)/2]
	case "chain":
		chain = append(chain, ct.ASN1Cert{Data: []byte("nonsense")})
	}
	leaf := ct.MerkleTreeLeaf{Version: ct.V1, LeafType: ct.TimestampedEntryLeafType,
		TimestampedEntry: &ct.TimestampedEntry{Timestamp: 1700000000000 + uint64(i)}}
	var extra []byte
	var err error
	if i%5 == 3 {
		leaf.TimestampedEntry.EntryType = ct.PrecertLogEntryType
		leaf.TimestampedEntry.PrecertEntry = &ct.PreCert{TBSCertificate: []byte{1, 2, 3}}
		extra, err = tls.Marshal(ct.PrecertChainEntry{PreCertificate: cert, CertificateChain: chain})
	} else {
		leaf.TimestampedEntry.EntryType = ct.X509LogEntryType
		leaf.TimestampedEntry.X509Entry = &cert
		extra, err = tls.Marshal(ct.CertificateChain{Entries: chain})
	}
	lib.Must(err)
	in, err := tls.Marshal(leaf)
	lib.Must(err)
	switch spoil {
	case "leaf":
		in = in[:len(in)-2]
	case "type":
		in[11] = 9
	case "extra":
		extra = append(extra, 0)
	case "empty":
		in, extra = nil, nil
	}
	return map[string]string{"leaf_input": base64.StdEncoding.EncodeToString(in), "extra_data": base64.StdEncoding.EncodeToString(extra)}
}

func (l *logContent) body(from, to int64, spoil string, at int64) []byte {
	es := []map[string]string{}
	for i := from; i <= to; i++ {
		s := ""
		if i == at {
			s = spoil
		}
		es = append(es, l.leaf(i, s))
	}
	b, err := json.Marshal(map[string]any{"entries": es})
	lib.Must(err)
	return b
}

var contentSpoils = []string{"cert", "chain", "leaf", "type", "extra", "empty"}
var failKinds = []string{"500", "404", "429", "html", "cut", "close", "number", "array", "b64"}

// answer writes an answer of the given kind to a request; it tells whether it is as it should be.
func (l *logContent) answer(rw http.ResponseWriter, from, to int64, kind, how string, at int64) bool {
	ok := true
	var b []byte
	switch kind {
	case "full":
		b = l.body(from, to, "", -1)
	case "short":
		b = l.body(from, from, "", -1)
		if len(how) > 0 { // a page size
			n, _ := strconv.ParseInt(how, 10, 64)
			b = l.body(from, min(to, from+n-1), "", -1)
		}
	case "none":
		ok = false
		b = []byte(map[string]string{"": `{"entries":[]}`, "null": `{"entries":null}`, "missing": `{}`}[how])
	case "more":
		ok = false
		b = l.body(from, to+1+at, "", -1)
	case "content":
		ok = false
		b = l.body(from, to, how, from+at%(to-from+1))
	case "fail":
		ok = false
		b = l.body(from, to, "", -1)
		switch how {
		case "html":
			b = []byte("<html>sorry</html>")
		case "number":
			b = []byte("17")
		case "array":
			b = []byte(`{"entries":[17]}`)
		case "b64":
			b = []byte(`{"entries":[{"leaf_input":"*","extra_data":""}]}`)
		case "close":
			panic(http.ErrAbortHandler)
		case "cut":
			rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
			_, _ = rw.Write(b[:len(b)/2])
			if f, is := rw.(http.Flusher); is {
				f.Flush()
			}
			panic(http.ErrAbortHandler)
		default:
			c, _ := strconv.Atoi(how)
			rw.WriteHeader(c)
		}
	}
	_, _ = rw.Write(b)
	return ok
}

type fetchReq struct {
	run      int
	from, to int64
	answer   chan [2]string
	at       int64
}

type fetchWorld struct {
	res  *lib.Result
	log  *logContent
	srv  *httptest.Server
	f    *logfetcher.HttpLogFetcher
	mu   sync.Mutex
	ev   []fetchEvent
	held []*fetchReq
	came chan struct{}
	auto func(from, to int64) (string, string, int64) // if set, answers are given at once
	run  int
	last int64
	size int64
	sths func(http.ResponseWriter)
}

func newFetchWorld(res *lib.Result, l *logContent) *fetchWorld {
	w := &fetchWorld{res: res, log: l, came: make(chan struct{}, 1000)}
	w.srv = httptest.NewServer(http.HandlerFunc(w.serve))
	var err error
	w.f, err = logfetcher.NewHttpLogFetcher(w.srv.URL)
	lib.Must(err)
	return w
}

// sizes sets the fetcher's own batch sizes, where it has them.
func (w *fetchWorld) sizes(server, process int64) bool {
	v := reflect.ValueOf(w.f).Elem()
	for name, n := range map[string]int64{"serverBatchSize": server, "processBatchSize": process} {
		f := v.FieldByName(name)
		if !f.IsValid() || f.Kind() != reflect.Int64 {
			return false
		}
		*(*int64)(unsafe.Pointer(f.UnsafeAddr())) = n
	}
	return true
}

func (w *fetchWorld) close() {
	w.f.StopFetching()
	w.mu.Lock()
	h := w.held
	w.held = nil
	w.auto = func(int64, int64) (string, string, int64) { return "fail", "500", 0 }
	w.mu.Unlock()
	for _, q := range h {
		q.answer <- [2]string{"fail", "500"}
	}
	w.srv.CloseClientConnections()
	w.srv.Close()
}

func (w *fetchWorld) add(e fetchEvent) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

func (w *fetchWorld) serve(rw http.ResponseWriter, r *http.Request) {
	if strings.HasSuffix(r.URL.Path, "/get-sth") {
		w.sths(rw)
		return
	}
	from, err1 := strconv.ParseInt(r.URL.Query().Get("start"), 10, 64)
	to, err2 := strconv.ParseInt(r.URL.Query().Get("end"), 10, 64)
	if err1 != nil || err2 != nil || !strings.HasSuffix(r.URL.Path, "/ct/v1/get-entries") || from < 0 || to < from || to-from > 100000 {
		rw.WriteHeader(400)
		return
	}
	w.mu.Lock()
	q := &fetchReq{w.run, from, to, make(chan [2]string, 1), 0}
	auto := w.auto
	if auto == nil {
		w.held = append(w.held, q)
	}
	w.mu.Unlock()
	var k, how string
	if auto != nil {
		k, how, q.at = auto(from, to)
	} else {
		w.came <- struct{}{}
		select {
		case a := <-q.answer:
			k, how = a[0], a[1]
		case <-time.After(60 * time.Second):
			k, how = "fail", "500"
		}
	}
	bad := k != "full" && k != "short"
	if bad {
		w.mu.Lock()
		if q.run == w.run {
			w.ev = append(w.ev, fetchEvent{"reply", from, to, false})
		}
		w.mu.Unlock()
	}
	w.log.answer(rw, from, to, k, how, q.at)
}

func (w *fetchWorld) reply(kind string, stale bool, rng *rand.Rand, wait time.Duration) bool {
	dead := time.Now().Add(wait)
	for {
		w.mu.Lock()
		for i, q := range w.held {
			if (q.run < w.run) == stale {
				w.held = append(append([]*fetchReq{}, w.held[:i]...), w.held[i+1:]...)
				w.mu.Unlock()
				how := ""
				switch kind {
				case "fail":
					how = failKinds[rng.Intn(len(failKinds))]
				case "content":
					how = contentSpoils[rng.Intn(len(contentSpoils))]
				case "none":
					how = []string{"", "null", "missing"}[rng.Intn(3)]
				case "short":
					if q.to == q.from { // nothing to shorten
						kind = "full"
					} else if rng.Intn(2) == 0 {
						how = fmt.Sprint(1 + rng.Int63n(q.to-q.from))
					}
				}
				q.at = int64(rng.Intn(4))
				q.answer <- [2]string{kind, how}
				return true
			}
		}
		w.mu.Unlock()
		if stale || time.Now().After(dead) {
			return false
		}
		select {
		case <-w.came:
		case <-time.After(time.Millisecond):
		}
	}
}

func (w *fetchWorld) start(s, e int64) {
	w.mu.Lock()
	w.run++
	w.ev = append(w.ev, fetchEvent{"start", s, e, true})
	w.mu.Unlock()
	w.f.StartFetching(s, e)
}

// record turns what the fetcher returned into an event.
func (w *fetchWorld) record(certs []ctx509.Certificate, chains [][]*ctx509.Certificate, excluded int, err error) {
	if err != nil {
		w.add(fetchEvent{"error", 0, 0, true})
		return
	}
	right := len(certs) > 0 && len(certs) == len(chains) && excluded == 0
	first := int64(-1)
	if len(certs) > 0 {
		first = w.log.index(&certs[0])
	}
	for k := range certs {
		i := w.log.index(&certs[k])
		right = right && i == first+int64(k)
		if right && i >= 0 {
			ch := w.log.chain(i)
			right = len(ch) == len(chains[k])
			for j := range ch {
				right = right && chains[k][j] != nil && bytes.Equal(chains[k][j].Raw, ch[j])
			}
		}
	}
	w.add(fetchEvent{"batch", first, int64(len(certs)), right})
}

// take gets the next batch; while nothing comes, held requests are answered. It tells whether the end was reached.
func (w *fetchWorld) take(rng *rand.Rand, patience time.Duration) (end, stuck bool) {
	done := make(chan struct{})
	ctx, cancel := context.WithTimeout(bg, 20*time.Second)
	defer cancel()
	go func() {
		defer close(done)
		if !w.f.NextBatch(ctx) {
			w.add(fetchEvent{"end", 0, 0, true})
			end = true
			return
		}
		certs, chains, n, err := w.f.ReturnNextBatch()
		if err != nil && ctx.Err() != nil {
			stuck = true
			return
		}
		w.record(certs, chains, n, err)
		end = err != nil
	}()
	for {
		select {
		case <-done:
			return
		case <-time.After(patience):
			w.reply("full", false, rng, 0)
			patience = time.Millisecond
		}
	}
}

type fetchRun struct {
	What string       `json:"what"`
	Ev   []fetchEvent `json:"ev"`
}

func fetchDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("fetch", flag.ExitOnError)
	graph := fs.String("graph", "", "")
	runs := fs.String("runs", "", "")
	budget := fs.Duration("budget", time.Minute, "")
	small := fs.Bool("small", false, "")
	lib.Must(fs.Parse(args))
	defer quiet()()
	rng := rand.New(rand.NewSource(lib.Seed()))
	l := newLogContent()
	out, err := os.Create(*runs)
	lib.Must(err)
	defer out.Close()
	var mu sync.Mutex
	stuck := 0
	emit := func(w *fetchWorld, what string) {
		w.mu.Lock()
		b, err := json.Marshal(fetchRun{what, w.ev})
		w.mu.Unlock()
		lib.Must(err)
		mu.Lock()
		fmt.Fprintln(out, string(b))
		mu.Unlock()
		res.Trace(1)
	}
	total, n := 0, 0
	for gi, gf := range strings.Split(*graph, ",") {
		g := lib.LoadGraph(gf)
		deadline := time.Now().Add(*budget / 2 * time.Duration(gi+1))
		walks := g.CoverWalks(rng, 30)
		rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
		total += len(walks)
		parallel(walks, rng, func(walk []int, rng *rand.Rand) {
			mu.Lock()
			stop := time.Now().After(deadline) || stuck >= 3 || res.NumViolations() > 20
			mu.Unlock()
			if stop {
				return
			}
			w := newFetchWorld(res, l)
			defer w.close()
			scale := int64(1)
			if !w.sizes(2, 4) {
				scale = 4096
			}
			var acts []map[string]any
			st := false
			end := true
			for _, e := range walk {
				var a struct {
					What, Kind string
					S, E       int64
				}
				lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
				if a.What != "none" {
					acts = append(acts, map[string]any{"do": a.What, "kind": a.Kind, "s": a.S, "e": a.E})
				}
				switch a.What {
				case "start":
					last := (a.E+1)*scale - 1
					w.start(a.S*scale, last)
					end = false
				case "reply":
					w.reply(a.Kind, int(a.S) < w.run, rng, 50*time.Millisecond)
				case "take":
					end, st = w.take(rng, 300*time.Millisecond)
				case "stop":
					w.add(fetchEvent{"stop", 0, 0, true})
					w.f.StopFetching()
				}
				if st {
					break
				}
			}
			for !end && !st {
				end, st = w.take(rng, time.Millisecond)
			}
			if st {
				mu.Lock()
				stuck++
				mu.Unlock()
				res.Violate("stuck", "the consumer waits, although all requests to the log were answered", acts)
				return
			}
			emit(w, "walk")
			res.Eval(len(acts))
			mu.Lock()
			n++
			mu.Unlock()
		})
	}
	res.Note("walks", total)
	res.Note("walks_run", n)
	fetchWhole(res, l, rng, *small, emit)
	fetchCancelled(res, l, rng, emit)
	fetchHeads(res, l)
}

// fetchWhole fetches ranges around the sizes of the fetcher's own batches, from servers with limits of their own.
func fetchWhole(res *lib.Result, l *logContent, rng *rand.Rand, small bool, emit func(*fetchWorld, string)) {
	type job struct {
		s, n, page, badAt int64
		all               bool
	}
	var jobs []job
	for _, n := range []int64{0, 1, 2, 127, 128, 129, 255, 256, 257, 383, 384} {
		for _, page := range []int64{1 << 40, 1, 7, 127, 128, 64} {
			jobs = append(jobs, job{rng.Int63n(1000), n, page, -1, rng.Intn(2) == 0})
		}
		if n > 0 {
			jobs = append(jobs, job{rng.Int63n(1000), n, 100, rng.Int63n(n), rng.Intn(2) == 0})
		}
	}
	large := []int64{16383, 16384, 16385, 16384 + 127, 16384 + 128, 32767, 32768, 32769}
	if small {
		large = nil
	}
	for _, n := range large {
		jobs = append(jobs, job{rng.Int63n(300), n, []int64{1 << 40, 100}[rng.Intn(2)], -1, rng.Intn(2) == 0})
	}
	for k := 0; !small && k < lib.Pick(1, 4); k++ {
		jobs = append(jobs, job{rng.Int63n(300), 16384*4 + rng.Int63n(500), 1 << 40, -1, k%2 == 0})
		n := 16384*2 + rng.Int63n(20000)
		jobs = append(jobs, job{rng.Int63n(300), n, 90, n - 1 - rng.Int63n(16000), k%2 == 0})
	}
	var mu sync.Mutex
	idx := make([][]int, len(jobs))
	for i := range idx {
		idx[i] = []int{i}
	}
	parallel(idx, rng, func(id []int, rng *rand.Rand) {
		j := jobs[id[0]]
		w := newFetchWorld(res, l)
		defer w.close()
		kind := []string{"fail", "none", "more", "content"}[rng.Intn(4)]
		how := map[string]string{"fail": failKinds[rng.Intn(len(failKinds))], "content": contentSpoils[rng.Intn(len(contentSpoils))]}[kind]
		gave := false
		w.auto = func(from, to int64) (string, string, int64) {
			mu.Lock()
			defer mu.Unlock()
			if to < j.s+j.n && j.badAt >= 0 && from <= j.s+j.badAt && j.s+j.badAt <= min(to, from+j.page-1) && !gave {
				gave = true
				return kind, how, 0
			}
			return "short", fmt.Sprint(j.page), 0
		}
		what := fmt.Sprintf("%d entries from %d on, %d per answer, bad answer (%s %s) at %d", j.n, j.s, j.page, kind, how, j.badAt)
		if j.badAt < 0 {
			what = fmt.Sprintf("%d entries from %d on, %d per answer", j.n, j.s, j.page)
		}
		ctx, cancel := context.WithTimeout(bg, 60*time.Second)
		defer cancel()
		if j.all {
			w.mu.Lock()
			w.run++
			w.ev = append(w.ev, fetchEvent{"start", j.s, j.s + j.n - 1, true})
			w.mu.Unlock()
			certs, chains, n, err := w.f.FetchAllCertificates(ctx, j.s, j.s+j.n-1)
			if err == nil && (len(certs) > 0 || len(chains) > 0 || n > 0) {
				w.record(certs, chains, int(n), nil)
			}
			if err != nil {
				w.add(fetchEvent{"error", 0, 0, true})
			}
			w.add(fetchEvent{"end", 0, 0, true})
		} else {
			w.start(j.s, j.s+j.n-1)
			for w.f.NextBatch(ctx) {
				certs, chains, n, err := w.f.ReturnNextBatch()
				w.record(certs, chains, n, err)
				if err != nil {
					break
				}
			}
			w.add(fetchEvent{"end", 0, 0, true})
		}
		if ctx.Err() != nil {
			res.Violate("stuck", "the fetch doesn't end", what)
			return
		}
		res.Eval(1)
		emit(w, what)
	})
}

// fetchCancelled: a consumer that gives up waiting loses nothing.
func fetchCancelled(res *lib.Result, l *logContent, rng *rand.Rand, emit func(*fetchWorld, string)) {
	for k := 0; k < lib.Pick(30, 300); k++ {
		w := newFetchWorld(res, l)
		w.sizes(2, 4)
		w.auto = func(from, to int64) (string, string, int64) {
			time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond)
			return "full", "", 0
		}
		w.start(3, 3+15)
		limit := time.Now().Add(20 * time.Second)
		for {
			if time.Now().After(limit) {
				res.Violate("stuck", "the fetch doesn't end, for a consumer that gives up waiting sometimes", nil)
				break
			}
			ctx, cancel := context.WithTimeout(bg, 20*time.Second)
			early := rng.Intn(2) == 0
			if early {
				cancel()
				ctx, cancel = context.WithTimeout(bg, time.Duration(rng.Intn(1000))*time.Microsecond)
			}
			if !w.f.NextBatch(ctx) {
				cancel()
				w.add(fetchEvent{"end", 0, 0, true})
				break
			}
			certs, chains, n, err := w.f.ReturnNextBatch()
			given := err != nil && ctx.Err() != nil && early
			cancel()
			if given {
				continue
			}
			w.record(certs, chains, n, err)
			if err != nil {
				break
			}
		}
		emit(w, "a consumer that gives up waiting sometimes")
		w.close()
	}
}

// fetchHeads: the state of the log is that of its tree head, or an error.
func fetchHeads(res *lib.Result, l *logContent) {
	w := newFetchWorld(res, l)
	defer w.close()
	sig := tls.DigitallySigned{Algorithm: tls.SignatureAndHashAlgorithm{Hash: tls.SHA256, Signature: tls.ECDSA}, Signature: []byte("signature of the head")}
	ds, err := tls.Marshal(sig)
	lib.Must(err)
	good := map[string]any{"tree_size": 12345, "timestamp": 1700000000000, "sha256_root_hash": base64.StdEncoding.EncodeToString(make([]byte, 32)),
		"tree_head_signature": base64.StdEncoding.EncodeToString(ds)}
	with := func(k string, v any) []byte {
		m := map[string]any{}
		for x, y := range good {
			m[x] = y
		}
		if k != "" {
			m[k] = v
		}
		b, _ := json.Marshal(m)
		return b
	}
	try := func(what string, code int, body []byte, size uint64) {
		w.sths = func(rw http.ResponseWriter) {
			rw.WriteHeader(code)
			_, _ = rw.Write(body)
		}
		ctx, cancel := context.WithTimeout(bg, 20*time.Second)
		defer cancel()
		s, err := w.f.GetCurrentState(ctx, logfetcher.State{Size: 3, STH: []byte("old")})
		res.Eval(1)
		if (err == nil) != (size > 0) {
			res.Violate("head", fmt.Sprintf("%s: state %+v, error %v", what, s, err), string(body))
		}
		if err == nil && size > 0 && (s.Size != size || !bytes.Equal(s.STH, sig.Signature)) {
			res.Violate("head", fmt.Sprintf("%s: state %+v is not that of the head", what, s), string(body))
		}
	}
	try("a good head", 200, with("", nil), 12345)
	try("a larger head", 200, with("tree_size", uint64(1)<<40), 1<<40)
	try("an error status", 500, with("", nil), 0)
	try("not JSON", 200, []byte("<html>"), 0)
	try("a short root", 200, with("sha256_root_hash", "AAAA"), 0)
	try("a bad signature", 200, with("tree_head_signature", "AAAA"), 0)
	try("a negative size", 200, with("tree_size", -1), 0)
}
