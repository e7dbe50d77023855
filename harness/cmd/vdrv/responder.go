package main

// The responder under concurrent queries, publications and reloads: walks of spec/Responder.tla as schedules of the
// calls that reach the database, and free runs; the histories are checked against spec/ResponderRuns.tla.

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

func init() { drivers["responder"] = responderDriver }

type respEvent struct {
	K string
	C int
	V int
	S bool
}

// uselessKey cannot sign anything: its modulus is too small.
func uselessKey() *rsa.PrivateKey {
	for {
		p, _ := rand.Prime(rand.Reader, 192)
		q, _ := rand.Prime(rand.Reader, 192)
		one := big.NewInt(1)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		d := new(big.Int).ModInverse(big.NewInt(65537), phi)
		if d != nil {
			return &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: 65537}, D: d, Primes: []*big.Int{p, q}}
		}
	}
}

// respWorld is a responder on a memory connection, with versions to be published one after the other.
type respWorld struct {
	res       *lib.Result
	conn      *memConn
	resp      *responder.MapResponder
	key, bad  *rsa.PrivateKey
	query     string // the name asked for
	parts     []string
	mu        sync.Mutex // of the history
	ev        []respEvent
	versions  []map[common.SHA256Output]listPair
	roots     map[string]int
	published int
}

func (w *respWorld) add(e respEvent) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev = append(w.ev, e)
}

func newRespWorld(res *lib.Result, rng *mrand.Rand, key, bad *rsa.PrivateKey, n int) *respWorld {
	w := &respWorld{res: res, conn: newMemConn(), key: key, bad: bad, roots: map[string]int{}}
	base := fmt.Sprintf("v%d.com", rng.Int63())
	w.query, w.parts = "b.a."+base, []string{base, "a." + base, "b.a." + base}
	id := func() []byte {
		b := make([]byte, 32)
		rng.Read(b)
		return b
	}
	empty := rng.Intn(2 * n)
	for v := 0; v < n; v++ {
		l := map[common.SHA256Output]listPair{}
		if v == empty {
			w.versions = append(w.versions, l)
			continue
		}
		for _, p := range append(w.parts, "x1.com", "x2.com", "x3.com") {
			if rng.Intn(3) > 0 {
				pair := listPair{certs: id()}
				if rng.Intn(2) == 0 {
					pair.pols = id()
				}
				l[common.SHA256Hash32Bytes([]byte(p))] = pair
			}
		}
		l[common.SHA256Hash32Bytes([]byte("y.com"))] = listPair{certs: id()}
		w.versions = append(w.versions, l)
	}
	w.publish()
	var err error
	w.resp, err = responder.NewMapResponder(context.Background(), w.conn, key)
	lib.Must(err)
	w.ev = nil
	return w
}

func (w *respWorld) publish() {
	if w.published == len(w.versions) {
		return
	}
	l := w.versions[w.published]
	w.published++
	w.add(respEvent{K: "publish", V: w.published})
	// the root is only known once it is made, but nobody sees it before
	scratch := &memConn{memStore: w.conn.memStore, lists: map[common.SHA256Output]listPair{}}
	root := scratch.publish(l)
	w.mu.Lock()
	w.roots[string(root)] = w.published
	w.mu.Unlock()
	w.conn.mu.Lock()
	w.conn.lists, w.conn.root = l, scratch.root
	w.conn.mu.Unlock()
	w.add(respEvent{K: "published", V: w.published})
}

func (w *respWorld) reload(ctx context.Context, who int, key *rsa.PrivateKey) {
	w.add(respEvent{K: "reload", C: who})
	err := w.resp.ReloadRootAndSignTreeHead(ctx, key)
	w.add(respEvent{K: "reloaded", C: who, S: err == nil})
}

func (w *respWorld) ask(ctx context.Context, who int) {
	w.add(respEvent{K: "ask", C: who})
	a, err := w.resp.GetProof(ctx, w.query)
	if err != nil {
		w.add(respEvent{K: "none", C: who})
		w.res.Violate("no-answer", "a query failed although nothing did: "+err.Error(), w.query)
		return
	}
	if len(a) != len(w.parts) {
		w.res.Violate("answer", fmt.Sprintf("%d entries instead of %d", len(a), len(w.parts)), w.query)
	}
	w.check(a, who)
}

func (w *respWorld) check(a []*mapcommon.MapServerResponse, who int) {
	for k, e := range a {
		w.mu.Lock()
		v := w.roots[string(e.PoI.Root)]
		w.mu.Unlock()
		signed := crypto.VerifySignedBytes(e.PoI.Root, e.TreeHeadSig, &w.key.PublicKey) == nil
		w.add(respEvent{K: "entry", C: who, V: v, S: signed})
		if v == 0 {
			continue // refused by the specification
		}
		id := common.SHA256Hash32Bytes([]byte(w.parts[k]))
		l, there := w.versions[v-1][id]
		ok := e.DomainEntry.DomainName == w.parts[k] && there == (e.PoI.ProofType == mapcommon.PoP)
		if there {
			val := sha(glue(append(split32(l.certs), split32(l.pols)...)))
			ok = ok && bytes.Equal(val, e.PoI.ProofValue) && trie.VerifyInclusion(e.PoI.Root, e.PoI.Proof, id[:], val)
		} else {
			ok = ok && (len(e.PoI.Root) == 0 || trie.VerifyNonInclusion(e.PoI.Root, e.PoI.Proof, id[:], e.PoI.ProofValue, e.PoI.ProofKey))
		}
		if !ok {
			w.res.Violate("answer", "an entry of an answer is not a proof under the root it states", map[string]any{"part": k, "version": v})
		}
	}
}

// a respThread runs one call at a time, and stops wherever it reaches the database.
type respThread struct {
	state int       // 0 idle, 1 stopped at the database, 2 running
	at    chan bool // true: at the database, false: finished
	goOn  chan error
}

type respKey struct{}

func (t *respThread) await(d time.Duration) {
	select {
	case x := <-t.at:
		t.state = 0
		if x {
			t.state = 1
		}
	case <-time.After(d):
		t.state = 2
	}
}

func responderDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("responder", flag.ExitOnError)
	graph := fs.String("graph", "", "")
	out := fs.String("runs", "", "")
	budget := fs.Duration("budget", 10*time.Second, "")
	fs.Parse(args)
	rng := mrand.New(mrand.NewSource(lib.Seed()*31 + 7))
	f, err := os.Create(*out)
	lib.Must(err)
	defer f.Close()
	var fmu sync.Mutex
	record := func(w *respWorld, what string) {
		b, _ := json.Marshal(map[string]any{"what": what, "ev": w.ev})
		fmu.Lock()
		f.Write(append(b, '\n'))
		fmu.Unlock()
	}
	bad := uselessKey()
	if _, err := crypto.SignBytes([]byte("x"), bad); err == nil {
		lib.Fatal("the useless key signs")
	}
	key := rsaKeyOf(1024)
	if *graph != "" {
		g := lib.LoadGraph(*graph)
		walks := g.CoverWalks(rng, 40)
		rng.Shuffle(len(walks), func(a, b int) { walks[a], walks[b] = walks[b], walks[a] })
		if n := lib.Pick(400, 4000); len(walks) > n {
			walks = walks[:n]
		}
		parallel(walks, rng, func(walk []int, rng *mrand.Rand) {
			w := newRespWorld(res, rng, key, bad, 4)
			w.conn.gate = func(ctx context.Context, op string) error {
				t, _ := ctx.Value(respKey{}).(*respThread)
				if t == nil {
					return nil
				}
				t.at <- true
				return <-t.goOn
			}
			ths := map[string]*respThread{}
			ids := map[string]int{}
			acts := []map[string]string{}
			for _, e := range walk {
				var a map[string]string
				lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
				acts = append(acts, a)
			}
			step := func(who string, fail bool, d time.Duration) {
				t := ths[who]
				if t == nil {
					return
				}
				if t.state == 1 {
					if fail {
						t.goOn <- fmt.Errorf("the database fails")
					} else {
						t.goOn <- nil
					}
				}
				if t.state != 0 {
					t.await(d)
				}
			}
			for k, a := range acts {
				who := a["who"]
				switch a["what"] {
				case "publish":
					w.publish()
				case "start":
					t := ths[who]
					if t != nil && t.state != 0 { // the implementation takes more steps than the specification: finish them
						for end := time.Now().Add(time.Second); t.state != 0 && time.Now().Before(end); {
							for o := range ths {
								step(o, false, time.Millisecond)
							}
						}
						if t.state != 0 {
							res.Violate("stuck", "a call never returns", a)
							return
						}
					}
					t = &respThread{at: make(chan bool, 1), goOn: make(chan error)}
					ths[who] = t
					if ids[who] == 0 {
						ids[who] = len(ids) + 1
					}
					id, ctx := ids[who], context.WithValue(context.Background(), respKey{}, t)
					failing := false
					for _, b := range acts[k+1:] {
						if b["who"] == who {
							if b["what"] == "fail" {
								failing = true
							}
							if b["what"] == "start" {
								break
							}
						}
					}
					go func() {
						if who[0] == 'q' {
							w.ask(ctx, id)
						} else if failing && rng.Intn(2) == 0 {
							w.reload(ctx, id, w.bad)
						} else {
							w.reload(ctx, id, w.key)
						}
						t.at <- false
					}()
					t.await(50 * time.Millisecond)
				case "step":
					step(who, false, 5*time.Millisecond)
				case "fail":
					step(who, true, 5*time.Millisecond)
				}
			}
			for end := time.Now().Add(20 * time.Second); ; {
				busy := false
				for o, t := range ths {
					step(o, false, 5*time.Millisecond)
					busy = busy || t.state != 0
				}
				if !busy {
					break
				}
				if time.Now().After(end) {
					res.Violate("stuck", "a call never returns", acts)
					return
				}
			}
			w.conn.gate = nil
			w.reload(context.Background(), 98, w.key)
			w.ask(context.Background(), 99) // the newest now
			record(w, "schedule")
			res.Trace(1)
			res.Count("schedules", 1)
		})
	}
	respStress(res, rng, key, *budget/2)
	// free runs
	end := time.Now().Add(*budget)
	for _, bits := range []int{4096, 1024} {
		key := rsaKeyOf(bits)
		for n := 0; n < lib.Pick(12, 100) && time.Now().Before(end); n++ {
			w := newRespWorld(res, rng, key, bad, 4)
			var wg sync.WaitGroup
			var stop atomic.Bool
			for c := 1; c <= 3; c++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; !stop.Load() && k < 40; k++ {
						w.ask(context.Background(), c)
						if k > 20 {
							time.Sleep(2 * time.Millisecond)
						}
					}
				}()
			}
			var rw sync.WaitGroup
			for c := 11; c <= 12; c++ {
				rng := mrand.New(mrand.NewSource(rng.Int63()))
				rw.Add(1)
				go func() {
					defer rw.Done()
					for k := 0; k < 3; k++ {
						if c == 11 {
							w.publish()
						}
						if rng.Intn(5) == 0 {
							w.reload(context.Background(), c, w.bad)
						}
						w.reload(context.Background(), c, w.key)
						time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
					}
				}()
			}
			rw.Wait()
			stop.Store(true)
			wg.Wait()
			record(w, fmt.Sprintf("free, key of %d bits", bits))
			res.Trace(1)
			res.Count("free runs", 1)
		}
		end = end.Add(*budget)
	}
}

// respStress asks as fast as possible while two trees are published in turn: every entry states one root, signed.
func respStress(res *lib.Result, rng *mrand.Rand, key *rsa.PrivateKey, d time.Duration) {
	w := newRespWorld(res, rng, key, nil, 2)
	scratch := &memConn{memStore: w.conn.memStore, lists: map[common.SHA256Output]listPair{}}
	roots := map[string]*common.SHA256Output{}
	for _, l := range w.versions {
		r := scratch.publish(l)
		roots[string(r)] = scratch.root
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	for c := 0; c < 6; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			signer := map[string]string{}
			for n := 0; !stop.Load() && res.NumViolations() < 5; n++ {
				a, err := w.resp.GetProof(context.Background(), w.query)
				if err != nil {
					res.Violate("no-answer", "a query failed although nothing did: "+err.Error(), w.query)
					return
				}
				for _, e := range a {
					if _, ok := roots[string(e.PoI.Root)]; !ok || !bytes.Equal(e.PoI.Root, a[0].PoI.Root) {
						res.Violate("torn", "an answer states a root that was never published, or several", nil)
						return
					}
					if r, ok := signer[string(e.TreeHeadSig)]; ok && r == string(e.PoI.Root) {
						continue
					}
					if crypto.VerifySignedBytes(e.PoI.Root, e.TreeHeadSig, &key.PublicKey) != nil {
						res.Violate("torn-signature", "the signature in an answer is not that of the root in it", nil)
						return
					}
					signer[string(e.TreeHeadSig)] = string(e.PoI.Root)
				}
				res.Eval(1)
			}
		}()
	}
	for end, n := time.Now().Add(d), 0; time.Now().Before(end); n++ {
		for _, r := range roots {
			w.conn.mu.Lock()
			w.conn.root = r
			w.conn.mu.Unlock()
			if err := w.resp.ReloadRootAndSignTreeHead(context.Background(), key); err != nil {
				res.Violate("reload", err.Error(), nil)
			}
		}
	}
	stop.Store(true)
	wg.Wait()
}
