package main

// Cases of spec/Submit.tla with the real client of the log and a log that does what the case says.

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"fpkiverif/lib"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"github.com/transparency-dev/merkle/rfc6962"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	"github.com/netsec-ethz/fpki/pkg/common"
	logclient "github.com/netsec-ethz/fpki/pkg/policylog/client"
)

func init() { drivers["submit"] = submitDriver }

type submitCase struct {
	Add     []string `json:"add"`
	Fate    []string `json:"fate"`
	Workers int      `json:"workers"`
	Bad     []bool   `json:"bad"`
	Lost    []bool   `json:"lost"`
}

// fakeTree is a tree of the log; what it does with a leaf is known by the leaf's hash.
type fakeTree struct {
	mu       sync.Mutex
	rng      *rand.Rand
	id       int64
	add      map[string]string
	fate     map[string]string
	late     map[string]int // how often a late leaf is not found
	queued   map[string]int
	asked    map[string]int
	pending  int   // accepted, not in the tree yet
	size     int64 // of the tree
	unique   bool  // a leaf that is known does not make the tree grow
	foreign  int64 // leaves of others that arrive while waiting
	problems []string
	heads    int
	told     int64 // the last size given
}

type fakeLog struct {
	trillian.UnimplementedTrillianLogServer
	trees sync.Map // id -> *fakeTree
}

func (l *fakeLog) tree(id int64) *fakeTree {
	t, ok := l.trees.Load(id)
	if !ok {
		return nil
	}
	return t.(*fakeTree)
}

func (t *fakeTree) nap() { time.Sleep(time.Duration(t.rng.Intn(200)) * time.Microsecond) }

func proofOf(hash []byte, size int64) []*trillian.Proof {
	n := 1 + int(hash[0])%2
	ps := make([]*trillian.Proof, n)
	for i := range ps {
		ps[i] = &trillian.Proof{LeafIndex: int64(hash[1]) + int64(i), Hashes: [][]byte{sha([]byte("path"), hash, []byte{byte(i)}), sha([]byte("size"), []byte(fmt.Sprint(size)))}}
	}
	return ps
}

func rootOf(id, size int64) *types.LogRootV1 {
	return &types.LogRootV1{TreeSize: uint64(size), RootHash: sha([]byte("root"), []byte(fmt.Sprint(id, size))), TimestampNanos: uint64(size) * 7, Metadata: []byte{}}
}

func signedRoot(id, size int64) *trillian.SignedLogRoot {
	b, err := rootOf(id, size).MarshalBinary()
	lib.Must(err)
	return &trillian.SignedLogRoot{LogRoot: b}
}

func (l *fakeLog) QueueLeaf(ctx context.Context, req *trillian.QueueLeafRequest) (*trillian.QueueLeafResponse, error) {
	t := l.tree(req.LogId)
	if t == nil {
		return nil, status.Error(codes.NotFound, "no such tree")
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.nap()
	h := string(rfc6962.DefaultHasher.HashLeaf(req.Leaf.GetLeafValue()))
	how, ok := t.add[h]
	if !ok {
		t.problems = append(t.problems, "a leaf that was not given was added")
		return nil, status.Error(codes.InvalidArgument, "unknown leaf")
	}
	again := t.queued[h] > 0
	t.queued[h]++
	if how != "ok" {
		return nil, status.Errorf(codes.ResourceExhausted, "refused %x", h[:8])
	}
	if !(t.unique && again) {
		t.pending++
	}
	return &trillian.QueueLeafResponse{QueuedLeaf: &trillian.QueuedLogLeaf{Leaf: req.Leaf}}, nil
}

func (l *fakeLog) GetLatestSignedLogRoot(ctx context.Context, req *trillian.GetLatestSignedLogRootRequest) (*trillian.GetLatestSignedLogRootResponse, error) {
	t := l.tree(req.LogId)
	if t == nil {
		return nil, status.Error(codes.NotFound, "no such tree")
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.heads++
	t.told = t.size
	rsp := &trillian.GetLatestSignedLogRootResponse{SignedLogRoot: signedRoot(t.id, t.size)}
	// The tree grows between the questions.
	if t.foreign > 0 && t.pending > 0 {
		t.size += t.foreign
		t.foreign = 0
	}
	if t.pending > 0 {
		n := 1 + t.rng.Intn(t.pending)
		t.size += int64(n)
		t.pending -= n
	}
	return rsp, nil
}

func (l *fakeLog) GetConsistencyProof(ctx context.Context, req *trillian.GetConsistencyProofRequest) (*trillian.GetConsistencyProofResponse, error) {
	t := l.tree(req.LogId)
	if t == nil {
		return nil, status.Error(codes.NotFound, "no such tree")
	}
	if req.FirstTreeSize > req.SecondTreeSize {
		return nil, status.Error(codes.InvalidArgument, "sizes")
	}
	if req.FirstTreeSize == 13 {
		return &trillian.GetConsistencyProofResponse{}, nil
	}
	return &trillian.GetConsistencyProofResponse{Proof: &trillian.Proof{Hashes: [][]byte{sha([]byte(fmt.Sprint(req.FirstTreeSize, ":", req.SecondTreeSize)))}}}, nil
}

func (l *fakeLog) GetInclusionProofByHash(ctx context.Context, req *trillian.GetInclusionProofByHashRequest) (*trillian.GetInclusionProofByHashResponse, error) {
	t := l.tree(req.LogId)
	if t == nil {
		return nil, status.Error(codes.PermissionDenied, "no such tree")
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.nap()
	h := string(req.LeafHash)
	f, ok := t.fate[h]
	if !ok {
		t.problems = append(t.problems, "a leaf that was not given was asked for")
		return nil, status.Error(codes.InvalidArgument, "unknown leaf")
	}
	if req.TreeSize != t.told {
		t.problems = append(t.problems, fmt.Sprintf("the proof was asked for size %d of a tree of %d", req.TreeSize, t.told))
	}
	t.asked[h]++
	if t.asked[h] > 500 {
		t.problems = append(t.problems, "a leaf is asked for without end")
		return nil, status.Error(codes.Internal, "stop it")
	}
	good := &trillian.GetInclusionProofByHashResponse{Proof: proofOf(req.LeafHash, req.TreeSize), SignedLogRoot: signedRoot(t.id, t.size)}
	switch f {
	case "ok":
		return good, nil
	case "late":
		if t.asked[h] > t.late[h] {
			return good, nil
		}
		return nil, status.Error(codes.NotFound, "not yet")
	case "never":
		return nil, status.Error(codes.NotFound, "not found")
	case "none":
		return &trillian.GetInclusionProofByHashResponse{SignedLogRoot: good.SignedLogRoot}, nil
	case "fail":
		return nil, status.Errorf(codes.Internal, "broken %x", h[:8])
	case "bad":
		switch h[2] % 3 {
		case 0:
			good.SignedLogRoot = nil
		case 1:
			good.SignedLogRoot.LogRoot = good.SignedLogRoot.LogRoot[:len(good.SignedLogRoot.LogRoot)/2]
		default:
			good.SignedLogRoot.LogRoot = []byte{}
		}
		return good, nil
	}
	return nil, status.Error(codes.Internal, "no fate")
}

func submitDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("submit", flag.ExitOnError)
	cases := fs.String("cases", "", "")
	seed := fs.Int64("seed", 1, "")
	every := fs.Int("every", 1, "")
	fs.Parse(args)
	defer quiet()()

	var all []submitCase
	lib.ReadLines(*cases, func(b []byte) {
		var c submitCase
		lib.Must(json.Unmarshal(b, &c))
		all = append(all, c)
	})
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	lib.Must(err)
	log := &fakeLog{}
	srv := grpc.NewServer()
	trillian.RegisterTrillianLogServer(srv, log)
	go srv.Serve(ln)
	defer srv.Stop()

	dir, err := os.MkdirTemp(lib.Scratch(), "submit")
	lib.Must(err)
	defer os.RemoveAll(dir)

	rng := rand.New(rand.NewSource(*seed))
	offset := rng.Intn(*every)
	type job struct {
		n int
		c submitCase
	}
	jobs := make(chan job)
	wg := sync.WaitGroup{}
	var next atomic.Int64
	for k := 0; k < 64; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := range jobs {
				r := rand.New(rand.NewSource(*seed*1000003 + int64(j.n)))
				submitOne(res, log, ln.Addr().String(), filepath.Join(dir, fmt.Sprint(j.n)), next.Add(1)+100, j.c, r)
			}
		}(k)
	}
	n := 0
	for i, c := range all {
		if i%*every != offset {
			continue
		}
		jobs <- job{i, c}
		n++
	}
	close(jobs)
	wg.Wait()
	res.Note("cases", n)
	res.Trace(n)
}

func submitOne(res *lib.Result, log *fakeLog, addr, dir string, id int64, c submitCase, rng *rand.Rand) {
	say := func(key, format string, a ...any) {
		res.Violate(key, fmt.Sprintf(format, a...), c)
	}
	lib.Must(os.MkdirAll(filepath.Join(dir, "rpc"), 0o755))
	defer os.RemoveAll(dir)
	confFile := filepath.Join(dir, "conf.json")
	lib.Must(logclient.SaveLogClientConfigToFile(&logclient.LogClientConfig{TreeId: id, RPCAddress: addr, PolicyLogExchangePath: dir, NumOfWorker: c.Workers}, confFile))
	newTree := func() *fakeTree {
		return &fakeTree{rng: rand.New(rand.NewSource(rng.Int63())), id: id, add: map[string]string{}, fate: map[string]string{}, late: map[string]int{},
			queued: map[string]int{}, asked: map[string]int{}, size: int64(rng.Intn(4)) * 5}
	}
	client, err := logclient.NewLogClient(confFile, id)
	if err != nil {
		lib.Fatal("cannot make the client: %v", err)
	}
	K := len(c.Add)
	hash := func(b []byte) string { return string(rfc6962.DefaultHasher.HashLeaf(b)) }
	name := func(b []byte) string { return base64.URLEncoding.EncodeToString(rfc6962.DefaultHasher.HashLeaf(b)) }
	within := func(what string, f func(ctx context.Context)) bool {
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		done := make(chan any, 1)
		go func() {
			defer func() { done <- recover() }()
			f(ctx)
		}()
		select {
		case p := <-done:
			if p != nil {
				say("panic", "%s panicked: %v", what, p)
				return false
			}
			if ctx.Err() != nil {
				say("hang", "%s did not end", what)
				return false
			}
			return true
		case <-time.After(90 * time.Second):
			say("hang", "%s did not end", what)
			return false
		}
	}
	counts := func(xs [][]byte) map[string]int {
		m := map[string]int{}
		for _, x := range xs {
			m[string(x)]++
		}
		return m
	}
	same := func(a, b map[string]int) bool {
		if len(a) != len(b) {
			return false
		}
		for k, v := range a {
			if b[k] != v {
				return false
			}
		}
		return true
	}

	// 1. AddLeaves and FetchInclusions, with arbitrary leaves, some of them several times.
	t := newTree()
	log.trees.Store(id, t)
	var data [][]byte
	want := map[string]int{} // failing to be added, by content
	lost := map[string]int{}
	for l := 0; l < K; l++ {
		b := make([]byte, rng.Intn(40))
		if len(b) > 0 {
			rng.Read(b)
		}
		b = append(b, byte(l))
		times := 1
		if rng.Intn(4) == 0 {
			times = 2 + rng.Intn(2)
		}
		t.add[hash(b)], t.fate[hash(b)], t.late[hash(b)] = c.Add[l], c.Fate[l], 1+rng.Intn(3)
		for i := 0; i < times; i++ {
			data = append(data, b)
			if c.Bad[l] {
				want[string(b)]++
			}
			if c.Fate[l] != "ok" && c.Fate[l] != "late" {
				lost[string(b)]++
			}
		}
	}
	rng.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	before := make([][]byte, len(data))
	for i := range data {
		before[i] = append([]byte{}, data[i]...)
	}
	ok := within("AddLeaves", func(ctx context.Context) {
		r := client.AddLeaves(ctx, data)
		if !same(counts(r.FailedLeaves), want) {
			say("add-failed", "AddLeaves: %d leaves reported as failed, not exactly the %d that did", len(r.FailedLeaves), sum(want))
		}
		if len(r.Errs) != sum(want) {
			say("add-errors", "AddLeaves: %d errors for %d failures", len(r.Errs), sum(want))
		}
		for i, e := range r.Errs {
			if status.Code(e) != codes.ResourceExhausted {
				say("add-errors", "AddLeaves: error %v", e)
			} else if i < len(r.FailedLeaves) && !bytes.Contains([]byte(e.Error()), []byte(fmt.Sprintf("%x", hash(r.FailedLeaves[i])[:8]))) {
				say("add-errors", "AddLeaves: error %d is not the one of failed leaf %d: %v", i, i, e)
			}
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		if !same(byHash(before), t.queued) {
			say("add-once", "AddLeaves: %d leaves given, not each added exactly once", len(before))
		}
	})
	if ok {
		// the tree grows to what was added
		t.mu.Lock()
		t.size += int64(t.pending)
		t.pending = 0
		t.mu.Unlock()
		within("UpdateTreeSize", func(ctx context.Context) {
			if err := client.UpdateTreeSize(ctx); err != nil {
				say("size", "UpdateTreeSize: %v", err)
			}
			root, err := client.GetCurrentLogRoot(ctx)
			if err != nil || root.TreeSize != uint64(t.size) || !bytes.Equal(root.RootHash, rootOf(id, t.size).RootHash) {
				say("head", "GetCurrentLogRoot: %v, %v", root, err)
			}
			h, err := client.GetConsistencyProof(ctx, rootOf(id, 3), rootOf(id, 9))
			if err != nil || len(h) != 1 || !bytes.Equal(h[0], sha([]byte("3:9"))) {
				say("consistency", "GetConsistencyProof(3,9): %x, %v", h, err)
			}
			if h, err := client.GetConsistencyProof(ctx, rootOf(id, 9), rootOf(id, 3)); err == nil {
				say("consistency", "GetConsistencyProof(9,3) gave %x", h)
			}
			client.GetConsistencyProof(ctx, rootOf(id, 13), rootOf(id, 14)) // an answer without proof
		})
		ok = within("FetchInclusions", func(ctx context.Context) {
			r := client.FetchInclusions(ctx, data)
			if !same(counts(r.FailedLeaves), lost) || len(r.Errs) != sum(lost) {
				say("fetch-failed", "FetchInclusions: %d leaves and %d errors reported, not exactly the %d failures", len(r.FailedLeaves), len(r.Errs), sum(lost))
			}
			if len(r.FailedLeavesName) != len(r.FailedLeaves) {
				say("fetch-names", "FetchInclusions: %d names of %d failed leaves", len(r.FailedLeavesName), len(r.FailedLeaves))
			} else {
				for i, n := range r.FailedLeavesName {
					if n != name(r.FailedLeaves[i]) {
						say("fetch-names", "FetchInclusions: name %s for another failed leaf", n)
					}
				}
			}
			n := 0
			seen := map[string]bool{}
			for _, b := range before {
				if lost[string(b)] > 0 || seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				n++
				p := r.PoIs[name(b)]
				if p == nil {
					say("fetch-missing", "FetchInclusions: no proof for a leaf that has one")
					continue
				}
				wantP := proofOf([]byte(hash(b)), t.size)
				good := len(p.PoIs) == len(wantP) && p.STH.TreeSize == uint64(t.size) && bytes.Equal(p.STH.RootHash, rootOf(id, t.size).RootHash)
				for i := 0; good && i < len(wantP); i++ {
					good = p.PoIs[i].LeafIndex == wantP[i].LeafIndex && len(p.PoIs[i].Hashes) == 2 && bytes.Equal(p.PoIs[i].Hashes[0], wantP[i].Hashes[0]) && bytes.Equal(p.PoIs[i].Hashes[1], wantP[i].Hashes[1])
				}
				if !good {
					say("fetch-wrong", "FetchInclusions: not the proof and head the log gave for the leaf")
				}
			}
			if len(r.PoIs) != n {
				say("fetch-extra", "FetchInclusions: %d proofs, %d leaves have one", len(r.PoIs), n)
			}
			t.mu.Lock()
			defer t.mu.Unlock()
			for h, f := range t.fate {
				if (f == "never" || f == "none") && t.asked[h] < 2 {
					say("fetch-retry", "FetchInclusions: a leaf that was not found was not asked for again")
				}
			}
		})
	}
	for i := range data {
		if !bytes.Equal(data[i], before[i]) {
			say("input", "the leaves given were changed")
		}
	}
	res.Eval(2)
	t.mu.Lock()
	for _, p := range t.problems {
		say("request", "%s", p)
	}
	t.mu.Unlock()
	if !ok {
		return
	}

	// 2. QueueRPCs of files, with the log growing while others add to it.
	for round := 0; round < 2; round++ {
		t = newTree()
		if rng.Intn(2) == 0 {
			t.foreign = int64(rng.Intn(4))
		}
		log.trees.Store(id, t)
		if rng.Intn(2) == 0 { // another client for the same log, which does not know its size
			client, err = logclient.NewLogClient(confFile, id)
			if err != nil {
				lib.Fatal("cannot make the client: %v", err)
			}
		} else {
			client.UpdateTreeSize(context.Background())
			t.size += int64(rng.Intn(3))
		}
		var want, lost []string
		for l := 0; l < K; l++ {
			pc := makePolicy(round*10+l, fmt.Sprintf("d%d.com", l))
			raw, err := common.ToJSON(pc)
			lib.Must(err)
			file := filepath.Join(dir, "rpc", fmt.Sprintf("%d.json", l))
			lib.Must(os.WriteFile(file, raw, 0o644))
			rd, err := common.JsonFileToPolicyCert(file)
			lib.Must(err)
			raw, err = common.ToJSON(rd)
			lib.Must(err)
			t.add[hash(raw)], t.fate[hash(raw)], t.late[hash(raw)] = c.Add[l], c.Fate[l], 1+rng.Intn(3)
			if c.Bad[l] {
				t.fate[hash(raw)] = "never"
				want = append(want, string(raw))
			}
			if c.Lost[l] {
				lost = append(lost, string(raw))
			}
		}
		good := within("QueueRPCs", func(ctx context.Context) {
			r, err := client.QueueRPCs(ctx)
			if err != nil {
				say("queue", "QueueRPCs: %v", err)
				return
			}
			if r.NumOfSucceedAddedLeaves != K-len(want) || !sameStrings(r.FailToAddLeaves, want) || len(r.AddLeavesErrs) != len(want) {
				say("queue-add", "QueueRPCs: %d added, %d failures with %d errors reported, %d of %d failed", r.NumOfSucceedAddedLeaves, len(r.FailToAddLeaves), len(r.AddLeavesErrs), len(want), K)
			}
			if r.NumOfRetrievedLeaves != K-len(lost) || !sameStrings(r.FailToRetrievedLeaves, lost) || len(r.RetrieveLeavesErrs) != len(lost) || len(r.FailToRetrieveLeavesName) != len(lost) {
				say("queue-fetch", "QueueRPCs: %d proofs, %d failures with %d errors reported, %d of %d failed", r.NumOfRetrievedLeaves, len(r.FailToRetrievedLeaves), len(r.RetrieveLeavesErrs), len(lost), K)
			}
			t.mu.Lock()
			defer t.mu.Unlock()
			for h, n := range t.queued {
				if n != 1 {
					say("queue-once", "QueueRPCs: a leaf was added %d times", n)
				}
				_ = h
			}
			if len(t.queued) != K {
				say("queue-once", "QueueRPCs: %d of %d leaves were added", len(t.queued), K)
			}
			for _, p := range t.problems {
				say("request", "QueueRPCs: %s", p)
			}
		})
		res.Eval(1)
		if !good {
			return
		}
	}
	if K == 2 && c.Workers == 1 && !c.Lost[0] && !c.Lost[1] && c.Fate[0] == "ok" && c.Fate[1] == "ok" {
		// A log that keeps identical leaves only once.
		t = newTree()
		t.unique = true
		log.trees.Store(id, t)
		for l := 0; l < K; l++ {
			raw, err := common.ToJSON(makePolicy(77, "same.com"))
			lib.Must(err)
			file := filepath.Join(dir, "rpc", fmt.Sprintf("%d.json", l))
			lib.Must(os.WriteFile(file, raw, 0o644))
			rd, err := common.JsonFileToPolicyCert(file)
			lib.Must(err)
			raw, err = common.ToJSON(rd)
			lib.Must(err)
			t.add[hash(raw)], t.fate[hash(raw)] = "ok", "ok"
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		_, err := client.QueueRPCs(ctx)
		cancel()
		if err != nil {
			say("queue-duplicate", "QueueRPCs of two identical leaves, which the log keeps once, does not end: %v", err)
		}
		res.Eval(1)
	}
	res.Sample(map[string]any{"workers": c.Workers, "add": c.Add, "fate": c.Fate})
}

func byHash(xs [][]byte) map[string]int {
	m := map[string]int{}
	for _, x := range xs {
		m[string(rfc6962.DefaultHasher.HashLeaf(x))]++
	}
	return m
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func sameStrings(a [][]byte, b []string) bool {
	x := []string{}
	for _, s := range a {
		x = append(x, string(s))
	}
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}
