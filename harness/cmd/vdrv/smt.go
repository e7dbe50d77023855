package main

// Conformance driver for spec/SMT.tla: replays behaviours of the specification on the sparse Merkle tree.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

func init() { drivers["smt"] = smtDriver }

// memStore is the tree's storage.
type memStore struct {
	mu sync.Mutex
	m  map[common.SHA256Output][]byte
}

func newMemStore() *memStore { return &memStore{m: map[common.SHA256Output][]byte{}} }

func (s *memStore) RetrieveTreeNode(_ context.Context, id common.SHA256Output) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), s.m[id]...), nil
}
func (s *memStore) UpdateTreeNodes(_ context.Context, kv []*db.TreeNodeRecord) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range kv {
		s.m[k.Key] = append([]byte(nil), k.Value...)
	}
	return len(kv), nil
}
func (s *memStore) DeleteTreeNodes(_ context.Context, keys []common.SHA256Output) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, k := range keys {
		if _, ok := s.m[k]; ok {
			n++
			delete(s.m, k)
		}
	}
	return n, nil
}
func (s *memStore) Close() error { return nil }

// ---------------------------------------------------------------- concrete side of the specification's terms

type smtTerm struct {
	T    string
	K, V string
	H    int
	L, R *smtTerm
}

type smtProof struct {
	Inc  bool
	Leaf string
	Path []*smtTerm
}

type smtObs struct {
	M    map[string]string
	Root *smtTerm
	Prf  map[string]smtProof
	// evaluated
	root  []byte              // nil for the empty tree
	paths map[string][][]byte // bottom to top
}

type smtWorld struct {
	name string
	keys map[string][]byte // all keys, also the absent ones
	vals map[string][]byte
	obs  map[string]*smtObs
	all  []string
}

func sha(parts ...[]byte) []byte {
	h := sha256.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (w *smtWorld) eval(t *smtTerm) []byte {
	switch t.T {
	case "E":
		return []byte{0}
	case "L":
		return sha(w.keys[t.K], w.vals[t.V], []byte{byte(t.H)})
	case "N":
		return sha(w.eval(t.L), w.eval(t.R))
	}
	lib.Fatal("bad term %v", t)
	return nil
}

func canon(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "=" + m[k] + ";")
	}
	return b.String()
}

// canonicalRoot is the specification's Root, for contents too large to be enumerated by TLC. It is checked against TLC's
// own terms for every contents TLC enumerates.
func canonicalRoot(kv map[[32]byte][]byte) []byte {
	type pair struct{ k, v []byte }
	ps := make([]pair, 0, len(kv))
	for k, v := range kv {
		k := k
		ps = append(ps, pair{k[:], v})
	}
	sort.Slice(ps, func(i, j int) bool { return bytes.Compare(ps[i].k, ps[j].k) < 0 })
	var sub func(lo, hi, d int) []byte
	sub = func(lo, hi, d int) []byte {
		switch hi - lo {
		case 0:
			return []byte{0}
		case 1:
			return sha(ps[lo].k, ps[lo].v, []byte{byte(256 - d)})
		}
		mid := lo + sort.Search(hi-lo, func(i int) bool { return ps[lo+i].k[d/8]&(1<<(7-d%8)) != 0 })
		return sha(sub(lo, mid, d+1), sub(mid, hi, d+1))
	}
	if len(ps) == 0 {
		return nil
	}
	return sub(0, len(ps), 0)
}

func makeKey(rng *rand.Rand, bits []int) []byte {
	k := make([]byte, 32)
	rng.Read(k)
	for i, b := range bits {
		if b == 1 {
			k[i/8] |= 1 << (7 - i%8)
		} else {
			k[i/8] &^= 1 << (7 - i%8)
		}
	}
	return k
}

func loadSMTWorld(name, layoutFile, obsFile string, rng *rand.Rand) *smtWorld {
	w := &smtWorld{name: name, keys: map[string][]byte{}, vals: map[string][]byte{}, obs: map[string]*smtObs{}}
	var layout map[string][]int
	lib.ReadLines(layoutFile, func(b []byte) { lib.Must(json.Unmarshal(b, &layout)) })
	for k := range layout {
		w.all = append(w.all, k)
	}
	sort.Strings(w.all)
	for _, k := range w.all {
		w.keys[k] = makeKey(rng, layout[k])
	}
	for i := 0; i < 4; i++ {
		v := make([]byte, 32)
		rng.Read(v)
		w.vals[fmt.Sprintf("v%d", i)] = v
	}
	lib.ReadLines(obsFile, func(b []byte) {
		o := &smtObs{}
		lib.Must(json.Unmarshal(b, o))
		if o.Root.T != "E" {
			o.root = w.eval(o.Root)
		}
		o.paths = map[string][][]byte{}
		for k, p := range o.Prf {
			ap := [][]byte{}
			for i := len(p.Path) - 1; i >= 0; i-- {
				ap = append(ap, w.eval(p.Path[i]))
			}
			o.paths[k] = ap
		}
		w.obs[canon(o.M)] = o
		// the transcription of Root used for large contents agrees with the specification
		kv := map[[32]byte][]byte{}
		for k, v := range o.M {
			if v != "nil" {
				kv[[32]byte(w.keys[k])] = w.vals[v]
			}
		}
		if !bytes.Equal(canonicalRoot(kv), o.root) {
			lib.Fatal("transcription of Root disagrees with the specification")
		}
	})
	return w
}

// ---------------------------------------------------------------- replay

type smtVariant struct {
	Limit     int
	LoadCache bool
	Atomic    bool
}

func (v smtVariant) String() string {
	return fmt.Sprintf("cache-limit=%d,load-cache=%v,atomic=%v", v.Limit, v.LoadCache, v.Atomic)
}

type smtRun struct {
	w     *smtWorld
	v     smtVariant
	res   *lib.Result
	prop  string
	st    *memStore
	tr    *trie.Trie
	desc  func() any
	evals int
}

func (r *smtRun) open(root []byte) bool {
	ctx := context.Background()
	tr, err := trie.NewTrie(append([]byte(nil), root...), common.SHA256Hash, r.st)
	if len(root) == 0 {
		tr, err = trie.NewTrie(nil, common.SHA256Hash, r.st)
	}
	lib.Must(err)
	tr.CacheHeightLimit = r.v.Limit
	if r.v.LoadCache && len(root) > 0 {
		if err := tr.LoadCache(ctx, root); err != nil {
			r.bad("T01", "reload", "loading the cache of a committed tree fails: %v", err)
			return false
		}
	}
	r.tr = tr
	return true
}

func (r *smtRun) bad(prop, key, format string, args ...any) {
	if prop == r.prop {
		r.res.Violate(key, fmt.Sprintf(format, args...)+" ("+r.v.String()+")", r.desc())
	}
}

// check compares everything the tree tells with what the specification says about contents o.
func (r *smtRun) check(tr *trie.Trie, o *smtObs, where string) bool {
	ctx := context.Background()
	ok := true
	bad := func(prop, key, format string, args ...any) {
		r.bad(prop, key, "%s: "+format, append([]any{where}, args...)...)
		if prop == r.prop {
			ok = false
		}
	}
	if !bytes.Equal(tr.Root, o.root) {
		bad("T01", "root", "root is %x, the canonical root of the contents is %x", tr.Root, o.root)
	}
	for _, k := range r.w.all {
		key := r.w.keys[k]
		var want []byte
		if v, in := o.M[k]; in && v != "nil" {
			want = r.w.vals[v]
		}
		if r.prop == "T01" {
			r.evals++
			got, err := tr.Get(ctx, key)
			if err != nil {
				bad("T01", "get-error", "lookup of %s fails: %v", k, err)
			} else if !bytes.Equal(got, want) {
				bad("T01", "get", "lookup of %s gives %x, written was %x", k, got, want)
			}
			continue
		}
		r.evals++
		p := o.Prf[k]
		wantPath := o.paths[k]
		ap, inc, pk, pv, err := tr.MerkleProof(ctx, key)
		if err != nil {
			bad("T02", "proof-error", "no proof for %s: %v", k, err)
			continue
		}
		var leafKey, leafVal []byte
		if p.Leaf != "nil" {
			leafKey, leafVal = r.w.keys[p.Leaf], r.w.vals[o.M[p.Leaf]]
		}
		if inc != (want != nil) {
			bad("T02", "proof-kind", "proof for %s says included=%v", k, inc)
		}
		if len(tr.Root) > 0 {
			if len(ap) != len(wantPath) {
				bad("T02", "proof-path", "path for %s has %d elements, expected %d", k, len(ap), len(wantPath))
			} else {
				for i := range ap {
					if !bytes.Equal(ap[i], wantPath[i]) {
						bad("T02", "proof-path", "path element %d for %s is %x, expected %x", i, k, ap[i], wantPath[i])
						break
					}
				}
			}
		}
		if inc {
			if !bytes.Equal(pv, want) {
				bad("T02", "proof-value", "proof for %s carries value %x, stored is %x", k, pv, want)
			}
			if !trie.VerifyInclusion(tr.Root, ap, key, want) {
				bad("T02", "proof-verify", "inclusion proof for %s does not verify", k)
			}
		} else {
			if !bytes.Equal(pk, leafKey) || (len(leafKey) > 0 && !bytes.Equal(pv, leafVal)) {
				bad("T02", "proof-leaf", "non-inclusion proof for %s names leaf %x/%x, expected %x/%x", k, pk, pv, leafKey, leafVal)
			}
			if !trie.VerifyNonInclusion(tr.Root, ap, key, pv, pk) {
				bad("T02", "proof-verify", "non-inclusion proof for %s does not verify", k)
			}
		}
		bm, apc, length, inc2, pk2, pv2, err := tr.MerkleProofCompressed(ctx, key)
		if err != nil {
			bad("T02", "proofc-error", "no compressed proof for %s: %v", k, err)
			continue
		}
		if inc2 != (want != nil) || !bytes.Equal(pk2, pk) || !bytes.Equal(pv2, pv) || length != len(ap) {
			bad("T02", "proofc", "compressed proof for %s differs from the plain one", k)
		}
		if inc2 {
			if !tr.VerifyInclusionC(bm, key, want, apc, length) {
				bad("T02", "proofc-verify", "compressed inclusion proof for %s does not verify", k)
			}
		} else if !tr.VerifyNonInclusionC(apc, length, bm, key, pv2, pk2) {
			bad("T02", "proofc-verify", "compressed non-inclusion proof for %s does not verify", k)
		}
	}
	return ok
}

type smtAct struct {
	Op string
	B  map[string]string
}

func (r *smtRun) walk(g *lib.Graph, acts []smtAct, states [][2]string, w []int) {
	ctx := context.Background()
	r.st = newMemStore()
	step := 0
	r.desc = func() any {
		ks := map[string]string{}
		for k, v := range r.w.keys {
			ks[k] = hex.EncodeToString(v)
		}
		upto := step + 1
		if upto > len(w) {
			upto = len(w)
		}
		return map[string]any{"layout": r.w.name, "keys": ks, "variant": r.v.String(), "steps": g.Acts(w[:upto])}
	}
	defer func() {
		if p := recover(); p != nil {
			r.bad(r.prop, "panic", "panic: %v", p)
		}
	}()
	if !r.open(nil) {
		return
	}
	var committed []byte
	for i, e := range w {
		step = i
		a := acts[e]
		o := r.w.obs[states[g.Edges[e].To][0]]
		if o == nil {
			lib.Fatal("no observation for %v", states[g.Edges[e].To])
		}
		switch a.Op {
		case "Update":
			var names []string
			for k := range a.B {
				names = append(names, k)
			}
			sort.Slice(names, func(i, j int) bool {
				return bytes.Compare(r.w.keys[names[i]], r.w.keys[names[j]]) < 0
			})
			var ks, vs [][]byte
			for _, n := range names {
				ks = append(ks, append([]byte(nil), r.w.keys[n]...))
				if a.B[n] == "del" {
					vs = append(vs, trie.DefaultLeaf)
				} else {
					vs = append(vs, append([]byte(nil), r.w.vals[a.B[n]]...))
				}
			}
			var root []byte
			var err error
			if r.v.Atomic {
				root, err = r.tr.AtomicUpdate(ctx, ks, vs)
			} else {
				root, err = r.tr.Update(ctx, ks, vs)
			}
			if err != nil {
				r.bad("T01", "update-error", "update fails: %v", err)
				return
			}
			if !bytes.Equal(root, r.tr.Root) {
				r.bad("T01", "update-root", "update returns root %x but the tree's root is %x", root, r.tr.Root)
			}
		case "Commit":
			if err := r.tr.Commit(ctx); err != nil {
				r.bad("T01", "commit-error", "commit fails: %v", err)
				return
			}
			committed = append([]byte(nil), r.tr.Root...)
			// what is in storage is the whole tree
			saved := r.tr
			if !r.open(committed) {
				return
			}
			ok := r.check(r.tr, o, "after commit, read from storage")
			r.tr = saved
			if !ok {
				return
			}
		case "Reload":
			if !r.open(committed) {
				return
			}
		}
		if !r.check(r.tr, o, "after "+a.Op) {
			return
		}
	}
}

func smtDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("smt", flag.ExitOnError)
	prop := fs.String("prop", "T01", "")
	edges := fs.String("edges", "", "")
	obs := fs.String("obs", "", "")
	layout := fs.String("layout", "", "")
	name := fs.String("name", "", "")
	nrand := fs.Int("random", 50, "random walks per variant")
	large := fs.Int("large", 0, "histories over large contents")
	lib.Must(fs.Parse(args))
	rng := rand.New(rand.NewSource(lib.Seed()))
	w := loadSMTWorld(*name, *layout, *obs, rng)
	g := lib.LoadGraph(*edges)
	acts := make([]smtAct, len(g.Edges))
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	states := make([][2]string, len(g.States))
	for i, s := range g.States {
		var v [2]map[string]string
		lib.Must(json.Unmarshal(s, &v))
		states[i] = [2]string{canon(v[0]), canon(v[1])}
	}
	variants := []smtVariant{
		{257, false, false}, {0, false, false}, {233, false, false}, {32, true, false},
		{0, true, false}, {250, true, false}, {257, false, true}, {0, false, true},
	}
	type job struct {
		v smtVariant
		w []int
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				r := &smtRun{w: w, v: j.v, res: res, prop: *prop}
				r.walk(g, acts, states, j.w)
				res.Eval(r.evals)
				res.Trace(1)
			}
		}()
	}
	edgesCovered := 0
	for _, v := range variants {
		if v.Atomic && v.Limit == 0 && !lib.Thorough() {
			// replayed on random walks only
		} else {
			walks := g.CoverWalks(rng, 12+rng.Intn(40))
			for _, x := range walks {
				jobs <- job{v, x}
			}
			edgesCovered = len(g.Edges)
		}
		for i := 0; i < *nrand; i++ {
			jobs <- job{v, g.RandomWalk(rng, 40, nil)}
		}
	}
	close(jobs)
	wg.Wait()
	res.Note("edges_replayed_per_variant", edgesCovered)
	res.Note("variants", fmt.Sprint(variants))
	w0 := g.RandomWalk(rng, 6, nil)
	res.Sample(map[string]any{"layout": *name, "walk": g.Acts(w0)})
	for i := 0; i < *large; i++ {
		smtLarge(*prop, res, rand.New(rand.NewSource(lib.Seed()*1000+int64(i))), variants[i%6])
	}
}

// smtLarge replays a random history over many keys, enough of them for the update to work in parallel.
func smtLarge(prop string, res *lib.Result, rng *rand.Rand, v smtVariant) {
	ctx := context.Background()
	st := newMemStore()
	n := 3000 + rng.Intn(15000)
	pool := make([][32]byte, n)
	for i := range pool {
		rng.Read(pool[i][:])
		if i > 0 && rng.Intn(4) == 0 { // share a prefix with an earlier key
			d := rng.Intn(256)
			p := pool[rng.Intn(i)]
			copy(pool[i][:d/8], p[:d/8])
		}
	}
	cur := map[[32]byte][]byte{}
	tr, err := trie.NewTrie(nil, common.SHA256Hash, st)
	lib.Must(err)
	tr.CacheHeightLimit = v.Limit
	desc := map[string]any{"large": n, "variant": v.String(), "history": []string{}}
	hist := []string{}
	bad := func(p, key, format string, args ...any) {
		if p == prop {
			desc["history"] = hist
			res.Violate("large-"+key, fmt.Sprintf(format, args...)+" ("+v.String()+")", desc)
		}
	}
	for round := 0; round < 5; round++ {
		batch := map[[32]byte][]byte{}
		size := []int{n, n / 2, n, 50, 9000}[round]
		pdel := []int{0, 3, 2, 5, 2}[round]
		for i := 0; i < size && i < n; i++ {
			k := pool[rng.Intn(n)]
			if size == n {
				k = pool[i]
			}
			switch {
			case pdel > 0 && rng.Intn(pdel) == 0:
				batch[k] = trie.DefaultLeaf
			case cur[k] != nil && rng.Intn(3) == 0:
				batch[k] = cur[k] // the same value again
			default:
				x := make([]byte, 32)
				rng.Read(x)
				batch[k] = x
			}
		}
		ks := make([][]byte, 0, len(batch))
		for k := range batch {
			k := k
			ks = append(ks, k[:])
		}
		sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i], ks[j]) < 0 })
		vs := make([][]byte, len(ks))
		for i, k := range ks {
			x := batch[[32]byte(k)]
			vs[i] = append([]byte(nil), x...)
			if bytes.Equal(x, trie.DefaultLeaf) {
				delete(cur, [32]byte(k))
			} else {
				cur[[32]byte(k)] = append([]byte(nil), x...)
			}
		}
		hist = append(hist, fmt.Sprintf("update of %d keys", len(ks)))
		if _, err := tr.Update(ctx, ks, vs); err != nil {
			bad("T01", "update", "update fails: %v", err)
			return
		}
		if want := canonicalRoot(cur); !bytes.Equal(tr.Root, want) {
			bad("T01", "root", "root %x, canonical root %x", tr.Root, want)
			return
		}
		if round%2 == 0 {
			hist = append(hist, "commit")
			if err := tr.Commit(ctx); err != nil {
				bad("T01", "commit", "commit fails: %v", err)
				return
			}
			tr2, err := trie.NewTrie(append([]byte(nil), tr.Root...), common.SHA256Hash, st)
			lib.Must(err)
			tr2.CacheHeightLimit = v.Limit
			if v.LoadCache {
				if err := tr2.LoadCache(ctx, tr2.Root); err != nil {
					bad("T01", "load", "loading fails: %v", err)
					return
				}
			}
			hist = append(hist, "reload")
			tr = tr2
		}
		for i := 0; i < n; i++ {
			k := pool[i]
			want := cur[k]
			res.Eval(1)
			if prop == "T01" {
				got, err := tr.Get(ctx, k[:])
				if err != nil || !bytes.Equal(got, want) {
					bad("T01", "get", "lookup of %x gives %x, %v; written was %x", k, got, err, want)
					return
				}
				continue
			}
			if i%7 != 0 {
				continue
			}
			ap, inc, pk, pv, err := tr.MerkleProof(ctx, k[:])
			if err != nil || inc != (want != nil) || (inc && !bytes.Equal(pv, want)) {
				bad("T02", "proof", "proof of %x: included=%v value=%x %v; stored is %x", k, inc, pv, err, want)
				return
			}
			if inc && !trie.VerifyInclusion(tr.Root, ap, k[:], pv) ||
				!inc && !trie.VerifyNonInclusion(tr.Root, ap, k[:], pv, pk) {
				bad("T02", "verify", "proof of %x (included=%v) does not verify", k, inc)
				return
			}
			bm, apc, length, inc, pk, pv, err := tr.MerkleProofCompressed(ctx, k[:])
			if err != nil || inc && !tr.VerifyInclusionC(bm, k[:], pv, apc, length) ||
				!inc && !tr.VerifyNonInclusionC(apc, length, bm, k[:], pv, pk) {
				bad("T02", "verifyc", "compressed proof of %x (included=%v) does not verify: %v", k, inc, err)
				return
			}
		}
	}
	res.Trace(1)
}
