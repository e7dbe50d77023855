package main

// Answers of spec/Client.tla given to the real client-side check; the honest ones are made by the real responder.

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"sync"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

func init() { drivers["client"] = clientDriver }

type listPair struct{ certs, pols []byte }

// memConn is a connection to published trees and lists kept in memory; everything else of db.Conn is missing.
type memConn struct {
	db.Conn
	*memStore
	mu    sync.Mutex
	root  *common.SHA256Output
	lists map[common.SHA256Output]listPair
	gate  func(ctx context.Context, op string) error
}

func newMemConn() *memConn {
	return &memConn{memStore: newMemStore(), lists: map[common.SHA256Output]listPair{}}
}

func (c *memConn) pass(ctx context.Context, op string) error {
	if c.gate != nil {
		return c.gate(ctx, op)
	}
	return nil
}
func (c *memConn) Close() error { return nil }
func (c *memConn) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
	if err := c.pass(ctx, "LoadRoot"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.root, nil
}
func (c *memConn) RetrieveTreeNode(ctx context.Context, id common.SHA256Output) ([]byte, error) {
	if err := c.pass(ctx, "RetrieveTreeNode"); err != nil {
		return nil, err
	}
	return c.memStore.RetrieveTreeNode(ctx, id)
}
func (c *memConn) UpdateTreeNodes(ctx context.Context, kv []*db.TreeNodeRecord) (int, error) {
	return c.memStore.UpdateTreeNodes(ctx, kv)
}
func (c *memConn) DeleteTreeNodes(ctx context.Context, keys []common.SHA256Output) (int, error) {
	return c.memStore.DeleteTreeNodes(ctx, keys)
}
func (c *memConn) RetrieveDomainCertificatesIDs(ctx context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	if err := c.pass(ctx, "Certs"); err != nil {
		return common.SHA256Output{}, nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return idOfList(c.lists[id].certs), append([]byte(nil), c.lists[id].certs...), nil
}
func (c *memConn) RetrieveDomainPoliciesIDs(ctx context.Context, id common.SHA256Output) (common.SHA256Output, []byte, error) {
	if err := c.pass(ctx, "Policies"); err != nil {
		return common.SHA256Output{}, nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return idOfList(c.lists[id].pols), append([]byte(nil), c.lists[id].pols...), nil
}

func idOfList(l []byte) (r common.SHA256Output) {
	if len(l) > 0 {
		copy(r[:], sha(l))
	}
	return r
}

// glue is the sorted concatenation of identifiers.
func glue(ids [][]byte) []byte {
	sort.Slice(ids, func(a, b int) bool { return bytes.Compare(ids[a], ids[b]) < 0 })
	return bytes.Join(ids, nil)
}

func split32(l []byte) (r [][]byte) {
	for ; len(l) >= 32; l = l[32:] {
		r = append(r, l[:32])
	}
	return r
}

// publish makes the lists the connection's, on a tree of its own, and returns the root.
func (c *memConn) publish(lists map[common.SHA256Output]listPair) []byte {
	keys, vals := [][]byte{}, [][]byte{}
	for id, l := range lists {
		keys = append(keys, append([]byte{}, id[:]...))
		vals = append(vals, sha(glue(append(split32(l.certs), split32(l.pols)...))))
	}
	perm := make([]int, len(keys))
	for k := range perm {
		perm[k] = k
	}
	sort.Slice(perm, func(a, b int) bool { return bytes.Compare(keys[perm[a]], keys[perm[b]]) < 0 })
	ks, vs := [][]byte{}, [][]byte{}
	for _, k := range perm {
		ks, vs = append(ks, keys[k]), append(vs, vals[k])
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.lists = lists
	if len(ks) == 0 {
		c.root = nil
		return nil
	}
	t, err := trie.NewTrie(nil, common.SHA256Hash, c.memStore)
	lib.Must(err)
	root, err := t.Update(context.Background(), ks, vs)
	lib.Must(err)
	lib.Must(t.Commit(context.Background()))
	c.root = (*common.SHA256Output)(append([]byte{}, root...))
	return append([]byte{}, root...)
}

// similarNames returns names whose keys have the wanted leading bits in common with that of a first one.
func similarNames(rng *rand.Rand, names []string, common []int) map[string]string {
	r := map[string]string{}
	var first []byte
	for k, n := range names {
		for {
			s := fmt.Sprintf("v%d.com", rng.Int63())
			h := sha([]byte(s))
			if first == nil {
				first = h
			}
			ok := true
			for b := 0; b < common[k%len(common)]; b++ {
				ok = ok && (h[b/8]^first[b/8])>>(7-b%8)&1 == 0
			}
			if ok {
				r[n] = s
				break
			}
		}
	}
	return r
}

func clientDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("client", flag.ExitOnError)
	file := fs.String("answers", "", "")
	treesF := fs.String("trees", "", "")
	namesF := fs.String("names", "", "")
	fs.Parse(args)
	rng := rand.New(rand.NewSource(lib.Seed()))
	var names []string
	lib.Must(json.Unmarshal([]byte(*namesF), &names))
	trees := map[string]map[string][2][]string{}
	lib.ReadLines(*treesF, func(b []byte) { lib.Must(json.Unmarshal(b, &trees)) })
	ctx := context.Background()
	text := similarNames(rng, names, []int{0, 9, 4, 1, 6})
	ids := map[string][]byte{}
	list := func(l []string) []byte {
		x := [][]byte{}
		for _, i := range l {
			if ids[i] == nil {
				ids[i] = make([]byte, 32)
				rng.Read(ids[i])
			}
			x = append(x, ids[i])
		}
		return glue(x)
	}
	key := rsaKeyOf(1024)
	honest := map[[2]string]*mapcommon.MapServerResponse{}
	// what the trees commit to, for altered lists that happen to be those of an entry
	committed := map[string]map[string][]byte{}
	for t, content := range trees {
		c := newMemConn()
		lists := map[common.SHA256Output]listPair{}
		for n, l := range content {
			lists[common.SHA256Hash32Bytes([]byte(text[n]))] = listPair{list(l[0]), list(l[1])}
		}
		root := c.publish(lists)
		committed[string(root)] = map[string][]byte{}
		for n, l := range content {
			committed[string(root)][text[n]] = append(list(l[0]), list(l[1])...)
		}
		r, err := responder.NewMapResponder(ctx, c, key)
		lib.Must(err)
		for _, n := range names {
			a, err := r.GetProof(ctx, text[n])
			if err != nil || len(a) != 1 {
				res.Violate("honest-answer", fmt.Sprintf("no answer for a name: %v", err), []string{t, n})
				return
			}
			honest[[2]string{t, n}] = a[0]
			_, there := content[n]
			if there != (a[0].PoI.ProofType == mapcommon.PoP) || !bytes.Equal(a[0].PoI.Root, root) {
				res.Violate("honest-answer", "an honest answer has the wrong kind or root", []string{t, n})
			}
		}
	}
	type line struct {
		A            map[string][2]string `json:"a"`
		True, Honest bool
		Says         string
	}
	var lines []line
	lib.ReadLines(*file, func(b []byte) {
		var l line
		lib.Must(json.Unmarshal(b, &l))
		lines = append(lines, l)
	})
	walks := make([][]int, len(lines))
	for k := range walks {
		walks[k] = []int{k}
	}
	isTrue := func(a *mapcommon.MapServerResponse, kind mapcommon.ProofType) bool {
		all, there := committed[string(a.PoI.Root)][a.DomainEntry.DomainName]
		if kind == mapcommon.PoA {
			return committed[string(a.PoI.Root)] != nil && !there
		}
		e := a.DomainEntry
		return there && len(e.CertIDs)%32 == 0 && len(e.PolicyIDs)%32 == 0 && bytes.Equal(glue(split32(all)), glue(append(split32(e.CertIDs), split32(e.PolicyIDs)...)))
	}
	dup := func(b []byte) []byte { return append([]byte(nil), b...) }
	parallel(walks, rng, func(w []int, rng *rand.Rand) {
		l := lines[w[0]]
		junk := func(b []byte) []byte {
			b = dup(b)
			switch {
			case len(b) == 0 || rng.Intn(3) == 0:
				x := make([]byte, rng.Intn(70)+1)
				rng.Read(x)
				return append(b, x...)
			case rng.Intn(3) == 0:
				return b[:rng.Intn(len(b))]
			}
			b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
			return b
		}
		junk32 := func(b common.SHA256Output) common.SHA256Output {
			b[rng.Intn(32)] ^= 1 << rng.Intn(8)
			return b
		}
		base := honest[l.A["kind"]]
		from := func(f string) (*mapcommon.MapServerResponse, bool) {
			if o, ok := honest[l.A[f]]; ok {
				return o, false
			}
			for _, k := range []string{"kind", "name", "root"} { // junk is that of a part of some answer
				if o, ok := honest[l.A[k]]; ok && rng.Intn(2) == 0 {
					return o, true
				}
			}
			return base, true
		}
		a := &mapcommon.MapServerResponse{DomainEntry: &mapcommon.DomainEntry{}, TreeHeadSig: dup(base.TreeHeadSig)}
		a.PoI.ProofType = base.PoI.ProofType
		o, j := from("name")
		if a.DomainEntry.DomainName = o.DomainEntry.DomainName; j {
			b := []byte(a.DomainEntry.DomainName)
			b[rng.Intn(len(b))] ^= 1
			a.DomainEntry.DomainName = []string{string(b), "www." + string(b), a.DomainEntry.DomainName + ".", "", "x." + a.DomainEntry.DomainName}[rng.Intn(5)]
		}
		o, j = from("id")
		if a.DomainEntry.DomainID = o.DomainEntry.DomainID; j {
			a.DomainEntry.DomainID = junk32(o.DomainEntry.DomainID)
		}
		o, j = from("root")
		if a.PoI.Root = dup(o.PoI.Root); j {
			a.PoI.Root = junk(o.PoI.Root)
		}
		o, j = from("leaf")
		if a.PoI.ProofKey, a.PoI.ProofValue = dup(o.PoI.ProofKey), dup(o.PoI.ProofValue); j {
			if rng.Intn(2) == 0 {
				a.PoI.ProofKey = junk(o.PoI.ProofKey)
			} else {
				a.PoI.ProofValue = junk(o.PoI.ProofValue)
			}
		}
		o, j = from("path")
		for _, p := range o.PoI.Proof {
			a.PoI.Proof = append(a.PoI.Proof, dup(p))
		}
		if j {
			if n := len(a.PoI.Proof); n == 0 || rng.Intn(3) == 0 {
				a.PoI.Proof = append(a.PoI.Proof, junk(make([]byte, 32)))
			} else {
				k := rng.Intn(n)
				a.PoI.Proof[k] = junk(a.PoI.Proof[k])
			}
		}
		o, j = from("certs")
		if a.DomainEntry.CertIDs, a.DomainEntry.CertIDsID = dup(o.DomainEntry.CertIDs), o.DomainEntry.CertIDsID; j {
			a.DomainEntry.CertIDs = junk(o.DomainEntry.CertIDs)
		}
		o, j = from("pols")
		if a.DomainEntry.PolicyIDs, a.DomainEntry.PolicyIDsID = dup(o.DomainEntry.PolicyIDs), o.DomainEntry.PolicyIDsID; j {
			a.DomainEntry.PolicyIDs = junk(o.DomainEntry.PolicyIDs)
		}
		o, j = from("value")
		if a.DomainEntry.DomainValue = o.DomainEntry.DomainValue; j {
			a.DomainEntry.DomainValue = junk32(o.DomainEntry.DomainValue)
		}
		before := deepCopyResponse(a)
		kind, ok, err := mapcommon.PoA, false, error(nil)
		safely(res, "crash", "checking an answer", l, func() { kind, ok, err = prover.VerifyProofByDomain(a) })
		res.Eval(1)
		ok = ok && err == nil
		switch {
		case l.Honest && !ok:
			res.Violate("honest-refused", fmt.Sprintf("an honest answer is rejected: %v", err), l)
		case ok && !l.True && isTrue(a, kind):
			res.Count("true by chance", 1)
		case ok && !l.True:
			res.Violate("accepted-"+l.Says, "an answer is accepted that is not what the tree commits to", l)
		case ok && (kind == mapcommon.PoP) != (l.Says == "present"):
			res.Violate("kind", "an answer is accepted as one of the other kind", l)
		}
		if ok {
			res.Count("accepted", 1)
		}
		if !bytes.Equal(before, deepCopyResponse(a)) {
			res.Violate("changed", "checking an answer changes it", l)
		}
	})
	res.Trace(len(lines))
	// lists cut elsewhere than between identifiers
	for k, o := range honest {
		for n := 1; n < 64; n++ {
			e := *o.DomainEntry
			all := append(dup(e.CertIDs), e.PolicyIDs...)
			if n%32 == 0 || n >= len(all) {
				continue
			}
			a := *o
			a.DomainEntry = &e
			e.CertIDs, e.PolicyIDs = all[:n], all[n:]
			safely(res, "crash", "checking cut lists", k, func() {
				if _, ok, err := prover.VerifyProofByDomain(&a); ok && err == nil {
					res.Violate("accepted-cut", fmt.Sprintf("lists of %d and %d bytes are accepted", n, len(all)-n), k)
				}
			})
			res.Eval(1)
		}
	}
	// answers without an entry
	for _, o := range honest {
		a := *o
		a.DomainEntry = nil
		safely(res, "crash-empty", "an answer without entry", nil, func() {
			if _, ok, err := prover.VerifyProofByDomain(&a); ok && err == nil {
				res.Violate("accepted-empty", "an answer without entry is accepted", nil)
			}
		})
	}
}

func deepCopyResponse(a *mapcommon.MapServerResponse) []byte {
	b, err := json.Marshal(a)
	lib.Must(err)
	return b
}
