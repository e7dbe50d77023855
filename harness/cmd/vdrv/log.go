package main

// Cases of spec/Log.tla with the real log verifier.

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"fpkiverif/lib"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"github.com/transparency-dev/merkle"

	"github.com/netsec-ethz/fpki/pkg/logverifier"
)

func init() { drivers["log"] = logDriver }

// otherHasher is a log hasher that is not the default one.
type otherHasher struct{}

func other(parts ...[]byte) []byte {
	h := sha512.Sum512_256(bytes.Join(parts, nil))
	return h[:]
}
func (otherHasher) EmptyRoot() []byte               { return other() }
func (otherHasher) HashLeaf(leaf []byte) []byte     { return other([]byte{0}, leaf) }
func (otherHasher) HashChildren(l, r []byte) []byte { return other([]byte{1}, l, r) }
func (otherHasher) Size() int                       { return 32 }

var _ merkle.LogHasher = otherHasher{}

func plain(parts ...[]byte) []byte {
	h := sha256.Sum256(bytes.Join(parts, nil))
	return h[:]
}

func logDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("log", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	fs.Parse(args)
	type pr struct {
		I int   `json:"i"`
		P []any `json:"p"`
	}
	type head struct {
		Size uint64 `json:"size"`
		Root any    `json:"root"`
	}
	type cas struct {
		T head `json:"t"`
		A struct {
			Op string `json:"op"`
			H  head   `json:"h"`
			P  []any  `json:"p"`
			X  string `json:"x"`
			Ps []pr   `json:"ps"`
			Ok any    `json:"ok"`
		} `json:"a"`
	}
	var raws [][]byte
	lib.ReadLines(*edges, func(b []byte) { raws = append(raws, append([]byte{}, b...)) })
	entries := map[string][]byte{}
	seedRng := rand.New(rand.NewSource(lib.Seed()))
	var mu sync.Mutex
	entry := func(x string) []byte {
		mu.Lock()
		defer mu.Unlock()
		if entries[x] == nil {
			n := seedRng.Intn(100)
			if len(entries) == 0 {
				n = 0
			}
			b := make([]byte, n)
			seedRng.Read(b)
			if n > 0 && n < 4 || n == 0 && len(entries) > 0 {
				b = []byte(x)
			}
			if b == nil {
				b = []byte{}
			}
			entries[x] = b
		}
		return entries[x]
	}
	type world struct {
		v *logverifier.LogVerifier
		h func(...[]byte) []byte
	}
	worlds := []world{{logverifier.NewLogVerifier(nil), plain}, {logverifier.NewLogVerifier(otherHasher{}), other}}
	var eval func(h func(...[]byte) []byte, junk []byte, t any) []byte
	eval = func(h func(...[]byte) []byte, junk []byte, t any) []byte {
		s := t.([]any)
		switch s[0] {
		case "e":
			return h()
		case "l":
			return h([]byte{0}, entry(s[1].(string)))
		case "n":
			return h([]byte{1}, eval(h, junk, s[1]), eval(h, junk, s[2]))
		}
		return append([]byte{}, junk...)
	}
	idx := make([][]int, len(raws))
	for k := range idx {
		idx[k] = []int{k}
	}
	parallel(idx, seedRng, func(walk []int, rng *rand.Rand) {
		var c cas
		lib.Must(json.Unmarshal(raws[walk[0]], &c))
		w := worlds[rng.Intn(len(worlds))]
		junk := make([]byte, 32)
		rng.Read(junk)
		switch rng.Intn(8) {
		case 0:
			junk = junk[:rng.Intn(32)]
		case 1:
			junk = append(junk, 0)
		case 2:
			junk = nil
		}
		terms := func(p []any) [][]byte {
			r := [][]byte{}
			for _, t := range p {
				r = append(r, eval(w.h, junk, t))
			}
			if len(r) == 0 && rng.Intn(2) == 0 {
				return nil
			}
			return r
		}
		root := func(h head) *types.LogRootV1 {
			r := &types.LogRootV1{TreeSize: h.Size, RootHash: eval(w.h, junk, h.Root), TimestampNanos: rng.Uint64(), Revision: rng.Uint64()}
			if rng.Intn(2) == 0 {
				r.Metadata = []byte{1, 2}
			}
			return r
		}
		trusted := root(c.T)
		var proofs []*trillian.Proof
		for _, p := range c.A.Ps {
			i := int64(p.I)
			if i < 0 {
				i = -1 - rng.Int63n(1<<uint(rng.Intn(62)))
			}
			if i < 0 && c.T.Size != 1 && rng.Intn(3) == 0 { // (for one entry, nothing proves it)
				proofs = append(proofs, nil)
				continue
			}
			proofs = append(proofs, &trillian.Proof{LeafIndex: i, Hashes: terms(p.P)})
		}
		var leaf []byte
		if c.A.X != "" {
			leaf = w.v.HashLeaf(entry(c.A.X))
			if want := w.h([]byte{0}, entry(c.A.X)); !bytes.Equal(leaf, want) {
				res.Violate("hash-leaf", "the hash of a leaf is not that of RFC 6962", c.A.X)
			}
		}
		var next *types.LogRootV1
		if c.A.Op != "Incl" {
			next = root(c.A.H)
		}
		cons := terms(c.A.P)
		type in struct {
			T, N *types.LogRootV1
			L    []byte
			C    [][]byte
			P    []string
		}
		snap := func() in {
			r := in{L: append([]byte{}, leaf...)}
			cp := func(x *types.LogRootV1) *types.LogRootV1 {
				if x == nil {
					return nil
				}
				y := *x
				y.RootHash = append([]byte{}, x.RootHash...)
				return &y
			}
			r.T, r.N = cp(trusted), cp(next)
			for _, x := range cons {
				r.C = append(r.C, append([]byte{}, x...))
			}
			for _, p := range proofs {
				r.P = append(r.P, fmt.Sprint(p.GetLeafIndex(), p.GetHashes()))
			}
			return r
		}
		before := snap()
		what := fmt.Sprintf("trusted size %d, %s", c.T.Size, strings.TrimSpace(string(raws[walk[0]])))
		var err error
		crashed := true
		safely(res, "crash-"+c.A.Op, "verification", what, func() {
			switch c.A.Op {
			case "Root":
				var got *types.LogRootV1
				got, err = w.v.VerifyRoot(trusted, next, cons)
				if err == nil && !reflect.DeepEqual(got, next) {
					res.Violate("root-returned", "an accepted head is not the one returned", what)
				}
				if err != nil && got != nil {
					res.Violate("root-returned", "a head is returned that was not accepted", what)
				}
			case "Incl":
				err = w.v.VerifyInclusionByHash(trusted, leaf, proofs)
			case "Both":
				err = w.v.VerifyInclusionWithPrevLogRoot(trusted, next, cons, leaf, proofs)
			}
			crashed = false
		})
		res.Eval(1)
		res.Count(fmt.Sprintf("%s-%v", c.A.Op, c.A.Ok), 1)
		if crashed {
			return
		}
		if !reflect.DeepEqual(before, snap()) {
			res.Violate("changed-"+c.A.Op, "verification changes what it was given", what)
		}
		switch c.A.Ok {
		case "accept":
			if err != nil {
				res.Violate("refused-"+c.A.Op, "a true statement is rejected: "+err.Error(), what)
			}
		case "reject":
			if err == nil {
				res.Violate("accepted-"+c.A.Op, "a statement is accepted that is not proved", what)
			}
		}
	})
	// heads that are missing
	for _, w := range worlds {
		r := &types.LogRootV1{TreeSize: 1, RootHash: w.h([]byte{0}, []byte("x"))}
		safely(res, "crash-nil", "a missing head", nil, func() {
			for k, in := range [][2]*types.LogRootV1{{nil, r}, {r, nil}, {nil, nil}} {
				if got, err := w.v.VerifyRoot(in[0], in[1], nil); err == nil || got != nil {
					res.Violate("nil-head", "a missing head is accepted", k)
				}
				if err := w.v.VerifyInclusionWithPrevLogRoot(in[0], in[1], nil, w.h([]byte{0}, []byte("x")), []*trillian.Proof{{}}); err == nil {
					res.Violate("nil-head", "a missing head is accepted", k)
				}
			}
		})
	}
	res.Trace(len(raws))
}
