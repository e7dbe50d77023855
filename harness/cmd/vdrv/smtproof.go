package main

// Conformance driver for spec/SMTProof.tla: every claim of the specification's adversary, and malformed proofs, are
// presented to the real verifiers. Whatever they accept has to be true of the tree.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"sort"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
)

func init() { drivers["smtproof"] = smtProofDriver }

type atom struct {
	X *smtTerm
	P int
}

type advClaim struct {
	M     map[string]string
	Fact  json.RawMessage
	Path  [][]atom
	Bits  []int
	Root  *smtTerm
	Claim struct {
		Kind, K  string
		Key, Val []atom
	}
	Truth, Wf, Shift bool
}

func (w *smtWorld) full(t *smtTerm) []byte {
	switch t.T {
	case "K":
		return w.keys[t.K]
	case "V":
		return w.vals[t.V]
	}
	return w.eval(t)
}

func (w *smtWorld) bytesOf(as []atom) []byte {
	var out []byte
	for _, a := range as {
		if a.X.T == "lit" {
			out = append(out, byte(a.P))
			continue
		}
		f := w.full(a.X)
		switch a.P {
		case 0:
			out = append(out, f[0])
		case 1:
			out = append(out, f[1:31]...)
		case 2:
			out = append(out, f[31])
		}
	}
	return out
}

// presentation of a proof to the verifiers; each returns accepted and whether it panicked.
func guarded(f func() bool) (acc bool, pan any) {
	defer func() {
		if p := recover(); p != nil {
			acc, pan = false, p
		}
	}()
	return f(), nil
}

func compress(ap [][]byte) (bitmap []byte, mp [][]byte, length int) {
	bitmap = make([]byte, len(ap)/8+1)
	for i, n := range ap {
		if !bytes.Equal(n, trie.DefaultLeaf) {
			bitmap[i/8] |= 1 << (7 - i%8)
			mp = append(mp, n)
		}
	}
	return bitmap, mp, len(ap)
}

type present struct {
	res  *lib.Result
	root []byte
	tr   *trie.Trie
	n    int
}

func newPresent(res *lib.Result, root []byte) *present {
	tr, err := trie.NewTrie(root, common.SHA256Hash, newMemStore())
	lib.Must(err)
	return &present{res: res, root: root, tr: tr}
}

// in presents an inclusion claim in both forms, notin a non-inclusion claim. judge is called for each acceptance.
func (p *present) in(ap [][]byte, key, val []byte, judge func(form string, acc bool, pan any)) {
	p.n += 2
	acc, pan := guarded(func() bool { return trie.VerifyInclusion(p.root, ap, key, val) })
	judge("plain", acc, pan)
	bm, mp, l := compress(ap)
	acc, pan = guarded(func() bool { return p.tr.VerifyInclusionC(bm, key, val, mp, l) })
	judge("compressed", acc, pan)
}

func (p *present) notin(ap [][]byte, key, val, pk []byte, judge func(form string, acc bool, pan any)) {
	p.n += 2
	acc, pan := guarded(func() bool { return trie.VerifyNonInclusion(p.root, ap, key, val, pk) })
	judge("plain", acc, pan)
	bm, mp, l := compress(ap)
	acc, pan = guarded(func() bool { return p.tr.VerifyNonInclusionC(mp, l, bm, key, val, pk) })
	judge("compressed", acc, pan)
}

func hexs(bs [][]byte) []string {
	out := make([]string, len(bs))
	for i, b := range bs {
		out[i] = hex.EncodeToString(b)
	}
	return out
}

func smtProofDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("smtproof", flag.ExitOnError)
	claims := fs.String("claims", "", "")
	obs := fs.String("obs", "", "")
	layout := fs.String("layout", "", "")
	rounds := fs.Int("rounds", 3, "concretisations of each group")
	lib.Must(fs.Parse(args))
	rng := rand.New(rand.NewSource(lib.Seed()))

	groups := map[string][]*advClaim{}
	lib.ReadLines(*claims, func(b []byte) {
		c := &advClaim{}
		lib.Must(json.Unmarshal(b, c))
		k := canon(c.M) + string(c.Fact)
		groups[k] = append(groups[k], c)
	})
	names := make([]string, 0, len(groups))
	for k := range groups {
		names = append(names, k)
	}
	sort.Strings(names)
	var lay map[string][]int
	lib.ReadLines(*layout, func(b []byte) { lib.Must(json.Unmarshal(b, &lay)) })
	accTrue, accFalse, presented := 0, 0, 0
	for _, gname := range names {
		g := groups[gname]
		var facts [][]json.RawMessage
		lib.Must(json.Unmarshal(g[0].Fact, &facts))
		for round := 0; round < *rounds; round++ {
			w := &smtWorld{keys: map[string][]byte{}, vals: map[string][]byte{}}
			// try values until the facts hold
			for try := 0; ; try++ {
				if try > 200000 {
					lib.Fatal("cannot establish %s", g[0].Fact)
				}
				for k, b := range lay {
					w.keys[k] = makeKey(rng, b)
				}
				for i := 0; i < 4; i++ {
					v := make([]byte, 32)
					rng.Read(v)
					w.vals[fmt.Sprintf("v%d", i)] = v
				}
				ok := true
				for _, f := range facts {
					var t smtTerm
					var pos, n int
					lib.Must(json.Unmarshal(f[0], &t))
					lib.Must(json.Unmarshal(f[1], &pos))
					lib.Must(json.Unmarshal(f[2], &n))
					h := w.eval(&t)
					i := 0
					if pos == 2 {
						i = 31
					}
					ok = ok && h[i] == byte(n)
				}
				if ok {
					break
				}
			}
			p := newPresent(res, w.eval(g[0].Root))
			for _, c := range g {
				var ap [][]byte
				for i := len(c.Path) - 1; i >= 0; i-- {
					ap = append(ap, w.bytesOf(c.Path[i]))
				}
				key, val := w.bytesOf(c.Claim.Key), w.bytesOf(c.Claim.Val)
				presented++
				judge := func(form string, acc bool, pan any) {
					what := map[string]any{"contents": c.M, "root": hex.EncodeToString(p.root), "path": hexs(ap), "kind": c.Claim.Kind,
						"claimed-key": c.Claim.K, "key": hex.EncodeToString(key), "value": hex.EncodeToString(val), "form": form}
					for k, v := range w.keys {
						what["key-"+k] = hex.EncodeToString(v)
					}
					if pan != nil {
						res.Violate("panic-"+form, fmt.Sprintf("the %s verifier panics on a malformed proof: %v", form, pan), what)
					}
					if !acc {
						return
					}
					if c.Truth {
						accTrue++
						return
					}
					accFalse++
					k := "forged-" + c.Claim.Kind
					if c.Shift && c.Wf {
						k = "forged-default-shift"
					}
					res.Violate(k, fmt.Sprintf("the %s verifier accepts a false claim (%s)", form, c.Claim.Kind), what)
				}
				if c.Claim.Kind == "in" {
					p.in(ap, key, val, judge)
				} else {
					p.notin(ap, w.keys[c.Claim.K], val, key, judge)
				}
			}
			res.Eval(p.n)
			res.Trace(1)
		}
	}
	res.Note("adversary_claims_presented", presented)
	res.Note("true_claims_accepted", accTrue)
	res.Note("false_claims_accepted", accFalse)
	res.Sample(map[string]any{"contents": groups[names[0]][0].M, "claims_in_group": len(groups[names[0]])})
	if accTrue == 0 {
		lib.Fatal("no true claim was accepted: the driver is vacuous")
	}

	if *obs != "" {
		w := loadSMTWorld("cross", *layout, *obs, rng)
		smtCross(w, res)
		smtMalformed(w, res, rng)
	}
}

// smtCross presents every honest proof of every contents for every statement about every other contents.
func smtCross(w *smtWorld, res *lib.Result) {
	type prf struct {
		ap   [][]byte
		from string
	}
	var proofs []prf
	seen := map[string]bool{}
	for name, o := range w.obs {
		for k, ap := range o.paths {
			if id := fmt.Sprint(ap); !seen[id] {
				seen[id] = true
				proofs = append(proofs, prf{ap, name + "/" + k})
			}
		}
	}
	vals := []string{"v0", "v1", "v2"}
	n, accepted := 0, 0
	for name, o := range w.obs {
		if o.root == nil {
			continue
		}
		p := newPresent(res, o.root)
		for _, pr := range proofs {
			for _, k := range w.all {
				stored := o.M[k]
				if stored == "" {
					stored = "nil"
				}
				judge := func(claim string, truth bool) func(string, bool, any) {
					return func(form string, acc bool, pan any) {
						n++
						if acc {
							accepted++
						}
						if pan != nil || acc && !truth {
							res.Violate("cross-"+claim, fmt.Sprintf("claim %s about key %s under contents %s with the proof of %s: accepted=%v panic=%v (%s)",
								claim, k, name, pr.from, acc, pan, form), map[string]any{"contents": name, "proof": hexs(pr.ap), "key": k})
						}
					}
				}
				for _, v := range vals {
					p.in(pr.ap, w.keys[k], w.vals[v], judge("in", stored == v))
				}
				p.notin(pr.ap, w.keys[k], nil, nil, judge("notin-default", stored == "nil"))
				for _, pk := range w.all {
					for _, v := range vals[1:] {
						p.notin(pr.ap, w.keys[k], w.vals[v], w.keys[pk], judge("notin-leaf", stored == "nil"))
					}
				}
			}
		}
	}
	res.Eval(n)
	res.Note("cross_claims", n)
	res.Note("cross_claims_accepted", accepted)
}

// smtMalformed mutates honest proofs; nothing may crash and nothing false may be accepted.
func smtMalformed(w *smtWorld, res *lib.Result, rng *rand.Rand) {
	n := 0
	cut := func(b []byte, k int) []byte {
		if k > len(b) {
			k = len(b)
		}
		return append([]byte{}, b[:len(b)-k]...)
	}
	ext := func(b []byte, c ...byte) []byte { return append(append([]byte{}, b...), c...) }
	byteMuts := []func([]byte) []byte{
		func(b []byte) []byte { return nil },
		func(b []byte) []byte { return []byte{} },
		func(b []byte) []byte { return []byte{0} },
		func(b []byte) []byte { return []byte{1} },
		func(b []byte) []byte { return cut(b, 1) },
		func(b []byte) []byte { return cut(b, 31) },
		func(b []byte) []byte { return ext(b, 0) },
		func(b []byte) []byte { return ext(b, b...) },
		func(b []byte) []byte { x := ext(b); x[rng.Intn(len(x))] ^= 1 << rng.Intn(8); return x },
		func(b []byte) []byte { x := make([]byte, 32); rng.Read(x); return x },
		func(b []byte) []byte { return make([]byte, 300) },
	}
	same := func(b []byte) []byte { return b }
	for name, o := range w.obs {
		if o.root == nil {
			continue
		}
		p := newPresent(res, o.root)
		for _, k := range w.all {
			pr, ap := o.Prf[k], o.paths[k]
			stored := o.M[k]
			present := stored != "" && stored != "nil"
			var aps [][][]byte
			clone := func() [][]byte { return append([][]byte{}, ap...) }
			aps = append(aps, clone(), nil)
			for i := range ap {
				x := clone()
				aps = append(aps, append(x[:i], x[i+1:]...))
				for _, f := range byteMuts {
					x = clone()
					if len(x[i]) > 0 {
						x[i] = f(x[i])
					}
					aps = append(aps, x)
				}
			}
			aps = append(aps, append(clone(), []byte{0}), append([][]byte{{0}}, ap...), append(clone(), make([]byte, 32)))
			for _, l := range []int{255, 256, 257, 300} {
				x := make([][]byte, l)
				for i := range x {
					x[i] = []byte{0}
				}
				copy(x[l-len(ap):], ap)
				aps = append(aps, x)
			}
			key := w.keys[k]
			lkey, lval := []byte(nil), []byte(nil)
			if present {
				lval = w.vals[stored]
			} else if pr.Leaf != "nil" {
				lkey, lval = w.keys[pr.Leaf], w.vals[o.M[pr.Leaf]]
			}
			muts := append([]func([]byte) []byte{same}, byteMuts...)
			for ai, a := range aps {
				for mi, f := range muts {
					for which := 0; which < 3; which++ {
						if mi > 0 && ai > 1 && rng.Intn(4) != 0 || mi == 0 && which > 0 {
							continue
						}
						mk, mv, mpk := key, lval, lkey
						fix := func(b []byte) []byte {
							if len(b) == 0 {
								return b
							}
							return f(b)
						}
						switch which {
						case 0:
							mk = fix(mk)
						case 1:
							mv = fix(mv)
						case 2:
							mpk = fix(mpk)
						}
						// what would be true
						sameKey := bytes.Equal(mk, key)
						truthIn := sameKey && present && bytes.Equal(mv, w.vals[stored])
						if !sameKey {
							for k2, kb := range w.keys {
								if v2 := o.M[k2]; v2 != "" && v2 != "nil" && bytes.Equal(kb, mk) && bytes.Equal(mv, w.vals[v2]) {
									truthIn = true
								}
							}
						}
						truthOut := len(mk) == 32
						for k2, kb := range w.keys {
							if v2 := o.M[k2]; v2 != "" && v2 != "nil" && bytes.Equal(kb, mk) {
								truthOut = false
							}
						}
						judge := func(truth bool, kind string) func(string, bool, any) {
							return func(form string, acc bool, pan any) {
								n++
								if pan != nil || acc && !truth {
									key := "malformed-accepted-" + kind
									if pan != nil {
										key = "malformed-panic-" + form
									}
									res.Violate(key, fmt.Sprintf("%s claim with a malformed proof (%s): accepted=%v panic=%v", kind, form, acc, pan),
										map[string]any{"contents": name, "key": hex.EncodeToString(mk), "path": hexs(a), "value": hex.EncodeToString(mv), "proofkey": hex.EncodeToString(mpk)})
								}
							}
						}
						p.in(a, mk, mv, judge(truthIn, "in"))
						p.notin(a, mk, mv, mpk, judge(truthOut, "notin"))
					}
				}
			}
			// compressed form: bitmap and length
			bm, mp, l := compress(ap)
			for _, bm2 := range [][]byte{bm, nil, {}, cut(bm, 1), ext(bm, 0xff), bytes.Repeat([]byte{0xff}, 40), bytes.Repeat([]byte{0xff}, len(bm)), make([]byte, len(bm)), make([]byte, 33)} {
				for _, l2 := range []int{l, l + 1, l - 1, 0, -1, -8, 8, 255, 256, 257, 264, 1000, 1 << 30} {
					for _, mp2 := range [][][]byte{mp, nil, append(append([][]byte{}, mp...), make([]byte, 32)), append([][]byte{make([]byte, 32)}, mp...), {{}}, {nil}} {
						for i, claim := range []func() bool{
							func() bool { return p.tr.VerifyInclusionC(bm2, key, lval, mp2, l2) },
							func() bool { return p.tr.VerifyNonInclusionC(mp2, l2, bm2, key, lval, lkey) },
							func() bool { return p.tr.VerifyNonInclusionC(mp2, l2, bm2, key, nil, nil) },
						} {
							n++
							acc, pan := guarded(claim)
							truth := present == (i == 0)
							if pan != nil || acc && !truth {
								res.Violate("malformed-compressed", fmt.Sprintf("compressed claim %d with length %d, bitmap of %d bytes, %d elements: accepted=%v panic=%v",
									i, l2, len(bm2), len(mp2), acc, pan), map[string]any{"contents": name, "key": hex.EncodeToString(key), "bitmap": hex.EncodeToString(bm2), "length": l2, "path": hexs(mp2)})
							}
						}
					}
				}
			}
		}
	}
	res.Eval(n)
	res.Note("malformed_claims", n)
}
