package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"strings"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
)

// dbLongLists asks for the existence of lists of identifiers of many lengths, in any order and with repetitions.
func dbLongLists(res *lib.Result, w *dbWorld, rounds int) {
	rng := w.rng
	w.reset()
	id := func(k, kind int) common.SHA256Output {
		return sha256.Sum256([]byte(fmt.Sprintf("%d-%d", kind, k)))
	}
	const stored = 1300
	for k := 0; k < stored; k++ { // observation connection: this is not what is tested
		c, p := id(k, 0), id(k, 1)
		_, err := w.raw.Exec("INSERT INTO certs (cert_id,parent_id,expiration,payload) VALUES (?,NULL,'2050-01-01',?)", c[:], []byte{byte(k)})
		lib.Must(err)
		_, err = w.raw.Exec("INSERT INTO policies (policy_id,parent_id,expiration,payload) VALUES (?,NULL,'2050-01-01',?)", p[:], []byte{byte(k), 1})
		lib.Must(err)
	}
	lens := []int{0, 1, 2, 31, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2001, 2500, 3000, 4000}
	for r := 0; r < rounds; r++ {
		for _, n := range lens {
			for kind := 0; kind < 2; kind++ {
				ids := make([]common.SHA256Output, n)
				want := make([]bool, n)
				for i := range ids {
					k := rng.Intn(2 * stored)
					ids[i], want[i] = id(k, kind), k < stored
				}
				var got []bool
				err := guardErr(func() (err error) {
					if kind == 0 {
						got, err = w.conn.CheckCertsExist(bg, ids)
					} else {
						got, err = w.conn.CheckPoliciesExist(bg, ids)
					}
					return err
				})
				name := []string{"certificates", "policies"}[kind]
				rep := map[string]any{"kind": name, "length": n, "stored": want}
				res.Eval(1)
				if err != nil {
					res.Violate("exist-error-"+name, fmt.Sprintf("asking which of %d %s exist fails: %v", n, name, err), rep)
					continue
				}
				if len(got) != n {
					res.Violate("exist-length-"+name, fmt.Sprintf("asking which of %d %s exist gives %d answers", n, name, len(got)), rep)
					continue
				}
				for i := range want {
					if want[i] != got[i] {
						res.Violate("exist-wrong-"+name, fmt.Sprintf("asking which of %d %s exist: position %d is answered %v, want %v", n, name, i, got[i], want[i]), rep)
						break
					}
				}
			}
		}
		// payloads of any list, in the order asked
		for _, n := range []int{0, 1, 2, 40, 700, 1000, 1001, 2100} {
			for kind := 0; kind < 3; kind++ {
				ids := make([]common.SHA256Output, n)
				want := make([][]byte, n)
				for i := range ids {
					k, kd := rng.Intn(stored+stored/10), kind
					if kind == 2 {
						kd = rng.Intn(2)
					}
					ids[i] = id(k, kd)
					if k < stored {
						want[i] = []byte{byte(k)}
						if kd == 1 {
							want[i] = []byte{byte(k), 1}
						}
					}
				}
				var got [][]byte
				err := guardErr(func() (err error) {
					got, err = [](func() ([][]byte, error)){
						func() ([][]byte, error) { return w.conn.RetrieveCertificatePayloads(bg, ids) },
						func() ([][]byte, error) { return w.conn.RetrievePolicyPayloads(bg, ids) },
						func() ([][]byte, error) { return w.conn.RetrieveCertificateOrPolicyPayloads(bg, ids) }}[kind]()
					return err
				})
				name := []string{"certificate", "policy", "mixed"}[kind]
				rep := map[string]any{"kind": name, "length": n}
				res.Eval(1)
				if err != nil {
					res.Violate("payloads-error-"+name, fmt.Sprintf("fetching %d %s payloads fails: %v", n, name, err), rep)
					continue
				}
				if len(got) != n {
					res.Violate("payloads-length-"+name, fmt.Sprintf("fetching %d %s payloads gives %d", n, name, len(got)), rep)
					continue
				}
				for i := range want {
					if !bytes.Equal(want[i], got[i]) {
						res.Violate("payloads-wrong-"+name, fmt.Sprintf("fetching %d %s payloads: position %d is %x, want %x", n, name, i, got[i], want[i]), rep)
						break
					}
				}
			}
		}
	}
}

// answerer asks a responder for every query of the specification and compares the answers.
type answerer struct {
	key *rsa.PrivateKey
	pub []byte
}

func newAnswerer(u *universe) *answerer { return &answerer{key: rsaKeyOf(1024)} }

func (a *answerer) check(r *dbRun, s *uState, want map[string][]uAnswer) (string, string) {
	var key, what string
	err := guardErr(func() error {
		resp, err := responder.NewMapResponder(bg, r.w.conn, a.key)
		if err != nil {
			return fmt.Errorf("creating the responder: %w", err)
		}
		root := r.u.wantRoot(s.Served)
		order := sortedKeys(want)
		r.w.rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for _, q := range order {
			r.res.Eval(1)
			k, wh := a.one(r, resp, root, q, want[q])
			if k != "" {
				key, what = k, fmt.Sprintf("query %q: %s", q, wh)
				return nil
			}
		}
		return nil
	})
	if err != nil {
		return "answer-error", err.Error()
	}
	if key == "" {
		a.reachable(r, s)
	}
	return key, what
}

// reachable: what is stored for a name is in the answer to the query for that very name.
func (a *answerer) reachable(r *dbRun, s *uState) {
	for n, l := range s.Served {
		name := r.u.Names[n]
		if !strings.HasPrefix(name, "www.") && !strings.HasPrefix(name, "*.") || len(l.C) == 0 {
			continue
		}
		resp, err := responder.NewMapResponder(bg, r.w.conn, a.key)
		if err != nil {
			continue
		}
		got, err := resp.GetProof(bg, name)
		if err != nil {
			continue
		}
		var all []byte
		for _, e := range got {
			all = append(all, e.DomainEntry.CertIDs...)
		}
		for _, c := range l.C {
			id := r.u.id[c]
			if !bytes.Contains(all, id[:]) {
				r.res.Violate("www-unreachable", fmt.Sprintf("certificate %s is stored for %q but not in the answer for %q", c, name, name),
					map[string]any{"name": name, "universe": r.u})
			}
		}
	}
}

func (a *answerer) one(r *dbRun, resp *responder.MapResponder, root []byte, q string, want []uAnswer) (string, string) {
	u := r.u
	got, err := resp.GetProof(bg, q)
	if err != nil {
		return "answer-error", err.Error()
	}
	if len(got) != len(want) {
		return "answer-chain", fmt.Sprintf("%d entries, want %d", len(got), len(want))
	}
	for i, e := range got {
		w := want[i]
		name := u.Names[w.Name]
		if name == "" {
			name = w.Name
		}
		if e.DomainEntry.DomainName != name || e.DomainEntry.DomainID != sha256.Sum256([]byte(name)) {
			return "answer-chain", fmt.Sprintf("entry %d is about %q, want %q", i, e.DomainEntry.DomainName, name)
		}
		if !rootEq(e.PoI.Root, root) {
			return "answer-root", fmt.Sprintf("entry %d is under root %x, the served tree has %x", i, e.PoI.Root, root)
		}
		if err := crypto.VerifySignedBytes(e.PoI.Root, e.TreeHeadSig, &a.key.PublicKey); err != nil {
			return "answer-signature", fmt.Sprintf("entry %d: tree head signature: %v", i, err)
		}
		cs, ps, all := u.glue(uLists{w.C, w.P})
		pt, ok, err := prover.VerifyProofByDomain(e)
		if err != nil || !ok {
			return "answer-proof", fmt.Sprintf("entry %d (%s): the client's check refuses the proof: %v", i, name, err)
		}
		if (pt == mapcommon.PoP) != w.Present {
			return "answer-presence", fmt.Sprintf("entry %d (%s): presence is %v, want %v", i, name, pt == mapcommon.PoP, w.Present)
		}
		if !w.Present {
			if len(e.DomainEntry.CertIDs)+len(e.DomainEntry.PolicyIDs) > 0 {
				return "answer-lists", fmt.Sprintf("entry %d (%s) is absent but lists identifiers", i, name)
			}
			continue
		}
		if !bytes.Equal(e.DomainEntry.CertIDs, cs) || !bytes.Equal(e.DomainEntry.PolicyIDs, ps) {
			return "answer-lists", fmt.Sprintf("entry %d (%s) lists %v and %v, want %v and %v", i, name,
				u.labels(e.DomainEntry.CertIDs), u.labels(e.DomainEntry.PolicyIDs), w.C, w.P)
		}
		if !bytes.Equal(e.DomainEntry.DomainValue[:], sha(all)) || !bytes.Equal(e.PoI.ProofValue, sha(all)) {
			return "answer-leaf", fmt.Sprintf("entry %d (%s): the proven leaf is not the hash of the lists", i, name)
		}
		if k, wh := payloadsOf(r, e.DomainEntry, w); k != "" {
			return k, wh
		}
	}
	return "", ""
}

// payloadsOf fetches what an entry lists, in random order and with repetitions.
func payloadsOf(r *dbRun, de *mapcommon.DomainEntry, w uAnswer) (string, string) {
	u, rng := r.u, r.w.rng
	pick := func(xs ...string) []string {
		xs = append([]string(nil), xs...)
		if len(xs) > 0 {
			xs = append(xs, xs[rng.Intn(len(xs))])
		}
		rng.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		return xs
	}
	ask := func(kind string, xs []string, f func([]common.SHA256Output) ([][]byte, error)) (string, string) {
		ids := make([]common.SHA256Output, len(xs))
		want := make([][]byte, len(xs))
		for i, x := range xs {
			if c := u.cert[x]; c != nil {
				ids[i], want[i] = u.id[x], c.Raw
			} else {
				ids[i], want[i] = u.polID[x], u.polRw[x]
			}
		}
		got, err := f(ids)
		if err != nil {
			return "payloads-error", fmt.Sprintf("fetching %s payloads of %v: %v", kind, xs, err)
		}
		for i := range want {
			if i >= len(got) || !bytes.Equal(got[i], want[i]) {
				return "payloads-wrong", fmt.Sprintf("fetching %s payloads of %v: position %d is not the stored bytes", kind, xs, i)
			}
		}
		return "", ""
	}
	c := r.w.conn
	if k, wh := ask("certificate", pick(w.C...), func(i []common.SHA256Output) ([][]byte, error) { return c.RetrieveCertificatePayloads(bg, i) }); k != "" {
		return k, wh
	}
	if k, wh := ask("policy", pick(w.P...), func(i []common.SHA256Output) ([][]byte, error) { return c.RetrievePolicyPayloads(bg, i) }); k != "" {
		return k, wh
	}
	return ask("mixed", pick(append(append([]string{}, w.C...), w.P...)...), func(i []common.SHA256Output) ([][]byte, error) {
		return c.RetrieveCertificateOrPolicyPayloads(bg, i)
	})
}
