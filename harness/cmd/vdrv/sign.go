package main

// Histories of spec/Signatures.tla with the real signing and verifying functions.

import (
	"crypto/rsa"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func init() { drivers["sign"] = signDriver }

// contentFields are the fields that describe what a certificate is about.
func contentFields() []string {
	r := []string{}
	for _, f := range leafFields(codecKinds["pc"], "") {
		if f != "OwnerSignature" && f != "OwnerHash" && f != "IssuerSignature" && f != "IssuerHash" && !strings.HasPrefix(f, "SPCTs") {
			r = append(r, f)
		}
	}
	return r
}

// deepCopy copies a value made of structures, slices and plain values.
func deepCopy[T any](x T) T {
	var r T
	copyInto(reflect.ValueOf(&r).Elem(), reflect.ValueOf(x))
	return r
}

func copyInto(dst, src reflect.Value) {
	switch {
	case src.Type() == timeType:
		dst.Set(src)
	case src.Kind() == reflect.Struct:
		for k := 0; k < src.NumField(); k++ {
			copyInto(dst.Field(k), src.Field(k))
		}
	case src.Kind() == reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for k := 0; k < src.Len(); k++ {
				copyInto(dst.Index(k), src.Index(k))
			}
		}
	default:
		dst.Set(src)
	}
}

type signer struct {
	name string
	cert *common.PolicyCertificate
	key  *rsa.PrivateKey
}

type signWorld struct {
	c       *codec
	rng     *rand.Rand
	res     *lib.Result
	signers map[string]*signer
	keys    map[string]*rsa.PrivateKey
	y       string
	req     *common.PolicyCertificateSigningRequest
	cert    *common.PolicyCertificate
}

// setContent gives the object the content called name: "x", "y" (another value of one field), "bad", or that of another value of a field.
func (w *signWorld) setContent(name string) {
	f := name
	if name == "y" {
		f = w.y
	}
	var full common.PolicyCertificate
	w.c.fill(reflect.ValueOf(&full).Elem(), "", func(n string) int {
		if n == f {
			return 2
		}
		return 1
	})
	if name == "bad" {
		t := time.Date(10000+w.rng.Intn(2), 1, 1, 0, 0, 0, 0, time.UTC)
		*[]*time.Time{&full.NotAfter, &full.NotBefore, &full.TimeStamp}[w.rng.Intn(3)] = t
	}
	p := w.fields()
	full.OwnerHash, full.OwnerSignature = p.OwnerHash, p.OwnerSignature
	*p = full.PolicyCertificateFields
}

func (w *signWorld) fields() *common.PolicyCertificateFields {
	if w.cert != nil {
		return &w.cert.PolicyCertificateFields
	}
	return &w.req.PolicyCertificateFields
}

func (w *signWorld) flip(b []byte) []byte {
	b = append([]byte{}, b...)
	switch w.rng.Intn(4) {
	case 0:
		return b[:len(b)-1]
	case 1:
		return append(b, 0)
	}
	b[w.rng.Intn(len(b))] ^= 1 << w.rng.Intn(8)
	return b
}

func (w *signWorld) spct() common.SignedPolicyCertificateTimestamp {
	b := make([]byte, 8)
	w.rng.Read(b)
	return *common.NewSignedPolicyCertificateTimestamp(w.rng.Intn(3), b[:4], time.Unix(1600000000+int64(w.rng.Intn(1e9)), 0).UTC(), b[4:])
}

var signKeys = map[string]*rsa.PrivateKey{}

func newSignWorld(res *lib.Result, rng *rand.Rand) *signWorld {
	w := &signWorld{c: &codec{rng: rng, res: res}, rng: rng, res: res, signers: map[string]*signer{}, keys: signKeys, y: contentFields()[rng.Intn(len(contentFields()))]}
	if len(signKeys) == 0 {
		for _, k := range []string{"ka", "kb", "kn", "kg"} {
			signKeys[k] = rsaKeyOf(2048)
		}
	}
	mk := func(name, key string, val func(string) int) {
		p := &common.PolicyCertificate{}
		w.c.fill(reflect.ValueOf(p).Elem(), "", val)
		p.CanOwn = name != "n"
		der, err := util.RSAPublicToDERBytes(&w.keys[key].PublicKey)
		lib.Must(err)
		p.PublicKey = der
		w.signers[name] = &signer{name, p, w.keys[key]}
	}
	one := func(string) int { return 1 }
	mk("a", "ka", one)
	// the other certificate with the same key differs in any one field
	others := []string{"OwnerSignature", "OwnerHash", "IssuerHash"}
	for _, f := range contentFields() {
		if f != "PublicKey" && f != "CanOwn" {
			others = append(others, f)
		}
	}
	o := others[rng.Intn(len(others))]
	mk("a2", "ka", func(n string) int {
		if n == o {
			return 2
		}
		return 1
	})
	mk("b", "kb", one)
	mk("n", "kn", one)
	mk("g", "kg", one)
	g := w.signers["g"].cert
	g.PublicKey = [][]byte{{}, []byte("no key"), g.PublicKey[:len(g.PublicKey)-2]}[rng.Intn(3)]
	w.req = &common.PolicyCertificateSigningRequest{}
	w.setContent("x")
	return w
}

func (w *signWorld) identity(s string) []byte {
	h, err := crypto.ComputeHashAsSigner(w.signers[s].cert)
	lib.Must(err)
	return h
}

type signAct struct {
	Op, S, K string
	Ok       bool
	Vo, Vi   []string
}

// verify evaluates all verifications of the object; "" if they say what they should.
func (w *signWorld) verify(a signAct) string {
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	for name, s := range w.signers {
		var errO, errI error
		if w.cert != nil {
			errO = crypto.VerifyOwnerSignatureInPolicyCertificate(s.cert, w.cert)
			errI = crypto.VerifyIssuerSignature(s.cert, w.cert)
		} else {
			errO = crypto.VerifyOwnerSignature(s.cert, w.req)
			errI = fmt.Errorf("a request")
		}
		if (errO == nil) != in(a.Vo, name) {
			return fmt.Sprintf("the owner's signature verifies with %s: %v, should be %v (%v)", name, errO == nil, in(a.Vo, name), errO)
		}
		if (errI == nil) != in(a.Vi, name) {
			return fmt.Sprintf("the issuer's signature verifies with %s: %v, should be %v (%v)", name, errI == nil, in(a.Vi, name), errI)
		}
	}
	return ""
}

func (w *signWorld) snapshot() map[string]any {
	m := map[string]any{}
	if w.req != nil {
		m["request"] = deepCopy(*w.req)
	}
	if w.cert != nil {
		m["certificate"] = deepCopy(*w.cert)
	}
	for n, s := range w.signers {
		m["signer "+n] = deepCopy(*s.cert)
	}
	return m
}

func changed(a, b map[string]any) string {
	for k := range a {
		if !reflect.DeepEqual(a[k], b[k]) {
			x, _ := json.Marshal(a[k])
			y, _ := json.Marshal(b[k])
			return fmt.Sprintf("%s changed from %.400s to %.400s", k, x, y)
		}
	}
	return ""
}

func (w *signWorld) step(a signAct) (key, what string) {
	before := w.snapshot()
	failed := func(err error) (string, string) {
		if (err == nil) != a.Ok {
			return "outcome", fmt.Sprintf("%s with %s: error %v, should succeed: %v", a.Op, a.S, err, a.Ok)
		}
		if err != nil {
			if s := changed(before, w.snapshot()); s != "" {
				return "modified", fmt.Sprintf("%s with %s failed (%v), and %s", a.Op, a.S, err, s)
			}
		}
		return "", ""
	}
	var op, arg string = a.Op, ""
	if k := strings.Index(op, "-"); k > 0 {
		op, arg = op[:k], op[k+1:]
	}
	switch op {
	case "SignOwner":
		err := crypto.SignAsOwner(w.signers[a.S].cert, w.keys[a.K], w.req)
		if key, what := failed(err); key != "" || err != nil {
			return key, what
		}
		after := w.snapshot()
		r := deepCopy(*w.req)
		r.OwnerHash, r.OwnerSignature = before["request"].(common.PolicyCertificateSigningRequest).OwnerHash, before["request"].(common.PolicyCertificateSigningRequest).OwnerSignature
		after["request"] = r
		if s := changed(before, after); s != "" {
			return "modified", "signing as owner: " + s
		}
	case "Issue":
		cert, err := crypto.SignRequestAsIssuer(w.signers[a.S].cert, w.keys[a.K], w.req)
		if key, what := failed(err); key != "" || err != nil {
			return key, what
		}
		if s := changed(before, w.snapshot()); s != "" {
			return "modified", "issuing: " + s
		}
		if s := diff(reflect.ValueOf(w.req.PolicyCertificateFields), reflect.ValueOf(cert.PolicyCertificateFields), "certificate"); s != "" || len(cert.SPCTs) != 0 {
			return "content", "the issued certificate is not what was requested: " + s
		}
		w.cert, w.req = cert, nil
	case "SignIssuer":
		err := crypto.SignPolicyCertificateAsIssuer(w.signers[a.S].cert, w.keys[a.K], w.cert)
		if key, what := failed(err); key != "" || err != nil {
			return key, what
		}
		after := w.snapshot()
		r, b := deepCopy(*w.cert), before["certificate"].(common.PolicyCertificate)
		r.IssuerHash, r.IssuerSignature = b.IssuerHash, b.IssuerSignature
		after["certificate"] = r
		if s := changed(before, after); s != "" {
			return "modified", "signing as issuer: " + s
		}
	case "Content":
		w.setContent(arg)
	case "ClearOwner":
		w.fields().OwnerHash, w.fields().OwnerSignature = nil, nil
	case "DropOwnerSig":
		w.fields().OwnerSignature = nil
	case "ClearIssuer":
		w.cert.IssuerHash, w.cert.IssuerSignature = nil, nil
	case "DropIssuerSig":
		w.cert.IssuerSignature = nil
	case "AddTS":
		w.cert.SPCTs = append(w.cert.SPCTs, w.spct())
	case "AlterTS":
		s := &w.cert.SPCTs[w.rng.Intn(len(w.cert.SPCTs))]
		switch w.rng.Intn(4) {
		case 0:
			s.Version++
		case 1:
			s.LogID = w.flip(s.LogID)
		case 2:
			s.AddedTS = s.AddedTS.Add(time.Nanosecond)
		case 3:
			s.Signature = w.flip(s.Signature)
		}
	case "OwnerHash":
		w.fields().OwnerHash = w.identity(arg)
	case "IssuerHash":
		w.cert.IssuerHash = w.identity(arg)
	case "HandOwner", "HandIssuer":
		// by hand, with the key of the first owner
		var o common.PolicyCertificate
		if w.cert != nil {
			o = *w.cert
		} else {
			o = *common.NewPolicyCertificateFromRequest(w.req)
		}
		var id []byte
		if arg != "none" {
			id = w.identity(arg)
		}
		if op == "HandOwner" {
			o.SPCTs, o.IssuerSignature, o.IssuerHash, o.OwnerSignature, o.OwnerHash = nil, nil, nil, nil, id
		} else {
			o.IssuerSignature, o.IssuerHash = nil, id
		}
		b, err := common.ToJSON(&o)
		lib.Must(err)
		sig, err := crypto.SignBytes(b, w.keys[a.K])
		lib.Must(err)
		if op == "HandOwner" {
			w.fields().OwnerHash, w.fields().OwnerSignature = id, sig
		} else {
			w.cert.IssuerHash, w.cert.IssuerSignature = id, sig
		}
	case "JunkOwner":
		w.fields().OwnerSignature = w.flip(w.fields().OwnerSignature)
	case "JunkIssuer":
		w.cert.IssuerSignature = w.flip(w.cert.IssuerSignature)
	case "Grow":
		s := w.signers[a.S].cert
		s.SPCTs = append(s.SPCTs, w.spct())
		s.IssuerSignature = w.flip(s.IssuerSignature)
	default:
		lib.Fatal("action %q", a.Op)
	}
	return "", ""
}

func signDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("sign", flag.ExitOnError)
	list := fs.String("list", "", "")
	edges := fs.String("edges", "", "")
	lib.Must(fs.Parse(args))
	if *list != "" {
		b, _ := json.Marshal(contentFields())
		lib.Must(os.WriteFile(*list, b, 0o644))
		res.Eval(1)
		res.Trace(1)
		return
	}
	rng := rand.New(rand.NewSource(lib.Seed()))
	g := lib.LoadGraph(*edges)
	newSignWorld(res, rng)
	parallel(g.CoverWalks(rng, 30), rng, func(walk []int, rng *rand.Rand) {
		if res.NumViolations() > 30 {
			return
		}
		w := newSignWorld(res, rng)
		var done []string
		res.Trace(1)
		for _, e := range walk {
			var a signAct
			lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
			done = append(done, a.Op+":"+a.S+":"+a.K)
			key, what := "", ""
			if p := guardErr(func() error { key, what = w.step(a); return nil }); p != nil {
				key, what = "panic", p.Error()
			}
			res.Eval(1)
			if key == "" {
				before := w.snapshot()
				if p := guardErr(func() error { what = w.verify(a); return nil }); p != nil {
					what = p.Error()
				}
				if what != "" {
					key = "verification"
				} else if s := changed(before, w.snapshot()); s != "" {
					key, what = "modified", "verifying: "+s
				}
			}
			if key == "" && rng.Intn(12) == 0 {
				// several at a time
				var wg sync.WaitGroup
				out := make([]string, 4)
				for k := range out {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 4 && out[k] == ""; i++ {
							if p := guardErr(func() error { out[k] = w.verify(a); return nil }); p != nil {
								out[k] = p.Error()
							}
						}
					}()
				}
				wg.Wait()
				for _, s := range out {
					if s != "" {
						key, what = "concurrent", "while others verify the same object: "+s
					}
				}
			}
			if key != "" {
				res.Violate(key, fmt.Sprintf("after %v (y is another %s): %s", done, w.y, what), done)
				break
			}
		}
	})
}

// parallel calls f for the walks, several at a time, each with randomness of its own.
func parallel(walks [][]int, rng *rand.Rand, f func(walk []int, rng *rand.Rand)) {
	type job struct {
		w    []int
		seed int64
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				f(j.w, rand.New(rand.NewSource(j.seed)))
			}
		}()
	}
	for _, w := range walks {
		ch <- job{w, rng.Int63()}
	}
	close(ch)
	wg.Wait()
}
