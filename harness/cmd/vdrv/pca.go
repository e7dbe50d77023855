package main

// Histories of spec/Pca.tla with the real policy CA, and of spec/Owner.tla with the real domain owner.

import (
	"bytes"
	"crypto/rsa"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/common/crypto"
	"github.com/netsec-ethz/fpki/pkg/domainowner"
	"github.com/netsec-ethz/fpki/pkg/pca"
	"github.com/netsec-ethz/fpki/pkg/util"
)

func init() {
	drivers["pca"] = pcaDriver
	drivers["owner"] = ownerDriver
}

type pcaProof struct {
	Kind string
	By   int
}

type pcaAct struct {
	Op, Key, L, O, Res string
	V                  []int
	P                  pcaProof
	Ok                 bool
}

type pcaEvent struct {
	op, url string
	pc      *common.PolicyCertificate // copy
	ok      bool
}

// pcaLogs stands for the log servers: it answers, fails on demand, and records.
type pcaLogs struct {
	events []pcaEvent
	failAt int // the number of the call that fails
	rng    *rand.Rand
	logID  map[string][]byte
	gave   map[string]common.SignedPolicyCertificateTimestamp
}

func (l *pcaLogs) call(op, url string, pc *common.PolicyCertificate) error {
	var cp *common.PolicyCertificate
	if pc != nil {
		c := deepCopy(*pc)
		cp = &c
	}
	ok := len(l.events)+1 != l.failAt
	l.events = append(l.events, pcaEvent{op, url, cp, ok})
	if !ok {
		return fmt.Errorf("the log fails")
	}
	return nil
}

func (l *pcaLogs) ObtainSptFromLogServer(url string, pc *common.PolicyCertificate) (*common.SignedPolicyCertificateTimestamp, error) {
	if err := l.call("Stamp", url, pc); err != nil {
		return nil, err
	}
	sig := make([]byte, 16)
	l.rng.Read(sig)
	s := common.NewSignedPolicyCertificateTimestamp(0, l.logID[url], time.Unix(1700000000+int64(l.rng.Intn(1e6)), 0).UTC(), sig)
	l.gave[url] = *s
	return s, nil
}

func (l *pcaLogs) SendPolicyCertificateToLogServer(url string, pc *common.PolicyCertificate) error {
	return l.call("Submit", url, pc)
}

type pcaWorld struct {
	rng   *rand.Rand
	ca    *pca.PCA
	logs  *pcaLogs
	names map[string]string // URL -> log
	keys  map[string]*rsa.PrivateKey
	known []*common.PolicyCertificate
	kname []string
	seen  map[int]bool
	root  *common.PolicyCertificate
	res   *lib.Result
}

func pcaTick(t int) time.Time { return time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(t) * time.Nanosecond) }

var pcaKeys = map[string]*rsa.PrivateKey{}

func newPcaWorld(res *lib.Result, rng *rand.Rand, dir string, logs []string, from, to int) *pcaWorld {
	if len(pcaKeys) == 0 {
		for _, k := range []string{"root", "k1", "k2", "k3", "other"} {
			pcaKeys[k] = rsaKeyOf(2048)
		}
	}
	w := &pcaWorld{rng: rng, keys: pcaKeys, names: map[string]string{}, seen: map[int]bool{}, res: res}
	der := func(k string) []byte {
		b, err := util.RSAPublicToDERBytes(&w.keys[k].PublicKey)
		lib.Must(err)
		return b
	}
	w.root = common.NewPolicyCertificate(0, 1, "", pcaTick(from), pcaTick(to), true, true, der("root"), common.RSA, common.SHA256, pcaTick(from), common.PolicyAttributes{}, nil, nil, nil, nil, nil)
	cert, err := common.ToJSON(w.root)
	lib.Must(err)
	cfg := &pca.PCAConfig{CAName: "ca", KeyPEM: pemKey(w.keys["root"]), CertJSON: cert}
	w.logs = &pcaLogs{rng: rng, logID: map[string][]byte{}, gave: map[string]common.SignedPolicyCertificateTimestamp{}}
	for _, l := range logs {
		url := fmt.Sprintf("http://%s.example/%d", l, rng.Intn(100))
		w.names[url] = l
		pub := append([]byte("public key of "), l...)
		w.logs.logID[url] = common.SHA256Hash(pub)
		cfg.CTLogServers = append(cfg.CTLogServers, pca.CTLogServerEntryConfig{Name: l, URL: url, PublicKeyDER: pub})
	}
	file := filepath.Join(dir, "pca.json")
	lib.Must(pca.SaveConfigToFile(cfg, file))
	w.ca, err = pca.NewPCA(file)
	if err != nil {
		lib.Fatal("%v", err)
	}
	w.ca.LogServerRequester = w.logs
	c := &common.PolicyCertificate{}
	(&codec{rng: rng}).fill(reflect.ValueOf(c).Elem(), "", func(string) int { return 1 })
	c.PublicKey, c.CanOwn = der("k1"), true
	w.known, w.kname = []*common.PolicyCertificate{c}, []string{"k1"}
	h, err := crypto.ComputeHashAsSigner(c)
	lib.Must(err)
	w.ca.DB[*(*[32]byte)(h)] = c
	return w
}

// request makes a request for the key, with the owner's proof.
func (w *pcaWorld) request(a pcaAct) *common.PolicyCertificateSigningRequest {
	der, err := util.RSAPublicToDERBytes(&w.keys[a.Key].PublicKey)
	lib.Must(err)
	r := &common.PolicyCertificateSigningRequest{}
	c := &codec{rng: w.rng}
	c.fill(reflect.ValueOf(r).Elem(), "", func(n string) int {
		if n == "OwnerHash" || n == "OwnerSignature" {
			return 0
		}
		return w.rng.Intn(3)
	})
	r.OwnerHash, r.OwnerSignature = nil, nil
	r.PublicKey, r.CanOwn, r.NotBefore, r.NotAfter = der, true, pcaTick(a.V[0]), pcaTick(a.V[1])
	r.DomainField = []string{"a.com", "b.a.com", "example.org"}[w.rng.Intn(3)]
	sign := func(c *common.PolicyCertificate, k string) { lib.Must(crypto.SignAsOwner(c, w.keys[k], r)) }
	flip := func() { r.OwnerSignature[w.rng.Intn(len(r.OwnerSignature))] ^= 1 << w.rng.Intn(8) }
	other := deepCopy(*w.known[0])
	other.SerialNumberField = 77
	switch a.P.Kind {
	case "none":
		if w.rng.Intn(2) == 0 {
			r.OwnerSignature = []byte{}
		}
	case "length":
		sign(w.known[0], "k1")
		r.OwnerHash = r.OwnerHash[:w.rng.Intn(len(r.OwnerHash))]
		if w.rng.Intn(2) == 0 {
			r.OwnerHash = make([]byte, 33+w.rng.Intn(31))
		}
	case "unknown":
		sign(&other, "k1")
	case "unknown-bad":
		sign(&other, "k1")
		flip()
	case "good":
		sign(w.known[a.P.By-1], w.kname[a.P.By-1])
	case "junk":
		sign(w.known[a.P.By-1], w.kname[a.P.By-1])
		flip()
	case "other-key":
		sign(w.known[a.P.By-1], "other")
	case "altered":
		sign(w.known[a.P.By-1], w.kname[a.P.By-1])
		switch w.rng.Intn(6) {
		case 0:
			r.DomainField += "x"
		case 1:
			r.CanIssue = !r.CanIssue
		case 2:
			r.PublicKey = append([]byte{}, r.PublicKey...)
			r.PublicKey[len(r.PublicKey)/2] ^= 1
		case 3:
			r.PolicyAttributes.AllowedCAs = append([]string{"new"}, r.PolicyAttributes.AllowedCAs...)
		case 4:
			r.SerialNumberField++
		case 5:
			r.TimeStamp = r.TimeStamp.Add(time.Nanosecond)
		}
	}
	return r
}

func (w *pcaWorld) snapshotDB() []string {
	var r []string
	for k, c := range w.ca.DB {
		b, _ := json.Marshal(deepCopy(*c))
		r = append(r, fmt.Sprintf("%x %s", k, b))
	}
	sort.Strings(r)
	return r
}

func pcaDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("pca", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	logList := fs.String("logs", "[]", "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	budget := fs.Duration("budget", 10*time.Second, "")
	lib.Must(fs.Parse(args))
	var logs []string
	lib.Must(json.Unmarshal([]byte(*logList), &logs))
	rng := rand.New(rand.NewSource(lib.Seed()))
	dir := lib.Scratch()
	g := lib.LoadGraph(*edges)
	acts := make([]pcaAct, len(g.Edges))
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	// every request with every point of failure
	type plan struct{ edge, fail int }
	todo := map[plan]bool{}
	for i, a := range acts {
		switch a.Op {
		case "Create":
			todo[plan{i, 0}] = true
		case "Begin":
			for f := 0; f <= 2*len(logs); f++ {
				todo[plan{i, f}] = true
			}
		}
	}
	total := len(todo)
	end := time.Now().Add(*budget)
	for len(todo) > 0 && time.Now().Before(end) && res.NumViolations() < 20 {
		w := newPcaWorld(res, rng, dir, logs, *from, *to)
		res.Trace(1)
		s := g.Init[0]
		var done []any
		for step := 0; step < 12; step++ {
			// an edge not yet taken, if there is one here; otherwise any, rather one that leads on
			var fresh, other []plan
			for _, e := range g.Out[s] {
				if acts[e].Op != "Create" && acts[e].Op != "Begin" {
					continue
				}
				n := 0
				if acts[e].Op == "Begin" {
					n = 2 * len(logs)
				}
				for f := 0; f <= n; f++ {
					if todo[plan{e, f}] {
						fresh = append(fresh, plan{e, f})
					}
				}
				if k := acts[e].P.Kind; acts[e].Op == "Create" && acts[e].Ok || acts[e].Op == "Begin" && (k == "good" || k == "none") {
					other = append(other, plan{e, 0})
				}
			}
			var p plan
			if len(fresh) > 0 && rng.Intn(5) > 0 {
				p = fresh[rng.Intn(len(fresh))]
			} else if len(other) > 0 {
				p = other[rng.Intn(len(other))]
			} else {
				break
			}
			delete(todo, p)
			a := acts[p.edge]
			done = append(done, map[string]any{"act": a, "failing call": p.fail})
			var next int
			var key, what string
			err := guardErr(func() error {
				if a.Op == "Create" {
					next, key, what = g.Edges[p.edge].To, "", ""
					key, what = w.create(a)
				} else {
					next, key, what = w.issue(g, acts, p.edge, p.fail)
				}
				return nil
			})
			if err != nil {
				key, what = "panic", err.Error()
			}
			res.Eval(1)
			if key != "" {
				if a.Op == "Begin" && a.P.By > 0 {
					for _, k := range w.kname[a.P.By:] {
						if k == w.kname[a.P.By-1] && (a.P.Kind == "junk" || a.P.Kind == "other-key" || a.P.Kind == "altered") {
							key = "replaced-" + key
							break
						}
					}
				}
				res.Violate(key, fmt.Sprintf("%s (request for %s, valid %v, proof %v)", what, a.Key, a.V, a.P), done)
				break
			}
			s = next
		}
	}
	res.Note("requests", fmt.Sprintf("%d of %d requests with points of failure", total-len(todo), total))
}

func (w *pcaWorld) create(a pcaAct) (key, what string) {
	der, err := util.RSAPublicToDERBytes(&w.keys["k2"].PublicKey)
	lib.Must(err)
	signed := 0
	var hash []byte
	owner := w.rng.Intn(len(w.known))
	if w.rng.Intn(3) > 0 {
		hash, err = crypto.ComputeHashAsSigner(w.known[owner])
		lib.Must(err)
	}
	fn := func(b []byte) []byte {
		signed++
		if hash == nil {
			return nil
		}
		s, err := crypto.SignBytes(b, w.keys[w.kname[owner]])
		lib.Must(err)
		return s
	}
	attr := common.PolicyAttributes{AllowedCAs: []string{"ca"}, ExcludedSubdomains: []string{"*"}}
	canIssue, canOwn, version, dom := w.rng.Intn(2) == 0, w.rng.Intn(2) == 0, w.rng.Intn(5), []string{"a.com", "b.a.com"}[w.rng.Intn(2)]
	now := time.Now()
	req, err := w.ca.NewPolicyCertificateSigningRequest(version, dom, pcaTick(a.V[0]), pcaTick(a.V[1]), canIssue, canOwn, der, common.RSA, common.SHA256, attr, fn, hash)
	if (err == nil) != a.Ok {
		return "create", fmt.Sprintf("creating a request valid from %d to %d: error %v, should succeed: %v", a.V[0], a.V[1], err, a.Ok)
	}
	if err != nil {
		if signed > 0 || req != nil {
			return "create", "a refused request is signed or returned"
		}
		return "", ""
	}
	if w.seen[req.SerialNumberField] {
		return "serial", fmt.Sprintf("serial number %d is given out again", req.SerialNumberField)
	}
	w.seen[req.SerialNumberField] = true
	want := common.NewPolicyCertificateSigningRequest(version, req.SerialNumberField, dom, pcaTick(a.V[0]), pcaTick(a.V[1]), canIssue, canOwn, der, common.RSA, common.SHA256,
		req.TimeStamp, attr, req.OwnerSignature, hash)
	if !want.Equal(req) || req.TimeStamp.Before(now.Add(-time.Second)) || req.TimeStamp.After(time.Now().Add(time.Second)) {
		return "create", fmt.Sprintf("the request created is %+v, asked for was %+v", req, want)
	}
	if hash != nil {
		if err := crypto.VerifyOwnerSignature(w.known[owner], req); err != nil {
			return "create", fmt.Sprintf("the owner's signature in the request created does not verify: %v", err)
		}
	}
	return "", ""
}

// issue submits a request; what the CA does must be what the specification allows. It returns the state reached.
func (w *pcaWorld) issue(g *lib.Graph, acts []pcaAct, begin, fail int) (state int, key, what string) {
	a := acts[begin]
	req := w.request(a)
	before, db := deepCopy(*req), w.snapshotDB()
	root := deepCopy(*w.root)
	w.logs.events, w.logs.failAt, w.logs.gave = nil, fail, map[string]common.SignedPolicyCertificateTimestamp{}
	pc, err := w.ca.SignAndLogRequest(req)
	if !reflect.DeepEqual(before, *req) {
		return 0, "modified", "the request was changed"
	}
	if d := diff(reflect.ValueOf(root), reflect.ValueOf(*w.ca.RootPolicyCert), "root"); d != "" {
		return 0, "modified", "the CA's certificate was changed: " + d
	}
	s := g.Edges[begin].To
	took := "the request"
	move := func(match func(pcaAct) bool) bool {
		for _, e := range g.Out[s] {
			if match(acts[e]) {
				s = g.Edges[e].To
				return true
			}
		}
		return false
	}
	step := func(op, l, o string) bool {
		// what the CA does between calls is not seen
		for k := 0; k < 2; k++ {
			if move(func(x pcaAct) bool { return x.Op == op && x.L == l && x.O == o }) {
				return true
			}
			if !move(func(x pcaAct) bool { return x.Op == "Resign" }) {
				return false
			}
		}
		return false
	}
	for _, e := range w.logs.events {
		o := map[bool]string{true: "ok", false: "fail"}[e.ok]
		took += fmt.Sprintf(", %s at %s: %s", e.op, w.names[e.url], o)
		if w.names[e.url] == "" {
			return 0, "url", "an unknown log is called: " + e.url
		}
		if !step(e.op, w.names[e.url], o) {
			return 0, "call", took + ": not allowed here"
		}
		if crypto.VerifyIssuerSignature(w.root, e.pc) != nil {
			return 0, "submitted", took + ": what is sent to the log has no valid signature"
		}
		if d := diff(reflect.ValueOf(req.PolicyCertificateFields), reflect.ValueOf(e.pc.PolicyCertificateFields), ""); d != "" {
			return 0, "submitted", took + ": what is sent to the log is not what was requested: " + d
		}
		if e.op == "Submit" {
			if s := w.stamps(e.pc); s != "" {
				return 0, "submitted", took + ": " + s
			}
		}
	}
	stored := false
	for {
		if move(func(x pcaAct) bool { return x.Op == "Resign" }) {
			continue
		}
		if move(func(x pcaAct) bool { return x.Op == "Store" }) {
			stored = true
			continue
		}
		break
	}
	result := map[bool]string{true: "ok", false: "error"}[err == nil]
	if !move(func(x pcaAct) bool { return x.Op == "Return" && x.Res == result }) {
		return 0, "outcome", fmt.Sprintf("%s: the CA returns with error %v, which it must not", took, err)
	}
	if (pc != nil) != (err == nil) {
		return 0, "returned", took + ": a certificate and an error, or neither, are returned"
	}
	if !stored {
		if now := w.snapshotDB(); !reflect.DeepEqual(db, now) {
			return 0, "stored", took + ": the CA's store changed although nothing was issued"
		}
		return s, "", ""
	}
	if err := crypto.VerifyIssuerSignature(w.root, pc); err != nil {
		return 0, "signature", fmt.Sprintf("%s: the certificate issued does not verify: %v", took, err)
	}
	if d := diff(reflect.ValueOf(req.PolicyCertificateFields), reflect.ValueOf(pc.PolicyCertificateFields), ""); d != "" {
		return 0, "content", took + ": the certificate is not what was requested: " + d
	}
	if s := w.stamps(pc); s != "" {
		return 0, "timestamps", took + ": " + s
	}
	for _, e := range w.logs.events {
		if e.op == "Submit" && !reflect.DeepEqual(*e.pc, deepCopy(*pc)) {
			return 0, "submitted", took + ": the logs were given another certificate than the one returned"
		}
	}
	in := false
	for _, c := range w.ca.DB {
		in = in || c.Equal(*pc)
	}
	if !in {
		return 0, "stored", took + ": the certificate issued is not stored"
	}
	w.known, w.kname = append(w.known, pc), append(w.kname, a.Key)
	return s, "", ""
}

// stamps says whether the certificate has exactly the timestamp of every log.
func (w *pcaWorld) stamps(pc *common.PolicyCertificate) string {
	if len(pc.SPCTs) != len(w.names) {
		return fmt.Sprintf("%d timestamps for %d logs", len(pc.SPCTs), len(w.names))
	}
	for url := range w.names {
		n := 0
		for _, s := range pc.SPCTs {
			if g := w.logs.gave[url]; bytes.Equal(s.LogID, g.LogID) && s.Equal(g) {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("%d timestamps of log %s", n, w.names[url])
		}
	}
	return ""
}

func ownerDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("owner", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	lib.Must(fs.Parse(args))
	rng := rand.New(rand.NewSource(lib.Seed()))
	g := lib.LoadGraph(*edges)
	pool := []*rsa.PrivateKey{rsaKeyOf(2048), rsaKeyOf(2048), rsaKeyOf(2048)}
	parallel(g.CoverWalks(rng, 12), rng, func(walk []int, rng *rand.Rand) {
		do := domainowner.NewDomainOwner()
		res.Trace(1)
		certs := map[string]domainowner.CertKey{}
		dom := map[string]string{"d1": "a.com", "d2": "b.a.com", "d3": "A.com"}
		mk := func(name string) domainowner.CertKey {
			if _, ok := certs[name]; !ok {
				k := pool[len(certs)%len(pool)]
				der, err := util.RSAPublicToDERBytes(&k.PublicKey)
				lib.Must(err)
				c := common.NewPolicyCertificate(0, rng.Intn(9), "a.com", pcaTick(1), pcaTick(2), false, name != "n", der, common.RSA, common.SHA256, pcaTick(1), common.PolicyAttributes{}, nil, nil, nil, nil, nil)
				certs[name] = domainowner.CertKey{Cert: c, Key: k}
			}
			return certs[name]
		}
		seen := map[string]bool{}
		var done []string
		for _, e := range walk {
			var a struct {
				Op, D, C, By string
				Ok           bool
			}
			lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
			done = append(done, a.Op+":"+a.D+":"+a.C)
			bad := func(key, what string, v ...any) {
				res.Violate(key, fmt.Sprintf("after %v: ", done)+fmt.Sprintf(what, v...), done)
			}
			res.Eval(1)
			if a.Op == "Record" {
				if a.C == "none" {
					delete(do.DomainRoots, dom[a.D])
				} else {
					do.DomainRoots[dom[a.D]] = mk(a.C)
				}
				continue
			}
			roots := map[string]domainowner.CertKey{}
			for d, c := range do.DomainRoots {
				cp := deepCopy(*c.Cert)
				roots[d] = domainowner.CertKey{Cert: &cp, Key: c.Key}
			}
			version := rng.Intn(4)
			var req *common.PolicyCertificateSigningRequest
			err := guardErr(func() (err error) { req, err = do.GeneratePolCertSignRequest(dom[a.D], version); return })
			if (err == nil) != a.Ok || (req != nil) != a.Ok {
				bad("outcome", "request for %s: error %v, should succeed: %v", dom[a.D], err, a.Ok)
				return
			}
			same := len(roots) == len(do.DomainRoots)
			for d, c := range roots {
				n, ok := do.DomainRoots[d]
				same = same && ok && n.Key == c.Key && reflect.DeepEqual(*n.Cert, *c.Cert)
			}
			if !same {
				bad("records", "generating a request changed the certificates on record")
			}
			if !a.Ok {
				continue
			}
			if req.DomainField != dom[a.D] || req.Version != version {
				bad("content", "request is for %q version %d, asked for %q version %d", req.DomainField, req.Version, dom[a.D], version)
			}
			if _, err := util.DERBytesToRSAPublic(req.PublicKey); err != nil {
				bad("key", "the public key of the request cannot be read: %v", err)
			}
			reused := seen[string(req.PublicKey)]
			for _, k := range pool {
				der, _ := util.RSAPublicToDERBytes(&k.PublicKey)
				reused = reused || bytes.Equal(der, req.PublicKey)
			}
			if reused {
				bad("key", "the request has a key that was used before")
			}
			seen[string(req.PublicKey)] = true
			if a.By == "none" {
				if req.OwnerSignature != nil || req.OwnerHash != nil {
					bad("signed", "the request is signed although no certificate is on record")
				}
			}
			for n, c := range certs {
				if err := crypto.VerifyOwnerSignature(c.Cert, req); (err == nil) != (n == a.By) {
					bad("signed", "the request verifies with certificate %s: %v, should be %v (%v)", n, err == nil, n == a.By, err)
				}
			}
			if !holdsKey(reflect.ValueOf(do), req.PublicKey, 0) {
				bad("key-kept", "the private key of the request is not kept by the owner")
			}
		}
	})
}

// holdsKey looks for the private key of a public key anywhere in v.
func holdsKey(v reflect.Value, pub []byte, depth int) bool {
	if depth > 8 || !v.IsValid() {
		return false
	}
	if v.Type() == reflect.TypeOf((*rsa.PrivateKey)(nil)) {
		if v.IsNil() || !v.CanInterface() {
			return false
		}
		der, err := util.RSAPublicToDERBytes(&v.Interface().(*rsa.PrivateKey).PublicKey)
		return err == nil && bytes.Equal(der, pub)
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return holdsKey(v.Elem(), pub, depth+1)
	case reflect.Struct:
		for k := 0; k < v.NumField(); k++ {
			if holdsKey(v.Field(k), pub, depth+1) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for k := 0; k < v.Len(); k++ {
			if holdsKey(v.Index(k), pub, depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if holdsKey(v.MapIndex(k), pub, depth+1) {
				return true
			}
		}
	}
	return false
}

