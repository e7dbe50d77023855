package main

// The database side of spec/MapStore.tla and spec/MapCycle.tla: a scratch database reached through a proxy that can cut
// the connection at any command, a universe of real certificates, and a reader that compares what is stored with
// a state of the specification.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/trie"
	"github.com/netsec-ethz/fpki/pkg/mapserver/updater"
	"github.com/netsec-ethz/fpki/tools"
)

var bg = context.Background()

// ------------------------------------------------------------------------------------------ universe

type uCert struct {
	Parent *string
	Exp    int
	Names  []string
}

type uBatch struct {
	C map[string][]string // certificate -> names it is given with
	P []string
}

type universe struct {
	Names   map[string]string // identifier -> domain name
	Certs   map[string]uCert
	Pols    map[string]string
	Batches map[string]uBatch
	Queries map[string][]string

	cert  map[string]*ctx509.Certificate
	id    map[string]common.SHA256Output
	pol   map[string]common.PolicyDocument
	polID map[string]common.SHA256Output
	polRw map[string][]byte
}

var epoch = time.Date(2031, 3, 1, 0, 0, 0, 0, time.UTC)

// instants of the specification are two hours apart, and not on the minute
func instant(t int) time.Time {
	return epoch.Add(time.Duration(2*t)*time.Hour + time.Duration(t*17%60)*time.Second)
}

var certKey, _ = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)

func makeCert(serial int64, cn string, names []string, notAfter time.Time) *ctx509.Certificate {
	tmpl := ctx509.Certificate{
		SerialNumber: big.NewInt(serial),
		Subject:      pkix.Name{Organization: []string{"verif"}, CommonName: cn},
		DNSNames:     names,
		NotBefore:    time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:     notAfter,
	}
	der, err := ctx509.CreateCertificate(crand.Reader, &tmpl, &tmpl, &certKey.PublicKey, certKey)
	lib.Must(err)
	c, err := ctx509.ParseCertificate(der)
	lib.Must(err)
	return c
}

func makePolicy(serial int, name string) *common.PolicyCertificate {
	p := common.NewPolicyCertificate(1, serial, name, time.Unix(1e9, 0).UTC(), time.Unix(2e9, 0).UTC(), true, true,
		[]byte{1, 2, 3}, common.RSA, common.SHA256, time.Unix(1e9, 0).UTC(), common.PolicyAttributes{},
		[]byte{4}, []byte{5}, nil, []byte{6}, []byte{7})
	raw, err := common.ToJSON(p)
	lib.Must(err)
	back, err := common.FromJSON(raw)
	lib.Must(err)
	return back.(*common.PolicyCertificate)
}

func loadUniverse(path string, seed int64) *universe {
	u := &universe{}
	b, err := os.ReadFile(path)
	lib.Must(err)
	lib.Must(json.Unmarshal(b, u))
	u.build(seed)
	return u
}

func (u *universe) build(seed int64) {
	u.cert, u.id = map[string]*ctx509.Certificate{}, map[string]common.SHA256Output{}
	u.pol, u.polID, u.polRw = map[string]common.PolicyDocument{}, map[string]common.SHA256Output{}, map[string][]byte{}
	k := int64(0)
	for _, c := range sortedKeys(u.Certs) {
		k++
		v := u.Certs[c]
		crt := makeCert(seed*1000+k, "", u.names(v.Names), instant(v.Exp))
		u.cert[c] = crt
		u.id[c] = sha256.Sum256(crt.Raw)
	}
	for _, p := range sortedKeys(u.Pols) {
		k++
		pc := makePolicy(int(k), u.Names[u.Pols[p]])
		u.pol[p] = pc
		raw, err := pc.Raw()
		lib.Must(err)
		u.polRw[p] = raw
		u.polID[p] = sha256.Sum256(raw)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (u *universe) names(ids []string) []string {
	out := make([]string, len(ids))
	for i, n := range ids {
		out[i] = u.Names[n]
	}
	return out
}

// state of the specification
type uLists struct{ C, P []string }
type uState struct {
	Certs  []string
	Assoc  [][2]string
	Pols   []string
	Passoc [][2]string
	Served map[string]uLists
	Pend   []string
}

// TLC writes an empty function as an empty list.
func (s *uState) UnmarshalJSON(b []byte) error {
	type plain uState
	var p plain
	b = bytes.ReplaceAll(b, []byte(`"served":[]`), []byte(`"served":{}`))
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*s = uState(p)
	return nil
}

type uAct struct {
	Op  string
	B   string
	T   int
	Ans map[string][]uAnswer
}
type uAnswer struct {
	Name    string
	Present bool
	C, P    []string
}

// ------------------------------------------------------------------------------------------ world

type dbWorld struct {
	name  string
	proxy *lib.Proxy
	raw   *sql.DB // directly to the server, for observation
	conn  db.Conn // what the code under test uses, through the proxy
	rng   *rand.Rand
}

var dbTables = []string{"domains", "certs", "domain_certs", "policies", "domain_policies", "domain_payloads", "dirty",
	"root", "ctlog_server_last_status", "tree"}

func newDBWorld(port int, name string, seed int64) *dbWorld {
	w := &dbWorld{name: name, rng: rand.New(rand.NewSource(seed))}
	cmd := exec.Command("bash")
	cmd.Env = append(os.Environ(), "MYSQL_HOST=127.0.0.1", "MYSQL_PORT="+strconv.Itoa(port), "MYSQL_USER=root")
	cmd.Stdin = strings.NewReader(tools.CreateSchemaScript() + "\ncreate_new_db " + name + "\n")
	if out, err := cmd.CombinedOutput(); err != nil {
		lib.Fatal("creating database: %v\n%s", err, out)
	}
	w.proxy = lib.NewProxy("127.0.0.1:" + strconv.Itoa(port))
	var err error
	w.raw, err = sql.Open("mysql", fmt.Sprintf("root@tcp(127.0.0.1:%d)/%s?interpolateParams=true&collation=binary", port, name))
	lib.Must(err)
	w.raw.SetMaxOpenConns(2)
	w.conn = w.open()
	return w
}

func (w *dbWorld) config() *db.Configuration {
	return db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(w.proxy.Socket()), db.WithDB(w.name))
}

func (w *dbWorld) open() db.Conn {
	c, err := mysql.Connect(w.config())
	lib.Must(err)
	return c
}

// restart is what a new process sees: new connections.
func (w *dbWorld) restart() {
	w.conn.Close()
	w.conn = w.open()
}

func (w *dbWorld) reset() {
	for _, t := range dbTables {
		_, err := w.raw.Exec("DELETE FROM " + t)
		lib.Must(err)
	}
}

func (w *dbWorld) close() {
	w.conn.Close()
	w.raw.Exec("DROP DATABASE " + w.name)
	w.raw.Close()
}

// ------------------------------------------------------------------------------------------ calls

// storeCall prepares the arguments once; the call can be repeated with the very same slices.
func (w *dbWorld) storeCall(u *universe, b uBatch, how string) func() error {
	// the list of certificates in some order, some of them repeated, as they come from unfolding chains
	type item struct {
		c     string
		names []string
	}
	var items []item
	for _, c := range sortedKeys(b.C) {
		items = append(items, item{c, u.names(b.C[c])})
		if w.rng.Intn(3) == 0 {
			items = append(items, item{c, nil})
		} else if w.rng.Intn(4) == 0 {
			items = append(items, item{c, u.names(b.C[c])})
		}
	}
	w.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	n := len(items)
	names := make([][]string, n)
	ids := make([]common.SHA256Output, n)
	parents := make([]*common.SHA256Output, n)
	certs := make([]ctx509.Certificate, n)
	exps := make([]time.Time, n)
	for i, it := range items {
		if len(it.names) > 0 {
			names[i] = append([]string(nil), it.names...)
			w.rng.Shuffle(len(names[i]), func(a, b int) { names[i][a], names[i][b] = names[i][b], names[i][a] })
		}
		ids[i] = u.id[it.c]
		if p := u.Certs[it.c].Parent; p != nil {
			id := u.id[*p]
			parents[i] = &id
		}
		certs[i] = *u.cert[it.c]
		exps[i] = u.cert[it.c].NotAfter
		if w.rng.Intn(2) == 0 {
			exps[i] = exps[i].In(time.FixedZone("z", []int{-7, 3, 11}[w.rng.Intn(3)]*3600))
		}
	}
	var pols []common.PolicyDocument
	for _, p := range b.P {
		pols = append(pols, u.pol[p])
		if w.rng.Intn(4) == 0 {
			pols = append(pols, u.pol[p])
		}
	}
	switch how {
	case "keep":
		return func() error {
			return updater.UpdateWithKeepExisting(bg, w.conn, names, ids, parents, certs, exps, pols)
		}
	case "overwrite":
		return func() error {
			return updater.UpdateWithOverwrite(bg, w.conn, names, ids, parents, certs, exps, pols)
		}
	}
	lib.Fatal("how %s", how)
	return nil
}

func (w *dbWorld) store(u *universe, b uBatch, how string) error { return w.storeCall(u, b, how)() }

func (w *dbWorld) update() (err error) {
	if err = updater.CoalescePayloadsForDirtyDomains(bg, w.conn); err != nil {
		return err
	}
	if err = updater.UpdateSMT(bg, w.conn); err != nil {
		return err
	}
	return w.conn.CleanupDirty(bg)
}

func (w *dbWorld) prune(t int) error {
	now := instant(t)
	if w.rng.Intn(3) > 0 {
		now = now.In(time.FixedZone("q", []int{-9, -3, 4, 13}[w.rng.Intn(4)]*3600))
	}
	return w.conn.PruneCerts(bg, now)
}

// ------------------------------------------------------------------------------------------ observation

func (w *dbWorld) rows(q string, args ...any) [][]sql.NullString {
	r, err := w.raw.Query(q, args...)
	if err != nil {
		lib.Fatal("%s: %v", q, err)
	}
	defer r.Close()
	cols, _ := r.Columns()
	var out [][]sql.NullString
	for r.Next() {
		v := make([]sql.NullString, len(cols))
		p := make([]any, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		lib.Must(r.Scan(p...))
		out = append(out, v)
	}
	lib.Must(r.Err())
	return out
}

func diffSets(want, got map[string]bool, show func(string) string) string {
	var d []string
	for k := range want {
		if !got[k] {
			d = append(d, "missing "+show(k))
		}
	}
	for k := range got {
		if !want[k] {
			d = append(d, "extra "+show(k))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], "...")
	}
	return strings.Join(d, "; ")
}

func (u *universe) label(raw string) string {
	for c, id := range u.id {
		if string(id[:]) == raw {
			return c
		}
	}
	for p, id := range u.polID {
		if string(id[:]) == raw {
			return p
		}
	}
	for n, s := range u.Names {
		h := sha256.Sum256([]byte(s))
		if string(h[:]) == raw {
			return n
		}
	}
	return hex.EncodeToString([]byte(raw))
}

func nameID(s string) string { h := sha256.Sum256([]byte(s)); return string(h[:]) }

// checkTables compares the stored objects and associations with a state of the specification.
// extra allows more rows than the state has (inside an interrupted call).
func (w *dbWorld) checkTables(u *universe, s *uState) (key, what string) {
	// certificates
	want, got := map[string]bool{}, map[string]bool{}
	row := map[string][]sql.NullString{}
	for _, c := range s.Certs {
		id := u.id[c]
		want[string(id[:])] = true
	}
	for _, r := range w.rows("SELECT cert_id,parent_id,expiration,payload FROM certs") {
		got[r[0].String] = true
		row[r[0].String] = r
	}
	if d := diffSets(want, got, u.label); d != "" {
		return "certs", "stored certificates differ: " + d
	}
	for _, c := range s.Certs {
		id := u.id[c]
		r := row[string(id[:])]
		parent := ""
		if p := u.Certs[c].Parent; p != nil {
			x := u.id[*p]
			parent = string(x[:])
		}
		if r[1].String != parent {
			return "parent", fmt.Sprintf("certificate %s is stored with parent %q, want %q", c, u.label(r[1].String), u.label(parent))
		}
		if e := u.cert[c].NotAfter.UTC().Format(time.DateTime); r[2].String != e {
			return "expiration", fmt.Sprintf("certificate %s is stored with expiration %s, want %s", c, r[2].String, e)
		}
		if r[3].String != string(u.cert[c].Raw) {
			return "payload", fmt.Sprintf("certificate %s is stored with another payload", c)
		}
	}
	// associations
	pair := func(k string) string { return u.label(k[:32]) + "-" + u.label(k[32:]) }
	want, got = map[string]bool{}, map[string]bool{}
	for _, a := range s.Assoc {
		id := u.id[a[1]]
		want[nameID(u.Names[a[0]])+string(id[:])] = true
	}
	for _, r := range w.rows("SELECT domain_id,cert_id FROM domain_certs") {
		got[r[0].String+r[1].String] = true
	}
	if d := diffSets(want, got, pair); d != "" {
		return "assoc", "name-certificate associations differ: " + d
	}
	// policies
	want, got = map[string]bool{}, map[string]bool{}
	for _, p := range s.Pols {
		id := u.polID[p]
		want[string(id[:])] = true
	}
	for _, r := range w.rows("SELECT policy_id,payload FROM policies") {
		got[r[0].String] = true
		if l := u.label(r[0].String); u.polRw[l] != nil && !bytes.Equal(u.polRw[l], []byte(r[1].String)) {
			return "pol-payload", "policy " + l + " is stored with another payload"
		}
	}
	if d := diffSets(want, got, u.label); d != "" {
		return "pols", "stored policies differ: " + d
	}
	want, got = map[string]bool{}, map[string]bool{}
	for _, a := range s.Passoc {
		id := u.polID[a[1]]
		want[nameID(u.Names[a[0]])+string(id[:])] = true
	}
	for _, r := range w.rows("SELECT domain_id,policy_id FROM domain_policies") {
		got[r[0].String+r[1].String] = true
	}
	if d := diffSets(want, got, pair); d != "" {
		return "passoc", "name-policy associations differ: " + d
	}
	// every name something is associated with is known by its text, no name is registered with another text
	text := map[string]string{}
	for _, r := range w.rows("SELECT domain_id,domain_name FROM domains") {
		text[r[0].String] = r[1].String
		if nameID(r[1].String) != r[0].String {
			return "domain-name", fmt.Sprintf("domain identifier %x is stored with the name %q", r[0].String, r[1].String)
		}
	}
	// every name whose lists are not up to date is marked for the next update
	dirty := map[string]bool{}
	for _, r := range w.rows("SELECT domain_id FROM dirty") {
		dirty[r[0].String] = true
	}
	for _, n := range s.Pend {
		if !dirty[nameID(u.Names[n])] {
			return "not-dirty", "name " + n + " is not marked for update although its lists change"
		}
	}
	for _, a := range append(append([][2]string{}, s.Assoc...), s.Passoc...) {
		if text[nameID(u.Names[a[0]])] == "" {
			return "domain-missing", "name " + a[0] + " is not in the table of names"
		}
	}
	return "", ""
}

func (u *universe) glue(l uLists) (cs, ps []byte, all []byte) {
	one := func(xs []string, ids map[string]common.SHA256Output) (out [][]byte) {
		for _, x := range xs {
			id := ids[x]
			out = append(out, append([]byte(nil), id[:]...))
		}
		sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
		return
	}
	c, p := one(l.C, u.id), one(l.P, u.polID)
	a := append(append([][]byte{}, c...), p...)
	sort.Slice(a, func(i, j int) bool { return bytes.Compare(a[i], a[j]) < 0 })
	return bytes.Join(c, nil), bytes.Join(p, nil), bytes.Join(a, nil)
}

// wantRoot is the root of the tree whose leaves are the hashes of the lists.
func (u *universe) wantRoot(served map[string]uLists) []byte {
	kv := map[[32]byte][]byte{}
	for n, l := range served {
		if _, _, all := u.glue(l); len(all) > 0 {
			kv[[32]byte([]byte(nameID(u.Names[n])))] = sha(all)
		}
	}
	return canonicalRoot(kv)
}

func rootEq(a, b []byte) bool {
	if len(a) == 0 || bytes.Equal(a, []byte{0}) {
		a = nil
	}
	if len(b) == 0 || bytes.Equal(b, []byte{0}) {
		b = nil
	}
	return bytes.Equal(a, b)
}

// checkServed compares what is served after a completed update with the specification: lists, leaves, root; the tree can
// be loaded and every name proven.
func (w *dbWorld) checkServed(u *universe, s *uState) (key, what string) {
	if n := len(w.rows("SELECT domain_id FROM dirty")); n != 0 {
		return "dirty-left", fmt.Sprintf("%d names are left to do after a completed cycle", n)
	}
	if k, what := w.checkTree(u, s.Served); k != "" {
		return k, what
	}
	for n, l := range s.Served {
		cs, ps, _ := u.glue(l)
		id := common.SHA256Output([]byte(nameID(u.Names[n])))
		gid, g, err := w.conn.RetrieveDomainCertificatesIDs(bg, id)
		if err != nil {
			return "lists-error", "reading the certificate list of " + n + ": " + err.Error()
		}
		if !bytes.Equal(g, cs) {
			return "cert-list", fmt.Sprintf("certificate list of %s is %s, want %v", n, u.labels(g), l.C)
		}
		if len(cs) > 0 && gid != sha256.Sum256(cs) {
			return "cert-list-id", "identifier of the certificate list of " + n + " is not its hash"
		}
		gid, g, err = w.conn.RetrieveDomainPoliciesIDs(bg, id)
		if err != nil {
			return "lists-error", "reading the policy list of " + n + ": " + err.Error()
		}
		if !bytes.Equal(g, ps) {
			return "policy-list", fmt.Sprintf("policy list of %s is %s, want %v", n, u.labels(g), l.P)
		}
		if len(ps) > 0 && gid != sha256.Sum256(ps) {
			return "policy-list-id", "identifier of the policy list of " + n + " is not its hash"
		}
	}
	// nothing else is served
	known := map[string]bool{}
	for n, l := range s.Served {
		if len(l.C)+len(l.P) > 0 {
			known[nameID(u.Names[n])] = true
		}
	}
	for _, r := range w.rows("SELECT domain_id FROM domain_payloads") {
		if !known[r[0].String] {
			return "extra-payload", "lists are kept for " + u.label(r[0].String) + " which has nothing stored"
		}
	}
	return "", ""
}

func (u *universe) labels(g []byte) []string {
	out := []string{}
	for len(g) >= 32 {
		out = append(out, u.label(string(g[:32])))
		g = g[32:]
	}
	if len(g) > 0 {
		out = append(out, fmt.Sprintf("+%d bytes", len(g)))
	}
	return out
}

// checkTree: the published root is the one of the given lists, the tree loads completely and proves them.
func (w *dbWorld) checkTree(u *universe, served map[string]uLists) (key, what string) {
	id, err := w.conn.LoadRoot(bg)
	if err != nil {
		return "load-root", err.Error()
	}
	var root []byte
	if id != nil {
		root = append([]byte(nil), id[:]...)
	}
	if want := u.wantRoot(served); !rootEq(root, want) {
		return "root", fmt.Sprintf("published root is %x, want %x", root, want)
	}
	if rootEq(root, nil) {
		root = nil
	}
	return w.checkProofs(u, root, served)
}

func (w *dbWorld) checkProofs(u *universe, root []byte, served map[string]uLists) (key, what string) {
	err := guardErr(func() error {
		t, err := trie.NewTrie(root, common.SHA256Hash, w.conn)
		if err != nil {
			return err
		}
		for _, n := range sortedKeys(served) {
			k := []byte(nameID(u.Names[n]))
			_, _, all := u.glue(served[n])
			path, inc, pk, pv, err := t.MerkleProof(bg, k)
			if err != nil {
				return fmt.Errorf("proof of %s: %w", n, err)
			}
			if len(all) > 0 {
				if !inc || !bytes.Equal(pv, sha(all)) || !trie.VerifyInclusion(root, path, k, pv) {
					return fmt.Errorf("%s is not proven with the hash of its lists", n)
				}
			} else if inc || (len(root) > 0 && !trie.VerifyNonInclusion(root, path, k, pv, pk)) {
				return fmt.Errorf("%s is not proven absent", n)
			}
		}
		return nil
	})
	if err != nil {
		return "tree", "the published tree does not load or prove what is served: " + err.Error()
	}
	return "", ""
}

func rsaKeyOf(bits int) *rsa.PrivateKey {
	k, err := rsa.GenerateKey(crand.Reader, bits)
	lib.Must(err)
	return k
}

func pemKey(k *rsa.PrivateKey) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)})
}

// guardErr turns a panic of the code under test into an error.
func guardErr(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
			if os.Getenv("VERIF_DEBUG") != "" {
				os.Stderr.Write(debug.Stack())
			}
		}
	}()
	return f()
}
