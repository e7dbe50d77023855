package main

// Replays spec/BulkRuns.tla on the real processing of bundle files (spec/Rows.tla says what rows mean): certificates of
// the specification stand for groups of rows, spread over files; rows, files and the database fail.

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"database/sql"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509/pkix"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/statistics"
	"github.com/netsec-ethz/fpki/pkg/util"
	"github.com/netsec-ethz/fpki/tools"
)

type rwRow struct {
	leaf    *ctx509.Certificate
	chain   []*ctx509.Certificate
	expired bool
	quoted  bool
}

type rwWorld struct {
	raw   *sql.DB
	conn  db.Conn
	proxy *lib.Proxy
	fams  map[string][]rwRow
	dir   string
	fresh int
}

var rwKey, _ = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
var rwSerial int64

func rwCert(cn string, names []string, notAfter time.Time) *ctx509.Certificate {
	rwSerial++
	t := ctx509.Certificate{SerialNumber: big.NewInt(rwSerial), Subject: pkix.Name{Organization: []string{"verif"}, CommonName: cn}, DNSNames: names,
		NotBefore: time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: notAfter}
	der, err := ctx509.CreateCertificate(crand.Reader, &t, &t, &rwKey.PublicKey, rwKey)
	lib.Must(err)
	c, err := ctx509.ParseCertificate(der)
	lib.Must(err)
	return c
}

func (w *rwWorld) build(rng *rand.Rand, size int) {
	future := func() time.Time { return time.Date(2040+rng.Intn(5), 3, 1+rng.Intn(25), rng.Intn(24), rng.Intn(60), 0, 0, time.UTC) }
	past := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC)
	// authorities: the last of each chain is a root, some intermediates have two roots
	var roots, inters []*ctx509.Certificate
	for i := 0; i < 3; i++ {
		roots = append(roots, rwCert(fmt.Sprintf("root%d", i), nil, []time.Time{future(), past}[rng.Intn(5)/4]))
	}
	for i := 0; i < 4; i++ {
		inters = append(inters, rwCert(fmt.Sprintf("inter%d.ca.org", i), []string{fmt.Sprintf("i%d.ca.org", i)}[:rng.Intn(2)], future()))
	}
	// the issuer of an authority, unless it is cross-signed
	issuer := map[*ctx509.Certificate][]*ctx509.Certificate{}
	for i, c := range inters {
		issuer[c] = []*ctx509.Certificate{roots[rng.Intn(3)]}
		if i > 0 && rng.Intn(2) == 0 {
			issuer[c] = []*ctx509.Certificate{inters[rng.Intn(i)]}
		}
		if rng.Intn(4) == 0 {
			issuer[c] = append(issuer[c], roots[rng.Intn(3)])
		}
	}
	chainOf := func(c *ctx509.Certificate) []*ctx509.Certificate {
		var l []*ctx509.Certificate
		for {
			l = append(l, c)
			n := issuer[c]
			if len(n) == 0 {
				return l
			}
			c = n[rng.Intn(len(n))]
		}
	}
	all := append(append([]*ctx509.Certificate{}, inters...), roots...)
	w.fams = map[string][]rwRow{}
	shared := []string{"s0.example.com", "s1.example.com", "*.s1.example.com"}
	for _, f := range strings.Split("a b c d e f", " ") {
		for i, n := 0, 1+rng.Intn(size); i < n; i++ {
			if rng.Intn(6) == 0 { // the certificate of an authority
				c := inters[rng.Intn(len(inters))]
				l := chainOf(c)
				w.fams[f] = append(w.fams[f], rwRow{leaf: c, chain: l[1:]})
				continue
			}
			var names []string
			cn := ""
			switch rng.Intn(4) {
			case 0:
				cn = shared[rng.Intn(3)]
			case 1:
				names = []string{shared[rng.Intn(3)], fmt.Sprintf("%s%d.own.org", f, i)}
			default:
				cn = fmt.Sprintf("%s%d.own.org", f, i)
				names = []string{cn, "www." + cn}[:rng.Intn(3)]
			}
			r := rwRow{chain: chainOf(all[rng.Intn(len(all))]), quoted: rng.Intn(5) == 0}
			switch rng.Intn(8) {
			case 0: // expired
				r.leaf, r.expired = rwCert(cn, names, past), true
			default:
				r.leaf = rwCert(cn, names, future())
			}
			w.fams[f] = append(w.fams[f], r)
		}
	}
}

func b64(c *ctx509.Certificate) string { return base64.StdEncoding.EncodeToString(c.Raw) }

func (r rwRow) text(rng *rand.Rand) string {
	var ch []string
	for _, c := range r.chain {
		ch = append(ch, b64(c))
	}
	f := []string{strconv.Itoa(rng.Intn(1000)), "x", fmt.Sprintf("%x", rng.Int63()), b64(r.leaf), strings.Join(ch, ";"), "a", "b"}
	if r.quoted {
		f[1], f[3] = `"a,b ""c"""`, `"`+f[3]+`"`
	}
	exp := r.leaf.NotAfter.Unix()
	if r.expired && rng.Intn(2) == 0 {
		exp = time.Now().Unix() + 1e8 // only the certificate itself tells
	}
	return strings.Join(append(f, fmt.Sprintf("%d.%d", exp, rng.Intn(1000))), ",")
}

// what a set of groups asks for; certificates that are chained in two ways may have either parent
type rwRows struct {
	certs map[string]map[string]bool // identifier -> acceptable rows
	rest  map[string]map[string]bool
}

func (w *rwWorld) rowsOf(fams []string) rwRows {
	out := rwRows{map[string]map[string]bool{}, map[string]map[string]bool{"domains": {}, "domain_certs": {}, "dirty": {}}}
	add := func(c *ctx509.Certificate, parent *ctx509.Certificate) {
		p := ""
		if parent != nil {
			h := sha256.Sum256(parent.Raw)
			p = string(h[:])
		}
		id := sha256.Sum256(c.Raw)
		k := fmt.Sprintf("%x", id)
		if out.certs[k] == nil {
			out.certs[k] = map[string]bool{}
		}
		out.certs[k][fmt.Sprintf("%x|%s|%x", p, c.NotAfter.UTC().Format(time.DateTime), id)] = true
	}
	for _, f := range fams {
		for _, r := range w.fams[f] {
			if r.expired {
				continue
			}
			full := append([]*ctx509.Certificate{r.leaf}, r.chain...)
			for i, c := range full {
				if i+1 < len(full) {
					add(c, full[i+1])
				} else {
					add(c, nil)
				}
			}
			names := append([]string{}, r.leaf.DNSNames...)
			if r.leaf.Subject.CommonName != "" {
				names = append(names, r.leaf.Subject.CommonName)
			}
			for _, n := range names {
				h := sha256.Sum256([]byte(n))
				out.rest["domains"][fmt.Sprintf("%x|%s", h, n)] = true
				out.rest["domain_certs"][fmt.Sprintf("%x|%x", h, sha256.Sum256(r.leaf.Raw))] = true
				out.rest["dirty"][fmt.Sprintf("%x", h)] = true
			}
		}
	}
	return out
}

func (w *rwWorld) query(q string) [][]sql.NullString {
	rows, err := w.raw.Query(q)
	lib.Must(err)
	defer rows.Close()
	cols, _ := rows.Columns()
	var out [][]sql.NullString
	for rows.Next() {
		r := make([]sql.NullString, len(cols))
		p := make([]any, len(cols))
		for i := range r {
			p[i] = &r[i]
		}
		lib.Must(rows.Scan(p...))
		out = append(out, r)
	}
	lib.Must(rows.Err())
	return out
}

// check compares the tables with what must and may be stored.
func (w *rwWorld) check(must, may rwRows, excuse func(string) bool) (string, string, bool) {
	known := false
	got := map[string]string{}
	for _, r := range w.query("SELECT cert_id,parent_id,expiration,payload FROM certs") {
		got[fmt.Sprintf("%x", r[0].String)] = fmt.Sprintf("%x|%s|%x", r[1].String, r[2].String, sha256.Sum256([]byte(r[3].String)))
	}
	for id := range must.certs {
		if _, ok := got[id]; !ok {
			return "missing-certs", fmt.Sprintf("certificate %.10s is not stored (%d are, %d must be)", id, len(got), len(must.certs)), false
		}
	}
	for id, v := range got {
		if !may.certs[id][v] {
			return "wrong-certs", fmt.Sprintf("certificate %.10s is stored with parent|expiration|payload %s, which no row gives", id, v), false
		}
	}
	have := map[string]map[string]bool{"domains": {}, "domain_certs": {}, "dirty": {}}
	for _, r := range w.query("SELECT domain_id,domain_name FROM domains") {
		have["domains"][fmt.Sprintf("%x|%s", r[0].String, r[1].String)] = true
	}
	for _, r := range w.query("SELECT domain_id,cert_id FROM domain_certs") {
		have["domain_certs"][fmt.Sprintf("%x|%x", r[0].String, r[1].String)] = true
	}
	for _, r := range w.query("SELECT domain_id FROM dirty") {
		have["dirty"][fmt.Sprintf("%x", r[0].String)] = true
	}
	excused := excuse
	for _, t := range []string{"domains", "domain_certs", "dirty"} {
		for k := range must.rest[t] {
			if !have[t][k] {
				if t == "domain_certs" && excused != nil && excused(k) {
					known = true
					continue
				}
				return "missing-" + t, fmt.Sprintf("%.90s is missing in %s (%d rows)", k, t, len(have[t])), known
			}
		}
		for k := range have[t] {
			if !may.rest[t][k] {
				return "extra-" + t, fmt.Sprintf("%.90s is too much in %s (%d rows)", k, t, len(have[t])), known
			}
		}
	}
	return "", "", known
}

// files writes the rows to files; sabotage: "" or how one of them is spoilt. Returns their names.
func (w *rwWorld) files(rng *rand.Rand, rows []rwRow, sabotage string) []string {
	var lines []string
	for _, r := range rows {
		lines = append(lines, r.text(rng))
	}
	at := rng.Intn(len(lines) + 1)
	broken := ""
	good := rwRow{leaf: rwCert("bad.example.com", nil, time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)), chain: []*ctx509.Certificate{rwCert("badroot", nil, time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC))}}
	g := strings.Split(good.text(rng), ",")
	switch sabotage {
	case "few":
		broken = "1,2,3"
	case "base64":
		g[3] = "@@" + g[3]
	case "garbage":
		g[3] = base64.StdEncoding.EncodeToString([]byte("no certificate"))
	case "chain":
		g[4] = g[4] + ";!"
	case "chaincert":
		g[4] = g[4] + ";" + base64.StdEncoding.EncodeToString([]byte("no certificate"))
	case "expiration":
		g[7] = []string{"12", "x.1", ".5", "9."}[rng.Intn(4)]
	case "nocert":
		g[3] = ""
	case "quote":
		g[3] = `"` + g[3]
	}
	if broken == "" {
		broken = strings.Join(g, ",")
	}
	switch sabotage {
	case "few", "base64", "garbage", "chain", "chaincert", "expiration", "nocert", "quote":
		lines = append(lines[:at:at], append([]string{broken}, lines[at:]...)...)
	}
	n := 1 + rng.Intn(4)
	var out []string
	bad := rng.Intn(n)
	w.fresh++
	for i := 0; i < n; i++ {
		part := lines[i*len(lines)/n : (i+1)*len(lines)/n]
		text := strings.Join(part, "\n")
		if len(part) > 0 && rng.Intn(4) > 0 {
			text += "\n"
		}
		name := filepath.Join(w.dir, fmt.Sprintf("%d-%d.csv", 100*w.fresh+i, 100*w.fresh+i))
		data := []byte(text)
		if rng.Intn(2) == 0 || (i == bad && sabotage == "truncated") {
			name = strings.TrimSuffix(name, "csv") + "gz"
			var b bytes.Buffer
			z := gzip.NewWriter(&b)
			for k, parts := 0, 1+rng.Intn(3); k < parts; k++ { // several members, as of concatenated files
				if k > 0 {
					z.Reset(&b)
				}
				z.Write(data[k*len(data)/parts : (k+1)*len(data)/parts])
				z.Close()
			}
			data = b.Bytes()
		}
		if i == bad {
			switch sabotage {
			case "truncated":
				data = data[:rng.Intn(len(data))]
			case "missing":
				out = append(out, name)
				continue
			}
		}
		lib.Must(os.WriteFile(name, data, 0o644))
		out = append(out, name)
	}
	return out
}

func TestVerifRows(t *testing.T) {
	var a struct {
		Edges, Budget string
		Port          int
		Hang          string
	}
	lib.Must(json.Unmarshal([]byte(os.Getenv("VERIF_ARGS")), &a))
	budget, err := time.ParseDuration(a.Budget)
	lib.Must(err)
	hang, err := time.ParseDuration(a.Hang)
	lib.Must(err)
	res := lib.NewResult()
	g := lib.LoadGraph(a.Edges)
	type st struct{ Must, May []string }
	type ac struct {
		Op string
		S  []string
		Ok bool
	}
	states, acts := make([]st, len(g.States)), make([]ac, len(g.Edges))
	for i, s := range g.States {
		lib.Must(json.Unmarshal(s, &states[i]))
	}
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	rng := rand.New(rand.NewSource(lib.Seed()*17 + 3))
	const name = "verif_rows"
	cmd := exec.Command("bash")
	cmd.Env = append(os.Environ(), "MYSQL_HOST=127.0.0.1", "MYSQL_PORT="+strconv.Itoa(a.Port), "MYSQL_USER=root")
	cmd.Stdin = strings.NewReader(tools.CreateSchemaScript() + "\ncreate_new_db " + name + "\n")
	if out, err := cmd.CombinedOutput(); err != nil {
		lib.Fatal("creating database: %v\n%s", err, out)
	}
	w := &rwWorld{dir: lib.Scratch()}
	w.proxy = lib.NewProxy("127.0.0.1:" + strconv.Itoa(a.Port))
	w.raw, err = sql.Open("mysql", fmt.Sprintf("root@tcp(127.0.0.1:%d)/%s?interpolateParams=true&collation=binary", a.Port, name))
	lib.Must(err)
	w.conn, err = mysql.Connect(db.NewConfig(mysql.WithDefaults(), mysql.WithLocalSocket(w.proxy.Socket()), db.WithDB(name)))
	lib.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	lib.Must(err)
	os.Stdout = null
	end := time.Now().Add(budget)
	reset := func() {
		for _, t := range []string{"certs", "domains", "domain_certs", "dirty"} {
			_, err := w.raw.Exec("DELETE FROM " + t)
			lib.Must(err)
		}
	}
	told := false
	kinds := map[string]int{}
	for time.Now().Before(end) && res.NumViolations() < 6 {
		walk := g.RandomWalk(rng, 2+rng.Intn(6), func(e int) float64 {
			if acts[e].Op == "Forget" || !acts[e].Ok {
				return 0.6
			}
			return 1
		})
		w.build(rng, []int{2, 8, 25}[rng.Intn(3)])
		reset()
		var done []string
		var owed []map[string]map[string]bool
		var since []string
		ok := true
		for _, e := range walk {
			act, t := acts[e], states[g.Edges[e].To]
			bad := func(key, f string, x ...any) {
				ok = false
				res.Violate(key, fmt.Sprintf(f, x...)+fmt.Sprintf(" (after %v)", done), map[string]any{"calls": done, "walk": g.Acts(walk)})
			}
			if act.Op == "Forget" {
				reset()
				since, owed = nil, nil
				done = append(done, "forget")
				continue
			}
			var rows []rwRow
			for _, f := range act.S {
				for _, r := range w.fams[f] {
					rows = append(rows, r)
					if rng.Intn(6) == 0 {
						rows = append(rows, r)
					}
				}
			}
			rng.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
			sabotage := ""
			skip := rng.Intn(6) == 0
			if !act.Ok {
				sabotage = []string{"few", "base64", "garbage", "chain", "chaincert", "expiration", "nocert", "quote", "truncated", "missing", "db", "db"}[rng.Intn(12)]
				if sabotage == "missing" {
					skip = false
				}
			}
			files := w.files(rng, rows, sabotage)
			rng.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
			if skip && sabotage == "" {
				files = append(files, filepath.Join(w.dir, "7-7.gz")) // one that does not exist
			}
			kinds[sabotage]++
			nr, nc, nt, nw, mi := 1+rng.Intn(3), 1+rng.Intn(3), 1+rng.Intn(3), []int{1, 2, 4, 7}[rng.Intn(4)], []int{1, 3, 10, 1000}[rng.Intn(4)]
			desc := fmt.Sprintf("run %v (%d rows, %d files, %d/%d/%d/%d workers, batches %d)", act.S, len(rows), len(files), nr, nc, nt, nw, mi)
			if sabotage != "" {
				desc += " {" + sabotage + "}"
			}
			w.proxy.Arm(0, false)
			if sabotage == "db" {
				w.proxy.ArmShape("LOAD DATA CONCURRENT INFILE ", 1+rng.Intn(4), false, true)
			}
			type ret struct {
				err error
			}
			ch := make(chan ret, 1)
			go func() {
				var r ret
				defer func() {
					if p := recover(); p != nil {
						r.err = fmt.Errorf("panic: %v", p)
					}
					ch <- r
				}()
				p, err := NewProcessor(context.Background(), w.conn, mi, statistics.NewStatistics(time.Hour, nil), WithNumFileReaders(nr), WithNumToChains(nc),
					WithNumToCerts(nt), WithNumDBWriters(nw), WithSkipMissingFiles(skip))
				if err != nil {
					r.err = err
					return
				}
				var l []util.CsvFile
				for _, f := range files {
					c, err := util.LoadCsvFile(f)
					if err != nil {
						r.err = err
						return
					}
					l = append(l, c)
				}
				p.AddCsvFiles(l)
				p.Resume()
				r.err = p.Wait()
			}()
			var err error
			select {
			case r := <-ch:
				err = r.err
			case <-time.After(hang):
				done = append(done, desc)
				bad("hang", "the ingestion does not end")
				lib.Must(res.Write(os.Getenv("VERIF_OUT")))
				return
			}
			_, cmd := w.proxy.Disarm()
			for _, f := range files {
				os.Remove(f)
			}
			done = append(done, desc)
			res.Eval(1)
			hit := sabotage != "" && (sabotage != "db" || cmd != "")
			must, may := t.Must, t.May
			if !act.Ok && !hit {
				must = append(append([]string{}, t.Must...), act.S...)
			}
			if err == nil && hit {
				bad("swallowed-"+sabotage, "%s, but success was reported", sabotage)
				break
			}
			if err != nil && !hit {
				bad("error", "ingestion fails: %v", err)
				break
			}
			if err != nil && strings.HasPrefix(err.Error(), "panic") {
				bad("panic", "%v", err)
				break
			}
			if err == nil {
				since = append(since, act.S...)
				byName := map[string]map[string]bool{}
				for r := range w.rowsOf(act.S).rest["domain_certs"] {
					if byName[r[:64]] == nil {
						byName[r[:64]] = map[string]bool{}
					}
					byName[r[:64]][r] = true
				}
				owed = append(owed, byName)
			}
			mustRows := w.rowsOf(must)
			mayRows := w.rowsOf(append(append([]string{}, may...), must...))
			mustRows.rest["dirty"] = w.rowsOf(since).rest["dirty"]
			have := map[string]bool{}
			for _, r := range w.query("SELECT domain_id,cert_id FROM domain_certs") {
				have[fmt.Sprintf("%x|%x", r[0].String, r[1].String)] = true
			}
			excuse := func(row string) bool {
				for _, o := range owed {
					if !o[row[:64]][row] {
						continue
					}
					some := false
					for r := range o[row[:64]] {
						some = some || have[r]
					}
					if !some || len(o[row[:64]]) < 2 {
						return false
					}
				}
				return true
			}
			k, what, known := w.check(mustRows, mayRows, excuse)
			if known && !told {
				told = true
				res.Violate("shared-name", fmt.Sprintf("a name that several certificates of a run have is associated with only one of them (after %v)", done), nil)
			}
			if k != "" {
				bad(k, "%s", what)
				break
			}
			if !act.Ok && !hit {
				break
			}
		}
		if ok {
			res.Trace(1)
			if len(done) < 6 {
				res.Sample(map[string]any{"calls": done})
			}
		}
	}
	ks := []string{}
	for k, n := range kinds {
		ks = append(ks, fmt.Sprintf("%s %d", k, n))
	}
	sort.Strings(ks)
	res.Note("rows", "runs by failure: "+strings.Join(ks, ", "))
	w.raw.Exec("DROP DATABASE " + name)
	lib.Must(res.Write(os.Getenv("VERIF_OUT")))
}
