package main

// Runs the ingest command itself, as a process, again and again on a directory, a journal and a database, and ends it in
// all ways: kills it at a statement or at a moment, interrupts it, lets statements fail. What there is before and after
// each run is recorded, and judged by spec/CommandRuns.tla.

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	mapcommon "github.com/netsec-ethz/fpki/pkg/mapserver/common"
	"github.com/netsec-ethz/fpki/pkg/mapserver/prover"
	"github.com/netsec-ethz/fpki/pkg/mapserver/responder"
)

func init() { drivers["command"] = commandDriver }

type cmdState struct {
	St, Dy, Cl, Pay, Tr [][2]int
	Done                []int
	Fl                  [2]bool
	Size                int64
}

type cmdRun struct {
	Pre, Post      cmdState
	Strat          string
	B              int
	Kind, At, Exit string
	History        []string
	Stderr         string
}

type cmdUnit struct {
	id       [2]int
	name     string
	rows     []string // lines of the file
	certs    map[string]bool
	leaves   []string
	list     []byte
	domainID [32]byte
}

type cmdWorld struct {
	*dbWorld
	px     *lib.Proxy
	cwd    string
	dir    string
	files  [][2]int
	units  []*cmdUnit
	counts map[string]int
	took   map[string]time.Duration
	known  map[string]bool
}

const cmdURL = "https://ct.example.org/log"

func cmdSum(b []byte) string { h := sha256.Sum256(b); return string(h[:]) }

func (w *cmdWorld) fill(nUnits int, serial *int64) {
	rng := w.rng
	next := func(cn string, names []string) *ctx509.Certificate {
		*serial++
		return makeCert(*serial, cn, names, time.Date(2040, 1, 1+rng.Intn(28), 0, 0, 0, 0, time.UTC))
	}
	root, inter := next("Root", nil), next("Inter", nil)
	for i := range w.files {
		var lines []string
		for k := 1; k <= nUnits; k++ {
			u := &cmdUnit{id: [2]int{i + 1, k}, name: fmt.Sprintf("u%d-%d-%d.org", i+1, k, *serial), certs: map[string]bool{}}
			u.domainID = sha256.Sum256([]byte(u.name))
			chain := []*ctx509.Certificate{inter, root}[rng.Intn(2):]
			cn, names := u.name, []string(nil)
			if rng.Intn(2) == 0 {
				cn, names = "", []string{u.name}
			}
			leaf := next(cn, names)
			var ch []string
			for _, c := range chain {
				ch = append(ch, base64.StdEncoding.EncodeToString(c.Raw))
			}
			for _, c := range append([]*ctx509.Certificate{leaf}, chain...) {
				u.certs[cmdSum(c.Raw)] = true
			}
			u.leaves = append(u.leaves, cmdSum(leaf.Raw))
			ids := sortedKeys(u.certs)
			u.list = []byte(strings.Join(ids, ""))
			lines = append(lines, strings.Join([]string{"1", "x", "y", base64.StdEncoding.EncodeToString(leaf.Raw), strings.Join(ch, ";"), "z", "w",
				fmt.Sprintf("%d.0", leaf.NotAfter.Unix())}, ","))
			w.units = append(w.units, u)
		}
		rng.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write([]byte(strings.Join(lines, "\n") + "\n"))
		z.Close()
		lib.Must(os.WriteFile(filepath.Join(w.dir, "bundled", fmt.Sprintf("%d-%d.gz", w.files[i][0], w.files[i][1])), b.Bytes(), 0o644))
	}
}

func (w *cmdWorld) set(q string) map[string]bool {
	m := map[string]bool{}
	for _, r := range w.rows(q) {
		var k []string
		for _, c := range r {
			k = append(k, c.String)
		}
		m[strings.Join(k, "|")] = true
	}
	return m
}

// idle waits until the server has finished what it was given.
func (w *cmdWorld) idle() {
	quiet := 0
	for end := time.Now().Add(60 * time.Second); quiet < 3 && time.Now().Before(end); time.Sleep(4 * time.Millisecond) {
		r := w.rows("SELECT COUNT(*) FROM information_schema.processlist WHERE db='" + w.name + "' AND command<>'Sleep' AND id<>CONNECTION_ID()")
		if r[0][0].String == "0" {
			quiet++
		} else {
			quiet = 0
		}
	}
}

type cmdJournal struct {
	Jobs []struct {
		Coalesced, UpdatedSMT bool
		CompletedIndices      map[string][]string
	}
}

func (w *cmdWorld) observe() (s cmdState, bad string) {
	w.idle()
	certs, domains, assoc := w.set("SELECT cert_id FROM certs"), w.set("SELECT domain_name FROM domains"), w.set("SELECT domain_id,cert_id FROM domain_certs")
	dirty, coal := w.set("SELECT domain_id FROM dirty"), w.set("SELECT domain_id FROM dirty WHERE coalesced")
	pay := w.set("SELECT domain_id,cert_ids FROM domain_payloads")
	s = cmdState{St: [][2]int{}, Dy: [][2]int{}, Cl: [][2]int{}, Pay: [][2]int{}, Tr: [][2]int{}, Done: []int{}}
	resp, err := responder.NewMapResponder(bg, w.conn, cmdKey)
	if err != nil {
		return s, "a responder cannot read the map: " + err.Error()
	}
	for _, u := range w.units {
		id := string(u.domainID[:])
		stored := domains[u.name]
		for c := range u.certs {
			stored = stored && certs[c]
		}
		for _, c := range u.leaves {
			stored = stored && assoc[id+"|"+c]
		}
		if stored {
			s.St = append(s.St, u.id)
		}
		if dirty[id] {
			s.Dy = append(s.Dy, u.id)
		}
		if coal[id] {
			s.Cl = append(s.Cl, u.id)
		}
		if pay[id+"|"+string(u.list)] {
			s.Pay = append(s.Pay, u.id)
		}
		a, err := resp.GetProof(bg, u.name)
		if err != nil || len(a) != 1 {
			return s, fmt.Sprintf("no answer for %s: %v", u.name, err)
		}
		kind, ok, err := prover.VerifyProofByDomain(a[0])
		if err == nil && ok && kind == mapcommon.PoP && bytes.Equal(a[0].DomainEntry.CertIDs, u.list) {
			s.Tr = append(s.Tr, u.id)
		}
	}
	for _, r := range w.rows("SELECT size FROM ctlog_server_last_status WHERE url_hash=UNHEX('" + fmt.Sprintf("%x", sha256.Sum256([]byte(cmdURL))) + "')") {
		fmt.Sscan(r[0].String, &s.Size)
	}
	text, err := os.ReadFile(filepath.Join(w.cwd, "journal.json"))
	if os.IsNotExist(err) {
		return s, ""
	}
	var j cmdJournal
	if err := json.Unmarshal(text, &j); err != nil || len(j.Jobs) == 0 {
		return s, fmt.Sprintf("the journal is not readable (%d bytes): %v", len(text), err)
	}
	last := j.Jobs[len(j.Jobs)-1]
	s.Fl = [2]bool{last.Coalesced, last.UpdatedSMT}
	for i, f := range w.files {
		for _, in := range last.CompletedIndices[filepath.Base(w.dir)] {
			var lo, hi int
			if n, _ := fmt.Sscanf(in, "%d-%d", &lo, &hi); n == 2 && lo <= f[0] && f[1] <= hi {
				s.Done = append(s.Done, i+1)
			}
		}
	}
	return s, ""
}

var cmdKey = rsaKeyOf(1024)

func (w *cmdWorld) live(exe, strat string, b int, kind string, hang time.Duration) (r cmdRun, count int) {
	rng := w.rng
	args := []string{"-dbname", w.name, "-journal", filepath.Join(w.cwd, "journal.json"), "-strategy", strat, "-filebatch", fmt.Sprint(b),
		"-numfiles", fmt.Sprint(1 + rng.Intn(3)), "-numparsers", fmt.Sprint(1 + rng.Intn(3)), "-numdechainers", fmt.Sprint(1 + rng.Intn(2)),
		"-numdbworkers", fmt.Sprint([]int{1, 2, 4}[rng.Intn(3)]), "-multiinsert", fmt.Sprint([]int{1, 2, 10000}[rng.Intn(3)]), w.dir}
	cmd := exec.Command(exe, args...)
	cmd.Dir = w.cwd
	cmd.Env = append(os.Environ(), "MYSQL_USER=root", "TMPDIR="+filepath.Join(w.cwd, "tmp"))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	n := w.counts[strat]
	if n == 0 {
		n = map[string]int{"recordctsize": 4, "onlysmtupdate": 15}[strat]
		if n == 0 {
			n = 50
		}
	}
	at := 1 + rng.Intn(n+n/20+1)
	after := rng.Intn(2) == 0
	took := w.took[strat]
	if took == 0 {
		took = time.Second
	}
	var mu sync.Mutex
	sig := func(s syscall.Signal) func() {
		return func() {
			mu.Lock()
			defer mu.Unlock()
			if cmd.Process != nil {
				cmd.Process.Signal(s)
			}
		}
	}
	w.px.Arm(0, false)
	moment := time.Duration(0)
	at2 := ""
	switch kind {
	case "fail":
		w.px.ArmFail(at)
	case "kill", "term":
		s := syscall.SIGKILL
		if kind == "term" {
			s = []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)]
		}
		if rng.Intn(4) == 0 {
			moment = time.Duration(rng.Int63n(int64(took) * 11 / 10))
			time.AfterFunc(moment, sig(s))
			at2 = fmt.Sprint("after ", moment)
		} else {
			w.px.ArmCall(at, after, kind == "kill", sig(s))
		}
	}
	start := time.Now()
	mu.Lock()
	err := cmd.Start()
	mu.Unlock()
	lib.Must(err)
	hung := time.AfterFunc(hang, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	d := time.Since(start)
	r.Exit = "ok"
	if !hung.Stop() {
		r.Exit = "hang"
	} else if e, ok := err.(*exec.ExitError); ok {
		switch {
		case e.Sys().(syscall.WaitStatus).Signaled():
			r.Exit = "dead"
		case e.ExitCode() == 1:
			r.Exit = "err"
		default:
			r.Exit = fmt.Sprint("code ", e.ExitCode())
		}
	} else if err != nil {
		lib.Must(err)
	}
	nn, c := w.px.Disarm()
	if moment == 0 && c != "" {
		at2 = fmt.Sprintf("at statement %d (%.60q, after %v)", at, c, after)
	}
	if kind != "none" && at2 == "" {
		kind = "none" // it ended before
	}
	if moment != 0 && (r.Exit == "ok" || (kind == "kill" && r.Exit == "err")) {
		kind = "none" // likewise
	}
	if kind == "none" && r.Exit == "ok" {
		w.counts[strat], w.took[strat] = nn, d
	}
	r.Strat, r.B, r.Kind, r.At = strat, b, kind, at2
	if t := stderr.String(); len(t) > 600 {
		r.Stderr = t[len(t)-600:]
	} else {
		r.Stderr = t
	}
	return r, nn
}

func commandDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("command", flag.ExitOnError)
	exe := fs.String("exe", "", "")
	port := fs.Int("port", 0, "")
	runsF := fs.String("runs", "", "")
	filesJ := fs.String("files", "", "")
	nUnits := fs.Int("units", 1, "")
	budget := fs.Duration("budget", 30*time.Second, "")
	lib.Must(fs.Parse(args))
	var files [][2]int
	lib.Must(json.Unmarshal([]byte(*filesJ), &files))
	quiet()
	end := time.Now().Add(*budget)
	var mu sync.Mutex
	var all []cmdRun
	kinds := map[string]int{}
	var wg sync.WaitGroup
	for k := 0; k < 5; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &cmdWorld{dbWorld: newDBWorld(*port, fmt.Sprintf("verif_cmd%d", k), lib.Seed()*1000+int64(k)), files: files,
				counts: map[string]int{}, took: map[string]time.Duration{}}
			defer w.close()
			w.px = lib.NewProxy(fmt.Sprintf("127.0.0.1:%d", *port))
			rng := w.rng
			serial := int64(1)
			for round := 0; time.Now().Before(end) && res.NumViolations() < 4; round++ {
				w.cwd = filepath.Join(lib.Scratch(), fmt.Sprintf("cmd%d-%d", k, round))
				w.dir = filepath.Join(w.cwd, strings.ReplaceAll(cmdURL, "/", "_"))
				lib.Must(os.MkdirAll(filepath.Join(w.dir, "bundled"), 0o755))
				lib.Must(os.MkdirAll(filepath.Join(w.cwd, "tmp"), 0o777))
				lib.Must(os.Symlink(w.px.Socket(), filepath.Join(w.cwd, "mysqld.sock")))
				w.units = nil
				w.reset()
				_, err := w.raw.Exec("DELETE FROM ctlog_server_last_status")
				lib.Must(err)
				w.fill(*nUnits, &serial)
				pre, bad := w.observe()
				var hist []string
				lives := 2 + rng.Intn(5)
				for l := 0; l < lives+3 && bad == ""; l++ {
					strat, b, kind := "", rng.Intn(3), []string{"none", "fail", "kill", "kill", "term"}[rng.Intn(5)]
					switch rng.Intn(9) {
					case 0, 1, 2:
						strat = "onlyingest"
					case 3, 4:
						strat = "skipingest"
					case 5:
						strat = "recordctsize"
					case 6:
						strat = "onlysmtupdate"
					}
					if l >= lives { // in the end, everything is done
						strat, kind = []string{"", "skipingest", "recordctsize"}[l-lives], "none"
					}
					if strat == "onlysmtupdate" && len(pre.Dy) > len(pre.Cl) {
						strat = "skipingest"
					}
					if strat != "" && strat != "onlyingest" {
						b = 0
					}
					r, _ := w.live(*exe, strat, b, kind, 90*time.Second)
					hist = append(hist, fmt.Sprintf("%q batches of %d, %s %s: %s", strat, b, r.Kind, r.At, r.Exit))
					r.Pre, r.History = pre, append([]string{}, hist...)
					r.Post, bad = w.observe()
					res.Eval(1)
					if r.Exit != "ok" && r.Exit != "err" && r.Exit != "dead" {
						res.Violate("exit", fmt.Sprintf("the command ends with %s (%v): %s", r.Exit, hist, r.Stderr), r)
						return
					}
					mu.Lock()
					all = append(all, r)
					kinds[r.Strat+" "+r.Kind+": "+r.Exit]++
					mu.Unlock()
					pre = r.Post
				}
				if bad != "" {
					res.Violate("state", fmt.Sprintf("%s (after %v)", bad, hist), hist)
					return
				}
				if len(pre.Tr) != len(w.units) || len(pre.Done) != len(files) {
					res.Violate("incomplete", fmt.Sprintf("after runs that all succeeded, %d of %d domains are in the map, and %d of %d files are done (%v)",
						len(pre.Tr), len(w.units), len(pre.Done), len(files), hist), hist)
					return
				}
				res.Trace(1)
				if round == 0 {
					res.Sample(map[string]any{"runs": hist})
				}
				lib.Must(os.RemoveAll(w.cwd))
			}
		}(k)
	}
	wg.Wait()
	f, err := os.Create(*runsF)
	lib.Must(err)
	for _, r := range all {
		b, _ := json.Marshal(r)
		f.Write(append(b, '\n'))
	}
	lib.Must(f.Close())
	var ks []string
	for k, n := range kinds {
		ks = append(ks, fmt.Sprintf("%s %d", k, n))
	}
	sort.Strings(ks)
	res.Note("runs", strings.Join(ks, "; "))
}

