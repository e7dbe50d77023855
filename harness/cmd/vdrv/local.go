package main

// The fetcher of local bundle files: for each set of files, position and limit of spec/Local.tla what is available and
// what is delivered; its histories of added files and finished or abandoned fetches; malformed files.

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/csv"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"fpkiverif/lib"

	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/netsec-ethz/fpki/pkg/mapserver/logfetcher"
)

func init() { drivers["local"] = localDriver }

var localNow = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

// localRows makes the rows of bundle files. The certificates of different files differ, also for the same entry.
type localRows struct {
	valid, old *logContent
}

func newLocalRows() *localRows {
	r := &localRows{valid: newLogContent(), old: newLogContent()}
	c := makeCert(0x4142434445464748, "", []string{"b.com"}, time.Date(2029, 12, 31, 0, 0, 0, 0, time.UTC))
	r.old.tmpl = c.Raw
	r.old.serial = bytes.Index(c.Raw, []byte("ABCDEFGH"))
	if r.old.serial < 0 {
		lib.Fatal("no place for the serial number")
	}
	return r
}

const (
	rowGood = iota
	rowExpired
	rowOld // expired according to its certificate only
)

func (l *localRows) kind(id int64) int {
	switch {
	case id%5 == 2:
		return rowExpired
	case id%7 == 3:
		return rowOld
	}
	return rowGood
}

// chain: there is at least one certificate in it.
func (l *localRows) chain(id int64) [][]byte { return l.valid.chain(1 + id%3) }

func (l *localRows) row(id int64) []string {
	exp := fmt.Sprintf("%d.%06d", []int64{localNow.Unix() + 1000, localNow.Unix(), 3786912000, 253402300799}[id/3%4], id%1000000)
	c := l.valid.cert(id)
	switch l.kind(id) {
	case rowExpired:
		exp = fmt.Sprintf("%d.0", localNow.Unix()-1)
	case rowOld:
		c = l.old.cert(id)
	}
	var ch []string
	for _, x := range l.chain(id) {
		ch = append(ch, base64.StdEncoding.EncodeToString(x))
	}
	x := "x"
	if id%37 == 11 {
		x = strings.Repeat("many names, ", 9000)
	}
	return []string{fmt.Sprint(id), x, "y", base64.StdEncoding.EncodeToString(c), strings.Join(ch, ";"), "z", exp}
}

type localFile struct {
	from, to int64
	tag      int64 // makes its rows differ from those of other files
	gz       bool
	sub      string
}

func (f localFile) id(i int64) int64 { return f.tag<<20 | i }
func (f localFile) path(dir string) string {
	e := ".csv"
	if f.gz {
		e = ".gz"
	}
	return filepath.Join(dir, f.sub, fmt.Sprintf("%d-%d%s", f.from, f.to, e))
}

// write writes the file; spoil may change the rows, and what is written.
func (l *localRows) write(dir string, f localFile, rows func([][]string) [][]string, raw func([]byte) []byte) {
	var rs [][]string
	for i := f.from; i <= f.to; i++ {
		rs = append(rs, l.row(f.id(i)))
	}
	if rows != nil {
		rs = rows(rs)
	}
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	lib.Must(w.WriteAll(rs))
	out := b.Bytes()
	if f.gz {
		// Several compressed parts are one file as well.
		var z bytes.Buffer
		for k, parts := 0, 1+int(f.tag%3); k < parts; k++ {
			g := gzip.NewWriter(&z)
			_, err := g.Write(out[k*len(out)/parts : (k+1)*len(out)/parts])
			lib.Must(err)
			lib.Must(g.Close())
		}
		out = z.Bytes()
	}
	if raw != nil {
		out = raw(out)
	}
	p := f.path(dir)
	lib.Must(os.MkdirAll(filepath.Dir(p), 0o755))
	// atomically, as a fetch may be running
	lib.Must(os.WriteFile(p+".tmp", out, 0o644))
	lib.Must(os.Rename(p+".tmp", p))
}

// delivery collects what a fetch delivered.
type delivery struct {
	rows    map[int64]int
	expired int
	bad     string
}

func newDelivery() *delivery { return &delivery{rows: map[int64]int{}} }

func (d *delivery) take(l *localRows, certs []ctx509.Certificate, chains [][]*ctx509.Certificate, excluded int) {
	d.expired += excluded
	if len(certs) != len(chains) {
		d.bad = fmt.Sprintf("%d certificates but %d chains", len(certs), len(chains))
		return
	}
	for k := range certs {
		id := l.valid.index(&certs[k])
		if id < 0 || l.kind(id) != rowGood {
			d.bad = fmt.Sprintf("a certificate that is none of the rows that are still valid (%d)", id)
			return
		}
		d.rows[id]++
		ch := l.chain(id)
		ok := len(ch) == len(chains[k])
		for j := range ch {
			ok = ok && chains[k][j] != nil && bytes.Equal(chains[k][j].Raw, ch[j])
		}
		if !ok {
			d.bad = fmt.Sprintf("row %x with a chain that isn't its own", id)
		}
	}
}

// compare tells how d differs from the rows of the files; of an aborted fetch a part is enough.
func (d *delivery) compare(l *localRows, files []localFile, part bool) string {
	if d.bad != "" {
		return d.bad
	}
	want := map[int64]int{}
	exp := 0
	for _, f := range files {
		for i := f.from; i <= f.to; i++ {
			if l.kind(f.id(i)) == rowGood {
				want[f.id(i)]++
			} else {
				exp++
			}
		}
	}
	for id, n := range d.rows {
		if n > want[id] {
			return fmt.Sprintf("entry %d of file %d is delivered %d times instead of %d", id&0xfffff, id>>20, n, want[id])
		}
	}
	if d.expired > exp {
		return fmt.Sprintf("%d expired ones are counted, there are %d", d.expired, exp)
	}
	if part {
		return ""
	}
	for id, n := range want {
		if d.rows[id] != n {
			return fmt.Sprintf("entry %d of file %d is delivered %d times instead of %d", id&0xfffff, id>>20, d.rows[id], n)
		}
	}
	if d.expired != exp {
		return fmt.Sprintf("%d expired ones are counted, there are %d", d.expired, exp)
	}
	return ""
}

// drain takes batches until the end, an error, or (if not negative) n of them.
func drainLocal(f logfetcher.Fetcher, l *localRows, d *delivery, n int) (err error, stuck bool) {
	ctx, cancel := context.WithTimeout(bg, 30*time.Second)
	defer cancel()
	for n != 0 && f.NextBatch(ctx) {
		certs, chains, ex, err := f.ReturnNextBatch()
		if err != nil {
			return err, ctx.Err() != nil
		}
		d.take(l, certs, chains, ex)
		n--
	}
	return nil, ctx.Err() != nil
}

func smallBatches(f *logfetcher.LocalLogFetcher, n int64) {
	v := reflect.ValueOf(f).Elem().FieldByName("processBatchSize")
	if v.IsValid() && v.Kind() == reflect.Int64 {
		*(*int64)(unsafe.Pointer(v.UnsafeAddr())) = n
	}
}

type localCase struct {
	Files [][2]int64
	Want  [][]struct {
		Pos, Lim int64
		Chain    [][2]int64
	}
}

func localDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("local", flag.ExitOnError)
	sets := fs.String("sets", "", "")
	graph := fs.String("graph", "", "")
	budget := fs.Duration("budget", time.Minute, "")
	large := fs.Bool("large", false, "")
	lib.Must(fs.Parse(args))
	defer quiet()()
	rng := rand.New(rand.NewSource(lib.Seed()))
	l := newLocalRows()
	if *sets != "" {
		localSets(res, l, rng, *sets, time.Now().Add(*budget))
	}
	if *graph != "" {
		localWalks(res, l, rng, *graph, time.Now().Add(*budget))
	}
	localBroken(res, l, rng)
	if *large {
		localLarge(res, l, rng)
	}
}

var localDirs int
var localDirsMu sync.Mutex

func localDir() string {
	localDirsMu.Lock()
	localDirs++
	d := filepath.Join(lib.Scratch(), fmt.Sprintf("bundles%d", localDirs))
	localDirsMu.Unlock()
	lib.Must(os.MkdirAll(d, 0o755))
	return d
}

func localSets(res *lib.Result, l *localRows, rng *rand.Rand, path string, deadline time.Time) {
	var cases []localCase
	lib.ReadLines(path, func(b []byte) {
		var c localCase
		lib.Must(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	idx := make([][]int, len(cases))
	for i := range idx {
		idx[i] = []int{i}
	}
	var mu sync.Mutex
	ran := 0
	parallel(idx, rng, func(id []int, rng *rand.Rand) {
		if time.Now().After(deadline) || res.NumViolations() > 10 {
			return
		}
		c := cases[id[0]]
		dir := localDir()
		defer os.RemoveAll(dir)
		files := map[[2]int64]localFile{}
		for k, r := range c.Files {
			f := localFile{r[0], r[1], int64(k + 1), rng.Intn(2) == 0, []string{"", "sub", "a/b"}[rng.Intn(3)]}
			files[r] = f
			l.write(dir, f, nil, nil)
		}
		for _, n := range []string{"readme.txt", "0.csv", "0-1-2.gz", "0-1.csv.bak", "notes.gz"} {
			if rng.Intn(3) == 0 {
				lib.Must(os.WriteFile(filepath.Join(dir, n), []byte("17\n"), 0o644))
			}
		}
		full := rng.Intn(len(c.Want))
		for k, w := range c.Want {
			for m, x := range w {
				f, err := logfetcher.NewLocalLogFetcher("https://log", dir, uint64(x.Lim))
				lib.Must(err)
				if rng.Intn(2) == 0 {
					smallBatches(f, 1+rng.Int63n(4))
				}
				what := fmt.Sprintf("files %v, position %d, limit %d", c.Files, x.Pos, x.Lim)
				if err := f.Initialize(localNow); err != nil {
					res.Violate("sets", what+": "+err.Error(), x)
					return
				}
				target := x.Pos
				var chain []localFile
				for _, r := range x.Chain {
					target = r[1] + 1
					chain = append(chain, files[r])
				}
				s, err := f.GetCurrentState(bg, logfetcher.State{Size: uint64(x.Pos), STH: []byte("sth")})
				res.Eval(1)
				if err != nil || int64(s.Size) != target {
					res.Violate("sets", fmt.Sprintf("%s: available up to %d (error %v) instead of %d", what, s.Size, err, target), x)
					return
				}
				if (k != full && m != 0) || target == x.Pos {
					f.StopFetching()
					continue
				}
				f.StartFetching(x.Pos, target-1)
				d := newDelivery()
				err, stuck := drainLocal(f, l, d, -1)
				if stuck {
					res.Violate("stuck", what+": the fetch doesn't end", x)
					return
				}
				if err != nil {
					res.Violate("sets", fmt.Sprintf("%s: %v", what, err), x)
				} else if diff := d.compare(l, chain, false); diff != "" {
					res.Violate("sets", what+": "+diff, x)
				}
				f.StopFetching()
				res.Trace(1)
			}
		}
		mu.Lock()
		ran++
		mu.Unlock()
	})
	res.Note("sets", len(cases))
	res.Note("sets_run", ran)
}

func localWalks(res *lib.Result, l *localRows, rng *rand.Rand, path string, deadline time.Time) {
	g := lib.LoadGraph(path)
	walks := g.CoverWalks(rng, 30)
	rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	var mu sync.Mutex
	ran := 0
	const scale = 12 // rows per entry of the specification
	parallel(walks, rng, func(walk []int, rng *rand.Rand) {
		if time.Now().After(deadline) || res.NumViolations() > 10 {
			return
		}
		dir := localDir()
		defer os.RemoveAll(dir)
		files := map[[2]int64]localFile{}
		add := func(r [2]int64) {
			f := localFile{r[0] * scale, (r[1]+1)*scale - 1, int64(len(files) + 1), rng.Intn(2) == 0, []string{"", "sub"}[rng.Intn(2)]}
			files[r] = f
			l.write(dir, f, nil, nil)
		}
		var state []json.RawMessage
		var disk [][2]int64
		lib.Must(json.Unmarshal(g.States[g.Init[0]], &state))
		lib.Must(json.Unmarshal(state[0], &disk))
		for _, r := range disk {
			add(r)
		}
		f, err := logfetcher.NewLocalLogFetcher("https://log", dir, 1<<40)
		lib.Must(err)
		smallBatches(f, 3+rng.Int63n(20))
		setLim := reflect.ValueOf(f).Elem().FieldByName("maxIngestionSize")
		if !setLim.IsValid() {
			setLim = reflect.Value{}
		}
		d := newDelivery()
		var acts []string
		pos := int64(0)
		fail := func(key, what string) { res.Violate(key, what, acts) }
		var chain []localFile
		for _, e := range walk {
			var a struct {
				What  string
				File  [2]int64
				Chain [][2]int64
			}
			lib.Must(json.Unmarshal(g.Edges[e].Act, &a))
			acts = append(acts, fmt.Sprint(a.What, a.File))
			switch a.What {
			case "add":
				add(a.File)
			case "open":
				if err := f.Initialize(localNow); err != nil {
					fail("walk", "opening the folder: "+err.Error())
					return
				}
			case "fetch":
				chain = nil
				target := pos
				for _, r := range a.Chain {
					chain = append(chain, files[r])
					target = files[r].to + 1
				}
				if setLim.IsValid() && setLim.Kind() == reflect.Uint64 {
					*(*uint64)(unsafe.Pointer(setLim.UnsafeAddr())) = uint64(a.File[1] * scale)
					s, err := f.GetCurrentState(bg, logfetcher.State{Size: uint64(pos)})
					if err != nil || int64(s.Size) != target {
						fail("walk", fmt.Sprintf("available up to %d (error %v) instead of %d", s.Size, err, target))
						return
					}
				}
				d = newDelivery()
				f.StartFetching(pos, target-1)
			case "part":
				if err, stuck := drainLocal(f, l, d, 1+rng.Intn(3)); err != nil || stuck {
					fail("walk", fmt.Sprintf("taking a batch: %v, stuck: %v", err, stuck))
					return
				}
			case "stop":
				f.StopFetching()
				if rng.Intn(2) == 0 {
					if err, stuck := drainLocal(f, l, d, -1); stuck {
						fail("stuck", fmt.Sprintf("a stopped fetch doesn't end: %v", err))
						return
					}
				}
				if diff := d.compare(l, chain, true); diff != "" {
					fail("walk", "a fetch that is given up: "+diff)
					return
				}
			case "drain":
				if err, stuck := drainLocal(f, l, d, -1); err != nil || stuck {
					fail("walk", fmt.Sprintf("taking all batches: %v, stuck: %v", err, stuck))
					return
				}
				if diff := d.compare(l, chain, false); diff != "" {
					fail("walk", diff)
					return
				}
				for _, c := range chain {
					pos = c.to + 1
				}
			}
		}
		f.StopFetching()
		res.Trace(1)
		res.Eval(len(acts))
		mu.Lock()
		ran++
		mu.Unlock()
	})
	res.Note("walks", len(walks))
	res.Note("walks_run", ran)
}

// localBroken: whatever is wrong with a file surfaces as an error, and nothing wrong is delivered.
func localBroken(res *lib.Result, l *localRows, rng *rand.Rand) {
	type spoil struct {
		what string
		gz   int // 1: only compressed
		rows func([][]string, int) [][]string
		raw  func([]byte) []byte
	}
	col := func(c int, f func(string) string) func([][]string, int) [][]string {
		return func(r [][]string, k int) [][]string { r[k][c] = f(r[k][c]); return r }
	}
	to := func(s string) func(string) string { return func(string) string { return s } }
	last := 6
	spoils := []spoil{
		{"no time of expiry", 0, col(last, to("")), nil},
		{"a time of expiry that is no number", 0, col(last, to("soon.1")), nil},
		{"a certificate that is not base64", 0, col(3, to("***")), nil},
		{"a cut certificate", 0, col(3, func(s string) string { return s[:len(s)/8*4] }), nil},
		{"no certificate", 0, col(3, to("")), nil},
		{"a chain that is not base64", 0, col(4, func(s string) string { return s + ";*" }), nil},
		{"a chain with no certificate in it", 0, col(4, func(s string) string { return s + ";" + base64.StdEncoding.EncodeToString([]byte("cert")) }), nil},
		{"too few columns", 0, func(r [][]string, k int) [][]string { r[k] = []string{"1", "2", r[k][last]}; return r }, nil},
		{"one column", 0, func(r [][]string, k int) [][]string { r[k] = []string{r[k][last]}; return r }, nil},
		{"one column that is no time", 0, func(r [][]string, k int) [][]string { r[k] = []string{"x"}; return r }, nil},
		{"all rows wrong", 0, func(r [][]string, k int) [][]string {
			for i := range r {
				r[i] = []string{"a", "b"}
			}
			return r
		}, nil},
		{"a stray quote", -1, nil, func(b []byte) []byte { return append(b, []byte("1,2,3\"4,5\n")...) }},
		{"a cut archive", 1, nil, func(b []byte) []byte { return b[:len(b)*2/3] }},
		{"an archive with a changed byte", 1, nil, func(b []byte) []byte {
			b = bytes.Clone(b)
			b[len(b)-6] ^= 1
			return b
		}},
		{"an archive without its checksum", 1, nil, func(b []byte) []byte { return b[:len(b)-8] }},
		{"no archive", 1, nil, func(b []byte) []byte { return []byte("nonsense") }},
		{"an empty archive", 1, nil, func(b []byte) []byte { return nil }},
	}
	for _, s := range spoils {
		for rep := 0; rep < lib.Pick(3, 12); rep++ {
			dir := localDir()
			files := []localFile{{0, 39, 1, rng.Intn(2) == 0, ""}, {40, 69, 2, rng.Intn(2) == 0, ""}, {70, 70 + int64(rng.Intn(30)), 3, rng.Intn(2) == 0, "s"}}
			at := rng.Intn(3)
			if s.gz != 0 {
				files[at].gz = s.gz > 0
			}
			for k, f := range files {
				if k != at {
					l.write(dir, f, nil, nil)
					continue
				}
				row := -1
				for i := 0; i <= int(f.to-f.from); i++ { // a row that is looked at
					if l.kind(f.id(f.from+int64(i))) == rowGood && (row < 0 || rng.Intn(4) == 0) {
						row = i
					}
				}
				rows := s.rows
				if row < 0 {
					rows = nil
				}
				l.write(dir, f, func(r [][]string) [][]string {
					if rows == nil {
						return r
					}
					return rows(r, row)
				}, s.raw)
			}
			f, err := logfetcher.NewLocalLogFetcher("https://log", dir, 1<<40)
			lib.Must(err)
			smallBatches(f, 1+rng.Int63n(50))
			lib.Doing("a file with " + s.what)
			if err = f.Initialize(localNow); err == nil {
				var st logfetcher.State
				st, err = f.GetCurrentState(bg, logfetcher.State{})
				if err == nil {
					f.StartFetching(0, int64(st.Size)-1)
					d := newDelivery()
					var stuck bool
					err, stuck = drainLocal(f, l, d, -1)
					if stuck {
						res.Violate("stuck", "a file with "+s.what+": the fetch doesn't end", nil)
						return
					}
					if diff := d.compare(l, files, true); diff != "" {
						res.Violate("broken", "a file with "+s.what+": "+diff, nil)
					}
				}
			}
			res.Eval(1)
			if err == nil {
				res.Violate("broken", "a file with "+s.what+" is taken without an error", nil)
			}
			f.StopFetching()
			lib.Must(os.RemoveAll(dir))
		}
	}
	// the folder itself
	for _, names := range [][]string{{"0-9.gz", "0-5.csv"}, {"0-9.gz", "s/0-9.gz"}, {"0-9.csv", "a-b.csv"}, {"0-9.csv", "10-x.gz"}, {"0-9.csv", "30-20.csv"}, {"5-4.gz"}, {"0-99999999999999999999999.csv"}} {
		dir := localDir()
		for _, n := range names {
			p := filepath.Join(dir, n)
			lib.Must(os.MkdirAll(filepath.Dir(p), 0o755))
			lib.Must(os.WriteFile(p, nil, 0o644))
		}
		f, err := logfetcher.NewLocalLogFetcher("https://log", dir, 1<<40)
		lib.Must(err)
		lib.Doing(fmt.Sprint("a folder with ", names))
		res.Eval(1)
		if err := f.Initialize(localNow); err == nil {
			res.Violate("folder", fmt.Sprintf("a folder with %v is taken without an error", names), names)
		}
		f.StopFetching()
		lib.Must(os.RemoveAll(dir))
	}
	f, err := logfetcher.NewLocalLogFetcher("https://log", filepath.Join(lib.Scratch(), "missing"), 1<<40)
	lib.Must(err)
	lib.Doing("a missing folder")
	if err := f.Initialize(localNow); err == nil {
		s, err := f.GetCurrentState(bg, logfetcher.State{Size: 3})
		if err == nil && s.Size != 3 {
			res.Violate("folder", fmt.Sprintf("a missing folder has entries up to %d", s.Size), nil)
		}
	}
	// a file that vanishes
	for _, k := range []int{0, 1} {
		dir := localDir()
		fs := []localFile{{0, 9, 1, false, ""}, {10, 19, 2, true, ""}}
		for _, x := range fs {
			l.write(dir, x, nil, nil)
		}
		f, err := logfetcher.NewLocalLogFetcher("https://log", dir, 1<<40)
		lib.Must(err)
		lib.Must(f.Initialize(localNow))
		lib.Must(os.Remove(fs[k].path(dir)))
		lib.Doing("a file that vanishes")
		f.StartFetching(0, 19)
		d := newDelivery()
		err, stuck := drainLocal(f, l, d, -1)
		if diff := d.compare(l, fs, true); err == nil || stuck || diff != "" {
			res.Violate("broken", fmt.Sprintf("a file that vanishes: error %v, stuck %v %s", err, stuck, diff), nil)
		}
		lib.Must(os.RemoveAll(dir))
	}
}

// localLarge: files around the fetcher's own batch size.
func localLarge(res *lib.Result, l *localRows, rng *rand.Rand) {
	dir := localDir()
	defer os.RemoveAll(dir)
	fs := []localFile{{0, 16383, 1, false, ""}, {16384, 16384, 2, true, ""}, {16385, 16385 + 16384 + rng.Int63n(100), 3, true, "x"}}
	for _, x := range fs {
		l.write(dir, x, nil, nil)
	}
	for n := 1; n <= len(fs); n++ {
		f, err := logfetcher.NewLocalLogFetcher("https://log", dir, uint64(fs[n-1].to+1))
		lib.Must(err)
		lib.Must(f.Initialize(localNow))
		s, err := f.GetCurrentState(bg, logfetcher.State{})
		if err != nil || int64(s.Size) != fs[n-1].to+1 {
			res.Violate("large", fmt.Sprintf("available up to %d (error %v) instead of %d", s.Size, err, fs[n-1].to+1), nil)
			return
		}
		f.StartFetching(0, fs[n-1].to)
		d := newDelivery()
		err, stuck := drainLocal(f, l, d, -1)
		if diff := d.compare(l, fs[:n], false); err != nil || stuck || diff != "" {
			res.Violate("large", fmt.Sprintf("%d large files: error %v, stuck %v %s", n, err, stuck, diff), nil)
		}
		res.Trace(1)
	}
	lib.Must(os.RemoveAll(dir))
	lib.Must(os.MkdirAll(dir, 0o755))
	fs = nil
	for at := int64(0); len(fs) < 60; {
		end := at + rng.Int63n(9)
		fs = append(fs, localFile{at, end, int64(len(fs) + 1), rng.Intn(2) == 0, []string{"", "sub", "a/b"}[rng.Intn(3)]})
		at = end + 1
	}
	for _, x := range fs {
		l.write(dir, x, nil, nil)
	}
	for _, n := range []int{1, 2, 3, 4, 5, 8, 31, 60} {
		f, err := logfetcher.NewLocalLogFetcher("https://log", dir, uint64(fs[n-1].to+1))
		lib.Must(err)
		lib.Must(f.Initialize(localNow))
		s, err := f.GetCurrentState(bg, logfetcher.State{})
		if err != nil || int64(s.Size) != fs[n-1].to+1 {
			res.Violate("large", fmt.Sprintf("available up to %d (error %v) instead of %d", s.Size, err, fs[n-1].to+1), nil)
			return
		}
		f.StartFetching(0, fs[n-1].to)
		d := newDelivery()
		err, stuck := drainLocal(f, l, d, -1)
		if diff := d.compare(l, fs[:n], false); err != nil || stuck || diff != "" {
			res.Violate("large", fmt.Sprintf("%d contiguous files: error %v, stuck %v %s", n, err, stuck, diff), nil)
		}
		res.Trace(1)
	}
}
