package main

// Replays spec/Journal.tla on the real journal; and kills processes that write it.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
)

func init() {
	drivers["journal"] = journalDriver
	drivers["journalcrash"] = journalCrashDriver
	drivers["journalchild"] = journalChild
}

type jFile struct {
	D      string
	Lo, Hi uint
	Sub    string
	Gz     bool
}

// jScale interprets the numbers of the specification: each stands for k consecutive entries from off on.
type jScale struct{ k, off uint }

func (s jScale) file(f jFile) jFile {
	f.Lo, f.Hi = f.Lo*s.k+s.off, f.Hi*s.k+s.off+s.k-1
	return f
}
func (s jScale) lists(l map[string][][2]uint) map[string][][2]uint {
	out := map[string][][2]uint{}
	for d, q := range l {
		for _, r := range q {
			out[d] = append(out[d], [2]uint{r[0]*s.k + s.off, r[1]*s.k + s.off + s.k - 1})
		}
	}
	return out
}

func (f jFile) path(root string) string {
	ext, d := "csv", filepath.Join(root, f.D, f.Sub)
	if f.Gz {
		ext, d = "gz", filepath.Join(d, "bundled")
	}
	return filepath.Join(d, fmt.Sprintf("%d-%d.%s", f.Lo, f.Hi, ext))
}

type jState struct {
	Lists   map[string][][2]uint
	Flags   [2]bool
	Present []jFile
	Open    string
	Plain   bool
	Pending []jFile
}
type jAct struct {
	Op   string
	D    string
	P    bool
	Fs   []jFile
	C, U bool
	F    jFile
}

// what is on disk, parsed independently of the code
type jDisk struct {
	Jobs []struct {
		Coalesced, UpdatedSMT bool
		RecordedCTLogSize     int64
		CompletedIndices      map[string][]string
	}
}

func readDisk(file string) (jDisk, error) {
	var d jDisk
	b, err := os.ReadFile(file)
	if err != nil {
		return d, err
	}
	return d, json.Unmarshal(b, &d)
}

func listText(l map[string][][2]uint) string {
	var out []string
	for d, q := range l {
		if len(q) > 0 {
			var s []string
			for _, r := range q {
				s = append(s, fmt.Sprintf("%d-%d", r[0], r[1]))
			}
			out = append(out, d+":"+strings.Join(s, ","))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
func diskText(l map[string][]string) string {
	var out []string
	for d, q := range l {
		if len(q) > 0 {
			out = append(out, d+":"+strings.Join(q, ","))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func quiet() func() { // the journal prints while listing
	old := os.Stdout
	n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	lib.Must(err)
	os.Stdout = n
	return func() { os.Stdout = old; n.Close() }
}

func journalDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("journal", flag.ExitOnError)
	edges := fs.String("edges", "", "")
	budget := fs.Duration("budget", 20*time.Second, "")
	fs.Parse(args)
	defer quiet()()
	g := lib.LoadGraph(*edges)
	states := make([]jState, len(g.States))
	for i, s := range g.States {
		lib.Must(json.Unmarshal(s, &states[i]))
	}
	acts := make([]jAct, len(g.Edges))
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	rng := rand.New(rand.NewSource(lib.Seed()))
	end := time.Now().Add(*budget)
	walks := g.CoverWalks(rng, 60)
	rng.Shuffle(len(walks), func(i, j int) { walks[i], walks[j] = walks[j], walks[i] })
	all := len(walks)
	done := 0
	for n := 0; time.Now().Before(end) && res.NumViolations() < 5; n++ {
		var walk []int
		if n < len(walks) {
			walk = walks[n]
			done++
		} else {
			walk = g.RandomWalk(rng, 30, func(e int) float64 { return 1 })
		}
		journalWalk(g, states, acts, walk, rng, res)
	}
	res.Note("journal", fmt.Sprintf("%d of %d covering walks", done, all))
}

func journalWalk(g *lib.Graph, states []jState, acts []jAct, walk []int, rng *rand.Rand, res *lib.Result) {
	root, err := os.MkdirTemp(lib.Scratch(), "journal")
	lib.Must(err)
	defer os.RemoveAll(root)
	file := filepath.Join(root, "state", "journal.json")
	lib.Must(os.MkdirAll(filepath.Dir(file), 0o755))
	scale := jScale{1, 0}
	if rng.Intn(3) > 0 {
		scale = jScale{[]uint{1, 2, 7, 1000, 1 << 33}[rng.Intn(5)], []uint{0, 6, 95, 997, 1 << 40}[rng.Intn(5)]}
	}
	touch := func(f jFile) {
		f = scale.file(f)
		p := f.path(root)
		lib.Must(os.MkdirAll(filepath.Join(root, f.D, f.Sub, "bundled"), 0o755))
		lib.Must(os.WriteFile(p, nil, 0o644))
	}
	lib.Must(os.MkdirAll(filepath.Join(root, "A"), 0o755))
	lib.Must(os.MkdirAll(filepath.Join(root, "B"), 0o755))
	for _, f := range states[g.Init[0]].Present {
		touch(f)
	}
	var j *journal.Journal
	var history []any
	jobs := 0
	var before, leftNow string
	var left []string
	for _, e := range walk {
		a, t := acts[e], states[g.Edges[e].To]
		history = append(history, a)
		bad := func(key, f string, x ...any) bool {
			res.Violate(key, fmt.Sprintf(f, x...)+fmt.Sprintf(" (%d calls)", len(history)), history)
			return false
		}
		cfg := journal.JobConfiguration{IngestFiles: true, FileBatch: 2, IncludePlainCSVs: a.P}
		paths := func() []string {
			var l []string
			for _, f := range a.Fs {
				l = append(l, scale.file(f).path(root))
			}
			rng.Shuffle(len(l), func(i, k int) { l[i], l[k] = l[k], l[i] })
			return l
		}
		ok := true
		perr := guardErr(func() error {
			var err error
			switch a.Op {
			case "Open":
				dir := filepath.Join(root, a.D)
				if rng.Intn(3) == 0 {
					dir += "/"
				}
				j, err = journal.NewJournal(file, cfg, dir)
				jobs++
			case "Close":
				err = j.Close()
				if e := j.CommitProgress(nil, false, false); e == nil {
					ok = bad("closed", "a closed journal accepts progress")
				}
				j = nil
			case "Crash":
				j = nil
			case "Commit":
				if rng.Intn(6) == 0 { // the disk does not take it at first
					lib.Must(os.Rename(filepath.Dir(file), filepath.Join(root, "away")))
					e := j.CommitProgress(nil, t.Flags[0], t.Flags[1])
					lib.Must(os.Rename(filepath.Join(root, "away"), filepath.Dir(file)))
					if e == nil {
						ok = bad("unwritten", "a commit that could not be written reports success")
					}
					if b, e := os.ReadFile(file); e != nil || stripTimes(b) != before {
						ok = bad("disk-changed", "a commit that could not be written changed the journal on disk")
					}
				}
				err = j.CommitProgress(paths(), a.C, a.U)
			case "CommitBad":
				l := paths()
				for k := rng.Intn(4); k > 0; k-- { // with further good names
					l = append(l, fmt.Sprintf("%d-%d.gz", 1000*k, 1000*k+rng.Intn(3)))
				}
				at := rng.Intn(len(l) + 1)
				l = append(l[:at:at], append([]string{[]string{"x.gz", "", "3-1.gz", "1-2-3.gz", "-1-2.gz", "1_2.csv", "7.gz"}[rng.Intn(7)]}, l[at:]...)...)
				if e := j.CommitProgress(l, true, true); e == nil {
					ok = bad("accepted", "a commit with the malformed name among %v is accepted", l)
				}
				// whatever is written next must not contain any of it
				err = j.Write()
			case "Appear":
				touch(a.F)
			case "Vanish":
				lib.Must(os.Remove(scale.file(a.F).path(root)))
			}
			return err
		})
		if !ok {
			return
		}
		if perr != nil {
			bad("error", "%s fails: %v", a.Op, perr)
			return
		}
		res.Eval(1)
		if jobs == 0 {
			continue
		}
		d, err := readDisk(file)
		if err != nil {
			bad("unreadable", "after %s the journal cannot be read: %v", a.Op, err)
			return
		}
		if len(d.Jobs) != jobs {
			bad("jobs", "after %s the journal has %d jobs, %d were begun", a.Op, len(d.Jobs), jobs)
			return
		}
		last := d.Jobs[len(d.Jobs)-1]
		for i, job := range d.Jobs[:len(d.Jobs)-1] { // earlier jobs stay as they were left
			if i >= len(left) {
				left = append(left, leftNow)
			}
			if got := fmt.Sprint(diskText(job.CompletedIndices), job.Coalesced, job.UpdatedSMT, job.RecordedCTLogSize); got != left[i] {
				bad("earlier-job", "after %s the record of job %d became %q, it was left as %q", a.Op, i+1, got, left[i])
				return
			}
		}
		leftNow = fmt.Sprint(diskText(last.CompletedIndices), last.Coalesced, last.UpdatedSMT, last.RecordedCTLogSize)
		if got, want := diskText(last.CompletedIndices), listText(scale.lists(t.Lists)); got != want {
			bad("ranges", "after %s %v the journal records %q, the specification %q", a.Op, a.Fs, got, want)
			return
		}
		if last.Coalesced != t.Flags[0] || last.UpdatedSMT != t.Flags[1] {
			bad("flags", "after %s (%v, %v) the journal records coalesced %v updated %v", a.Op, a.C, a.U, last.Coalesced, last.UpdatedSMT)
			return
		}
		b, _ := os.ReadFile(file)
		before = stripTimes(b)
		if m, _ := filepath.Glob(filepath.Join(root, "state", "*")); len(m) != 1 {
			bad("left-over", "files are left beside the journal: %v", m)
			return
		}
		if j != nil && (a.Op == "Open" || rng.Intn(2) == 0) {
			var got []string
			if e := guardErr(func() error { var err error; got, err = j.PendingFiles(); return err }); e != nil {
				bad("pending-error", "pending files: %v", e)
				return
			}
			want := map[string]bool{}
			lo := map[string]uint{}
			for _, f := range t.Pending {
				want[scale.file(f).path(root)] = true
			}
			for _, f := range t.Present {
				lo[scale.file(f).path(root)] = scale.file(f).Lo
			}
			seen := map[string]bool{}
			var prev uint
			rel := func(s string) string { r, _ := filepath.Rel(root, s); return r }
			for i, p := range got {
				if seen[p] {
					bad("pending-twice", "%s is pending twice", rel(p))
					return
				}
				seen[p] = true
				if !want[p] {
					bad("pending-extra", "%s is to be processed although it is completed or not to be included", rel(p))
					return
				}
				if i > 0 && lo[p] < prev {
					bad("pending-order", "files are not in ascending order: %s after one that starts at %d", rel(p), prev)
					return
				}
				prev = lo[p]
			}
			for p := range want {
				if !seen[p] {
					bad("pending-missing", "%s is not to be processed although it is not completed", rel(p))
					return
				}
			}
		}
	}
	res.Trace(1)
}

// stripTimes removes what a rewriting may change without meaning
func stripTimes(b []byte) string {
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		if !strings.Contains(s, "\"EndTime\"") {
			l = append(l, s)
		}
	}
	return strings.Join(l, "\n")
}

// journalChild commits ranges one after the other, and tells about each on its output.
func journalChild(args []string, res *lib.Result) {
	j, err := journal.NewJournal(args[0], journal.JobConfiguration{IngestFiles: true}, args[1])
	lib.Must(err)
	fmt.Println("open")
	for i := 0; i < 100000; i++ {
		lib.Must(j.CommitProgress([]string{fmt.Sprintf("%d-%d.gz", 3*i, 3*i+1)}, i%2 == 0, i%3 == 0))
		fmt.Println("done", i)
	}
}

func journalCrashDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("journalcrash", flag.ExitOnError)
	runs := fs.Int("runs", 30, "")
	fs.Parse(args)
	rng := rand.New(rand.NewSource(lib.Seed() + 77))
	exe, err := os.Executable()
	lib.Must(err)
	for n := 0; n < *runs && res.NumViolations() < 4; n++ {
		root, err := os.MkdirTemp(lib.Scratch(), "jcrash")
		lib.Must(err)
		file := filepath.Join(root, "journal.json")
		told := -1
		for life := 0; life < 5; life++ {
			cmd := exec.Command(exe, "journalchild", file, filepath.Join(root, "A"), "-out", filepath.Join(root, "out.json"))
			cmd.Env = os.Environ()
			p, err := cmd.StdoutPipe()
			lib.Must(err)
			lib.Must(cmd.Start())
			stop := time.AfterFunc(time.Duration(2000+rng.Intn(30000))*time.Microsecond, func() { cmd.Process.Kill() })
			sc := bufio.NewScanner(p)
			opened, mine := false, -1
			// meanwhile the file is always complete
			quit := make(chan struct{})
			over := make(chan struct{})
			there := life > 0
			go func() {
				defer close(over)
				for {
					select {
					case <-quit:
						return
					default:
					}
					_, err := readDisk(file)
					if err == nil {
						there = true
					} else if there || !os.IsNotExist(err) {
						res.Violate("torn", "while it is being written the journal cannot be read: "+err.Error(), nil)
						return
					}
				}
			}()
			for sc.Scan() {
				var i int
				if sc.Text() == "open" {
					opened = true
				} else if k, _ := fmt.Sscanf(sc.Text(), "done %d", &i); k == 1 {
					mine = i
				}
			}
			cmd.Wait()
			stop.Stop()
			close(quit)
			<-over
			told = max(told, mine)
			d, err := readDisk(file)
			if err != nil {
				if !os.IsNotExist(err) || opened {
					res.Violate("crash-unreadable", fmt.Sprintf("after a crash the journal cannot be read: %v", err), nil)
				}
				break
			}
			if len(d.Jobs) == 0 {
				res.Violate("crash-empty", "after a crash the journal is empty", nil)
				break
			}
			got := len(d.Jobs[len(d.Jobs)-1].CompletedIndices["A"])
			// every life commits the same ranges from the start
			if got < told+1 || got > max(told, mine)+2 {
				res.Violate("crash-lost", fmt.Sprintf("%d commits returned, after the crash %d are recorded", told+1, got), nil)
			}
			told = max(told, got-1)
			res.Eval(1)
		}
		res.Trace(1)
		os.RemoveAll(root)
	}
}
