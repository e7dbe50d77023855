package main

// Runs the batch loop of the ingest command in an environment that spec/Ingest.tla describes.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"testing"
	"time"

	"fpkiverif/lib"

	"github.com/netsec-ethz/fpki/cmd/ingest/journal"
	"github.com/netsec-ethz/fpki/pkg/statistics"
)

type vState struct {
	Cov     []int
	Fl      [2]bool
	Size    int64
	Present []int
	Run     json.RawMessage
}
type vAct struct {
	Op, What, O, S, Res string
	X                   []int
	B, F                int
	C                   bool
}
type vDisk struct {
	Jobs []struct {
		Coalesced, UpdatedSMT bool
		RecordedCTLogSize     int64
		CompletedIndices      map[string][]string
	}
}

func TestVerifIngest(t *testing.T) {
	var a struct {
		Edges, Files string
		Budget       string
	}
	lib.Must(json.Unmarshal([]byte(os.Getenv("VERIF_ARGS")), &a))
	budget, err := time.ParseDuration(a.Budget)
	lib.Must(err)
	var files [][2]int
	lib.Must(json.Unmarshal([]byte(a.Files), &files))
	res := lib.NewResult()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	lib.Must(err)
	os.Stdout = null

	g := lib.LoadGraph(a.Edges)
	states := make([]vState, len(g.States))
	for i, s := range g.States {
		lib.Must(json.Unmarshal(s, &states[i]))
	}
	acts := make([]vAct, len(g.Edges))
	for i, e := range g.Edges {
		lib.Must(json.Unmarshal(e.Act, &acts[i]))
	}
	rng := rand.New(rand.NewSource(lib.Seed()))
	end := time.Now().Add(budget)
	seen := make([]int, len(g.Edges))
	for time.Now().Before(end) && res.NumViolations() < 5 {
		verifHistory(g, states, acts, files, seen, rng, res)
	}
	for _, c := range []RunConfig{{Directory: "/x", Strategy: "nonsense"}, {Strategy: ""}, {Strategy: "onlyingest"}, {Strategy: "recordctsize"}} {
		_, crash := verifRun(context.Background(), c, RunDependencies{NewJournal: func(RunConfig, journal.JobConfiguration) (*journal.Journal, error) {
			res.Violate("invalid", fmt.Sprintf("a run with the invalid configuration %+v is begun", c), nil)
			return nil, errors.New("no")
		}}, func(k, f string, x ...any) { res.Violate(k, fmt.Sprintf(f, x...), nil) })
		_ = crash
	}
	n := 0
	for _, c := range seen {
		if c > 0 {
			n++
		}
	}
	res.Note("ingest", fmt.Sprintf("%d of %d transitions taken", n, len(seen)))
	lib.Must(res.Write(os.Getenv("VERIF_OUT")))
}

type vCrash struct{}

func verifHistory(g *lib.Graph, states []vState, acts []vAct, files [][2]int, seen []int, rng *rand.Rand, res *lib.Result) {
	root, err := os.MkdirTemp(lib.Scratch(), "ingest")
	lib.Must(err)
	defer os.RemoveAll(root)
	const key = "https:__log.example.com_2025"
	dir := filepath.Join(root, key)
	file := filepath.Join(root, "journal.json")
	name := func(i int) string { return fmt.Sprintf("%d-%d.gz", files[i-1][0], files[i-1][1]) }
	touch := func(i int) {
		d := filepath.Join(dir, []string{"", "sub", "zub"}[i%3], "bundled")
		lib.Must(os.MkdirAll(d, 0o755))
		lib.Must(os.WriteFile(filepath.Join(d, name(i)), nil, 0o644))
	}
	lib.Must(os.MkdirAll(dir, 0o755))
	cur := g.Init[0]
	for _, i := range states[cur].Present {
		touch(i)
	}
	var history []vAct
	failed := false
	bad := func(key, f string, x ...any) {
		if !failed {
			failed = true
			res.Violate(key, fmt.Sprintf(f, x...)+fmt.Sprintf(" (%d steps)", len(history)), history)
		}
	}
	// pick takes a transition of the specification that matches
	pick := func(match func(vAct) bool, before func()) *vAct {
		for {
			var c []int
			least := 1 << 60
			smooth := rng.Intn(4) != 0
			for _, e := range g.Out[cur] {
				if match(acts[e]) && !(smooth && (acts[e].O == "crash" || acts[e].O == "fail")) {
					if seen[e] < least {
						least, c = seen[e], nil
					}
					if seen[e] == least || rng.Intn(3) == 0 {
						c = append(c, e)
					}
				}
			}
			if len(c) == 0 {
				// steps of the program that nobody sees
				k := -1
				for _, e := range g.Out[cur] {
					if acts[e].Op == "Commit" {
						k = e
					}
				}
				if k < 0 {
					return nil
				}
				seen[k]++
				history = append(history, acts[k])
				cur = g.Edges[k].To
				continue
			}
			if before != nil {
				before()
			}
			e := c[rng.Intn(len(c))]
			seen[e]++
			history = append(history, acts[e])
			cur = g.Edges[e].To
			res.Eval(1)
			return &acts[e]
		}
	}
	allowed := func() string {
		s := ""
		for _, e := range g.Out[cur] {
			s += fmt.Sprintf("%s%s%v%s ", acts[e].Op, acts[e].What, acts[e].X, acts[e].Res)
		}
		return s
	}
	jobs := 0
	disk := func(when string) {
		b, err := os.ReadFile(file)
		if errors.Is(err, os.ErrNotExist) && jobs == 0 {
			return
		}
		var d vDisk
		if err == nil {
			err = json.Unmarshal(b, &d)
		}
		if err != nil || len(d.Jobs) == 0 {
			bad("journal", "%s the journal cannot be read: %v", when, err)
			return
		}
		last := d.Jobs[len(d.Jobs)-1]
		cov := []int{}
		for k, l := range last.CompletedIndices {
			if k != key {
				bad("journal", "%s the journal has ranges of %q", when, k)
			}
			for _, s := range l {
				var lo, hi int
				fmt.Sscanf(s, "%d-%d", &lo, &hi)
				for n := lo; n <= hi; n++ {
					cov = append(cov, n)
				}
			}
		}
		slices.Sort(cov)
		st := states[cur]
		slices.Sort(st.Cov)
		if !slices.Equal(cov, st.Cov) {
			bad("recorded", "%s the journal records %v as completed, that is %v", when, cov, st.Cov)
		} else if last.Coalesced != st.Fl[0] || last.UpdatedSMT != st.Fl[1] {
			bad("flags", "%s the journal records coalesced %v, updated %v; that is %v", when, last.Coalesced, last.UpdatedSMT, st.Fl)
		} else if last.RecordedCTLogSize != st.Size {
			bad("size", "%s the journal has the log size %d, recorded was %d", when, last.RecordedCTLogSize, st.Size)
		}
	}
	var cancel context.CancelFunc
	var crashed []byte
	errFailed := errors.New("injected failure")
	outcome := func(a *vAct) error {
		switch a.O {
		case "fail":
			return errFailed
		case "cancel":
			cancel()
		case "crash":
			crashed, _ = os.ReadFile(file)
			panic(vCrash{})
		}
		return nil
	}
	call := func(what string, x ...int) error {
		if failed {
			return errFailed
		}
		where := func(a vAct) bool { return a.Op == "Call" && a.What == what && slices.Equal(a.X, x) }
		a := pick(where, func() { disk("at " + what) })
		if a == nil {
			bad("order", "the run does %s%v, possible here: %s", what, x, allowed())
			return errFailed
		}
		return outcome(a)
	}
	for step := 0; step < 12 && !failed; step++ {
		a := pick(func(a vAct) bool { return a.Op == "Start" || a.Op == "Appear" }, nil)
		if a == nil {
			lib.Fatal("no step possible from %s", g.States[cur])
		}
		if a.Op == "Appear" {
			touch(a.F)
			continue
		}
		var ctx context.Context
		ctx, cancel = context.WithCancel(context.Background())
		if a.C {
			cancel()
		}
		estimated := 0
		var estimate *vAct
		deps := RunDependencies{
			NewJournal: func(cfg RunConfig, jc journal.JobConfiguration) (*journal.Journal, error) {
				if err := call("NewJournal"); err != nil {
					return nil, err
				}
				jobs++
				return journal.NewJournal(cfg.JournalFile, jc, cfg.Directory)
			},
			NewStatistics: func() *statistics.Stats { return statistics.NewStatistics(time.Hour, func(*statistics.Stats) {}) },
			EstimateCertCount: func(string) (uint, error) {
				estimated++
				if estimate == nil {
					if e := call("Estimate"); e == nil {
						estimate = &history[len(history)-1]
					} else {
						return 0, e
					}
				}
				return uint(rng.Intn(3)), nil
			},
			BeforeBatch: func(n, of int) error { return call("BeforeBatch", n, of) },
			RunBatch: func(_ *statistics.Stats, l []string) error {
				var x []int
				for _, f := range l {
					for i := range files {
						if filepath.Base(f) == name(i+1) {
							x = append(x, i+1)
						}
					}
				}
				return call("RunBatch", x...)
			},
			Coalesce:  func() error { return call("Coalesce") },
			UpdateSMT: func() error { return call("UpdateSMT") },
			RecordCTSize: func(_ context.Context, u string, n int64) error {
				if u != "https://log.example.com/2025" {
					bad("url", "the size is recorded for %q", u)
				}
				return call("RecordCTSize", int(n))
			},
		}
		cfg := RunConfig{Directory: dir, Strategy: a.S, JournalFile: file, FileBatch: a.B}
		crashed = nil
		err, wasCrash := verifRun(ctx, cfg, deps, bad)
		cancel()
		if failed {
			return
		}
		if wasCrash {
			if crashed != nil {
				lib.Must(os.WriteFile(file, crashed, 0o644))
			} else {
				os.Remove(file)
				jobs = 0
			}
			disk("after a crash")
			continue
		}
		want := "ok"
		if err != nil {
			want = "error"
		}
		if pick(func(a vAct) bool { return a.Op == "Return" && a.Res == want }, nil) == nil {
			// or the batch under way was given up
			if pick(func(a vAct) bool { return a.Op == "GiveUp" }, nil) == nil || pick(func(a vAct) bool { return a.Op == "Return" && a.Res == want }, nil) == nil {
				bad("end", "the run ends with %v, possible here: %s", err, allowed())
				return
			}
		}
		if err != nil && len(history) > 1 {
			if p := history[len(history)-2]; p.Op == "Call" && p.O == "fail" && !errors.Is(err, errFailed) {
				bad("error", "a phase failed, the run ends with another error: %v", err)
			}
		}
		disk("after a run")
	}
	res.Trace(1)
}


func verifRun(ctx context.Context, cfg RunConfig, deps RunDependencies, bad func(string, string, ...any)) (err error, crash bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vCrash); ok {
				crash = true
				return
			}
			bad("panic", "the run panics: %v", r)
		}
	}()
	return runIngest(ctx, cfg, deps), false
}
