package main

// Real pipelines with WithStallStages, whose observed events are checked against spec/StallRuns.tla.

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"fpkiverif/lib"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
)

func init() { drivers["stall"] = stallDriver }

type stallEvent struct {
	Kind  string
	Stage string
}

type stallRun struct {
	mu      sync.Mutex
	ev      []stallEvent
	bad     string
	inside  map[string]bool
	acting  int
	evals   int
	acts    int
	rng     *rand.Rand
	left    int
	got     map[int]int
	sent    map[int]int
	slow    int
	failing int
}

func (w *stallRun) see(kind, stage string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev = append(w.ev, stallEvent{kind, stage})
	note := func(f string, a ...any) {
		if w.bad == "" {
			w.bad = fmt.Sprintf(f, a...)
		}
	}
	switch kind {
	case "enter":
		if w.acting > 0 {
			note("stage %s started processing while the action was running", stage)
		}
		w.inside[stage] = true
	case "exit":
		delete(w.inside, stage)
	case "begin":
		w.acting++
		if len(w.inside) > 0 {
			note("the action started while %v were processing", w.inside)
		}
		if w.acting > 1 {
			note("two actions at the same time")
		}
	case "end":
		w.acting--
		w.acts++
	case "eval":
		w.evals++
		if w.evals > w.acts+1 {
			note("an evaluation held while the action of another one was to come")
		}
	}
}

func (w *stallRun) jitter() {
	w.mu.Lock()
	k, d := w.rng.Intn(6), w.rng.Intn(w.slow)
	w.mu.Unlock()
	switch {
	case k < 3:
		time.Sleep(time.Duration(d) * time.Microsecond)
	case k < 5:
		runtime.Gosched()
	}
}
func (w *stallRun) chance(n int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n) == 0
}

func stallDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("stall", flag.ExitOnError)
	out := fs.String("runs", "", "")
	budget := fs.Duration("budget", 20*time.Second, "")
	fs.Parse(args)
	f, err := os.Create(*out)
	lib.Must(err)
	defer f.Close()
	var fm sync.Mutex
	recorded := 0
	max := lib.Pick(400, 3000)
	end := time.Now().Add(*budget)
	var seq atomic.Int64
	kinds := map[string]int{}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) && res.NumViolations() < 5 {
				id := seq.Add(1)
				seed := lib.Seed()*1000003 + id
				kind, ev, bad, n := stallOnce(seed)
				res.Eval(1)
				res.Trace(1)
				if bad != "" {
					res.Violate("stall-"+bad[:min(12, len(bad))], fmt.Sprintf("stalling stages (%s): %s", kind, bad), map[string]any{"seed": seed, "events": ev})
					continue
				}
				fm.Lock()
				kinds[kind]++
				if recorded < max && n > 0 && len(ev) < 150 {
					recorded++
					var l [][2]string
					for _, e := range ev {
						l = append(l, [2]string{e.Kind, e.Stage})
					}
					b, _ := json.Marshal(map[string]any{"id": id, "ev": l})
					f.Write(append(b, '\n'))
				}
				fm.Unlock()
			}
		}()
	}
	wg.Wait()
	res.Note("stall", kinds)
	res.Count("recorded", recorded)
}

// stallOnce builds a pipeline from the seed and runs it, twice; the events, what is wrong, and the number of actions.
func stallOnce(seed int64) (string, []stallEvent, string, int) {
	rng := rand.New(rand.NewSource(seed))
	k := 1 + rng.Intn(4)
	shape := rng.Intn(3)
	items := 1 + rng.Intn(8)
	var all []stallEvent
	var names []string
	w := &stallRun{rng: rng, slow: []int{2, 50, 300}[rng.Intn(3)], failing: -1}
	failing := rng.Intn(6) == 0
	var stages []pip.StageLike
	stalled := map[string]bool{}
	cur := w
	process := func(name string, x int, ok bool) error {
		w := cur
		if stalled[name] {
			w.see("enter", name)
			w.jitter()
			defer w.see("exit", name)
		}
		if ok && x == w.failing && name == names[len(names)-2] {
			return fmt.Errorf("planned failure")
		}
		return nil
	}
	src := pip.NewSource[int]("src",
		pip.WithMultiOutputChannels[pip.None, int](map[bool]int{true: 1, false: k}[shape == 1]),
		pip.WithSourceFunction[int](func() ([]int, []int, error) {
			w := cur
			e := process("src", w.left, false)
			if e != nil {
				return nil, nil, e
			}
			w.mu.Lock()
			defer w.mu.Unlock()
			if w.left == 0 {
				return nil, nil, pip.NoMoreData
			}
			w.left--
			w.sent[w.left]++
			if shape == 1 {
				return []int{w.left}, []int{0}, nil
			}
			return []int{w.left}, []int{w.left % k}, nil
		}))
	stages = append(stages, src)
	names = append(names, "src")
	var mids []*pip.Stage[int, int]
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("m%d", i)
		m := pip.NewStage[int, int](name,
			pip.WithProcessFunction(func(x int) ([]int, []int, error) {
				if e := process(name, x, true); e != nil {
					return nil, nil, e
				}
				return []int{x}, []int{0}, nil
			}),
			pip.WithOnNoMoreData[int, int](func() ([]int, []int, error) {
				return nil, nil, process(name, -5, false)
			}))
		mids = append(mids, m)
		stages = append(stages, m)
		names = append(names, name)
	}
	sink := pip.NewSink[int]("sink",
		pip.WithMultiInputChannels[int, pip.None](map[bool]int{true: 1, false: k}[shape == 1]),
		pip.WithSinkFunction[int](func(x int) error {
			w := cur
			e := process("sink", x, true)
			w.mu.Lock()
			w.got[x]++
			w.mu.Unlock()
			return e
		}),
		pip.WithOnNoMoreData[int, pip.None](func() ([]pip.None, []int, error) { return nil, nil, process("sink", -5, false) }))
	stages = append(stages, sink)
	names = append(names, "sink")
	pickSome := func() ([]pip.StageLike, []string) {
		var l []pip.StageLike
		var n []string
		for i, s := range stages {
			if rng.Intn(2) == 0 {
				l, n = append(l, s), append(n, names[i])
			}
		}
		if l == nil {
			i := rng.Intn(len(stages))
			l, n = append(l, stages[i]), append(n, names[i])
		}
		return l, n
	}
	toStall, sn := pickSome()
	evalAt, en := pickSome()
	for _, n := range sn {
		stalled[n] = true
	}
	odds := 1 + rng.Intn(4)
	if odds == 1 && rng.Intn(2) == 0 {
		odds = 2
	}
	kind := fmt.Sprintf("%d of %d stalled, %d evaluating, shape %d", len(sn), len(names), len(en), shape)
	p, err := pip.NewPipeline(func(p *pip.Pipeline) {
		switch shape {
		case 1:
			pip.LinkStagesDistribute(pip.SourceStage[int](p), mids...)
			pip.LinkStagesCrissCross(mids, []*pip.Stage[int, pip.None]{pip.SinkAsStage(p.Stages[k+1].(*pip.Sink[int]))})
		default:
			pip.LinkStagesFanOut(pip.SourceStage[int](p), mids...)
			for i := range mids {
				pip.LinkStagesAt(mids[i], 0, pip.SinkAsStage(p.Stages[k+1].(*pip.Sink[int])), i)
			}
		}
	}, pip.WithStages(stages...), pip.WithStallStages(toStall, func() {
		w := cur
		w.see("begin", "")
		w.jitter()
		w.jitter()
		w.see("end", "")
	}, func(s pip.StageLike) bool {
		w := cur
		if w.chance(odds) {
			w.see("eval", s.Base().Name)
			return true
		}
		return false
	}, evalAt))
	lib.Must(err)
	acts := 0
	for round := 0; round < 2; round++ {
		cur = &stallRun{rng: rng, slow: w.slow, failing: -1, left: items, got: map[int]int{}, sent: map[int]int{}, inside: map[string]bool{}}
		w := cur
		if failing && round == 0 {
			w.failing = rng.Intn(items)
		}
		done := make(chan error, 1)
		go func() {
			p.Resume(context.Background())
			done <- p.Wait(context.Background())
		}()
		var werr error
		select {
		case werr = <-done:
		case <-time.After(20 * time.Second):
			w.mu.Lock()
			defer w.mu.Unlock()
			return kind, w.ev, "the pipeline does not end", acts
		}
		// actions of the last evaluations may still come
		for t := 0; ; t++ {
			w.mu.Lock()
			over := w.evals == w.acts
			w.mu.Unlock()
			if over {
				break
			}
			if t > 20000 {
				return kind, w.ev, "the action of an evaluation that held does not come", acts
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(20 * time.Microsecond)
		w.mu.Lock()
		if w.acts > w.evals && w.bad == "" {
			w.bad = "more actions than evaluations that held"
		}
		if w.bad == "" && w.failing < 0 {
			if werr != nil {
				w.bad = "error without failure: " + werr.Error()
			}
			for x := 0; x < items; x++ {
				if w.sent[x] != 1 || w.got[x] != 1 {
					w.bad = fmt.Sprintf("item %d sent %d times, received %d times", x, w.sent[x], w.got[x])
				}
			}
		}
		if w.bad == "" && w.failing >= 0 && werr == nil && w.sent[w.failing] > 0 && k > 0 {
			// the failing item reaches the last middle stage only if it is routed there
			if shape != 1 && w.failing%k == k-1 {
				w.bad = "success although a stage failed"
			}
		}
		bad := w.bad
		acts += w.acts
		all = append(all, w.ev...)
		w.mu.Unlock()
		if bad != "" {
			return kind, all, bad, acts
		}
	}
	return kind, all, "", acts
}
