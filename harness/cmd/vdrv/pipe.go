package main

// Runs the scenarios of spec/Pipeline.tla on real pipelines built with pkg/pipeline.

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"fpkiverif/lib"

	pip "github.com/netsec-ethz/fpki/pkg/pipeline"
)

func init() { drivers["pipe"] = pipeDriver }

type pipeScen struct {
	Id             int
	N              int
	Name, Kind     string
	Mode           string
	Out, Inn       [][]int
	Snd, Rcv       [][]int
	Route          [][][]int
	Fail, Late     [][2]int
	Last           []int
	Ends           [][2]int
	Auto           int
	Aff            []int
	Due            [][]int
	fail, late, en map[[2]int]bool
	last           map[int]bool
}

func (c *pipeScen) index() {
	set := func(l [][2]int) map[[2]int]bool {
		m := map[[2]int]bool{}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	c.fail, c.late, c.en = set(c.Fail), set(c.Late), set(c.Ends)
	c.last = map[int]bool{}
	for _, s := range c.Last {
		c.last[s] = true
	}
}
func (c *pipeScen) shared(ch int) bool { return len(c.Snd[ch]) > 1 || len(c.Rcv[ch]) > 1 }
func (c *pipeScen) shape() string {
	return fmt.Sprint(c.Out, c.Inn, c.Snd, c.Rcv, c.Mode, c.Auto, c.Aff, c.Name)
}

// pipeItem is what travels: an item of the specification with what the sender knows about the sending.
type pipeItem struct {
	X, From, Call, Pos int
	To                 int // the output it is addressed to
}

type pipeErr struct {
	stage int
}

func (e pipeErr) Error() string { return fmt.Sprintf("failure-at-stage-%d.", e.stage) }

type pipeWorld struct {
	mu      sync.Mutex
	rng     *rand.Rand
	c       *pipeScen
	p       *pip.Pipeline
	got     [][]pipeItem
	hit     map[int]bool
	next    int
	ended   []bool
	calls   []int
	over    bool   // Wait has returned
	bad     string // something wrong noticed while running
	badKey  string
	busy    []bool
	slow    int
	variant string // of the source
	feed    chan pipeItem
	slice   []pipeItem
	stream  map[int]bool // stages that may stream outputs
	queue   [][]pipeChunk
	keepO   [][]pipeItem // slices a stage reuses
	keepI   [][]int
	reuse   map[int]bool
}

type pipeChunk struct {
	items []pipeItem
	idx   []int
	err   error
}

func (w *pipeWorld) note(key, format string, args ...any) {
	w.mu.Lock()
	if w.bad == "" {
		w.bad, w.badKey = fmt.Sprintf(format, args...), key
	}
	w.mu.Unlock()
}

func (w *pipeWorld) jitter(s int) {
	w.mu.Lock()
	k, d := w.rng.Intn(8), w.rng.Intn(120)
	if s == w.slow {
		d *= 8
	}
	w.mu.Unlock()
	switch {
	case k < 3 || s == w.slow:
		time.Sleep(time.Duration(d) * time.Microsecond)
	case k < 6:
		runtime.Gosched()
	}
}

func (w *pipeWorld) pick(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

// outputs of stage s for item x, in chunks; own: an item the stage makes itself, after which it ends
func (w *pipeWorld) outputs(s, x int, own bool) ([]pipeItem, []int, error) {
	c := w.c
	key := [2]int{s, x}
	if c.fail[key] {
		w.mu.Lock()
		w.hit[s] = true
		w.mu.Unlock()
		if w.pick(2) == 0 || len(c.Out[s]) == 0 {
			return nil, nil, pipeErr{s}
		}
		// What comes together with an error is of no interest, as with any function of this language.
		return []pipeItem{{X: x, From: s, To: 0}}, []int{0}, pipeErr{s}
	}
	w.mu.Lock()
	w.calls[s]++
	call := w.calls[s]
	w.mu.Unlock()
	var items []pipeItem
	var idx []int
	for n, o := range c.Route[s][x-1] {
		items = append(items, pipeItem{X: x, From: s, Call: call, Pos: n, To: o})
		idx = append(idx, o)
	}
	var final error
	if c.en[key] || (own && w.pick(2) == 0) {
		final = pip.NoMoreData
	}
	if c.late[key] && len(items) > 0 {
		final = pipeErr{s}
	}
	_, late := final.(pipeErr)
	streaming := w.stream[s] && len(c.Out[s]) > 0 && w.pick(2) == 0 && (final == nil || late) || late
	if !streaming {
		if w.reuse[s] {
			// The slices given to the pipeline stay the property of the stage.
			w.keepO[s] = append(w.keepO[s][:0], items...)
			w.keepI[s] = append(w.keepI[s][:0], idx...)
			return w.keepO[s], w.keepI[s], final
		}
		return items, idx, final
	}
	// several chunks, then the end of the stream
	var q []pipeChunk
	for len(items) > 0 {
		k := w.pick(len(items) + 1)
		q = append(q, pipeChunk{items[:k], idx[:k], pip.StreamOutput})
		items, idx = items[k:], idx[k:]
		if len(q) > 20 {
			q = append(q, pipeChunk{items, idx, pip.StreamOutput})
			break
		}
	}
	end := pipeChunk{nil, nil, final}
	if !late && w.pick(2) == 0 {
		end.err = pip.NoMoreData // also ends the stream only
	}
	if !late && len(q) > 0 && w.pick(2) == 0 {
		// the last chunk can come with the end
		q[len(q)-1].err = end.err
		if len(q) == 1 && end.err != nil {
			q[0].err = nil // from the processing function itself it would end the stage
		}
	} else {
		q = append(q, end)
		if len(q) == 1 && !late {
			q = append([]pipeChunk{{nil, nil, pip.StreamOutput}}, q...)
		}
	}
	first := q[0]
	w.queue[s] = q[1:]
	return first.items, first.idx, first.err
}

func (w *pipeWorld) streamFunc(s int) func(*[]pipeItem, *[]int) error {
	return func(o *[]pipeItem, i *[]int) error {
		q := w.queue[s]
		if len(q) == 0 {
			w.note("stream", "the streaming function of stage %d was called without being asked for", s)
			return nil
		}
		w.queue[s] = q[1:]
		*o, *i = q[0].items, q[0].idx
		if _, late := q[0].err.(pipeErr); late {
			w.mu.Lock()
			w.hit[s] = true
			w.mu.Unlock()
		}
		w.jitter(s)
		return q[0].err
	}
}

func (w *pipeWorld) enter(s int, in pipeItem) {
	w.mu.Lock()
	if w.over {
		w.bad, w.badKey = fmt.Sprintf("stage %d processed item %d after waiting had returned", s, in.X), "late"
	}
	if w.busy[s] {
		w.bad, w.badKey = fmt.Sprintf("stage %d processes two items at a time", s), "overlap"
	}
	if w.hit[s] {
		w.bad, w.badKey = fmt.Sprintf("stage %d processed item %d after it had failed", s, in.X), "after-failure"
	}
	w.busy[s] = true
	w.got[s] = append(w.got[s], in)
	w.mu.Unlock()
}
func (w *pipeWorld) leave(s int) { w.mu.Lock(); w.busy[s] = false; w.mu.Unlock() }

func (w *pipeWorld) process(s int, in pipeItem) ([]pipeItem, []int, error) {
	w.enter(s, in)
	defer w.leave(s)
	w.jitter(s)
	if in.To >= 0 && !contains(w.c.Inn[s], w.c.Out[in.From][in.To]) {
		w.note("misrouted", "stage %d received an item that stage %d addressed to output %d", s, in.From, in.To)
	}
	return w.outputs(s, in.X, false)
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func (w *pipeWorld) endOfInput(s int) ([]pipeItem, []int, error) {
	w.mu.Lock()
	w.ended[s] = true
	w.mu.Unlock()
	if !w.c.last[s] {
		return nil, nil, nil
	}
	w.jitter(s)
	return w.outputs(s, w.c.N+1+s, true)
}

func pipeMode[IN, OUT any](mode string) interface {
	ApplyToStage(*pip.Stage[IN, OUT])
	ApplyToSource(*pip.Source[OUT])
	ApplyToSink(*pip.Sink[IN])
} {
	switch mode {
	case "conc":
		return pip.WithConcurrentOutputs[IN, OUT]()
	case "seq":
		return pip.WithSequentialOutputs[IN, OUT]()
	}
	return pip.WithCyclesAllowedSequentialOutputs[IN, OUT]()
}

func (w *pipeWorld) sourceItem() (int, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next++
	if w.next > w.c.N {
		w.ended[0] = true
		return 0, false
	}
	return w.next, true
}

// fromSource processes item x at the source
func (w *pipeWorld) fromSource(x int) ([]pipeItem, []int, error) {
	w.enter(0, pipeItem{X: x, From: -1})
	defer w.leave(0)
	w.jitter(0)
	items, idx, err := w.outputs(0, x, false)
	if w.c.Auto != 0 && x == w.c.N && err == nil && w.pick(2) == 0 {
		err = pip.NoMoreData // together with the last item
	}
	return items, idx, err
}

// newPipeWorld builds a pipeline for all scenarios of the shape of c.
func newPipeWorld(c *pipeScen, rng *rand.Rand) *pipeWorld {
	k := len(c.Out)
	w := &pipeWorld{rng: rng, c: c, stream: map[int]bool{}, reuse: map[int]bool{}}
	w.queue, w.keepO, w.keepI = make([][]pipeChunk, k), make([][]pipeItem, k), make([][]int, k)
	for s := 0; s < k; s++ {
		w.stream[s], w.reuse[s] = rng.Intn(3) == 0, rng.Intn(2) == 0
	}
	// which source fits
	single := true
	for _, r := range c.Route[0][:c.N] {
		single = single && len(r) == 1
	}
	w.variant = "function"
	switch v := rng.Intn(4); {
	case v == 0 && len(c.Late) == 0:
		w.variant = "channel"
	case v == 1 && single && c.Auto != 0 && len(c.Late) == 0:
		w.variant = "slice"
	}
	stages := make([]pip.StageLike, k)
	for s := 0; s < k; s++ {
		s := s
		name := fmt.Sprintf("s%d", s)
		switch {
		case s == 0:
			var src *pip.Source[pipeItem]
			mode := pipeMode[pip.None, pipeItem](c.Mode)
			multi := pip.WithMultiOutputChannels[pip.None, pipeItem](len(c.Out[s]))
			switch w.variant {
			case "channel":
				src = pip.NewSource(name, pip.WithSourceChannel(&w.feed, func(in pipeItem) ([]int, error) {
					_, idx, err := w.fromSource(in.X)
					return idx, err
				}), multi, mode)
				w.stream[0] = false
			case "slice":
				src = pip.NewSource(name, pip.WithSourceSlice(&w.slice, func(in pipeItem) (int, error) {
					_, idx, err := w.fromSource(in.X)
					if len(idx) == 0 {
						return 0, err
					}
					return idx[0], err
				}), multi, mode)
				w.stream[0] = false
			default:
				src = pip.NewSource(name, pip.WithSourceFunction(func() ([]pipeItem, []int, error) {
					x, ok := w.sourceItem()
					if !ok {
						return nil, nil, pip.NoMoreData
					}
					return w.fromSource(x)
				}), multi, mode)
				pip.WithOutputStreamingFunction[pip.None](w.streamFunc(0)).ApplyToSource(src)
				pip.WithOutputStreamingFunction[pip.None](w.streamFunc(0)).ApplyToStage(src.Stage)
			}
			stages[s] = src
		case len(c.Out[s]) == 0:
			stages[s] = pip.NewSink(name, pip.WithSinkFunction(func(in pipeItem) error {
				_, _, err := w.process(s, in)
				return err
			}), pip.WithMultiInputChannels[pipeItem, pip.None](len(c.Inn[s])),
				pip.WithOnNoMoreData[pipeItem](func() ([]pip.None, []int, error) {
					_, _, err := w.endOfInput(s)
					return nil, nil, err
				}))
		default:
			stages[s] = pip.NewStage(name, pip.WithProcessFunction(func(in pipeItem) ([]pipeItem, []int, error) {
				return w.process(s, in)
			}), pip.WithMultiInputChannels[pipeItem, pipeItem](len(c.Inn[s])), pip.WithMultiOutputChannels[pipeItem, pipeItem](len(c.Out[s])),
				pip.WithOutputStreamingFunction[pipeItem](w.streamFunc(s)),
				pip.WithOnNoMoreData[pipeItem](func() ([]pipeItem, []int, error) { return w.endOfInput(s) }),
				pipeMode[pipeItem, pipeItem](c.Mode))
		}
	}
	link := func(p *pip.Pipeline, only map[int]bool) {
		for ch := range c.Snd {
			if only != nil && !only[c.Snd[ch][0]] {
				continue
			}
			if c.shared(ch) {
				linkShared(p, c, ch)
				continue
			}
			s, t := c.Snd[ch][0], c.Rcv[ch][0]
			i, j := pos(c.Out[s], ch), pos(c.Inn[t], ch)
			switch {
			case s == 0 && len(c.Out[t]) == 0:
				pip.LinkStagesAt(pip.SourceStage[pipeItem](p), i, pip.SinkAsStage(p.Stages[t].(*pip.Sink[pipeItem])), j)
			case s == 0:
				pip.LinkStagesAt(pip.SourceStage[pipeItem](p), i, p.Stages[t].(*pip.Stage[pipeItem, pipeItem]), j)
			case len(c.Out[t]) == 0:
				pip.LinkStagesAt(p.Stages[s].(*pip.Stage[pipeItem, pipeItem]), i, pip.SinkAsStage(p.Stages[t].(*pip.Sink[pipeItem])), j)
			default:
				pip.LinkStagesAt(p.Stages[s].(*pip.Stage[pipeItem, pipeItem]), i, p.Stages[t].(*pip.Stage[pipeItem, pipeItem]), j)
			}
		}
	}
	lf := func(p *pip.Pipeline) { link(p, nil) }
	var err error
	if c.Auto >= 0 {
		again := map[int]bool{c.Auto: true}
		for _, s := range c.Aff {
			again[s] = true
		}
		w.p, err = pip.NewPipeline(lf, pip.WithStages(stages...), pip.WithAutoResumeAtStage(c.Auto, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return !w.ended[c.Auto]
		}, func(p *pip.Pipeline) {
			w.mu.Lock()
			for _, s := range c.Aff {
				w.ended[s] = false
			}
			w.mu.Unlock()
			link(p, again)
		}, append([]int{}, c.Aff...)...))
	} else {
		w.p, err = pip.NewPipeline(lf, pip.WithStages(stages...))
	}
	lib.Must(err)
	return w
}

func pos(l []int, x int) int {
	for i, y := range l {
		if y == x {
			return i
		}
	}
	panic("no such channel")
}

func linkShared(p *pip.Pipeline, c *pipeScen, ch int) {
	var src []*pip.Stage[pip.None, pipeItem]
	var mid, nmid []*pip.Stage[pipeItem, pipeItem]
	var sink []*pip.Stage[pipeItem, pip.None]
	for _, s := range c.Snd[ch] {
		if s == 0 {
			src = append(src, pip.SourceStage[pipeItem](p))
		} else {
			mid = append(mid, p.Stages[s].(*pip.Stage[pipeItem, pipeItem]))
		}
	}
	for _, t := range c.Rcv[ch] {
		if len(c.Out[t]) == 0 {
			sink = append(sink, pip.SinkAsStage(p.Stages[t].(*pip.Sink[pipeItem])))
		} else {
			nmid = append(nmid, p.Stages[t].(*pip.Stage[pipeItem, pipeItem]))
		}
	}
	switch {
	case src != nil && sink != nil:
		pip.LinkStagesDistribute(src[0], sink...)
	case src != nil:
		pip.LinkStagesDistribute(src[0], nmid...)
	case sink != nil:
		pip.LinkStagesCrissCross(mid, sink)
	default:
		pip.LinkStagesCrissCross(mid, nmid)
	}
}

type pipeRun struct {
	Id  int     `json:"id"`
	Sc  int     `json:"sc"`
	Got [][]int `json:"got"`
	Ret []int   `json:"ret"`
}

// run runs scenario c once.  It returns nil if waiting never returned.
func (w *pipeWorld) run(c *pipeScen, seed int64) (*pipeRun, error, string) {
	k := len(c.Out)
	w.mu.Lock()
	w.rng = rand.New(rand.NewSource(seed))
	w.c, w.got, w.hit, w.next, w.over = c, make([][]pipeItem, k), map[int]bool{}, 0, false
	w.ended, w.calls, w.busy, w.bad = make([]bool, k), make([]int, k), make([]bool, k), ""
	w.slow = w.rng.Intn(2*k) - k
	w.queue = make([][]pipeChunk, k)
	w.mu.Unlock()
	stop := make(chan struct{})
	switch w.variant {
	case "channel":
		w.feed = make(chan pipeItem)
		go func(ch chan pipeItem) {
			for x := 1; x <= c.N; x++ {
				select {
				case ch <- pipeItem{X: x, To: -1}:
				case <-stop:
					return
				}
			}
			w.mu.Lock()
			w.ended[0] = true
			w.mu.Unlock()
			close(ch)
		}(w.feed)
	case "slice":
		w.slice = nil
		for x := 1; x <= c.N; x++ {
			w.slice = append(w.slice, pipeItem{X: x, To: -1})
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.p.Resume(ctx)
	ret := make(chan error, 1)
	go func() { ret <- w.p.Wait(ctx) }()
	var err error
	select {
	case err = <-ret:
	case <-time.After(10 * time.Second):
		buf := make([]byte, 1<<20)
		return nil, nil, string(buf[:runtime.Stack(buf, true)])
	}
	close(stop)
	w.mu.Lock()
	w.over = true
	r := &pipeRun{Sc: c.Id, Got: make([][]int, k), Ret: []int{}}
	for s := range w.got {
		r.Got[s] = []int{}
		for _, it := range w.got[s] {
			r.Got[s] = append(r.Got[s], it.X)
		}
	}
	w.mu.Unlock()
	if err != nil {
		for s := 0; s < k; s++ {
			if strings.Contains(err.Error(), pipeErr{s}.Error()) {
				r.Ret = append(r.Ret, s)
			}
		}
	}
	return r, err, ""
}

// judge checks what can be said about a run without exploring the specification's behaviours.
func (w *pipeWorld) judge(c *pipeScen, r *pipeRun, err error) (string, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.bad != "" {
		return w.badKey, w.bad
	}
	var hit []int
	for s := range w.hit {
		hit = append(hit, s)
	}
	sort.Ints(hit)
	if err == nil && len(hit) > 0 {
		return "swallowed", fmt.Sprintf("stages %v failed, but waiting reported success", hit)
	}
	if err != nil && len(hit) == 0 {
		return "invented", fmt.Sprintf("no stage failed, but waiting reported: %v", err)
	}
	if fmt.Sprint(hit) != fmt.Sprint(r.Ret) {
		return "errors", fmt.Sprintf("stages %v failed, waiting reported those of %v: %v", hit, r.Ret, err)
	}
	var pe pipeErr
	if err != nil && len(hit) == 1 && len(c.Fail)+len(c.Late) == 1 && !errors.As(err, &pe) {
		return "error-lost", fmt.Sprintf("the error returned by waiting is not that of the failing stage: %v", err)
	}
	// order on every link
	for t := range w.got {
		lastC, lastP := map[int]int{}, map[[2]int]int{}
		for _, it := range w.got[t] {
			if it.Call < lastC[it.From] {
				return "order", fmt.Sprintf("stage %d received the items of stage %d in another order than it processed them", t, it.From)
			}
			lastC[it.From] = it.Call
			if it.Call == 0 {
				continue // made by the package from a channel or slice
			}
			key := [2]int{it.From, it.Call}
			if p, ok := lastP[key]; ok && c.Mode == "seq" && it.Pos <= p {
				return "order-seq", fmt.Sprintf("stage %d received outputs of one item of stage %d in another order than given, with sequential outputs", t, it.From)
			}
			lastP[key] = it.Pos
		}
	}
	if c.Due == nil {
		return "", ""
	}
	for s := range c.Out {
		peers := map[int]bool{s: true}
		for _, ch := range c.Inn[s] {
			if len(c.Rcv[ch]) > 1 {
				for _, t := range c.Rcv[ch] {
					peers[t] = true
				}
			}
		}
		n := map[int]int{}
		for t := range peers {
			for _, x := range r.Got[t] {
				n[x]++
			}
		}
		for x := 1; x <= c.N+len(c.Out); x++ {
			d := c.Due[s][x-1]
			if n[x] > d {
				return "duplicate", fmt.Sprintf("item %d was processed %d times by stage %d (or the stages sharing its input), sent %d times", x, n[x], s, d)
			}
			if err == nil && n[x] < d {
				return "lost", fmt.Sprintf("success, but item %d was processed %d times by stage %d (or the stages sharing its input) instead of %d times", x, n[x], s, d)
			}
		}
	}
	return "", ""
}

func pipeDriver(args []string, res *lib.Result) {
	fs := flag.NewFlagSet("pipe", flag.ExitOnError)
	scenF := fs.String("scen", "", "")
	runsF := fs.String("runs", "", "")
	failing := fs.Bool("failing", false, "")
	budget := fs.Duration("budget", 30*time.Second, "")
	lib.Must(fs.Parse(args))
	var in struct{ Small, Other, Large []*pipeScen }
	b, err := os.ReadFile(*scenF)
	lib.Must(err)
	lib.Must(json.Unmarshal(b, &in))
	for _, l := range [][]*pipeScen{in.Small, in.Other, in.Large} {
		for _, c := range l {
			c.index()
		}
	}
	maxRec := lib.Pick(300, 1500)
	out, err := os.Create(*runsF)
	lib.Must(err)
	defer out.Close()
	var mu sync.Mutex
	seen := map[string]bool{}
	recorded, hangs := 0, 0
	record := func(r *pipeRun) {
		key := fmt.Sprint(r.Sc, r.Got, r.Ret)
		mu.Lock()
		defer mu.Unlock()
		if seen[key] || recorded >= maxRec {
			return
		}
		seen[key] = true
		recorded++
		r.Id = recorded
		l, _ := json.Marshal(r)
		out.Write(append(l, '\n'))
	}
	kinds := map[string]int{}
	// one run; false if the pipeline cannot be used any more
	once := func(w *pipeWorld, c *pipeScen, seed int64, what string) bool {
		r, err, stack := w.run(c, seed)
		if stack != "" {
			mu.Lock()
			hangs++
			mu.Unlock()
			res.Violate("hang", fmt.Sprintf("waiting for a %s pipeline (%s outputs, %s source, failing at %v %v, %s) never returned", c.Name, c.Mode, w.variant, c.Fail, c.Late, what),
				map[string]any{"scenario": c, "stacks": pipeStacks(stack)})
			return false
		}
		res.Eval(1)
		res.Trace(1)
		key, msg := w.judge(c, r, err)
		if key != "" {
			res.Violate(key, fmt.Sprintf("%s pipeline (%s outputs, items %s, %s source, %s): %s", c.Name, c.Mode, c.Kind, w.variant, what, msg),
				map[string]any{"scenario": c, "run": r})
			return true
		}
		if c.Due == nil {
			record(r)
		}
		mu.Lock()
		kinds[c.Name+"/"+c.Mode+"/"+w.variant+"/"+what]++
		mu.Unlock()
		return true
	}
	// pipelines of one shape run several scenarios one after the other
	groups, large := map[string][]*pipeScen{}, []*pipeScen{}
	other := map[string][]*pipeScen{}
	for _, c := range in.Small {
		groups[c.shape()] = append(groups[c.shape()], c)
	}
	for _, c := range in.Other {
		other[c.shape()] = append(other[c.shape()], c)
	}
	var names []string
	for g := range groups {
		names = append(names, g)
	}
	sort.Strings(names)
	for _, c := range in.Large {
		if (len(c.Fail)+len(c.Late) > 0) == *failing || *failing {
			large = append(large, c)
		}
	}
	deadline := time.Now().Add(*budget)
	var wg sync.WaitGroup
	var tick int64
	for t := 0; t < 12; t++ {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(lib.Seed()*1000 + int64(t)))
			for time.Now().Before(deadline) {
				mu.Lock()
				stop := hangs >= 3
				tick++
				mu.Unlock()
				if stop || res.NumViolations() > 30 {
					return
				}
				if len(large) > 0 && rng.Intn(3) == 0 {
					c := large[rng.Intn(len(large))]
					w := newPipeWorld(c, rng)
					clean := *c
					clean.Fail, clean.Late = nil, nil
					clean.index()
					if !once(w, c, rng.Int63(), "first run") {
						continue
					}
					once(w, &clean, rng.Int63(), "resumed")
					continue
				}
				g := names[rng.Intn(len(names))]
				w := newPipeWorld(groups[g][0], rng)
				what := "first run"
				for i := 0; i < 6; i++ {
					l := groups[g]
					if o := other[g]; len(o) > 0 && rng.Intn(3) == 0 {
						l = o
					}
					c := l[rng.Intn(len(l))]
					if !usable(w, c) {
						continue
					}
					if !once(w, c, rng.Int63(), what) {
						break
					}
					what = "resumed"
				}
			}
		}()
	}
	wg.Wait()
	if *failing {
		res.Note("mode", "failing")
	}
	res.Count("recorded", recorded)
	res.Note("kinds of runs", len(kinds))
	if len(in.Small) > 0 {
		res.Sample(in.Small[0])
	}
}

// usable: whether the pipeline (with its source) can run the scenario
func usable(w *pipeWorld, c *pipeScen) bool {
	if w.variant != "function" {
		for _, f := range c.Late {
			if f[0] == 0 {
				return false
			}
		}
	}
	if w.variant == "slice" {
		for _, r := range c.Route[0][:c.N] {
			if len(r) != 1 {
				return false
			}
		}
	}
	return true
}

// pipeStacks keeps the goroutines that may tell why a pipeline does not end.
func pipeStacks(all string) []string {
	var l []string
	for _, g := range strings.Split(all, "\n\n") {
		for _, k := range []string{"processThisStage", "WithAutoResume", "]).Prepare", "PrepareSink", "CrissCross", "aggregateNextErr"} {
			if strings.Contains(g, k) && len(l) < 40 {
				l = append(l, g)
				break
			}
		}
	}
	return l
}
