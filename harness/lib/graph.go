package lib

import (
	"bufio"
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
)

// Edge is one transition of the specification, as emitted by TLC: from state F by action A to state T.
type Edge struct {
	From, To int
	Act      json.RawMessage
}

// Graph is the state graph of a specification.
type Graph struct {
	States []json.RawMessage
	Edges  []Edge
	Out    [][]int // state -> indices of its outgoing edges
	Init   []int   // initial states
	index  map[string]int
}

// sorted brings the fields of records into one order (TLC prints them in the order they were created in, or its own).
func sorted(raw json.RawMessage) json.RawMessage {
	var v any
	Must(json.Unmarshal(raw, &v))
	b, err := json.Marshal(v)
	Must(err)
	return b
}

func (g *Graph) state(raw json.RawMessage) int {
	if i, ok := g.index[string(raw)]; ok {
		return i
	}
	first := string(raw)
	raw = sorted(raw)
	k := string(raw)
	if i, ok := g.index[k]; ok {
		g.index[first] = i
		return i
	}
	i := len(g.States)
	g.index[first] = i
	g.index[k] = i
	g.States = append(g.States, append(json.RawMessage(nil), raw...))
	g.Out = append(g.Out, nil)
	return i
}

// ReadLines calls f for each line of the file.
func ReadLines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	Must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) > 0 {
			f(sc.Bytes())
		}
	}
	Must(sc.Err())
}

// LoadGraph reads edges {"f":state,"a":action,"t":state}. The source of the first edge is the initial state
// unless initial states are named with {"i":state}.
func LoadGraph(path string) *Graph {
	g := &Graph{index: map[string]int{}}
	seen := map[string]bool{}
	ReadLines(path, func(line []byte) {
		var e struct{ F, A, T, I json.RawMessage }
		if err := json.Unmarshal(line, &e); err != nil {
			Fatal("bad edge %s: %v", line, err)
		}
		if e.I != nil {
			g.Init = append(g.Init, g.state(e.I))
			return
		}
		k := string(e.F) + "|" + string(e.A) + "|" + string(e.T)
		if seen[k] {
			return
		}
		seen[k] = true
		f, t := g.state(e.F), g.state(e.T)
		g.Out[f] = append(g.Out[f], len(g.Edges))
		g.Edges = append(g.Edges, Edge{f, t, append(json.RawMessage(nil), e.A...)})
	})
	if len(g.States) == 0 {
		Fatal("empty graph %s", path)
	}
	if len(g.Init) == 0 {
		g.Init = []int{0}
	}
	return g
}

// CoverWalks returns walks from initial states that together traverse every edge. A walk prefers edges not yet
// traversed, then moves along a shortest path to the nearest one, and ends at maxLen.
func (g *Graph) CoverWalks(rng *rand.Rand, maxLen int) [][]int {
	covered := make([]bool, len(g.Edges))
	left := make([]int, len(g.States))
	total := 0
	// only edges reachable from Init count
	reach := make([]bool, len(g.States))
	queue := append([]int(nil), g.Init...)
	for _, s := range queue {
		reach[s] = true
	}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, e := range g.Out[s] {
			if t := g.Edges[e].To; !reach[t] {
				reach[t] = true
				queue = append(queue, t)
			}
		}
	}
	for s := range g.Out {
		if reach[s] {
			left[s] = len(g.Out[s])
			total += left[s]
		}
	}
	next := make([]int, len(g.States))
	order := make([][]int, len(g.States))
	for s := range order {
		order[s] = append([]int(nil), g.Out[s]...)
		rng.Shuffle(len(order[s]), func(i, j int) { order[s][i], order[s][j] = order[s][j], order[s][i] })
	}
	take := func(s int) int {
		for next[s] < len(order[s]) {
			e := order[s][next[s]]
			if !covered[e] {
				return e
			}
			next[s]++
		}
		return -1
	}
	mark := func(e int) {
		if !covered[e] {
			covered[e] = true
			left[g.Edges[e].From]--
			total--
		}
	}
	// shortest path from s to a state with an uncovered edge
	nearest := func(s int, limit int) []int {
		prev := map[int]int{s: -1}
		q := []int{s}
		dist := map[int]int{s: 0}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if left[x] > 0 {
				var p []int
				for x != s {
					e := prev[x]
					p = append(p, e)
					x = g.Edges[e].From
				}
				for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
					p[i], p[j] = p[j], p[i]
				}
				return p
			}
			if dist[x] >= limit {
				continue
			}
			for _, e := range g.Out[x] {
				t := g.Edges[e].To
				if _, ok := prev[t]; !ok {
					prev[t] = e
					dist[t] = dist[x] + 1
					q = append(q, t)
				}
			}
		}
		return nil
	}
	var walks [][]int
	for total > 0 {
		progress := false
		for _, s0 := range g.Init {
			s := s0
			var w []int
			for len(w) < maxLen || !progress {
				if e := take(s); e >= 0 {
					mark(e)
					progress = true
					w = append(w, e)
					s = g.Edges[e].To
					continue
				}
				limit := maxLen - len(w) - 1
				if !progress {
					limit = 1 << 30
				}
				p := nearest(s, limit)
				if p == nil {
					break
				}
				for _, e := range p {
					w = append(w, e)
					s = g.Edges[e].To
				}
			}
			if len(w) > 0 {
				walks = append(walks, w)
			}
			if total == 0 {
				break
			}
		}
		if !progress {
			break
		}
	}
	return walks
}

// RandomWalk returns a random walk of at most n edges. weight, if not nil, gives the relative weight of an edge.
func (g *Graph) RandomWalk(rng *rand.Rand, n int, weight func(e int) float64) []int {
	s := g.Init[rng.Intn(len(g.Init))]
	var w []int
	for len(w) < n && len(g.Out[s]) > 0 {
		out := g.Out[s]
		e := out[rng.Intn(len(out))]
		if weight != nil {
			tot := 0.0
			for _, x := range out {
				tot += weight(x)
			}
			r := rng.Float64() * tot
			for _, x := range out {
				r -= weight(x)
				if r <= 0 {
					e = x
					break
				}
			}
		}
		w = append(w, e)
		s = g.Edges[e].To
	}
	return w
}

// Acts returns the actions of a walk, for reports.
func (g *Graph) Acts(w []int) []json.RawMessage {
	out := make([]json.RawMessage, len(w))
	for i, e := range w {
		out[i] = g.Edges[e].Act
	}
	return out
}

// Index finds the state with this description, -1 if there is none.
func (g *Graph) Index(raw json.RawMessage) int {
	if i, ok := g.index[string(sorted(raw))]; ok {
		return i
	}
	return -1
}
