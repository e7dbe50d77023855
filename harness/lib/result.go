// Package lib holds what all drivers share: results, state graphs emitted by TLC, walks over them.
package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
)

type Violation struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Replay any    `json:"replay"`
}

// Result is what a driver writes for the runner.
type Result struct {
	mu          sync.Mutex
	Evaluations int            `json:"evaluations"`
	Traces      int            `json:"traces"`
	Samples     []any          `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Notes       map[string]any `json:"notes"`
	perKey      map[string]int
}

func NewResult() *Result {
	return &Result{Notes: map[string]any{}, perKey: map[string]int{}, Samples: []any{}, Violations: []Violation{}}
}

// Violate records a violation; only the first few per key are kept.
func (r *Result) Violate(key, what string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perKey[key]++
	if r.perKey[key] > 3 {
		return
	}
	r.Violations = append(r.Violations, Violation{key, what, replay})
}

func (r *Result) NumViolations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.Violations) }

func (r *Result) Eval(n int)  { r.mu.Lock(); r.Evaluations += n; r.mu.Unlock() }
func (r *Result) Trace(n int) { r.mu.Lock(); r.Traces += n; r.mu.Unlock() }
func (r *Result) Sample(s any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, s)
	}
}
func (r *Result) Note(k string, v any) { r.mu.Lock(); r.Notes[k] = v; r.mu.Unlock() }
func (r *Result) Count(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	x, _ := r.Notes[k].(int)
	r.Notes[k] = x + n
}

func (r *Result) Write(path string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, err := json.Marshal(r)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Seed is VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func Scratch() string {
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// Doing notes what the driver is about to execute, so that a crash of the code under test can be reported with it.
func Doing(v any) {
	b, _ := json.Marshal(v)
	_ = os.WriteFile(filepath.Join(Scratch(), "doing.json"), b, 0o644)
}

// Fatal ends the driver with an error of the machinery.
func Fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func Must(err error) {
	if err != nil {
		Fatal("%v", err)
	}
}
