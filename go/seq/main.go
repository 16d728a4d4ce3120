// Command seq decides the sequential properties by exhaustive enumeration: each
// check walks every element of a stated finite space (inputs, histories, reachable
// engine states) and compares the code under test with a naive reference.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx carries one check's accounting.
type Ctx struct {
	ID       string
	Thorough bool
	Seed     int
	VerifDir string
	Scratch  string
	start    time.Time
	deadline time.Time

	evals   atomic.Int64
	states  atomic.Int64
	trans   atomic.Int64
	replays atomic.Int64 // histories of states that reproduced the state on a fresh engine
	nontriv atomic.Int64

	mu         sync.Mutex
	seen       map[uint64]struct{}
	samples    []any
	violations int
	printed    map[string]bool
	known      map[string]string
	knownSeen  map[string]bool
	incomplete []string
	spaces     map[string]any
	assume     []string
	stop       atomic.Bool
}

var maxViolations = 3

// Eval counts one evaluated case; nontrivial cases are counted once per key.
func (c *Ctx) Eval(nontrivial bool, key string) {
	c.evals.Add(1)
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	io.WriteString(h, key)
	k := h.Sum64()
	c.mu.Lock()
	if len(c.seen) < 4_000_000 {
		if _, ok := c.seen[k]; !ok {
			c.seen[k] = struct{}{}
			c.nontriv.Add(1)
		}
	}
	c.mu.Unlock()
}

// Count adds evaluations that are distinct by construction.
func (c *Ctx) Count(evals, nontrivial int64) {
	c.evals.Add(evals)
	c.nontriv.Add(nontrivial)
}

// Sample keeps a few actual cases.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Space records the size of an enumerated space.
func (c *Ctx) Space(name string, v any) {
	c.mu.Lock()
	c.spaces[name] = v
	c.mu.Unlock()
}

// Incomplete notes that a space was not finished.
func (c *Ctx) Incomplete(what string) {
	c.mu.Lock()
	c.incomplete = append(c.incomplete, what)
	c.mu.Unlock()
}

// Expired reports whether the time budget is used up.
func (c *Ctx) Expired() bool { return time.Now().After(c.deadline) }

// Stopped reports whether enumeration should end (enough violations, or no time).
func (c *Ctx) Stopped() bool { return c.stop.Load() }

// Violate reports a case on which the property fails. key identifies the failing
// input or history; a key listed in known_findings.txt is reported as such.
func (c *Ctx) Violate(key string, input any, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if what, ok := c.known[key]; ok {
		if !c.knownSeen[key] {
			c.knownSeen[key] = true
			fmt.Fprintf(report, "KNOWN-FINDING: property=%s %s\n", c.ID, what)
		}
		return
	}
	if c.printed[key] || c.violations >= maxViolations {
		c.stop.Store(true)
		return
	}
	c.printed[key] = true
	c.violations++
	dir := filepath.Join(c.VerifDir, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, c.violations))
	b, err := json.MarshalIndent(map[string]any{"property": c.ID, "key": key, "input": input, "what": msg}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q %v %s", key, input, msg))
	}
	os.WriteFile(path, b, 0o644)
	fmt.Fprintf(report, "VIOLATION property=%s replay=%s\n", c.ID, path)
	fmt.Fprintf(report, "  %s\n", clip(msg, 1500))
	if c.violations >= maxViolations {
		c.stop.Store(true)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Try runs f and turns a panic into a violation.
func (c *Ctx) Try(key string, input any, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.Violate("panic:"+key, input, "panic: %v\n%s", r, clip(string(debug.Stack()), 1200))
		}
	}()
	f()
	return true
}

// catch runs f and returns the panic value, if any.
func catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// Parallel runs f(0..n-1) on all cores, stopping early when told to.
func (c *Ctx) Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stopped() {
					return
				}
				if c.Expired() {
					c.stop.Store(true)
					c.Incomplete("time budget used up")
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

type check struct {
	rule  string
	level string
	run   func(*Ctx)
}

// report is the real standard output.
var report = os.Stdout

var checks = map[string]check{}

// workers run part of a check in a process of its own.
var workers = map[string]func(thorough bool, arg string){}

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verif directory")
	scratch := flag.String("scratch", "", "scratch directory")
	budget := flag.Duration("budget", 10*time.Minute, "time budget")
	worker := flag.String("worker", "", "run as a worker")
	flag.Parse()
	if *worker != "" {
		workers[*id](*tier == "thorough", *worker)
		return
	}
	log.SetOutput(io.Discard)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	c := &Ctx{
		ID: *id, Thorough: *tier == "thorough", Seed: seed, VerifDir: *verif, Scratch: *scratch,
		start: time.Now(), deadline: time.Now().Add(*budget),
		seen: map[uint64]struct{}{}, printed: map[string]bool{}, known: map[string]string{}, knownSeen: map[string]bool{},
		spaces: map[string]any{},
	}
	c.loadKnown()
	// the code under test prints to stdout in places: keep the report clean
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	c.Try("check", nil, func() { ck.run(c) })
	c.writeEvidence(*tier, ck)
	fmt.Fprintf(report, "%s %s: %d evaluations, %d states, %d transitions, %d violations, %.1fs\n", c.ID, *tier, c.evals.Load(), c.states.Load(), c.trans.Load(), c.violations, time.Since(c.start).Seconds())
	if c.violations > 0 {
		os.Exit(1)
	}
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.VerifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <what>
		if !strings.HasPrefix(l, "known: property="+c.ID+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.ID+" key=")
		i := strings.Index(rest, " ")
		if i < 0 {
			continue
		}
		c.known[rest[:i]] = rest[i+1:]
	}
}

func (c *Ctx) writeEvidence(tier string, ck check) {
	cov := map[string]any{
		"rule":       ck.rule,
		"samples":    c.samples,
		"exhaustive": len(c.incomplete) == 0 && c.violations == 0,
		"spaces":     c.spaces,
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	cov["evaluations"] = c.evals.Load()
	cov["distinct_nontrivial"] = c.nontriv.Load()
	if ck.level == "model_checking" {
		cov["states"] = c.states.Load()
		cov["transitions"] = c.trans.Load()
		cov["traces_validated_against_impl"] = c.replays.Load()
		cov["binding"] = "the states explored are states of the implementation itself: every transition was executed on the real code"
	}
	if len(c.incomplete) > 0 {
		sort.Strings(c.incomplete)
		cov["incomplete"] = c.incomplete
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": c.Seed, "level": ck.level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": c.violations,
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.VerifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.VerifDir, "evidence", c.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
