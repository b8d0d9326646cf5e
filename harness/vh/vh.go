// Package vh is the common part of all checks: seeding, case counting,
// evidence, hang detection and reporting.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx/log"
	"pgregory.net/rapid"
)

var (
	mu       sync.Mutex
	evals    int
	nontriv  = map[uint64]bool{}
	labels   = map[string]int{}
	samples  []string
	nsample  int
	perTest  = map[string]int{}
	known    []string
	Seed     = envInt("VERIF_SEED", 1)
	Shard    = int(envInt("VH_SHARD", 0))
	Shards   = int(envInt("VH_SHARDS", 1))
	Thorough = os.Getenv("VERIF_TIER") == "thorough"
	Property string
)

func envInt(k string, def int64) int64 {
	v, err := strconv.ParseInt(os.Getenv(k), 10, 64)
	if err != nil {
		return def
	}
	return v
}

func mix(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	x := h.Sum64()
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

type stats struct {
	Evals   int            `json:"evals"`
	Hashes  []string       `json:"hashes"`
	Labels  map[string]int `json:"labels"`
	Samples []string       `json:"samples"`
	Tests   map[string]int `json:"tests"`
	Known   []string       `json:"known"`
	Rule    string         `json:"rule"`
}

// Main is TestMain of every check package.
func Main(m *testing.M, property, rule string) {
	_ = time.Local.String() // it is filled at its first use, which would look like a change of a value
	Property = property
	if property != "L01" {
		log.SetDefaultLoggerLevel(100) // keep the output for failures
	}
	flag.Parse()
	code := m.Run()
	writeStats(rule)
	os.Exit(code)
}

func writeStats(rule string) {
	out := os.Getenv("VH_OUT")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	s := stats{Evals: evals, Labels: labels, Samples: samples, Tests: perTest, Known: known, Rule: rule}
	for h := range nontriv {
		s.Hashes = append(s.Hashes, strconv.FormatUint(h, 16))
	}
	sort.Strings(s.Hashes)
	j, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, j, 0o644); err != nil {
		panic(err)
	}
}

// N picks the number of cases for this tier and shard.
func N(quick, thorough int) int {
	n := quick
	if Thorough {
		n = thorough
	}
	n = (n + Shards - 1) / Shards
	if n < 1 {
		n = 1
	}
	return n
}

// Check runs prop on N(quick,thorough) generated cases.
func Check(t *testing.T, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	n := N(quick, thorough)
	seed := mix(fmt.Sprintf("%d/%d/%s/%s", Seed, Shard, Property, t.Name()))
	if seed == 0 {
		seed = 1
	}
	set("rapid.checks", strconv.Itoa(n))
	set("rapid.seed", strconv.FormatUint(seed, 10))
	set("rapid.shrinktime", "20s")
	if ff := os.Getenv("VH_FAILFILE"); ff != "" {
		set("rapid.failfile", ff)
	}
	mu.Lock()
	perTest[t.Name()] += n
	mu.Unlock()
	rapid.Check(t, prop)
}

// Steps sets the average number of actions of a stateful test.
func Steps(n int) { set("rapid.steps", strconv.Itoa(n)) }

func set(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

// Case records one generated case; desc identifies it.
func Case(nontrivial bool, desc string, ls ...string) {
	mu.Lock()
	defer mu.Unlock()
	evals++
	for _, l := range ls {
		labels[l]++
	}
	if !nontrivial {
		labels["trivial"]++
		return
	}
	h := mix(desc)
	if nontriv[h] {
		return
	}
	nontriv[h] = true
	nsample++
	if nsample <= 2 || (nsample&(nsample-1)) == 0 {
		if len(desc) > 600 {
			desc = desc[:600] + "..."
		}
		if len(samples) >= 6 {
			samples = append(samples[:2], samples[3:]...)
		}
		samples = append(samples, strings.ToValidUTF8(desc, "?"))
	}
}

// Label counts a class without counting a case.
func Label(ls ...string) {
	mu.Lock()
	defer mu.Unlock()
	for _, l := range ls {
		labels[l]++
	}
}

// Inconclusive ends the run as an error of the check (never a violation).
func Inconclusive(f string, args ...any) {
	fmt.Printf("VH-INCONCLUSIVE: "+f+"\n", args...)
	os.Exit(3)
}

// Violation ends the process at once with a violation (used where unwinding is impossible).
func Violation(f string, args ...any) {
	fmt.Printf("VH-VIOLATION: "+f+"\n", args...)
	os.Exit(1)
}

const foregoPath = "github.com/Aize-Public/forego"

// Within runs f and returns its panic value, if any, re-panicked in the caller.
// If f does not return, the stack of its goroutine decides: stuck inside the
// code under test is a violation, anything else is inconclusive.
func Within(what string, f func()) {
	type res struct{ p any }
	ch := make(chan res, 1)
	var id string
	idc := make(chan string, 1)
	go func() {
		idc <- goid()
		done := false
		defer func() {
			p := recover()
			if !done && p == nil {
				p = exited{}
			}
			ch <- res{p}
		}()
		f()
		done = true
	}()
	id = <-idc
	limit := time.Duration(envInt("VH_HANG_SECONDS", 40)) * time.Second
	tm := time.NewTimer(limit)
	defer tm.Stop()
	parent := goid()
	select {
	case r := <-ch:
		if _, ok := r.p.(exited); ok {
			runtime.Goexit()
		}
		if r.p != nil {
			panic(r.p)
		}
	case <-tm.C:
		if st := stackOf(id); strings.Contains(st, "sync.(*WaitGroup).Wait") && !strings.Contains(st, foregoPath) {
			// f waits for goroutines of the case: those decide
			stuckChildren(what, parent)
		}
		Stuck(what, id)
	}
}

// stuckChildren is a violation if a goroutine started by the given one is, each
// time it is looked at, blocked at the same place inside the code under test.
func stuckChildren(what, parent string) {
	same := map[string]string{}
	for i := 0; i < 5; i++ {
		now := map[string]string{}
		for _, g := range stacks() {
			head, body, _ := strings.Cut(g, "\n")
			if !strings.Contains(body, "in goroutine "+parent+"\n") && !strings.HasSuffix(body, "in goroutine "+parent) && !strings.Contains(body, "in goroutine "+parent+" ") {
				continue
			}
			frames, _, _ := strings.Cut(body, "created by ")
			if !strings.Contains(frames, foregoPath) || strings.Contains(head, "[run") || strings.Contains(head, "[sleep") {
				continue
			}
			now[strings.Fields(head)[1]] = body
		}
		for id, b := range same {
			if now[id] != b {
				delete(same, id)
			}
		}
		if i == 0 {
			same = now
		}
		time.Sleep(200 * time.Millisecond)
	}
	for id, b := range same {
		Violation("%s did not return: stuck inside the code under test\ngoroutine %s\n%s", what, id, b)
	}
}

type exited struct{}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	f := strings.Fields(string(b))
	return f[1]
}

// Stuck decides about a goroutine that has not come back.
func Stuck(what, id string) {
	hits := 0
	var last string
	for i := 0; i < 5; i++ {
		st := stackOf(id)
		if st == "" {
			time.Sleep(2 * time.Second)
			if i > 0 {
				continue
			}
		}
		last = st
		if strings.Contains(st, foregoPath) {
			hits++
		}
		time.Sleep(200 * time.Millisecond)
	}
	if hits == 5 {
		Violation("%s did not return: stuck inside the code under test\n%s", what, last)
	}
	Inconclusive("%s did not return in time\n%s", what, last)
}

var stackBuf = struct {
	sync.Mutex
	b []byte
}{}

func stackOf(id string) string {
	for _, g := range stacks() {
		if strings.HasPrefix(g, "goroutine "+id+" ") {
			return g
		}
	}
	return ""
}

func stacks() []string {
	stackBuf.Lock()
	defer stackBuf.Unlock()
	if stackBuf.b == nil {
		stackBuf.b = make([]byte, 4<<20)
	}
	b := stackBuf.b
	b = b[:runtime.Stack(b, true)]
	return strings.Split(string(b), "\n\n")
}

// Eventually waits for cond, which only becomes true through the code under test.
func Eventually(what string, cond func() bool) {
	deadline := time.Now().Add(time.Duration(envInt("VH_HANG_SECONDS", 40)) * time.Second)
	d := 50 * time.Microsecond
	for !cond() {
		if time.Now().After(deadline) {
			b := make([]byte, 8<<20)
			b = b[:runtime.Stack(b, true)]
			Violation("%s never happened\n%s", what, b)
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
	}
}

// Try runs f and returns the panic it raised, as text with its stack, or "".
func Try(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", p), "rapid.") {
				panic(p) // a verdict, not a panic
			}
			b := make([]byte, 16<<10)
			b = b[:runtime.Stack(b, false)]
			msg = fmt.Sprintf("panic: %v\n%s", p, b)
		}
	}()
	f()
	return ""
}

// Listed tells whether the known-findings file lists key for this property.
func Listed(key string) bool {
	data, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(l, "finding: property="+Property+" ["+key+"] ") {
			return true
		}
	}
	return false
}

// Known runs the probe of a recorded finding: a failure of a listed one is
// reported as such, of an unlisted one it fails the test.
func Known(t *testing.T, key, what string, probe func() error) {
	t.Helper()
	err := probe()
	if err == nil {
		return
	}
	if Listed(key) {
		mu.Lock()
		known = append(known, fmt.Sprintf("[%s] %s", key, what))
		mu.Unlock()
		return
	}
	t.Fatalf("%s: %v", what, err)
}

// Quiet silences the stdlib-free logger noise on stderr.
func Quiet() {}
