package m02

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/caches"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "M02", "histories of requests and invalidations from several goroutines over a few keys, fetches which take time, fail and give values and errors of different lifetimes; sequences with evictions against a model; gated fetches; non-trivial: two requests of one key which overlap, or an eviction or expiry")
}

type value struct {
	key string
	n   int64
}

type fetchErr struct{ v value }

func (e fetchErr) Error() string { return fmt.Sprint("failed ", e.v) }

// what a fetch does
type behave struct {
	fail  bool
	ttl   time.Duration
	pause int
}

type fetch struct {
	key        string
	n          int64
	req        int
	start, end int64 // of the logical clock
	startT     time.Time
	endT       time.Time
	b          behave
}

type request struct {
	key          string
	start, end   int64
	startT, endT time.Time
	v            value
	hm           caches.HitMiss
	err          error
	inval        bool
	own          []*fetch
	g            int
}

type idKey struct{}

type hist struct {
	clock   atomic.Int64
	mu      sync.Mutex
	fetches []*fetch
	reqs    []*request
}

func (h *hist) begin(key string, id int, b behave) *fetch {
	h.mu.Lock()
	defer h.mu.Unlock()
	f := &fetch{key: key, n: int64(len(h.fetches) + 1), req: id, b: b}
	h.fetches = append(h.fetches, f)
	if id < len(h.reqs) {
		h.reqs[id].own = append(h.reqs[id].own, f)
	}
	f.startT = time.Now()
	f.start = h.clock.Add(1)
	return f
}

func (h *hist) String() string {
	type ev struct {
		at int64
		s  string
	}
	var l []ev
	for _, f := range h.fetches {
		l = append(l, ev{f.start, fmt.Sprintf("  fetch %d of %q for %d begins %+v", f.n, f.key, f.req, f.b)}, ev{f.end, fmt.Sprintf("  fetch %d of %q ends", f.n, f.key)})
	}
	for i, r := range h.reqs {
		what := "request"
		if r.inval {
			what = "invalidation"
		}
		l = append(l, ev{r.start, fmt.Sprintf("%s %d of %q begins", what, i, r.key)}, ev{r.end, fmt.Sprintf("%s %d of %q ends: %v %v %v", what, i, r.key, r.v, r.hm, r.err)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].at < l[j].at })
	var out []string
	for _, e := range l {
		out = append(out, fmt.Sprintf("%d %s", e.at, e.s))
	}
	return strings.Join(out, "\n")
}

// the rules every history must follow
func (h *hist) check() error {
	byN := map[int64]*fetch{}
	for _, f := range h.fetches {
		byN[f.n] = f
	}
	between := func(key string, from, to int64) bool { // might an invalidation have happened in there
		for _, i := range h.reqs {
			if i.inval && i.key == key && i.end > from && i.start < to {
				return true
			}
		}
		return false
	}
	for id, r := range h.reqs {
		if r.inval {
			continue
		}
		if len(r.own) > 1 {
			return fmt.Errorf("request %d fetched %d times", id, len(r.own))
		}
		got := r.v
		if r.err != nil {
			var fe fetchErr
			if !errors.As(r.err, &fe) {
				return fmt.Errorf("request %d of %q: %v", id, r.key, r.err)
			}
			got = fe.v
		}
		f := byN[got.n]
		switch {
		case f == nil || f.key != r.key || got.key != r.key:
			return fmt.Errorf("request %d of %q got %v, which was not fetched for it", id, r.key, got)
		case f.b.fail != (r.err != nil):
			return fmt.Errorf("request %d of %q got %v, %v of fetch %d (failed: %v)", id, r.key, r.v, r.err, f.n, f.b.fail)
		case len(r.own) == 1:
			if r.own[0] != f {
				return fmt.Errorf("request %d of %q made fetch %d but got that of fetch %d", id, r.key, r.own[0].n, f.n)
			}
			want := caches.MISS
			if f.b.fail {
				want = caches.ERR
			}
			if r.hm != want {
				return fmt.Errorf("request %d of %q fetched: %v, want %v", id, r.key, r.hm, want)
			}
		default:
			if r.hm != caches.HIT {
				return fmt.Errorf("request %d of %q did not fetch: %v, want a hit", id, r.key, r.hm)
			}
			if f.b.ttl <= 0 {
				return fmt.Errorf("request %d of %q got what fetch %d said not to keep", id, r.key, f.n)
			}
			if f.end > r.end || f.end == 0 {
				return fmt.Errorf("request %d of %q got fetch %d before it was over", id, r.key, f.n)
			}
			if by := h.reqs[f.req]; r.startT.After(by.endT.Add(f.b.ttl)) {
				return fmt.Errorf("request %d of %q got fetch %d, expired %v before it started", id, r.key, f.n, r.startT.Sub(by.endT.Add(f.b.ttl)))
			}
			for n, i := range h.reqs {
				if i.inval && i.key == r.key && f.start < i.start && i.end < r.start {
					return fmt.Errorf("request %d of %q got fetch %d, which began before invalidation %d", id, r.key, f.n, n)
				}
			}
		}
	}
	for _, a := range h.fetches {
		for _, b := range h.fetches {
			if a == b || a.key != b.key || a.start > b.start {
				continue
			}
			ra, rb := h.reqs[a.req], h.reqs[b.req]
			from := ra.start
			if rb.start < from {
				from = rb.start
			}
			if between(a.key, from, b.start) {
				continue
			}
			if b.start < a.end {
				return fmt.Errorf("fetches %d and %d of %q at the same time", a.n, b.n, a.key)
			}
			if a.b.ttl > 0 && b.startT.Before(a.endT.Add(a.b.ttl)) {
				return fmt.Errorf("fetch %d of %q while what fetch %d gave was still good for %v", b.n, b.key, a.n, a.endT.Add(a.b.ttl).Sub(b.startT))
			}
		}
	}
	return nil
}

func pause(n int) {
	switch {
	case n > 8:
		time.Sleep(time.Duration(n) * 5 * time.Microsecond)
	default:
		for ; n > 0; n-- {
			runtime.Gosched()
		}
	}
}

// the caches under test, with the same face
type cache struct {
	get func(ctx.C, string) (value, caches.HitMiss, error)
	inv func(ctx.C, string)
}

func build(c ctx.C, kind int, max int, onMiss func(c ctx.C, k string) (value, time.Duration, error)) cache {
	if kind == 0 {
		r := caches.NewRequestLRU(c, max, onMiss)
		return cache{r.Request, r.Invalidate}
	}
	m := caches.Mem(c, func(c ctx.C, k string) (value, error) {
		v, _, err := onMiss(c, k)
		return v, err
	})
	return cache{m.Get, m.Invalidate}
}

var keys = []string{"a", "b", "c", "", "A"}

func drawBehave(t *rapid.T, kind int) behave {
	b := behave{ttl: time.Hour, pause: rapid.IntRange(0, 16).Draw(t, "pause")}
	if kind == 0 {
		switch rapid.IntRange(0, 9).Draw(t, "ttl") {
		case 6:
			b.ttl = 0
		case 7:
			b.ttl = -time.Second
		case 8:
			b.ttl = 200 * time.Microsecond
		case 9:
			b.ttl = 30 * time.Millisecond
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "fail") == 5 {
		b.fail = true
		if kind == 1 {
			b.ttl = 0
		}
	}
	return b
}

func TestHistories(t *testing.T) {
	vh.Check(t, 4000, 200000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		kind := rapid.IntRange(0, 9).Draw(t, "kind") / 7 // mostly the request cache
		h := &hist{}
		ng := rapid.IntRange(2, 6).Draw(t, "goroutines")
		nk := rapid.IntRange(1, 3).Draw(t, "keys")
		var plan []behave
		for i := 0; i < 8; i++ {
			plan = append(plan, drawBehave(t, kind))
		}
		long := rapid.Bool().Draw(t, "all good")
		plans := make([][]int, ng)
		pauses := make([][]int, ng)
		var desc []string
		for g := range plans {
			for i := rapid.IntRange(1, 5).Draw(t, "ops"); i > 0; i-- {
				r := &request{key: keys[rapid.IntRange(0, nk-1).Draw(t, "key")], g: g}
				r.inval = rapid.IntRange(0, 7).Draw(t, "inval") == 7
				plans[g] = append(plans[g], len(h.reqs))
				pauses[g] = append(pauses[g], rapid.SampledFrom([]int{0, 0, 1, 3, 12, 60}).Draw(t, "before"))
				h.reqs = append(h.reqs, r)
				desc = append(desc, fmt.Sprintf("%d%s%v", g, r.key, r.inval))
			}
		}
		var fetches atomic.Int64
		ch := build(c, kind, len(keys), func(c ctx.C, k string) (value, time.Duration, error) {
			b := plan[int(fetches.Add(1))%len(plan)]
			if long {
				b.ttl, b.fail = time.Hour, false
			}
			f := h.begin(k, c.Value(idKey{}).(int), b)
			pause(b.pause)
			v := value{k, f.n}
			f.endT = time.Now()
			f.end = h.clock.Add(1)
			if b.fail {
				return value{}, b.ttl, fetchErr{v}
			}
			return v, b.ttl, nil
		})
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range plans {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i, id := range plans[g] {
					pause(pauses[g][i])
					r := h.reqs[id]
					c := context.WithValue(c, idKey{}, id)
					r.startT = time.Now()
					r.start = h.clock.Add(1)
					if r.inval {
						ch.inv(c, r.key)
					} else {
						r.v, r.hm, r.err = ch.get(c, r.key)
					}
					r.end = h.clock.Add(1)
					r.endT = time.Now()
				}
			}()
		}
		close(start)
		vh.Within("the requests", wg.Wait)
		if err := h.check(); err != nil {
			t.Fatalf("%v (kind %d)\n%s", err, kind, h)
		}
		overlap := false
		for i, a := range h.reqs {
			for _, b := range h.reqs[:i] {
				if a.key == b.key && !a.inval && !b.inval && a.start < b.end && b.start < a.end {
					overlap = true
				}
			}
		}
		l := []string{[]string{"request cache", "memory cache"}[kind]}
		if overlap {
			l = append(l, "overlapping requests")
		}
		vh.Case(overlap, strings.Join(desc, " "), l...)
	})
}

// many at the very same time for one new key
func TestStampede(t *testing.T) {
	vh.Check(t, 1500, 80000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		kind := rapid.IntRange(0, 5).Draw(t, "kind") / 5
		ng := rapid.IntRange(2, 8).Draw(t, "goroutines")
		rounds := rapid.IntRange(1, 10).Draw(t, "rounds")
		p := rapid.IntRange(0, 3).Draw(t, "pause")
		fails := rapid.Bool().Draw(t, "fails") && kind == 0
		var n [10]atomic.Int64
		ch := build(c, kind, 20, func(c ctx.C, k string) (value, time.Duration, error) {
			x := n[len(k)].Add(1)
			pause(p)
			if fails {
				return value{}, time.Hour, fetchErr{value{k, x}}
			}
			return value{k, x}, time.Hour, nil
		})
		for r := 0; r < rounds; r++ {
			k := strings.Repeat("x", r)
			var wg sync.WaitGroup
			start := make(chan struct{})
			var wrong atomic.Value
			var ready sync.WaitGroup
			var miss atomic.Int64
			for g := 0; g < ng; g++ {
				wg.Add(1)
				ready.Add(1)
				go func() {
					defer wg.Done()
					ready.Done()
					<-start
					v, hm, err := ch.get(c, k)
					if hm != caches.HIT {
						miss.Add(1)
					}
					if (err != nil) != fails || err == nil && v.key != k {
						wrong.Store(fmt.Sprintf("%q: %v %v %v", k, v, hm, err))
					}
				}()
			}
			ready.Wait()
			close(start)
			vh.Within("the requests", wg.Wait)
			if w := wrong.Load(); w != nil {
				t.Fatal(w)
			}
			if n[r].Load() != 1 || miss.Load() != 1 {
				t.Fatalf("%d requests at once of a new key: %d fetches, %d misses", ng, n[r].Load(), miss.Load())
			}
		}
		vh.Case(true, fmt.Sprintf("%d goroutines, %d rounds, pause %d", ng, rounds, p), "stampede")
	})
}

// one after the other, with evictions, against a model
func TestSequences(t *testing.T) {
	vh.Check(t, 6000, 300000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		kind := rapid.IntRange(0, 5).Draw(t, "kind") / 5
		max := rapid.IntRange(0, 4).Draw(t, "max")
		type entry struct {
			key  string
			v    value
			err  error
			ttl  time.Duration
			from time.Time // the end of the fetch, as seen inside and outside
			to   time.Time
		}
		var model []*entry
		var next behave
		var n int64
		var endT time.Time
		var fetched []string
		boom := false
		ch := build(c, kind, max, func(c ctx.C, k string) (value, time.Duration, error) {
			n++
			fetched = append(fetched, k)
			if boom {
				panic("boom")
			}
			v := value{k, n}
			endT = time.Now()
			if next.fail {
				return v, next.ttl, fetchErr{v}
			}
			return v, next.ttl, nil
		})
		var ops, labels []string
		nontrivial := false
		for i := rapid.IntRange(1, 25).Draw(t, "steps"); i > 0; i-- {
			k := keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")]
			tm := time.Now()
			for !time.Now().After(tm) { // recency is taken from the clock
			}
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 8:
				ops = append(ops, fmt.Sprintf("invalidate %q", k))
				ch.inv(c, k)
				for i, e := range model {
					if e.key == k {
						model = append(model[:i:i], model[i+1:]...)
						labels = append(labels, "invalidated")
						break
					}
				}
				continue
			case 9:
				ops = append(ops, "wait")
				time.Sleep(250 * time.Microsecond)
				continue
			}
			next = drawBehave(t, kind)
			boom = rapid.IntRange(0, 14).Draw(t, "boom") == 14
			ops = append(ops, fmt.Sprintf("request %q (%v %v)", k, next.ttl, next.fail))
			var e *entry
			for i, x := range model {
				if x.key == k {
					e = x
					model = append(model[:i:i], model[i+1:]...)
					break
				}
			}
			before := n
			t0 := time.Now()
			var v value
			var hm caches.HitMiss
			var err error
			msg := vh.Try(func() { v, hm, err = ch.get(c, k) })
			t1 := time.Now()
			if n > before+1 || n > before && fetched[len(fetched)-1] != k {
				t.Fatalf("request of %q fetched %q\n%s", k, fetched[before:], strings.Join(ops, "; "))
			}
			good := e != nil && e.ttl > 0 && t1.Before(e.from.Add(e.ttl))
			gone := e == nil || e.ttl <= 0 || t0.After(e.to.Add(e.ttl))
			hit := n == before
			if hit && gone || !hit && good {
				t.Fatalf("request of %q: fetched %v, while there is %+v\n%s", k, !hit, e, strings.Join(ops, "; "))
			}
			if e != nil && gone && e.ttl > 0 {
				labels = append(labels, "expired")
				nontrivial = true
			}
			if hit {
				if msg != "" || hm != caches.HIT || err != e.err || err == nil && v != e.v {
					t.Fatalf("request of %q: %v %v %v %.100s, want the hit %+v\n%s", k, v, hm, err, msg, e, strings.Join(ops, "; "))
				}
				labels = append(labels, "hit")
				model = append(model, e)
				continue
			}
			want := caches.MISS
			if next.fail {
				want = caches.ERR
			}
			switch {
			case boom:
				if msg == "" {
					t.Fatalf("request of %q: the panic of the fetch became %v %v %v", k, v, hm, err)
				}
				labels = append(labels, "fetch panics")
			case msg != "":
				t.Fatalf("request of %q: %s", k, msg)
			case hm != want || (err != nil) != next.fail || err == nil && v != (value{k, n}) || err != nil && err != error(fetchErr{value{k, n}}):
				t.Fatalf("request of %q: %v %v %v, want %v of fetch %d\n%s", k, v, hm, err, want, n, strings.Join(ops, "; "))
			}
			ne := &entry{key: k, v: v, err: err, ttl: next.ttl, from: endT, to: t1}
			if boom {
				ne.ttl = 0
			}
			if kind == 1 && (next.fail || boom) {
				continue // not stored
			}
			if boom && e != nil { // what was there had expired
				ne.ttl = 0
			}
			model = append(model, ne)
			if kind == 0 && len(model) > max {
				model = model[1:]
				nontrivial = true
				labels = append(labels, "evicted")
			}
		}
		vh.Case(nontrivial, strings.Join(ops, "; "), append(labels, "sequence")...)
	})
}

// a fetch which takes its time
func TestGated(t *testing.T) {
	vh.Check(t, 300, 10000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		gate := make(chan behave)
		begun := make(chan string, 100)
		var n atomic.Int64
		ch := build(c, 0, 10, func(c ctx.C, k string) (value, time.Duration, error) {
			x := n.Add(1)
			if k != "slow" {
				return value{k, x}, time.Hour, nil
			}
			begun <- k
			b := <-gate
			if b.fail {
				return value{}, b.ttl, fetchErr{value{k, x}}
			}
			return value{k, x}, b.ttl, nil
		})
		var wg sync.WaitGroup
		type out struct {
			v   value
			hm  caches.HitMiss
			err error
		}
		waiters := rapid.IntRange(1, 5).Draw(t, "waiters")
		outs := make([]out, waiters)
		var back atomic.Int32
		for i := range outs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				v, hm, err := ch.get(c, "slow")
				back.Add(1)
				outs[i] = out{v, hm, err}
			}()
		}
		vh.Within("the first fetch", func() { <-begun })
		// other keys go on
		if rapid.Bool().Draw(t, "others") {
			vh.Within("requests of other keys while a fetch of one is slow", func() {
				for i := 0; i < 3; i++ {
					if v, _, err := ch.get(c, "other"); err != nil || v.key != "other" {
						t.Fatalf("other: %v %v", v, err)
					}
				}
				ch.inv(c, "other")
				ch.inv(c, "unknown")
			})
		}
		orphan := rapid.Bool().Draw(t, "invalidated meanwhile")
		if orphan {
			time.Sleep(time.Duration(rapid.IntRange(0, 2).Draw(t, "ms")) * time.Millisecond)
			vh.Within("an invalidation while a fetch is slow", func() { ch.inv(c, "slow") })
			// from now on, a new fetch
			var late out
			wg.Add(1)
			go func() {
				defer wg.Done()
				v, hm, err := ch.get(c, "slow")
				late = out{v, hm, err}
			}()
			vh.Within("the fetch after an invalidation", func() { <-begun })
			if back.Load() != 0 {
				t.Fatal("a request came back before any fetch was over")
			}
			gate <- behave{ttl: time.Hour}
			gate <- behave{ttl: time.Hour}
			vh.Within("all requests", wg.Wait)
			if late.err != nil || late.v.key != "slow" {
				t.Fatalf("late: %+v", late)
			}
			v, hm, err := ch.get(c, "slow")
			if err != nil || hm != caches.HIT || v != late.v {
				t.Fatalf("got %v %v %v, want the hit of %v", v, hm, err, late.v)
			}
			vh.Case(true, fmt.Sprintf("%d waiters, invalidated", waiters), "gated", "invalidated during a fetch")
			return
		}
		b := behave{ttl: time.Hour, fail: rapid.Bool().Draw(t, "fail")}
		if rapid.IntRange(0, 2).Draw(t, "no ttl") == 2 {
			b.ttl = 0
		}
		if back.Load() != 0 {
			t.Fatal("a request came back before any fetch was over")
		}
		gate <- b
		if b.ttl == 0 { // not kept, everyone fetches, in turn
			for i := 1; i < waiters; i++ {
				vh.Within("the next fetch", func() { <-begun })
				if len(begun) > 0 {
					t.Fatal("two fetches at the same time")
				}
				gate <- b
			}
		}
		vh.Within("all requests", wg.Wait)
		hits := 0
		for _, o := range outs {
			if (o.err != nil) != b.fail || o.err == nil && o.v.key != "slow" {
				t.Fatalf("got %+v, want %+v", o, b)
			}
			if o.hm == caches.HIT {
				hits++
			}
		}
		if want := waiters - 1; b.ttl > 0 && hits != want || b.ttl == 0 && hits != 0 {
			t.Fatalf("%d hits of %d requests with ttl %v", hits, waiters, b.ttl)
		}
		vh.Case(waiters > 1, fmt.Sprintf("%d waiters %+v", waiters, b), "gated")
	})
}

// values which look like none, and many keys
func TestValues(t *testing.T) {
	vh.Check(t, 300, 10000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		vals := []any{nil, 0, "", false, (*int)(nil), error(nil), [0]int{}, 7, "x"}
		kind := rapid.IntRange(0, 1).Draw(t, "kind")
		n := rapid.SampledFrom([]int{1, 3, 9, 40, 150, 300}).Draw(t, "keys")
		type K struct {
			a any
			n int
		}
		loads := map[K]int{}
		load := func(k K) any { loads[k]++; return vals[k.n%len(vals)] }
		var get func(K) (any, caches.HitMiss, error)
		var inv func(K)
		if kind == 0 {
			m := caches.Mem(c, func(c ctx.C, k K) (any, error) { return load(k), nil })
			get, inv = func(k K) (any, caches.HitMiss, error) { return m.Get(c, k) }, func(k K) { m.Invalidate(c, k) }
		} else {
			m := caches.NewRequestLRU(c, n, func(c ctx.C, k K) (any, time.Duration, error) { return load(k), time.Hour, nil })
			get, inv = func(k K) (any, caches.HitMiss, error) { return m.Request(c, k) }, func(k K) { m.Invalidate(c, k) }
		}
		key := func(i int) K {
			k := K{n: i}
			if i%3 == 1 {
				k.a = fmt.Sprint(i % 2)
			}
			return k
		}
		want := map[K]int{}
		check := func(i int) {
			k := key(i)
			hm := caches.HIT
			if want[k] == 0 {
				want[k], hm = 1, caches.MISS
			}
			before := loads[k]
			v, got, err := get(k)
			if err != nil || v != vals[i%len(vals)] || got != hm || (loads[k] != before) != (hm == caches.MISS) {
				t.Fatalf("kind %d, %d keys: %v: %#v %v %v after %d loads, want %#v %v", kind, n, k, v, got, err, loads[k]-before, vals[i%len(vals)], hm)
			}
		}
		for i := 0; i < n; i++ {
			check(i)
		}
		for i := rapid.IntRange(0, 8).Draw(t, "ops"); i > 0; i-- {
			x := rapid.IntRange(0, n-1).Draw(t, "key")
			if rapid.Bool().Draw(t, "inv") {
				inv(key(x))
				delete(want, key(x))
			} else {
				check(x)
			}
		}
		for i := 0; i < n; i++ {
			check(i)
		}
		vh.Case(n > 3, fmt.Sprint("kind ", kind, " keys ", n), "values like none")
	})
}

// each request with its own context, which might be over; fetches which fail with any error
func TestContexts(t *testing.T) {
	vh.Check(t, 1500, 60000, func(t *rapid.T) {
		base, cf := ctx.Background()
		defer cf(nil)
		kind := rapid.IntRange(0, 1).Draw(t, "kind")
		type step struct {
			err    string
			ttl    time.Duration
			during bool // cancelled by the fetch
		}
		var next step
		var cancel func(error)
		var loaded error
		n := 0
		cause := errors.New("the caller went away")
		ch := build(base, kind, 10, func(c ctx.C, k string) (value, time.Duration, error) {
			n++
			if next.during {
				cancel(cause)
			}
			switch next.err {
			case "own":
				loaded = fetchErr{value{k, int64(n)}}
			case "context":
				loaded = c.Err()
			case "cause":
				loaded = ctx.Cause(c)
			case "canceled":
				loaded = context.Canceled
			case "deadline":
				loaded = context.DeadlineExceeded
			case "eof":
				loaded = io.EOF
			case "eod":
				loaded = utils.EOD{}
			case "wrapped":
				loaded = ctx.NewErrorf(c, "while fetching: %w", context.Canceled)
			default:
				loaded = nil
			}
			if loaded != nil { // along with an error, or without
				return value{"garbage", int64(n)}, next.ttl, loaded
			}
			return value{k, int64(n)}, next.ttl, nil
		})
		type kept struct {
			v   value
			err error
		}
		model := map[string]kept{}
		var ops []string
		nontrivial := false
		for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0; i-- {
			k := rapid.SampledFrom(keys[:3]).Draw(t, "key")
			if rapid.IntRange(0, 5).Draw(t, "inval") == 5 {
				ops = append(ops, "invalidate "+k)
				ch.inv(base, k)
				delete(model, k)
				continue
			}
			c := base
			cancelled := ""
			switch rapid.SampledFrom([]string{"", "", "", "before", "during", "deadline"}).Draw(t, "cancelled") {
			case "before":
				c2, cf := ctx.WithCancel(base)
				cf(cause)
				c, cancelled = c2, "before"
			case "during":
				c2, cf := ctx.WithCancel(base)
				c, cancelled, cancel = c2, "during", func(err error) { cf(err) }
			case "deadline":
				c2, cf := ctx.WithDeadline(base, time.Now().Add(-time.Second))
				defer cf()
				c, cancelled = c2, "before"
			}
			next = step{ttl: time.Hour, during: cancelled == "during"}
			next.err = rapid.SampledFrom([]string{"", "", "", "own", "context", "cause", "canceled", "deadline", "eof", "eod", "wrapped"}).Draw(t, "fails")
			if kind == 0 && rapid.SampledFrom([]bool{false, false, true}).Draw(t, "not kept") {
				next.ttl = 0
			}
			ops = append(ops, fmt.Sprintf("request %q cancelled %q, a fetch %+v", k, cancelled, next))
			before := n
			v, hm, err := ch.get(c, k)
			if cancelled == "before" && n == before && err != nil && (errors.Is(err, c.Err()) || errors.Is(err, ctx.Cause(c))) {
				if e, ok := model[k]; !ok || !carries(err, e.err) {
					continue // refused, that's fine
				}
			}
			if e, ok := model[k]; ok {
				if n != before || hm != caches.HIT || !carries(err, e.err) || err == nil && v != e.v {
					t.Fatalf("kind %d: got %v %v %v with %d fetches, want the hit of %v %v\n%s", kind, v, hm, err, n-before, e.v, e.err, strings.Join(ops, "\n"))
				}
				nontrivial = nontrivial || cancelled != "" || err != nil
				continue
			}
			want := caches.MISS
			if loaded != nil {
				want = caches.ERR
			}
			if n != before+1 || hm != want || !carries(err, loaded) || err == nil && v != (value{k, int64(n)}) {
				t.Fatalf("kind %d: got %v %v %v with %d fetches, want what was fetched, %v\n%s", kind, v, hm, err, n-before, loaded, strings.Join(ops, "\n"))
			}
			nontrivial = nontrivial || cancelled != "" || err != nil
			if err == nil && next.ttl > 0 || err != nil && kind == 0 && next.ttl > 0 {
				model[k] = kept{v, err}
			}
		}
		vh.Case(nontrivial, fmt.Sprint("kind ", kind, ": ", strings.Join(ops, "; ")), "contexts")
	})
}

// the error, wrapped or not
func carries(err, want error) bool {
	if err == nil || want == nil {
		return err == nil && want == nil
	}
	for ; err != nil; err = errors.Unwrap(err) {
		if reflect.DeepEqual(err, want) {
			return true
		}
	}
	return false
}
