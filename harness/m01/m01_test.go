package m01

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "M01", "sequences of reads (hits, loads of generated sizes, failing, panicking and uncacheable loads), invalidations and limit changes, against a list; concurrent bursts; non-trivial: an eviction after a hit, or overlapping reads")
}

type key struct {
	S string
	N int
}

type loaded struct {
	k key
	n int
}

type entry struct {
	v    loaded
	size int
}

// what the next load does
type plan struct {
	size int
	err  error
	boom bool
}

var errLoad = errors.New("load failed")
var wrapped = fmt.Errorf("loading: %w", context.Canceled)

// never the same time twice, recency is taken from the clock
func tick() {
	t := time.Now()
	for !time.Now().After(t) {
	}
}

func TestSequences(t *testing.T) {
	vh.Check(t, 12000, 600000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		limit := rapid.SampledFrom([]int{10, 5, 3, 1, 0, 100}).Draw(t, "limit")
		var next plan
		loads := 0
		var last []key
		cache := caches.NewLRU(c, limit, func(_ ctx.C, k key) (loaded, int, error) {
			loads++
			last = append(last, k)
			if next.boom {
				panic("boom")
			}
			return loaded{k, loads}, next.size, next.err
		})
		lru := cache.(*caches.LRU[key, loaded])
		var model []entry // least recent first
		total := func() (n int) {
			for _, e := range model {
				n += e.size
			}
			return
		}
		find := func(k key) int {
			for i, e := range model {
				if e.v.k == k {
					return i
				}
			}
			return -1
		}
		var ops []string
		var labels []string
		hit, nontrivial := false, false
		nk := rapid.IntRange(1, 8).Draw(t, "keys")
		steps := rapid.IntRange(1, 50).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			k := key{"k", rapid.IntRange(0, nk-1).Draw(t, "key")}
			tick()
			switch op := rapid.IntRange(0, 19).Draw(t, "op"); {
			case op == 17:
				ops = append(ops, fmt.Sprintf("invalidate %d", k.N))
				cache.Invalidate(c, k)
				if i := find(k); i >= 0 {
					model = append(model[:i], model[i+1:]...)
					labels = append(labels, "invalidated")
				}
			case op == 18:
				limit = rapid.IntRange(0, 12).Draw(t, "new limit")
				lru.MaxSize = limit
				ops = append(ops, fmt.Sprintf("limit %d", limit))
			default:
				next = plan{size: rapid.IntRange(1, 5).Draw(t, "size")}
				switch rapid.IntRange(0, 12).Draw(t, "load") {
				case 9:
					next.size = 0
				case 10:
					next.err = rapid.SampledFrom([]error{errLoad, errLoad, context.Canceled, context.DeadlineExceeded, io.EOF, wrapped}).Draw(t, "error")
					if rapid.Bool().Draw(t, "big garbage") {
						next.size = rapid.SampledFrom([]int{0, -1, 100}).Draw(t, "size of garbage")
					}
				case 11:
					next.boom = true
				case 12:
					next.size = rapid.IntRange(6, 30).Draw(t, "big")
				}
				before := loads
				var v loaded
				var hm caches.HitMiss
				var err error
				in := c
				switch rapid.SampledFrom([]string{"", "", "", "", "cancelled", "late"}).Draw(t, "context") {
				case "cancelled":
					x, cf := ctx.WithCancel(c)
					cf(errLoad)
					in = x
				case "late":
					x, cf := ctx.WithTimeout(c, -1)
					cf()
					in = x
				}
				msg := vh.Try(func() { v, hm, err = cache.Get(in, k) })
				if in != c && msg == "" && err != nil && loads == before && (errors.Is(err, in.Err()) || errors.Is(err, ctx.Cause(in))) {
					break // refused, that's fine
				}
				at := find(k)
				ops = append(ops, fmt.Sprintf("get %d (%d)", k.N, next.size))
				if at >= 0 {
					e := model[at]
					if msg != "" || err != nil || hm != caches.HIT || v != e.v || loads != before {
						t.Fatalf("%v: %v %v %v %.200s with %d loads, want the hit %v\n%s", k, v, hm, err, msg, loads-before, e.v, ops)
					}
					model = append(append(append([]entry{}, model[:at]...), model[at+1:]...), e)
					hit = true
					labels = append(labels, "hit")
					break
				}
				if loads != before+1 || last[len(last)-1] != k {
					t.Fatalf("%v: loads %v, want one of it (got %v %v %v)\n%s", k, last[before:], v, hm, err, ops)
				}
				switch {
				case next.boom:
					if msg == "" {
						t.Fatalf("%v: the panic in the load became %v %v %v\n%s", k, v, hm, err, ops)
					}
					labels = append(labels, "load panics")
				case msg != "":
					t.Fatalf("%v: %s\n%s", k, msg, ops)
				case next.err != nil:
					if !errors.Is(err, next.err) || hm != caches.ERR {
						t.Fatalf("%v: %v %v %v, want the load's error\n%s", k, v, hm, err, ops)
					}
					labels = append(labels, "load fails")
				case err != nil || v != (loaded{k, loads}):
					t.Fatalf("%v: %v %v %v, want the value loaded\n%s", k, v, hm, err, ops)
				case next.size == 0:
					if hm != caches.NO {
						t.Fatalf("%v: %v, want no caching\n%s", k, hm, ops)
					}
					labels = append(labels, "not cached")
				default:
					if hm != caches.MISS {
						t.Fatalf("%v: %v, want a miss\n%s", k, hm, ops)
					}
					model = append(model, entry{v, next.size})
					n := 0
					for total() > limit {
						model = model[1:]
						n++
					}
					if n > 0 {
						labels = append(labels, "evicted")
						nontrivial = nontrivial || hit
					}
					if n > 1 {
						labels = append(labels, "evicted several")
					}
				}
			}
			var got, want []string
			for _, k := range lru.Keys() {
				got = append(got, fmt.Sprint(k.N))
			}
			for _, e := range model {
				want = append(want, fmt.Sprint(e.v.k.N))
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				t.Fatalf("holds %v, want %v\n%s", got, want, ops)
			}
			_ = lru.String()
		}
		vh.Case(nontrivial, strings.Join(ops, "; "), labels...)
	})
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 600, 30000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		limit := rapid.IntRange(1, 8).Draw(t, "limit")
		ng := rapid.IntRange(2, 6).Draw(t, "goroutines")
		type op struct {
			k   int
			inv bool
		}
		plans := make([][]op, ng)
		for g := range plans {
			for i := rapid.IntRange(1, 15).Draw(t, "ops"); i > 0; i-- {
				plans[g] = append(plans[g], op{rapid.IntRange(0, 5).Draw(t, "key"), rapid.IntRange(0, 9).Draw(t, "inv") == 9})
			}
		}
		var lastOf [6]atomic.Int64
		var n atomic.Int64
		var inside [6]atomic.Int32
		var bad atomic.Value
		cache := caches.NewLRU(c, limit, func(_ ctx.C, k int) (loaded, int, error) {
			if inside[k].Add(1) > 1 {
				bad.Store(fmt.Sprintf("two loads of %d at once", k))
			}
			defer inside[k].Add(-1)
			runtime.Gosched()
			x := n.Add(1)
			lastOf[k].Store(x)
			if x%7 == 6 {
				return loaded{}, 0, errLoad
			}
			return loaded{key{"", k}, int(x)}, 1 + k%3, nil
		})
		lru := cache.(*caches.LRU[int, loaded])
		var wg sync.WaitGroup
		start := make(chan struct{})
		var running, overlap atomic.Int32
		for g := range plans {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i, o := range plans[g] {
					if running.Add(1) > 1 {
						overlap.Add(1)
					}
					if o.inv {
						cache.Invalidate(c, o.k)
					} else {
						v, hm, err := cache.Get(c, o.k)
						if err != nil && (hm != caches.ERR || err != errLoad) || err == nil && (v.k.N != o.k || v.n == 0) {
							bad.Store(fmt.Sprintf("get %d: %v %v %v", o.k, v, hm, err))
						}
					}
					if i%4 == 3 {
						_ = lru.Keys()
					} else if i%4 == 1 {
						_ = lru.String()
					}
					running.Add(-1)
				}
			}()
		}
		close(start)
		vh.Within("the reads", wg.Wait)
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
		keys := lru.Keys()
		sum := 0
		seen := map[int]bool{}
		for _, k := range keys {
			if seen[k] {
				t.Fatalf("key %d twice: %v", k, keys)
			}
			seen[k] = true
			sum += 1 + k%3
		}
		if sum > limit {
			t.Fatalf("holds %v of size %d, over %d", keys, sum, limit)
		}
		for _, k := range keys {
			v, hm, err := cache.Get(c, k)
			if err != nil || hm != caches.HIT || v.k.N != k || int64(v.n) != lastOf[k].Load() {
				t.Fatalf("get %d: %v %v %v, want the hit %d", k, v, hm, err, lastOf[k].Load())
			}
		}
		l := []string{"concurrent"}
		if overlap.Load() > 0 {
			l = append(l, "overlapping")
		}
		vh.Case(overlap.Load() > 0, fmt.Sprintf("limit %d: %v", limit, plans), l...)
	})
}

// values which look like none, and many keys
func TestValues(t *testing.T) {
	vh.Check(t, 300, 10000, func(t *rapid.T) {
		c, cf := ctx.Background()
		defer cf(nil)
		vals := []any{nil, 0, "", false, (*int)(nil), error(nil), 7, "x"}
		n := rapid.SampledFrom([]int{1, 3, 9, 40, 150, 300}).Draw(t, "keys")
		room := rapid.SampledFrom([]int{n, n * 5, n - n/3}).Draw(t, "room")
		loads := 0
		lru := caches.NewLRU(c, room, func(c ctx.C, k any) (any, int, error) { loads++; return vals[k.(int)%len(vals)], 1, nil })
		var order []int // least recent first
		use := func(i int, what string) {
			at := -1
			for j, k := range order {
				if k == i {
					at = j
				}
			}
			want, before := caches.MISS, loads
			if at >= 0 {
				want = caches.HIT
				order = append(order[:at:at], order[at+1:]...)
			}
			order = append(order, i)
			for len(order) > room {
				order = order[1:]
			}
			tick()
			v, hm, err := lru.Get(c, i)
			if err != nil || v != vals[i%len(vals)] || hm != want || (loads != before) != (want == caches.MISS) {
				t.Fatalf("%s, %d keys, room for %d: key %d: %#v %v %v with %d loads, want %#v %v", what, n, room, i, v, hm, err, loads-before, vals[i%len(vals)], want)
			}
		}
		for i := 0; i < n; i++ {
			use(i, "at first")
		}
		for i := rapid.IntRange(0, 12).Draw(t, "ops"); i > 0; i-- {
			x := rapid.IntRange(0, n-1).Draw(t, "key")
			if rapid.Bool().Draw(t, "inv") {
				lru.Invalidate(c, x)
				for j, k := range order {
					if k == x {
						order = append(order[:j:j], order[j+1:]...)
						break
					}
				}
			} else {
				use(x, "then")
			}
		}
		for i := n - 1; i >= 0; i-- {
			use(i, "at last")
		}
		vh.Case(n > 3 && room < n, fmt.Sprint("keys ", n, " room ", room), "values like none")
	})
}
