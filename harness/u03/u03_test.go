package u03

import (
	"fmt"
	"log/slog"
	"runtime"
	"strings"
	gosync "sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/utils/sync"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	log.SetDefaultLoggerLevel(slog.Level(100)) // the one with metrics logs
	vh.Main(m, "U03", "sequences of blocking and timed acquisitions and releases by several actors, checked step by step, and free running goroutines around a plain counter (race detector); non-trivial: an acquisition while the lock is held by another")
}

type lock interface {
	Lock()
	Unlock()
}

const long = time.Hour

// one actor: does what it is told and says when it is done
type actor struct {
	cmd  chan func() bool
	done chan bool
	busy bool // waiting for the lock
	try  bool // with a timeout
}

func newActor() *actor {
	a := &actor{cmd: make(chan func() bool), done: make(chan bool, 1)}
	go func() {
		for f := range a.cmd {
			a.done <- f()
		}
	}()
	return a
}

func TestSteps(t *testing.T) {
	vh.Check(t, 1500, 60000, func(t *rapid.T) {
		var mu sync.Mutex
		na := rapid.IntRange(2, 5).Draw(t, "actors")
		var actors []*actor
		for i := 0; i < na; i++ {
			actors = append(actors, newActor())
		}
		holder := -1
		var ops []string
		contended := false
		abandoned := 0
		var labels []string
		defer func() {
			if r := recover(); r != nil {
				panic(r)
			}
		}()
		waiting := func() (n int) {
			for _, a := range actors {
				if a.busy {
					n++
				}
			}
			return
		}
		release := func() {
			h := holder
			ops = append(ops, fmt.Sprintf("%d unlocks", h))
			actors[h].cmd <- func() bool { mu.Unlock(); return true }
			vh.Within("an unlock", func() { <-actors[h].done })
			holder = -1
			if waiting() == 0 {
				return
			}
			// exactly one of those waiting gets it
			got := -1
			vh.Eventually("one of the waiters gets the released lock", func() bool {
				for i, a := range actors {
					if !a.busy {
						continue
					}
					select {
					case ok := <-a.done:
						if !ok {
							t.Fatalf("actor %d gave up waiting after the release\n%s", i, strings.Join(ops, "; "))
						}
						a.busy = false
						if got >= 0 {
							t.Fatalf("actors %d and %d both got the lock\n%s", got, i, strings.Join(ops, "; "))
						}
						got = i
					default:
					}
				}
				return got >= 0
			})
			holder = got
			labels = append(labels, "a waiter got it")
		}
		for i := rapid.IntRange(1, 12).Draw(t, "steps"); i > 0; i-- {
			n := rapid.IntRange(0, na-1).Draw(t, "actor")
			a := actors[n]
			if holder >= 0 && rapid.IntRange(0, 3).Draw(t, "release") == 3 {
				release()
				continue
			}
			if a.busy || n == holder {
				continue
			}
			op := rapid.IntRange(0, 4).Draw(t, "op")
			switch {
			case op == 0: // block
				ops = append(ops, fmt.Sprintf("%d locks", n))
				a.cmd <- func() bool { mu.Lock(); return true }
				a.busy, a.try = true, false
			case op == 1: // for as long as it takes
				ops = append(ops, fmt.Sprintf("%d tries for long", n))
				a.cmd <- func() bool { return mu.TryLock(long) }
				a.busy, a.try = true, true
			default:
				d := rapid.SampledFrom([]time.Duration{0, -time.Second, time.Nanosecond, 50 * time.Microsecond, time.Millisecond}).Draw(t, "timeout")
				ops = append(ops, fmt.Sprintf("%d tries for %v", n, d))
				t0 := time.Now()
				a.cmd <- func() bool { return mu.TryLock(d) }
				var ok bool
				vh.Within("an acquisition with a short timeout", func() { ok = <-a.done })
				dt := time.Since(t0)
				switch {
				case holder >= 0 && ok:
					t.Fatalf("actor %d got the lock held by %d\n%s", n, holder, strings.Join(ops, "; "))
				case holder >= 0:
					if dt < d {
						t.Fatalf("timed out after %v, should try for %v\n%s", dt, d, strings.Join(ops, "; "))
					}
					contended = true
					abandoned++
					labels = append(labels, "timed out")
				case ok:
					holder = n
					labels = append(labels, "obtained")
				case abandoned == 0:
					t.Fatalf("a free lock was not obtained in %v\n%s", d, strings.Join(ops, "; "))
				default: // one which gave up might be passing by
					labels = append(labels, "somebody passing by")
				}
				continue
			}
			if holder < 0 {
				vh.Within("an acquisition of a free lock", func() {
					if !<-a.done {
						t.Fatalf("a free lock was not obtained\n%s", strings.Join(ops, "; "))
					}
				})
				a.busy = false
				holder = n
				labels = append(labels, "obtained")
				continue
			}
			contended = true
			labels = append(labels, "waiting")
			if rapid.Bool().Draw(t, "settle") {
				time.Sleep(50 * time.Microsecond)
			}
			for i, x := range actors {
				select {
				case ok := <-x.done:
					t.Fatalf("actor %d came back (%v) while %d holds the lock\n%s", i, ok, holder, strings.Join(ops, "; "))
				default:
				}
			}
		}
		for holder >= 0 {
			release()
		}
		// usable after all that
		vh.Within("a final acquisition", func() {
			if rapid.Bool().Draw(t, "final") {
				mu.Lock()
			} else if !mu.TryLock(long) {
				t.Fatalf("not obtained at the end\n%s", strings.Join(ops, "; "))
			}
			mu.Unlock()
		})
		for _, a := range actors {
			close(a.cmd)
		}
		vh.Case(contended, strings.Join(ops, "; "), labels...)
	})
}

// goroutines which do as they please, around a plain variable
func TestFree(t *testing.T) {
	vh.Check(t, 400, 20000, func(t *rapid.T) {
		metrics := rapid.IntRange(0, 3).Draw(t, "metrics") == 3
		var mu sync.Mutex
		var mm sync.MetricsMutex
		ng := rapid.IntRange(2, 8).Draw(t, "goroutines")
		each := rapid.IntRange(1, 15).Draw(t, "each")
		plans := make([][]int, ng)
		for g := range plans {
			for i := 0; i < each; i++ {
				plans[g] = append(plans[g], rapid.IntRange(0, 5).Draw(t, "how"))
			}
		}
		hold := rapid.IntRange(0, 3).Draw(t, "hold")
		counter, inside := 0, 0 // only to be touched with the lock
		var got, refused, contended atomic.Int64
		var now atomic.Int32
		var bad atomic.Value
		var wg gosync.WaitGroup
		start := make(chan struct{})
		for g := range plans {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, how := range plans[g] {
					if now.Load() > 0 {
						contended.Add(1)
					}
					var l lock = &mu
					ok := true
					if metrics {
						l = &mm
						mm.Lock()
					} else {
						switch how {
						case 0, 1:
							mu.Lock()
						case 2:
							ok = mu.TryLock(long)
							if !ok {
								bad.Store("timed out long before the time")
							}
						case 3:
							ok = mu.TryLock(0)
						case 4:
							ok = mu.TryLock(20 * time.Microsecond)
						case 5:
							ok = mu.TryLock(time.Millisecond)
						}
					}
					if !ok {
						refused.Add(1)
						continue
					}
					got.Add(1)
					now.Add(1)
					inside++
					if inside != 1 {
						bad.Store(fmt.Sprintf("%d inside", inside))
					}
					c := counter
					for i := 0; i < hold; i++ {
						runtime.Gosched()
					}
					counter = c + 1
					inside--
					now.Add(-1)
					l.Unlock()
				}
			}()
		}
		close(start)
		vh.Within("the goroutines", wg.Wait)
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
		vh.Within("a final acquisition", func() {
			mu.Lock()
			mm.Lock()
		})
		if int64(counter) != got.Load() {
			t.Fatalf("%d acquisitions, but the counter is %d", got.Load(), counter)
		}
		mu.Unlock()
		mm.Unlock()
		l := []string{"free running"}
		if refused.Load() > 0 {
			l = append(l, "refused")
		}
		if metrics {
			l = append(l, "metrics")
		}
		vh.Case(contended.Load() > 0, fmt.Sprintf("%d goroutines %v hold %d metrics %v", ng, plans, hold, metrics), l...)
	})
}
