package s01

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/shutdown"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	log.SetDefaultLoggerLevel(100)
	switch vh.InChild() {
	case "history":
		childHistory()
		os.Exit(0)
	case "burst":
		childBurst()
		os.Exit(0)
	case "crowd":
		childCrowd()
		os.Exit(0)
	case "signals":
		childSignals()
		os.Exit(0)
	}
	vh.Main(m, "S01", "histories of begin, hold, release (also repeated), wait and signals, each run in a fresh process against a model, and crowds of goroutines doing the same at once; non-trivial: at least one hold and the begin or a signal")
}

// ---- sequential histories

type step struct {
	Op string // begin, hold, wait (hold and wait), release, done, started
	I  int
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func bad(f string, args ...any) {
	vh.Say("BAD "+f, args...)
	os.Exit(0)
}

func eventually(what string, ch <-chan struct{}) {
	select {
	case <-ch:
	case <-time.After(vh.HangLimit()):
		bad("%s never happened", what)
	}
}

// together calls f from n goroutines as much at once as possible
func together(n int, f func()) {
	var wg sync.WaitGroup
	var ready atomic.Int32
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for spin := 0; int(ready.Load()) < n; spin++ {
				if spin%10000 == 9999 {
					runtime.Gosched()
				}
			}
			f()
		}()
	}
	vh.Within("the shutdown", wg.Wait)
}

// nothing else than many who begin the shutdown, and one who holds it
func childBurst() {
	n := 0
	fmt.Sscan(os.Getenv("VH_STEPS"), &n)
	h := shutdown.Hold()
	together(n, shutdown.Begin)
	if !closed(shutdown.Started()) {
		bad("Started() is not closed after Begin()")
	}
	d := shutdown.Done()
	if closed(d) {
		bad("Done() is closed while there is a hold")
	}
	together(n, h.Release)
	eventually("completion", d)
	vh.Say("OK")
}

func TestBurst(t *testing.T) {
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		vh.Case(true, fmt.Sprintf("%d at once, %d", n, rapid.Uint16().Draw(t, "id")), "burst")
		outcome(t, vh.Spawn("burst", fmt.Sprintf("VH_STEPS=%d", n)), fmt.Sprintf("%d at once", n))
	})
}

func childHistory() {
	var steps []step
	if err := json.Unmarshal([]byte(os.Getenv("VH_STEPS")), &steps); err != nil {
		panic(err)
	}
	type hold struct {
		fn   shutdown.ReleaseFn
		open bool
		wait chan shutdown.ReleaseFn
	}
	var holds []*hold
	count := 0
	begun := false
	type watch struct {
		ch   <-chan struct{}
		open bool // must not be closed
	}
	var dones []*watch
	var starts []<-chan struct{}
	starts = append(starts, shutdown.Started())
	release := func() {
		count--
		if count == 0 {
			for _, d := range dones {
				d.open = false
			}
		}
	}
	for n, s := range steps {
		where := fmt.Sprintf("step %d (%s %d)", n, s.Op, s.I)
		switch s.Op {
		case "begin":
			together(s.I+1, shutdown.Begin)
			begun = true
		case "hold":
			holds = append(holds, &hold{fn: shutdown.Hold(), open: true})
			count++
		case "wait":
			h := &hold{open: true, wait: make(chan shutdown.ReleaseFn, 1)}
			holds = append(holds, h)
			in := make(chan string, 1)
			go func() {
				in <- vh.GoID()
				h.wait <- shutdown.HoldAndWait()
			}()
			id := <-in
			if begun {
				select {
				case h.fn = <-h.wait:
				case <-time.After(vh.HangLimit()):
					bad("%s: HoldAndWait does not return although the shutdown began", where)
				}
			} else {
				vh.Parked(id)
				if len(h.wait) > 0 {
					bad("%s: HoldAndWait returned before the shutdown began", where)
				}
			}
			count++
		case "release":
			if len(holds) == 0 {
				continue
			}
			h := holds[s.I%len(holds)]
			if h.fn == nil {
				if !begun {
					continue // still waiting
				}
				select {
				case h.fn = <-h.wait:
				case <-time.After(vh.HangLimit()):
					bad("%s: HoldAndWait does not return although the shutdown began", where)
				}
			}
			if s.I%2 == 0 {
				h.fn.Release()
			} else {
				h.fn()
			}
			if h.open {
				h.open = false
				release()
			}
		case "done":
			dones = append(dones, &watch{shutdown.Done(), count > 0})
		case "started":
			starts = append(starts, shutdown.Started())
		}
		// the state everyone sees
		for i, ch := range starts {
			if begun {
				eventually(fmt.Sprintf("%s: release of waiter %d", where, i), ch)
			} else if closed(ch) {
				bad("%s: started before the begin", where)
			}
		}
		for i, d := range dones {
			if d.open {
				if closed(d.ch) {
					bad("%s: completion %d reported with %d holds left", where, i, count)
				}
			} else {
				eventually(fmt.Sprintf("%s: completion %d", where, i), d.ch)
			}
		}
		if closed(shutdown.Started()) != begun {
			bad("%s: Started() is %v", where, !begun)
		}
	}
	time.Sleep(200 * time.Microsecond) // for what should not happen
	for i, d := range dones {
		if d.open && closed(d.ch) {
			bad("at the end: completion %d reported with %d holds left", i, count)
		}
	}
	for _, h := range holds {
		if !begun && h.wait != nil && len(h.wait) > 0 {
			bad("at the end: HoldAndWait returned before the shutdown began")
		}
	}
	vh.Say("OK")
}

// outcome of a child which says OK or BAD
func outcome(t *rapid.T, c *vh.Child, desc string) {
	defer c.Kill()
	l, ok := c.Next(2 * vh.HangLimit())
	switch {
	case ok && l == "OK":
	case ok:
		t.Fatalf("%s: %s", desc, l)
	default:
		if code, ended := c.WaitExit(5 * time.Second); ended && strings.Contains(c.Stderr(), "forego/shutdown") {
			t.Fatalf("%s: the process crashed (exit %d)\n%.3000s", desc, code, c.Stderr())
		}
		dump := c.Dump()
		if vh.RuntimeHang(dump) {
			t.Skip("the Go runtime hangs")
		}
		vh.Inconclusive("%s: no answer from the child\n%.9000s", desc, dump)
	}
}

func TestHistory(t *testing.T) {
	vh.Check(t, 600, 20000, func(t *rapid.T) {
		one := rapid.Custom(func(t *rapid.T) step {
			return step{rapid.SampledFrom([]string{"hold", "hold", "wait", "release", "release", "release", "done", "done", "started", "begin"}).Draw(t, "op"), rapid.IntRange(0, 7).Draw(t, "i")}
		})
		steps := rapid.SliceOfN(one, 3, 40).Draw(t, "steps")
		j, _ := json.Marshal(steps)
		holds, begins := 0, 0
		for _, s := range steps {
			switch s.Op {
			case "hold", "wait":
				holds++
			case "begin":
				begins++
			}
		}
		vh.Case(holds > 0 && begins > 0, fmt.Sprint(steps), fmt.Sprintf("begins-%d", min(2, begins)), fmt.Sprintf("holds-%d", min(3, holds)))
		outcome(t, vh.Spawn("history", "VH_STEPS="+string(j)), fmt.Sprint(steps))
	})
}

// ---- crowds

type crowd struct {
	G, N    int  // goroutines, rounds
	Twice   bool // release twice
	Watch   int  // goroutines which watch for the completion
	BeginAt int
	Yield   int
}

func childCrowd() {
	var cr crowd
	if err := json.Unmarshal([]byte(os.Getenv("VH_STEPS")), &cr); err != nil {
		panic(err)
	}
	type hold struct{ released atomic.Bool }
	var mu sync.Mutex
	taken := map[*hold]bool{} // holds which are surely taken and not yet released
	var rounds atomic.Int64
	var wg, wg2 sync.WaitGroup
	stop := make(chan struct{})
	for g := 0; g < cr.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < cr.N; i++ {
				h := &hold{}
				r := shutdown.Hold()
				mu.Lock()
				taken[h] = true
				mu.Unlock()
				for k := 0; k < (g+i)%(cr.Yield+1); k++ {
					runtime.Gosched()
				}
				if rounds.Add(1) == int64(cr.BeginAt) {
					shutdown.Begin()
				}
				mu.Lock()
				h.released.Store(true)
				delete(taken, h)
				mu.Unlock()
				r.Release()
				if cr.Twice && i%3 == 0 {
					r.Release()
				}
			}
		}()
	}
	for g := 0; g < cr.Watch; g++ {
		wg2.Add(1)
		go func() {
			defer wg2.Done()
			for {
				mu.Lock()
				var mine []*hold
				for h := range taken {
					mine = append(mine, h)
				}
				mu.Unlock()
				ch := shutdown.Done()
				select {
				case <-ch:
					for _, h := range mine {
						if !h.released.Load() {
							bad("completion reported while a hold taken before was not released")
						}
					}
				case <-stop:
					eventually("completion after all holds were released", ch)
					return
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
	}
	vh.Within("the shutdown", wg.Wait)
	close(stop)
	eventually("completion at the end", shutdown.Done())
	wg2.Wait()
	if closed(shutdown.Started()) != (cr.BeginAt > 0 && cr.BeginAt <= cr.G*cr.N) {
		bad("Started() does not tell whether the shutdown began")
	}
	vh.Say("OK")
}

func TestCrowd(t *testing.T) {
	vh.Check(t, 120, 4000, func(t *rapid.T) {
		cr := crowd{
			G: rapid.IntRange(1, 6).Draw(t, "goroutines"), N: rapid.IntRange(200, 3000).Draw(t, "rounds"),
			Twice: rapid.Bool().Draw(t, "twice"), Watch: rapid.IntRange(1, 4).Draw(t, "watchers"), BeginAt: rapid.IntRange(0, 2000).Draw(t, "begin"),
			Yield: rapid.IntRange(0, 3).Draw(t, "yield"),
		}
		j, _ := json.Marshal(cr)
		vh.Case(true, string(j), "crowd")
		outcome(t, vh.Spawn("crowd", "VH_STEPS="+string(j)), string(j))
	})
}

// ---- signals

func childSignals() {
	own := make(chan os.Signal, 100)
	signal.Notify(own, syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT) // too early must not kill
	go func() {
		for range own {
			vh.Say("SIG")
		}
	}()
	c, cf := ctx.Background()
	holds := map[string]shutdown.ReleaseFn{}
	in := bufio.NewReader(os.Stdin)
	go func() {
		<-shutdown.Started()
		vh.Say("STARTED")
	}()
	go func() {
		<-c.Done()
		vh.Say("CANCELLED %v %v", c.Err(), ctx.Cause(c) != nil)
	}()
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(l)
		switch f[0] {
		case "hold":
			holds[f[1]] = shutdown.Hold()
		case "release":
			holds[f[1]].Release()
		case "begin":
			shutdown.Begin()
		case "wait":
			id := make(chan string)
			go func() {
				id <- vh.GoID()
				shutdown.WaitForSignal(c, cf)
				vh.Say("RETURNED")
			}()
			vh.Parked(<-id)
		}
		vh.Say("ok %s", f[0])
	}
}

func TestSignals(t *testing.T) {
	vh.Check(t, 240, 6000, func(t *rapid.T) {
		c := vh.Spawn("signals")
		defer c.Kill()
		var log []string
		// what the child says on its own
		started, cancelled, returned, arrived := false, false, false, 0
		note := func(l string) {
			switch {
			case l == "SIG":
				arrived++
			case l == "STARTED":
				started = true
			case strings.HasPrefix(l, "CANCELLED"):
				if l != "CANCELLED context canceled true" {
					t.Fatalf("%v: %s", log, l)
				}
				cancelled = true
			case l == "RETURNED":
				returned = true
			}
		}
		until := func(what string, cond func() bool) {
			deadline := time.Now().Add(vh.HangLimit())
			for !cond() {
				l, ok := c.Next(time.Until(deadline))
				if !ok {
					if code, ended := c.WaitExit(2 * time.Second); ended {
						t.Fatalf("%v: %s: the process ended with %d\n%.2000s", log, what, code, c.Stderr())
					}
					dump := c.Dump()
					if vh.RuntimeHang(dump) {
						t.Skip("the Go runtime hangs")
					}
					t.Fatalf("%v: %s never happened after %q\n%s", log, what, c.Log, dump)
				}
				note(l)
			}
		}
		cmd := func(f string, args ...any) {
			l := fmt.Sprintf(f, args...)
			log = append(log, l)
			c.Send("%s", l)
			ok := false
			deadline := time.Now().Add(vh.HangLimit())
			for !ok {
				l, alive := c.Next(time.Until(deadline))
				if !alive {
					if code, ended := c.WaitExit(2 * time.Second); ended {
						t.Fatalf("%v: the process ended with %d\n%.2000s", log, code, c.Stderr())
					}
					dump := c.Dump()
					if vh.RuntimeHang(dump) {
						t.Skip("the Go runtime hangs")
					}
					vh.Inconclusive("%v: no answer\n%s", log, dump)
				}
				if strings.HasPrefix(l, "ok ") {
					ok = true
				} else {
					note(l)
				}
			}
		}
		holds := rapid.IntRange(0, 3).Draw(t, "holds")
		for i := 0; i < holds; i++ {
			cmd("hold %d", i)
		}
		held := holds
		begun, sigs := false, 0
		cmd("wait")
		if held == 0 {
			until("the return without any hold", func() bool { return returned })
			vh.Case(false, fmt.Sprint(log), "no-holds")
			return
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < n && held > 0; i++ {
			switch rapid.SampledFrom([]string{"signal", "signal", "begin", "release", "extra"}).Draw(t, "step") {
			case "signal":
				s := rapid.SampledFrom([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGQUIT}).Draw(t, "signal")
				log = append(log, "signal "+s.String())
				_ = c.Cmd.Process.Signal(s)
				sigs++
				if sigs < 3 {
					// or two of them may become one
					until("the arrival of the signal", func() bool { return arrived == sigs })
				}
				switch sigs {
				case 1:
					begun = true
					until("the begin after the first signal", func() bool { return started })
					cmd("sync")
					if cancelled {
						t.Fatalf("%v: the first signal cancelled the context", log)
					}
				case 2:
					until("the cancellation after the second signal", func() bool { return cancelled })
				case 3:
					if _, ended := c.WaitExit(vh.HangLimit()); !ended {
						t.Fatalf("%v: the third signal does not end the process", log)
					}
					vh.Case(true, fmt.Sprint(log), "third-signal")
					return
				}
			case "begin":
				cmd("begin")
				begun = true
				until("the begin", func() bool { return started })
			case "release":
				held--
				cmd("release %d", held)
			case "extra": // again, which has no effect
				cmd("release %d", holds-1)
				if held == holds {
					held--
				}
			}
			if held > 0 && returned {
				t.Fatalf("%v: returned with %d holds left", log, held)
			}
			if !begun && started {
				t.Fatalf("%v: started without a reason", log)
			}
			if sigs < 2 && cancelled {
				t.Fatalf("%v: cancelled after %d signals", log, sigs)
			}
		}
		cmd("sync")
		if held > 0 && returned {
			t.Fatalf("%v: returned with %d holds left", log, held)
		}
		for held > 0 {
			held--
			cmd("release %d", held)
		}
		until("the return after the last release", func() bool { return returned })
		if sigs < 2 && cancelled {
			t.Fatalf("%v: cancelled after %d signals", log, sigs)
		}
		vh.Case(sigs > 0 || begun, fmt.Sprint(log), fmt.Sprintf("signals-%d", sigs))
	})
}

// the late announcement comes five seconds later, not before
func TestFiveSeconds(t *testing.T) {
	if vh.Shard > 0 {
		vh.Case(true, "started5sec", "started5sec")
		return
	}
	if closed(shutdown.Started5Sec()) {
		t.Fatalf("announced before the begin")
	}
	t0 := time.Now()
	for i := 0; i < 3; i++ {
		shutdown.Begin()
	}
	vh.Case(true, "started5sec", "started5sec")
	select {
	case <-shutdown.Started5Sec():
		if d := time.Since(t0); d < 5*time.Second {
			t.Fatalf("announced after %v", d)
		}
	case <-time.After(vh.HangLimit()):
		t.Fatalf("never announced")
	}
}
