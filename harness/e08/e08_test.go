package e08

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E08", "operation sequences on both ends of a pipe of drawn buffer size against two FIFO queues, and concurrent producers, consumers, closers and cancellations; non-trivial: at least one value is delivered and there is a close or a cancellation")
}

func cancelled(t *rapid.T) (ctx.C, error) {
	if rapid.Bool().Draw(t, "deadline") {
		c, cf := context.WithDeadline(context.Background(), time.Unix(1, 0))
		_ = cf
		return c, context.DeadlineExceeded
	}
	c, cf := context.WithCancel(context.Background())
	cf()
	return c, context.Canceled
}

type op struct {
	kind string
	end  int
}

// one goroutine: a call which the model says must wait is made with a cancelled context
func TestSequential(t *testing.T) {
	vh.Check(t, 30000, 600000, func(t *rapid.T) {
		buf := rapid.IntRange(0, 4).Draw(t, "buf")
		var p [2]enc.Pipe
		p[0], p[1] = enc.NewPipe(buf)
		var q [2][]enc.Node // q[e]: written on e, not read yet
		var closed [2]bool
		next, reads, stops := 0, 0, 0
		var log []op
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			e := rapid.IntRange(0, 1).Draw(t, "end")
			kind := rapid.SampledFrom([]string{"write", "write", "write", "read", "read", "cwrite", "cread", "close"}).Draw(t, "op")
			if kind == "close" && rapid.IntRange(0, 2).Draw(t, "really") > 0 {
				kind = "read"
			}
			log = append(log, op{kind, e})
			vh.Within(fmt.Sprintf("%v", log), func() {
				switch kind {
				case "close":
					stops++
					if err := p[e].Close(context.Background()); err != nil {
						t.Fatalf("%v: close: %v", log, err)
					}
					closed[e] = true
				case "write", "cwrite":
					c, want := ctx.C(context.Background()), error(nil)
					pre := kind == "cwrite"
					can := closed[e] || len(q[e]) < buf
					if pre || !can {
						c, want = cancelled(t)
						stops++
					}
					next++
					node := enc.Node(enc.Integer(next))
					switch rapid.IntRange(0, 9).Draw(t, "node") {
					case 0:
						node = nil // a node like any other
					case 1:
						node = enc.Nil{}
					case 2:
						node = enc.Map{"n": node}
					case 3:
						node = enc.List{node}
					case 4:
						node = enc.List(nil)
					case 5:
						node = enc.String("")
					}
					err := p[e].Write(c, node)
					switch {
					case closed[e] && errors.Is(err, io.ErrClosedPipe):
					case closed[e] && pre && errors.Is(err, want):
					case !closed[e] && err == nil && can:
						q[e] = append(q[e], node)
					case !closed[e] && (pre || !can) && errors.Is(err, want):
					default:
						t.Fatalf("%v: buffer %d, closed %v, %d waiting: write gave %v", log, buf, closed[e], len(q[e]), err)
					}
				case "read", "cread":
					o := 1 - e
					c, want := ctx.C(context.Background()), error(nil)
					pre := kind == "cread"
					can := closed[o] || len(q[o]) > 0
					if pre || !can {
						c, want = cancelled(t)
						stops++
					}
					n, err := p[e].Read(c)
					switch {
					case err == nil && len(q[o]) > 0 && reflect.DeepEqual(n, q[o][0]):
						q[o] = q[o][1:]
						reads++
					case len(q[o]) == 0 && closed[o] && errors.Is(err, io.EOF) && n == nil:
					case (pre || !can) && errors.Is(err, want) && n == nil:
					default:
						t.Fatalf("%v: waiting %v, closed %v: read gave %v, %v", log, q[o], closed[o], n, err)
					}
				}
			})
		}
		vh.Case(reads > 0 && stops > 0, fmt.Sprintf("buf %d %v", buf, log), fmt.Sprintf("buf-%d", buf))
	})
}

// a call which waits is released by the matching event
func TestBlocked(t *testing.T) {
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		buf := rapid.IntRange(0, 2).Draw(t, "buf")
		a, b := enc.NewPipe(buf)
		bg := context.Background()
		c, cancel := context.WithCancelCause(bg)
		defer cancel(nil)
		type res struct {
			n   enc.Node
			err error
		}
		ch := make(chan res, 1)
		kind := rapid.SampledFrom([]string{"read", "write"}).Draw(t, "blocked")
		by := rapid.SampledFrom([]string{"peer", "close", "cancel"}).Draw(t, "by")
		settle := rapid.IntRange(0, 3).Draw(t, "settle")
		vh.Case(true, fmt.Sprint(buf, kind, by, settle), kind+"-"+by)
		desc := fmt.Sprintf("blocked %s (buffer %d) and %s", kind, buf, by)
		if kind == "read" {
			go func() { n, err := a.Read(c); ch <- res{n, err} }()
		} else {
			for i := 0; i < buf; i++ {
				if err := a.Write(bg, enc.Integer(i)); err != nil {
					t.Fatal(err)
				}
			}
			go func() { ch <- res{nil, a.Write(c, enc.Integer(99))} }()
		}
		for i := 0; i < settle; i++ {
			runtime.Gosched()
		}
		var r res
		vh.Within(desc, func() {
			switch {
			case by == "cancel":
				cancel(errors.New("because"))
			case kind == "read" && by == "peer":
				if err := b.Write(bg, enc.String("x")); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			case kind == "read":
				if err := b.Close(bg); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			case by == "peer":
				for i := 0; i <= buf; i++ {
					n, err := b.Read(bg)
					want := enc.Node(enc.Integer(i))
					if i == buf {
						want = enc.Integer(99)
					}
					if err != nil || n != want {
						t.Fatalf("%s: read %v %v", desc, n, err)
					}
				}
			default:
				if err := a.Close(bg); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			}
			r = <-ch
		})
		ok := false
		switch {
		case by == "cancel":
			ok = errors.Is(r.err, context.Canceled)
		case kind == "read" && by == "peer":
			ok = r.err == nil && r.n == enc.Node(enc.String("x"))
		case kind == "read":
			ok = errors.Is(r.err, io.EOF)
		case by == "peer":
			ok = r.err == nil
		default:
			ok = errors.Is(r.err, io.ErrClosedPipe)
		}
		if !ok {
			t.Fatalf("%s: %v %v", desc, r.n, r.err)
		}
	})
}

// both directions at once: what was written is read exactly once and in order
func TestConcurrent(t *testing.T) {
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		buf := rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "buf")
		var p [2]enc.Pipe
		p[0], p[1] = enc.NewPipe(buf)
		bg := context.Background()
		type producer struct {
			end, id, n int
			cancelAt   int
			sent       []int
			err        error
		}
		type consumer struct {
			end     int
			cancels int
			got     []int
			err     error
		}
		var ps []*producer
		var cs []*consumer
		early := [2]int{}
		for e := 0; e < 2; e++ {
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "producers"); i < n; i++ {
				ps = append(ps, &producer{end: e, id: i, n: rapid.IntRange(0, 15).Draw(t, "values"), cancelAt: rapid.IntRange(-10, 15).Draw(t, "cancel")})
			}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "consumers"); i < n; i++ {
				cs = append(cs, &consumer{end: e, cancels: rapid.IntRange(0, 3).Draw(t, "cancels")})
			}
			early[e] = rapid.SampledFrom([]int{-1, -1, 0, 3, 8}).Draw(t, "early")
		}
		var pw [2]sync.WaitGroup
		var cw sync.WaitGroup
		var progress [2]chan struct{}
		progress[0], progress[1] = make(chan struct{}, 1000), make(chan struct{}, 1000)
		for _, x := range ps {
			pw[x.end].Add(1)
			go func() {
				defer pw[x.end].Done()
				for i := 0; i < x.n; i++ {
					v := x.id*1000 + i
					c := ctx.C(bg)
					if i == x.cancelAt {
						cc, cf := context.WithCancel(bg)
						go cf()
						c = cc
					}
					err := p[x.end].Write(c, enc.Integer(v))
					progress[x.end] <- struct{}{}
					switch {
					case err == nil:
						x.sent = append(x.sent, v)
					case errors.Is(err, io.ErrClosedPipe) && early[x.end] >= 0:
						return
					case c != bg && errors.Is(err, context.Canceled):
					default:
						x.err = err
						return
					}
				}
			}()
		}
		for _, x := range cs {
			cw.Add(1)
			go func() {
				defer cw.Done()
				for {
					c := ctx.C(bg)
					if x.cancels > 0 {
						x.cancels--
						cc, cf := context.WithCancel(bg)
						go cf()
						c = cc
					}
					n, err := p[x.end].Read(c)
					switch {
					case err == nil:
						x.got = append(x.got, int(n.(enc.Integer)))
					case c != bg && errors.Is(err, context.Canceled):
					case errors.Is(err, io.EOF):
						return
					default:
						x.err = err
						return
					}
				}
			}()
		}
		closeErr := make([]error, 4)
		vh.Within("pipe", func() {
			var w sync.WaitGroup
			for e := 0; e < 2; e++ {
				w.Add(1)
				go func() {
					defer w.Done()
					if early[e] >= 0 {
						done := make(chan struct{})
						go func() { pw[e].Wait(); close(done) }()
						for i := 0; i < early[e]; i++ {
							select {
							case <-progress[e]:
							case <-done:
							}
						}
						closeErr[e] = p[e].Close(bg)
					}
					pw[e].Wait()
					closeErr[2+e] = p[e].Close(bg)
				}()
			}
			w.Wait()
			cw.Wait()
		})
		desc := fmt.Sprintf("buf %d early %v", buf, early)
		for _, x := range ps {
			desc += fmt.Sprintf(" p%d:%d/%d", x.end, x.n, x.cancelAt)
			if x.err != nil {
				t.Fatalf("%s: write: %v", desc, x.err)
			}
		}
		total := 0
		for _, x := range cs {
			desc += fmt.Sprintf(" c%d", x.end)
			if x.err != nil {
				t.Fatalf("%s: read: %v", desc, x.err)
			}
			total += len(x.got)
		}
		for _, err := range closeErr {
			if err != nil {
				t.Fatalf("%s: close: %v", desc, err)
			}
		}
		vh.Case(total > 0, desc, "concurrent")
		for e := 0; e < 2; e++ {
			count := map[int]int{}
			for _, x := range cs {
				if x.end != 1-e {
					continue
				}
				last := map[int]int{}
				for _, v := range x.got {
					count[v]++
					if l, ok := last[v/1000]; ok && l >= v {
						t.Fatalf("%s: end %d: %d read after %d", desc, e, v, l)
					}
					last[v/1000] = v
				}
			}
			sent := 0
			for _, x := range ps {
				if x.end != e {
					continue
				}
				sent += len(x.sent)
				for _, v := range x.sent {
					if count[v] != 1 {
						t.Fatalf("%s: end %d: %d written once, read %d times", desc, e, v, count[v])
					}
				}
			}
			if sent != len(count) {
				t.Fatalf("%s: end %d: %d written, %d read: %v", desc, e, sent, len(count), count)
			}
		}
	})
}
