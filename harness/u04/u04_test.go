package u04

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "U04", "a source scripted read by read (sizes around the internal buffer, empty reads, data together with the end or an error, scribbling past the count, data after the end) compared with the bytes delivered and with io.ReadAll; a cancellation or deadline before, between and during reads; and trees of gated errors; non-trivial: at least two reads deliver data, or the read is cancelled, or gates are nested")
}

type step struct {
	n   int
	err error
}

var errs = []error{
	io.EOF, io.ErrUnexpectedEOF, errors.New("disk on fire"), fmt.Errorf("wrapped: %w", io.EOF),
	context.Canceled, context.DeadlineExceeded, io.ErrClosedPipe, io.ErrNoProgress,
}

// source delivers the pattern i%251 according to a script
type source struct {
	script   []step
	at, part int
	sent     []byte
	scribble bool
	ended    int                   // reads after the end
	gate     map[int]chan struct{} // step: wait before it
	reached  chan int
	quits    ctx.C // the pending read fails when it is over, as the body of a request does
}

func (s *source) Read(p []byte) (int, error) {
	if s.part == 0 && s.gate[s.at] != nil {
		g := s.gate[s.at]
		delete(s.gate, s.at)
		s.reached <- s.at
		if s.quits == nil {
			<-g
		} else {
			select {
			case <-g:
			case <-s.quits.Done():
				return 0, s.quits.Err()
			}
		}
	}
	if s.scribble {
		for i := range p {
			p[i] = 0xee
		}
	}
	if s.at >= len(s.script) {
		s.ended++
		return copy(p, "AFTER THE END"), io.EOF
	}
	st := s.script[s.at]
	n := st.n - s.part
	if n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		b := byte(len(s.sent) % 251)
		p[i] = b
		s.sent = append(s.sent, b)
	}
	s.part += n
	if s.part < st.n {
		return n, nil
	}
	s.at, s.part = s.at+1, 0
	return n, st.err
}

func drawScript(t *rapid.T) (script []step, desc string, chunks int) {
	k := rapid.IntRange(0, 8).Draw(t, "steps")
	for i := 0; i < k; i++ {
		n := 0
		switch rapid.IntRange(0, 7).Draw(t, "size") {
		case 0:
		case 1, 2, 3:
			n = rapid.IntRange(1, 40).Draw(t, "n")
		case 4:
			n = rapid.SampledFrom([]int{511, 512, 513, 4095, 4096, 4097}).Draw(t, "n")
		case 5, 6:
			n = rapid.SampledFrom([]int{8191, 8192, 8193, 16384, 20001}).Draw(t, "n")
		default:
			n = rapid.IntRange(1, 30000).Draw(t, "n")
		}
		script = append(script, step{n: n})
		if n > 0 {
			chunks++
		}
	}
	e := io.EOF
	if rapid.Bool().Draw(t, "fail") {
		e = rapid.SampledFrom(errs).Draw(t, "err")
	}
	if k > 0 && rapid.Bool().Draw(t, "together") {
		script[k-1].err = e
	} else {
		script = append(script, step{err: e})
	}
	for _, s := range script {
		desc += fmt.Sprintf("%d/%v ", s.n, s.err)
	}
	return
}

func deadlines(t *rapid.T) (ctx.C, func()) {
	switch rapid.IntRange(0, 2).Draw(t, "ctx") {
	case 0:
		return context.Background(), func() {}
	case 1:
		c, cf := context.WithTimeout(context.Background(), time.Hour)
		return c, cf
	default:
		c, cf := context.WithCancel(context.Background())
		return c, cf
	}
}

func TestWhole(t *testing.T) {
	vh.Check(t, 20000, 400000, func(t *rapid.T) {
		script, desc, chunks := drawScript(t)
		scribble := rapid.Bool().Draw(t, "scribble")
		c, cf := deadlines(t)
		defer cf()
		ref := &source{script: script}
		want, wantErr := io.ReadAll(ref)
		src := &source{script: script, scribble: scribble}
		var closed int
		var cl func() error
		if rapid.Bool().Draw(t, "close") {
			ret := rapid.SampledFrom([]error{nil, errors.New("close failed")}).Draw(t, "closeErr")
			cl = func() error { closed++; return ret }
		}
		var got []byte
		var err error
		vh.Within("ReadAll of "+desc, func() { got, err = utils.ReadAll(c, src, cl) })
		if !bytes.Equal(got, want) {
			t.Fatalf("%s: got %d bytes, the source delivered %d: %v", desc, len(got), len(want), diff(got, want))
		}
		if !bytes.Equal(src.sent, want) {
			t.Fatalf("%s: read %d bytes of %d", desc, len(src.sent), len(want))
		}
		if (wantErr == nil) != (err == nil) || wantErr != nil && !errors.Is(err, wantErr) {
			t.Fatalf("%s: error %v instead of %v", desc, err, wantErr)
		}
		if cl != nil && closed != 1 {
			t.Fatalf("%s: closed %d times", desc, closed)
		}
		label := "fails"
		if wantErr == nil {
			label = "ends"
		}
		vh.Case(chunks > 1, desc, label)
	})
}

func diff(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at %d: %d and %d", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

// several reads at once share nothing
func TestParallel(t *testing.T) {
	vh.Check(t, 600, 12000, func(t *rapid.T) {
		n := rapid.IntRange(2, 6).Draw(t, "n")
		type job struct {
			src       *source
			desc      string
			want, got []byte
			err, exp  error
		}
		jobs := make([]*job, n)
		all := ""
		for i := range jobs {
			script, desc, _ := drawScript(t)
			j := &job{src: &source{script: script, scribble: true}, desc: desc}
			j.want, j.exp = io.ReadAll(&source{script: script})
			jobs[i] = j
			all += desc + "| "
		}
		vh.Within("parallel reads of "+all, func() {
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					j.got, j.err = utils.ReadAll(context.Background(), j.src, nil)
				}()
			}
			wg.Wait()
		})
		for _, j := range jobs {
			if !bytes.Equal(j.got, j.want) || (j.exp == nil) != (j.err == nil) || j.exp != nil && !errors.Is(j.err, j.exp) {
				t.Fatalf("%s: got %v, error %v instead of %v", j.desc, diff(j.got, j.want), j.err, j.exp)
			}
		}
		vh.Case(true, all, "parallel")
	})
}

// a cancelled read ends with the context's error while the source is still blocked, and what it returned stays as it was
func TestCancel(t *testing.T) {
	vh.Check(t, 6000, 120000, func(t *rapid.T) {
		script, desc, _ := drawScript(t)
		at := rapid.IntRange(0, len(script)-1).Draw(t, "at")
		gate := make(chan struct{})
		src := &source{script: script, scribble: true, gate: map[int]chan struct{}{at: gate}, reached: make(chan int, 1)}
		c, cancel := context.WithCancelCause(context.Background())
		defer cancel(nil)
		var want error = context.Canceled
		how := rapid.SampledFrom([]string{"cancel", "cause", "before", "deadline"}).Draw(t, "how")
		var cc ctx.C = c
		switch how {
		case "before":
			cancel(nil)
		case "deadline":
			want = context.DeadlineExceeded
			d, cf := context.WithTimeout(c, time.Duration(rapid.IntRange(-1, 400).Draw(t, "µs"))*time.Microsecond)
			defer cf()
			cc = d
		}
		if rapid.Bool().Draw(t, "the source fails as well") {
			src.quits = cc
			desc += "(fails as well) "
		}
		var closed atomic.Int64
		slow := rapid.Bool().Draw(t, "close waits") && src.quits == nil // as the body of an HTTP request does: until the pending read returns
		if slow {
			desc += "(close waits) "
		}
		readerDone, returned := make(chan struct{}), make(chan struct{})
		go func() {
			defer close(readerDone)
			if how == "cancel" || how == "cause" {
				select {
				case <-src.reached:
				case <-returned:
					return
				}
				if how == "cause" {
					cancel(errors.New("some cause"))
				} else {
					cancel(nil)
				}
			}
		}()
		var got []byte
		var err error
		vh.Within(fmt.Sprintf("cancelled (%s) ReadAll of %s blocked at %d", how, desc, at), func() {
			got, err = utils.ReadAll(cc, src, func() error {
				if slow {
					<-gate
				}
				closed.Add(1)
				return nil
			})
		})
		close(returned)
		<-readerDone
		snap := append([]byte{}, got...)
		close(gate) // the source goes on delivering, nobody must notice
		if !errors.Is(err, want) {
			t.Fatalf("%s: %s at %d: error %v instead of %v", desc, how, at, err, want)
		}
		for end := time.Now().Add(20 * time.Second); closed.Load() == 0 && time.Now().Before(end); {
			time.Sleep(10 * time.Microsecond) // not necessarily before the return
		}
		if n := closed.Load(); n != 1 {
			t.Fatalf("%s: %s at %d: closed %d times", desc, how, at, n)
		}
		total := 0
		for _, s := range script[:at] {
			total += s.n
		}
		if len(got) > total {
			t.Fatalf("%s: %s at %d: %d bytes when only %d had been delivered", desc, how, at, len(got), total)
		}
		for i, b := range got {
			if b != byte(i%251) {
				t.Fatalf("%s: %s at %d: byte %d is %d", desc, how, at, i, b)
			}
		}
		for i := range got { // the result belongs to the caller
			got[i] = 0xaa
		}
		for i := range snap {
			if snap[i] != byte(i%251) || got[i] != 0xaa {
				t.Fatalf("%s: the result changed afterwards", desc)
			}
		}
		vh.Case(true, fmt.Sprintf("%s %s %d", desc, how, at), "cancel-"+how)
	})
}

// ErrorGate hides the error of its own gate only
func TestGate(t *testing.T) {
	vh.Check(t, 20000, 400000, func(t *rapid.T) {
		other := rapid.SampledFrom(vh.Errs).Draw(t, "another error")
		depth := rapid.IntRange(1, 4).Draw(t, "depth")
		gates := make([]error, 0, depth)
		// what each level returns: 0 nil, 1 another error, 2+i the gate of level i, or -1: whatever the inner level gave
		var run func(level int) error
		type plan struct {
			pick, wrap int
		}
		plans := make([]plan, depth)
		desc := ""
		for i := range plans {
			p := plan{pick: rapid.IntRange(-1, 1+i+1).Draw(t, "pick"), wrap: rapid.IntRange(0, 3).Draw(t, "wrap")}
			plans[i] = p
			desc += fmt.Sprintf("%d:%d ", p.pick, p.wrap)
		}
		wrap := func(e error, how int) error {
			if e == nil {
				return nil
			}
			switch how {
			case 1:
				return fmt.Errorf("wrapped: %w", e)
			case 2:
				return ctx.NewErrorf(context.Background(), "with context: %w", e)
			case 3:
				return errors.Join(other, e)
			}
			return e
		}
		var fail string
		run = func(level int) error {
			var returned error
			var inner error
			got := utils.ErrorGate(func(gate error) error {
				for i, g := range gates {
					if errors.Is(gate, g) || g == gate {
						fail = fmt.Sprintf("gates %d and %d are the same error", i, level)
					}
				}
				gates = append(gates, gate)
				if level+1 < depth {
					inner = run(level + 1)
				}
				p := plans[level]
				switch {
				case p.pick == -1:
					returned = wrap(inner, p.wrap)
				case p.pick == 0:
					returned = nil
				case p.pick == 1:
					returned = wrap(other, p.wrap)
				default:
					returned = wrap(gates[p.pick-2], p.wrap)
				}
				return returned
			})
			if returned != nil && errors.Is(returned, gates[level]) {
				if got != nil {
					fail = fmt.Sprintf("level %d returned its gate %v, which came out as %v", level, returned, got)
				}
			} else if fmt.Sprint(got) != fmt.Sprint(returned) || errors.Is(got, other) != errors.Is(returned, other) {
				fail = fmt.Sprintf("level %d returned %v, which came out as %v", level, returned, got)
			}
			return got
		}
		if run(0); fail != "" {
			t.Fatalf("%s: %s", desc, fail)
		}
		vh.Case(depth > 1, desc, fmt.Sprintf("depth-%d", depth))
	})
}
