package t02

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/test"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Property = "T02"
	closeWake, retainWrite, retainAppend = vh.Listed("close-wake"), vh.Listed("retain-write"), vh.Listed("retain-append")
	emptyRead, restWake = vh.Listed("empty-read"), vh.Listed("rest-wake")
	vh.Main(m, "T02", "sequences of appends, reads, writes and closes of drawn sizes, by callers which reuse their slices, against two byte queues; blocked readers released by data and by either way to close; and concurrent feeders, readers, writers and closers; non-trivial: data is read in another chunking than it was fed, or a blocked reader is released, or several readers compete")
}

// the recorded findings: the searches keep clear of exactly these
var closeWake, retainWrite, retainAppend, emptyRead, restWake bool

// soon tells whether f returns
func soon(f func()) bool {
	ch := make(chan struct{})
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(2 * time.Second):
		return false
	}
}

func TestKnown(t *testing.T) {
	if vh.Shard != 0 {
		return
	}
	vh.Known(t, "close-wake", "a Read() waiting for data does not return when the connection is closed with Close()", func() error {
		p := test.NewBufferedRWC()
		if !soon(func() {
			go func() { time.Sleep(50 * time.Millisecond); _ = p.Close() }()
			_, _ = p.Read(make([]byte, 1))
		}) {
			p.SetReadClosed()
			return errors.New("still waiting")
		}
		return nil
	})
	vh.Known(t, "retain-write", "Write() keeps the caller's slice", func() error {
		p := test.NewBufferedRWC()
		b := []byte("one")
		_, _ = p.Write(b)
		copy(b, "two")
		if got := string(joined(p.Written)); got != "one" {
			return errors.New(got)
		}
		return nil
	})
	vh.Known(t, "retain-append", "Append() keeps the caller's slice", func() error {
		p := test.NewBufferedRWC()
		b := []byte("one")
		p.Append(b)
		copy(b, "two")
		dst := make([]byte, 3)
		if _, err := p.Read(dst); err != nil || string(dst) != "one" {
			return fmt.Errorf("%q, %v", dst, err)
		}
		return nil
	})
	vh.Known(t, "empty-read", "Read() into an empty slice with spare capacity waits for data", func() error {
		p := test.NewBufferedRWC()
		if !soon(func() { _, _ = p.Read(make([]byte, 0, 4)) }) {
			p.SetReadClosed()
			return errors.New("still waiting")
		}
		return nil
	})
	vh.Known(t, "rest-wake", "what a reader leaves of a chunk wakes no other waiting reader", func() error {
		p := test.NewBufferedRWC()
		ok := soon(func() {
			var wg sync.WaitGroup
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); _, _ = p.Read(make([]byte, 1)) }()
			}
			time.Sleep(100 * time.Millisecond)
			p.Append([]byte("ab"))
			wg.Wait()
		})
		p.SetReadClosed()
		if !ok {
			return errors.New("still waiting")
		}
		return nil
	})
}

// gen yields a stream of bytes which never repeats nearby
type gen struct{ n uint32 }

func (g *gen) take(k int) []byte {
	out := make([]byte, 0, k+4)
	for len(out) < k {
		out = binary.BigEndian.AppendUint32(out, g.n*2654435761)
		g.n++
	}
	return out[:k:k]
}

func size(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 1, 2, 3, 5, 8, 0, 13, 100, 4096}).Draw(t, "size")
}

func joined(l [][]byte) []byte { return bytes.Join(l, nil) }

func TestSequence(t *testing.T) {
	vh.Check(t, 30000, 600000, func(t *rapid.T) {
		p := test.NewBufferedRWC()
		var g gen
		var toRead, written []byte
		closed := false
		how := ""
		desc := ""
		split, reads := 0, 0
		feed := make([]byte, 8192) // callers reuse their buffers
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"append", "append", "read", "read", "read", "write", "write", "zero", "close"}).Draw(t, "op")
			if op == "close" && rapid.IntRange(0, 3).Draw(t, "really") > 0 {
				op = "read"
			}
			k := size(t)
			desc += fmt.Sprintf("%s %d, ", op, k)
			vh.Within(desc, func() {
				switch op {
				case "append":
					b := feed[:copy(feed, g.take(k))]
					if closed {
						if func() (r any) { // refuses, loudly
							defer func() { r = recover() }()
							p.Append(b)
							return nil
						}() == nil {
							t.Fatalf("%s: append to a closed connection was accepted", desc)
						}
						return
					}
					p.Append(b)
					toRead = append(toRead, b...)
					if retainAppend {
						feed = make([]byte, len(feed))
					} else {
						scribble(b)
					}
				case "read", "zero":
					if op == "zero" {
						k = 0
					}
					if k > 0 && len(toRead) == 0 && !closed {
						return // waits, see TestBlocked
					}
					var dst []byte
					switch rapid.IntRange(0, 2).Draw(t, "cap") {
					case 0:
						dst = make([]byte, k)
					default:
						dst = make([]byte, k, k+rapid.IntRange(1, 9).Draw(t, "spare"))
						if k == 0 && emptyRead {
							dst = []byte{}
						}
					}
					full := dst[:cap(dst)]
					for i := range full {
						full[i] = 0x55
					}
					before := len(toRead)
					got, err := p.Read(dst)
					if got < 0 || got > len(dst) || got > len(toRead) || !bytes.Equal(dst[:got], toRead[:got]) {
						t.Fatalf("%s: read %d bytes %x, waiting: %x", desc, got, dst[:max(0, min(got, len(dst)))], head(toRead))
					}
					for i := got; i < len(full); i++ {
						if i >= len(dst) && full[i] != 0x55 {
							t.Fatalf("%s: wrote behind the slice", desc)
						}
					}
					toRead = toRead[got:]
					switch {
					case err == nil && got == 0 && k > 0 && before > 0:
						// an empty append may come out as an empty read, but not for ever
						ok := false
						for j := 0; j < n+2 && !ok; j++ {
							got, err := p.Read(dst)
							if err != nil {
								t.Fatalf("%s: read: %v with %d bytes waiting", desc, err, before)
							}
							if got > 0 {
								if !bytes.Equal(dst[:got], toRead[:got]) {
									t.Fatalf("%s: read %x, waiting: %x", desc, dst[:got], head(toRead))
								}
								toRead = toRead[got:]
								ok = true
							}
						}
						if !ok {
							t.Fatalf("%s: nothing is read with %d bytes waiting", desc, before)
						}
					case err == nil:
					case err == io.EOF && closed && before == 0:
					default:
						t.Fatalf("%s: read: %v with %d bytes waiting, closed %v", desc, err, before, closed)
					}
					if k > 0 && before == 0 && closed && err != io.EOF {
						for j := 0; j < n+2 && err == nil; j++ {
							if got, err = p.Read(dst); got != 0 {
								t.Fatalf("%s: read %d bytes from nothing", desc, got)
							}
						}
						if err != io.EOF {
							t.Fatalf("%s: drained and closed, read gave %v", desc, err)
						}
					}
					if got > 0 {
						reads++
						if len(toRead) > 0 {
							split++
						}
					}
				case "write":
					b := feed[:copy(feed, g.take(k))]
					orig := append([]byte{}, b...)
					got, err := p.Write(b)
					if !bytes.Equal(b, orig) {
						t.Fatalf("%s: write changed its argument", desc)
					}
					switch {
					case k == 0 && got == 0 && (err == nil || closed):
					case closed && got == 0 && errors.Is(err, io.ErrClosedPipe):
					case !closed && got == k && err == nil:
						written = append(written, b...)
					default:
						t.Fatalf("%s: write of %d, closed %v: %d, %v", desc, k, closed, got, err)
					}
					if retainWrite {
						feed = make([]byte, len(feed))
					} else {
						scribble(b)
					}
				case "close":
					was := closed
					if rapid.Bool().Draw(t, "peer") {
						p.SetReadClosed()
						how = "peer"
					} else {
						err := p.Close()
						if !was && err != nil || was && err != nil && !errors.Is(err, io.ErrClosedPipe) {
							t.Fatalf("%s: close: %v", desc, err)
						}
						how = "close"
					}
					closed = true
				}
			})
			if got := joined(p.Written); !bytes.Equal(got, written) {
				t.Fatalf("%s: written %x, the connection holds %x", desc, head(written), head(got))
			}
			if p.IsReadClosed() != closed {
				t.Fatalf("%s: closed %v", desc, p.IsReadClosed())
			}
			if len(toRead) > 0 && !p.HasRead() {
				t.Fatalf("%s: %d bytes wait and HasRead() is false", desc, len(toRead))
			}
		}
		// draining gives the rest, then the end
		if !closed {
			p.SetReadClosed()
		}
		vh.Within(desc+"drain", func() {
			rest, err := io.ReadAll(p)
			if err != nil || !bytes.Equal(rest, toRead) {
				t.Fatalf("%s: drained %x, %v instead of %x", desc, head(rest), err, head(toRead))
			}
		})
		vh.Case(split > 0 && reads > 1, desc, "closed-"+how)
	})
}

func head(b []byte) []byte { return b[:min(len(b), 40)] }

func scribble(b []byte) {
	for i := range b {
		b[i] = 0x99
	}
}

// readers which wait are released by data or by the close, all of them
func TestBlocked(t *testing.T) {
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		p := test.NewBufferedRWC()
		readers := rapid.IntRange(1, 4).Draw(t, "readers")
		k := rapid.IntRange(1, 4).Draw(t, "dst")
		by := rapid.SampledFrom([]string{"data", "close", "peer"}).Draw(t, "by")
		pause := rapid.IntRange(0, 1).Draw(t, "pause") == 0
		var g gen
		desc := fmt.Sprintf("%d readers of %d bytes released by %s, paused %v", readers, k, by, pause)
		type res struct {
			b   []byte
			err error
		}
		ch := make(chan res, readers)
		started := make(chan struct{}, readers)
		for i := 0; i < readers; i++ {
			go func() {
				dst := make([]byte, k)
				started <- struct{}{}
				n, err := p.Read(dst)
				ch <- res{dst[:n], err}
			}()
		}
		for i := 0; i < readers; i++ {
			<-started
		}
		if pause {
			time.Sleep(200 * time.Microsecond)
		}
		var want []byte
		switch by {
		case "data":
			want = g.take(readers * k) // enough for everyone
			if restWake {
				for i := 0; i < len(want); i += k {
					p.Append(append([]byte{}, want[i:i+k]...))
				}
			} else {
				p.Append(append([]byte{}, want...))
			}
		case "close":
			_ = p.Close()
			if closeWake {
				p.SetReadClosed()
			}
		case "peer":
			p.SetReadClosed()
		}
		seen := map[string]int{}
		vh.Eventually(desc, func() bool { return len(ch) == readers })
		for i := 0; i < readers; i++ {
			r := <-ch
			if by == "data" {
				if r.err != nil || len(r.b) != k {
					t.Fatalf("%s: %d bytes, %v", desc, len(r.b), r.err)
				}
				seen[string(r.b)]++
			} else if r.err != io.EOF || len(r.b) != 0 {
				t.Fatalf("%s: %d bytes, %v", desc, len(r.b), r.err)
			}
		}
		for i := 0; i < len(want); i += k {
			seen[string(want[i:i+k])]--
		}
		for s, n := range seen {
			if n != 0 {
				t.Fatalf("%s: %x read %+d times", desc, s, n)
			}
		}
		vh.Case(true, desc, "released-by-"+by)
	})
}

// records of 8 bytes: who, sequence
func TestConcurrent(t *testing.T) {
	vh.Check(t, 1500, 30000, func(t *rapid.T) {
		p := test.NewBufferedRWC()
		feeders := rapid.IntRange(1, 3).Draw(t, "feeders")
		writers := rapid.IntRange(0, 3).Draw(t, "writers")
		per := rapid.IntRange(1, 30).Draw(t, "per")
		readers := rapid.IntRange(1, 3).Draw(t, "readers")
		dst := rapid.SampledFrom([]int{8, 16, 64, 1, 3}).Draw(t, "dst")
		if readers > 1 {
			dst = 8
		}
		desc := fmt.Sprintf("%d feeders, %d writers of %d records, %d readers of %d bytes", feeders, writers, per, readers, dst)
		rec := func(who, i int) []byte {
			b := make([]byte, 8)
			binary.BigEndian.PutUint32(b, uint32(who))
			binary.BigEndian.PutUint32(b[4:], uint32(i))
			return b
		}
		parse := func(what string, stream []byte, into map[int][]int) {
			if len(stream)%8 != 0 {
				t.Fatalf("%s: %s: %d bytes", desc, what, len(stream))
			}
			for i := 0; i < len(stream); i += 8 {
				who := int(binary.BigEndian.Uint32(stream[i:]))
				into[who] = append(into[who], int(binary.BigEndian.Uint32(stream[i+4:])))
			}
		}
		streams := make([][]byte, readers)
		var rg, fg sync.WaitGroup
		for r := 0; r < readers; r++ {
			rg.Add(1)
			go func() {
				defer rg.Done()
				b := make([]byte, dst)
				for {
					n, err := p.Read(b)
					streams[r] = append(streams[r], b[:n]...)
					if err != nil {
						return
					}
					scribble(b)
				}
			}()
		}
		errc := make(chan error, writers*per)
		for f := 0; f < feeders+writers; f++ {
			fg.Add(1)
			go func() {
				defer fg.Done()
				b := make([]byte, 8)
				for i := 0; i < per; i++ {
					if retainAppend || retainWrite {
						b = make([]byte, 8)
					}
					copy(b, rec(f, i))
					if f < feeders {
						p.Append(b)
					} else if n, err := p.Write(b); n != 8 || err != nil {
						errc <- fmt.Errorf("write: %d, %v", n, err)
					}
					if !retainAppend && !retainWrite {
						scribble(b)
					}
					_ = p.HasRead()
				}
			}()
		}
		vh.Within(desc+": feeders", fg.Wait)
		if rapid.Bool().Draw(t, "peer") {
			p.SetReadClosed()
		} else {
			_ = p.Close()
			if closeWake {
				p.SetReadClosed()
			}
		}
		vh.Within(desc+": readers after the close", rg.Wait)
		select {
		case err := <-errc:
			t.Fatalf("%s: %v", desc, err)
		default:
		}
		all := map[int][]int{}
		for r, s := range streams {
			mine := map[int][]int{}
			parse(fmt.Sprintf("reader %d", r), s, mine)
			for who, l := range mine {
				for i := 1; i < len(l); i++ {
					if l[i] <= l[i-1] {
						t.Fatalf("%s: reader %d got record %d after %d of feeder %d", desc, r, l[i], l[i-1], who)
					}
				}
				all[who] = append(all[who], l...)
			}
		}
		out := map[int][]int{}
		parse("written", joined(p.Written), out)
		for f := 0; f < feeders+writers; f++ {
			l := all[f]
			if f >= feeders {
				l = out[f]
				for i := range l {
					if l[i] != i {
						t.Fatalf("%s: writer %d wrote %v", desc, f, l)
					}
				}
			}
			seen := map[int]bool{}
			for _, i := range l {
				if seen[i] || i >= per {
					t.Fatalf("%s: record %d of %d came twice or from nowhere", desc, i, f)
				}
				seen[i] = true
			}
			if len(l) != per {
				t.Fatalf("%s: %d of %d records of %d", desc, len(l), per, f)
			}
		}
		for who := range all {
			if who >= feeders {
				t.Fatalf("%s: a record of %d was read", desc, who)
			}
		}
		for who := range out {
			if who < feeders || who >= feeders+writers {
				t.Fatalf("%s: a record of %d was written", desc, who)
			}
		}
		vh.Case(readers > 1 || dst != 8, desc, fmt.Sprintf("readers-%d", readers))
	})
}
