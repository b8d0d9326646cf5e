package w03

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"pgregory.net/rapid"
	"verif/vh"
	"verif/wsc"
)

func TestMain(m *testing.M) {
	vh.Main(m, "W03", "histories of goroutines sending on one connection (plain, or replying on channels of it), with sizes around the limits of a frame, shared and unsendable values, pings from the client, a slow client, a close from either side; non-trivial: at least two goroutines with two messages each")
}

// ---- a server, where each path is a case of its own

var (
	once     sync.Once
	addr     string
	handlers sync.Map
	nextPath atomic.Int64
)

func address() string {
	once.Do(func() {
		c, _ := ctx.Background()
		s := fhttp.NewServer(c)
		s.Handle("/ws/", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if h, ok := handlers.Load(r.URL.Path); ok {
				h.(http.Handler).ServeHTTP(w, r)
				return
			}
			http.NotFound(w, r)
		}))
		a, err := s.Listen(c, "127.0.0.1:0")
		if err != nil {
			vh.Inconclusive("listen: %v", err)
		}
		addr = a.String()
	})
	return addr
}

func mount(h http.Handler) (path string, unmount func()) {
	path = fmt.Sprintf("/ws/%d", nextPath.Add(1))
	handlers.Store(path, h)
	return path, func() { handlers.Delete(path) }
}

// ---- what is sent

const (
	plainMsg = iota
	sharedMsg
	badMsg
)

type msg struct {
	Kind  int
	Size  int
	Pause int // before it: 0 nothing, 1 yield, more: microseconds
}

type sender struct {
	Msgs []msg
	Chan int // of the rpc
}

func (s sender) String() string { return fmt.Sprintf("ch%d%v", s.Chan, s.Msgs) }

var sizes = []int{0, 1, 20, 60, 70, 80, 90, 100, 110, 126, 1000, 3900, 4000, 4096, 5000, 65400, 65500, 65536, 150000}

func genSenders(t *rapid.T, chans int) (l []sender, total int) {
	n := rapid.IntRange(1, 8).Draw(t, "senders")
	for i := 0; i < n; i++ {
		s := sender{Chan: rapid.IntRange(0, chans-1).Draw(t, "chan")}
		for k, m := 0, rapid.IntRange(0, 12).Draw(t, "messages"); k < m; k++ {
			x := msg{Kind: plainMsg, Size: rapid.SampledFrom(sizes[:rapid.SampledFrom([]int{5, 11, 16, len(sizes)}).Draw(t, "upto")]).Draw(t, "size")}
			switch rapid.IntRange(0, 9).Draw(t, "kind") {
			case 8:
				x.Kind = sharedMsg
			case 9:
				x.Kind = badMsg
			}
			x.Pause = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 50, 300}).Draw(t, "pause")
			s.Msgs = append(s.Msgs, x)
			total++
		}
		l = append(l, s)
	}
	return l, total
}

type payload struct {
	S    int            `json:"s"`
	I    int            `json:"i"`
	Fill string         `json:"fill"`
	Map  map[string]int `json:"map,omitempty"`
	Any  any            `json:"any,omitempty"`
}

// a value used by many at once
var sharedMap = map[string]int{"a": 1, "b": 2, "ü\n": 3}
var sharedAny = []any{1.5, "x", nil, true, map[string]any{"k": []int{1}}}

func fill(s, i, n int) string {
	return strings.Repeat(string(rune('a'+(s*7+i)%26)), n)
}

func (x msg) value(s, i int) any {
	p := payload{S: s, I: i, Fill: fill(s, i, x.Size)}
	switch x.Kind {
	case sharedMsg:
		p.Map, p.Any = sharedMap, sharedAny
		return &p
	case badMsg:
		p.Any = []any{make(chan int)}
	}
	return p
}

func (x msg) pause() {
	switch {
	case x.Pause == 1:
		runtime.Gosched()
	case x.Pause > 1:
		time.Sleep(time.Duration(x.Pause) * time.Microsecond)
	}
}

const sharedText = `"map":{"a":1,"b":2,"ü\n":3},"any":[1.5,"x",null,true,{"k":[1]}]`

// does the text carry that message?
func (x msg) check(s, i int, text []byte) error {
	var p payload
	if err := json.Unmarshal(text, &p); err != nil {
		return err
	}
	if p.Fill != fill(s, i, x.Size) {
		return fmt.Errorf("sender %d message %d: %d bytes %.40q, want %d", s, i, len(p.Fill), p.Fill, x.Size)
	}
	var want, got any
	if x.Kind == sharedMsg {
		_ = json.Unmarshal([]byte("{"+sharedText+"}"), &want)
		_ = json.Unmarshal([]byte(fmt.Sprintf(`{"map":%s,"any":%s}`, js(p.Map), js(p.Any))), &got)
		if js(want) != js(got) {
			return fmt.Errorf("sender %d message %d: got %v want %v", s, i, js(got), js(want))
		}
	} else if p.Map != nil || p.Any != nil {
		return fmt.Errorf("sender %d message %d: more than sent: %+v", s, i, p)
	}
	return nil
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

// ---- one history

type history struct {
	senders []sender
	total   int
	rpc     bool
	chans   int
	pings   int
	slow    bool   // the client reads only after a while
	end     string // "", close (by the server), both (closed from two sides at once), leave, polite
	after   int    // the end comes after that many sends
	closers int
}

func genHistory(t *rapid.T) *history {
	h := &history{rpc: rapid.Bool().Draw(t, "rpc"), chans: 1, closers: 1}
	if h.rpc {
		h.chans = rapid.IntRange(1, 3).Draw(t, "chans")
	}
	h.senders, h.total = genSenders(t, h.chans)
	h.end = rapid.SampledFrom([]string{"", "", "", "close", "close", "leave", "polite"}).Draw(t, "end")
	if h.end != "" {
		h.after = rapid.IntRange(0, h.total).Draw(t, "after")
	}
	if h.end == "close" {
		h.closers = rapid.IntRange(1, 3).Draw(t, "closers")
	} else {
		h.pings = rapid.SampledFrom([]int{0, 0, 1, 5, 20}).Draw(t, "pings")
		h.slow = rapid.IntRange(0, 9).Draw(t, "slow") > 7
	}
	return h
}

func (h *history) String() string {
	return fmt.Sprintf("rpc=%v chans=%d senders=%v pings=%d slow=%v end=%q after %d by %d", h.rpc, h.chans, h.senders, h.pings, h.slow, h.end, h.after, h.closers)
}

// the state at the server
type run struct {
	h       *history
	sends   []func(path string, v any) error // by channel
	close   func() error
	results [][]error // of each send
	start   chan bool
	ended   chan error
	done    atomic.Int64
	closing atomic.Bool // the close was asked for
	closed  atomic.Bool // the close has returned
	before  []int       // of each sender, how many were done before the close was asked
	late    []error     // sends after the close
}

type Obj struct {
	Opened chan ws.C
}

func (o *Obj) Init(c ws.C) error {
	o.Opened <- c
	return nil
}

func (o *Obj) Echo(c ws.C, n int) error { return c.Reply("echo", n) }

// every goroutine sends its own
func (r *run) senders() {
	var wg sync.WaitGroup
	<-r.start
	var mu sync.Mutex
	sent := make([]int, len(r.h.senders))
	for s := range r.h.senders {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			x := r.h.senders[s]
			for i, m := range x.Msgs {
				m.pause()
				err := r.sends[x.Chan]("out", m.value(s, i))
				mu.Lock()
				r.results[s] = append(r.results[s], err)
				if err == nil {
					sent[s] = i + 1
				}
				mu.Unlock()
				r.done.Add(1)
			}
		}(s)
	}
	if r.h.end == "close" {
		for k := 0; k < r.h.closers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r.done.Load() < int64(r.h.after) {
					time.Sleep(20 * time.Microsecond)
				}
				mu.Lock()
				if r.before == nil {
					r.before = append([]int{}, sent...)
				}
				mu.Unlock()
				r.closing.Store(true)
				_ = r.close()
				mu.Lock()
				r.late = append(r.late, r.sends[0]("late", payload{S: -1}))
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	r.ended <- nil
}

func (h *history) run(t *rapid.T) error {
	r := &run{h: h, results: make([][]error, len(h.senders)), start: make(chan bool), ended: make(chan error, 1)}
	var handler http.Handler
	opened := make(chan ws.C, 10)
	conns := make(chan *ws.Conn, 1)
	var cc ctx.C
	if h.rpc {
		rpc := &ws.RpcHandler{}
		c, _ := ctx.Background()
		rpc.MustRegister(c, &Obj{Opened: opened})
		handler = rpc.Server()
	} else {
		handler = ws.Handler{
			OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
				cc = c
				conns <- conn
				return c, nil
			},
			OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, map[string]any{"echo": n}) },
		}.Server()
	}
	over := make(chan bool)
	path, unmount := mount(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		defer close(over)
		handler.ServeHTTP(w, q)
	}))
	defer unmount()
	conn, err := wsc.Dial(address(), path)
	if err != nil {
		return err
	}
	defer conn.Close()
	if h.rpc {
		for i := 0; i < h.chans; i++ {
			if err := conn.Send(wsc.Text, []byte(fmt.Sprintf(`{"channel":"%d","path":"obj","type":"open"}`, i))); err != nil {
				return err
			}
		}
		for i := 0; i < h.chans; i++ {
			var c ws.C
			select {
			case c = <-opened:
			case <-time.After(vh.HangLimit()):
				vh.Violation("%v: the channel is not opened", h)
			}
			r.sends = append(r.sends, c.Reply)
			r.close = c.Close
		}
	} else {
		s := <-conns
		r.sends = append(r.sends, func(path string, v any) error { return s.Send(cc, v) })
		r.close = func() error { return s.Close(cc, ws.EXIT) }
	}
	go r.senders()
	echoes := 0
	wrote := make(chan error, 1)
	if h.pings > 0 {
		echoes = h.pings
	}
	go func() {
		for i := 0; i < h.pings; i++ {
			_, err := conn.Write(wsc.Encode(true, 0, wsc.Ping, []byte(fmt.Sprint(i)), wsc.Mask))
			if err == nil && h.rpc {
				err = conn.Send(wsc.Text, []byte(fmt.Sprintf(`{"channel":"0","path":"echo","data":%d}`, i)))
			} else if err == nil {
				err = conn.Send(wsc.Text, []byte(fmt.Sprint(i)))
			}
			if err != nil {
				wrote <- err
				return
			}
		}
		wrote <- nil
	}()
	close(r.start)
	if h.slow {
		time.Sleep(3 * time.Millisecond)
	}

	// the client reads until everything came, or the end
	next := make([]int, len(h.senders)) // messages seen
	want := 0
	for _, s := range h.senders {
		for _, m := range s.Msgs {
			if m.Kind != badMsg {
				want++
			}
		}
	}
	leaveAt := h.after
	if leaveAt > want {
		leaveAt = want
	}
	got, pongs, echoed, returns := 0, 0, 0, 0
	left, sawClose := false, false
	var readErr error
	for {
		if h.end == "leave" || h.end == "polite" {
			if got >= leaveAt && !left {
				left = true
				if h.end == "leave" {
					conn.Close()
					break
				}
				<-wrote
				_ = conn.Send(wsc.Close, []byte{3, 232})
			}
		} else if h.end == "" && got == want && pongs == h.pings && echoed == echoes && (!h.rpc || returns == echoes) {
			break
		}
		if left && h.end == "leave" {
			break
		}
		if left {
			_ = conn.SetReadDeadline(time.Now().Add(vh.HangLimit()))
		}
		f, err := conn.Read(1 << 20)
		if err != nil {
			readErr = err
			break
		}
		if !f.Fin {
			return fmt.Errorf("a piece: %v", f)
		}
		switch f.Op {
		case wsc.Pong:
			if string(f.Payload) != fmt.Sprint(pongs) {
				return fmt.Errorf("pong %d is %v", pongs, f)
			}
			pongs++
			continue
		case wsc.Close:
			sawClose = true
			if h.end == "" {
				return fmt.Errorf("closed: %v", f)
			}
			if len(f.Payload) != 2 || f.Payload[0] != 3 || f.Payload[1] != 232 {
				return fmt.Errorf("close frame %v", f)
			}
			continue
		case wsc.Text:
		default:
			return fmt.Errorf("got %v", f)
		}
		data := f.Payload
		channel := -1
		if h.rpc {
			var fr struct {
				Channel, Path, Type string
				Data                json.RawMessage
			}
			if err := json.Unmarshal(data, &fr); err != nil {
				return fmt.Errorf("got %v: %v", f, err)
			}
			if _, err := fmt.Sscan(fr.Channel, &channel); err != nil {
				return fmt.Errorf("got %v", f)
			}
			data = fr.Data
			switch {
			case fr.Type == "return" && fr.Path == "echo":
				returns++
				continue
			case fr.Path == "echo" && fr.Type == "":
				data = []byte(`{"echo":` + string(data) + `}`)
			case fr.Path != "out" || fr.Type != "":
				return fmt.Errorf("got %v", f)
			}
		}
		var p struct {
			S, I *int
			Echo *int
		}
		if err := json.Unmarshal(data, &p); err != nil {
			return fmt.Errorf("got %v: %v", f, err)
		}
		if p.Echo != nil {
			if *p.Echo != echoed {
				return fmt.Errorf("echo %d is %v", echoed, f)
			}
			echoed++
			continue
		}
		if p.S == nil || p.I == nil || *p.S < 0 || *p.S >= len(h.senders) {
			return fmt.Errorf("got %v", f)
		}
		s, x := *p.S, h.senders[*p.S]
		for next[s] < len(x.Msgs) && x.Msgs[next[s]].Kind == badMsg {
			next[s]++
		}
		if next[s] != *p.I {
			return fmt.Errorf("sender %d: message %d instead of %d", s, *p.I, next[s])
		}
		if h.rpc && channel != x.Chan {
			return fmt.Errorf("sender %d: on channel %d instead of %d", s, channel, x.Chan)
		}
		if err := x.Msgs[*p.I].check(s, *p.I, data); err != nil {
			return err
		}
		next[s]++
		got++
	}
	if wsc.Hung(readErr) {
		b := make([]byte, 4<<20)
		b = b[:runtime.Stack(b, true)]
		return fmt.Errorf("neither messages nor a close: got %d of %d, %d pongs, %d echoes\n%s", got, want, pongs, echoed, b)
	}
	if readErr != nil && (h.end == "" || strings.HasPrefix(readErr.Error(), "MALFORMED")) {
		return fmt.Errorf("got %d of %d messages, %d pongs, %d echoes: %v", got, want, pongs, echoed, readErr)
	}
	if errors.Is(readErr, net.ErrClosed) {
		vh.Inconclusive("own connection closed")
	}
	select {
	case <-r.ended:
	case <-time.After(vh.HangLimit()):
		b := make([]byte, 4<<20)
		b = b[:runtime.Stack(b, true)]
		return fmt.Errorf("the senders do not end\n%s", b)
	}
	// what the senders were told
	for s, l := range r.results {
		for i, err := range l {
			bad := h.senders[s].Msgs[i].Kind == badMsg
			if bad && err == nil {
				return fmt.Errorf("sender %d: no error for the unsendable message %d", s, i)
			}
			if !bad && err != nil && h.end == "" {
				return fmt.Errorf("sender %d message %d: %v", s, i, err)
			}
			if h.end == "close" && !bad && err == nil && next[s] <= i {
				return fmt.Errorf("sender %d: message %d was sent without an error but never came", s, i)
			}
			if h.end == "close" && !bad && err != nil && next[s] > i {
				return fmt.Errorf("sender %d: message %d came, but the sender was told %v", s, i, err)
			}
		}
	}
	if h.end == "close" {
		if !sawClose {
			return fmt.Errorf("the connection ended without a close: %v", readErr)
		}
		for _, err := range r.late {
			if err == nil {
				return fmt.Errorf("no error when sending after the close")
			}
		}
	}
	conn.Close()
	select {
	case <-over:
	case <-time.After(vh.HangLimit()):
		b := make([]byte, 4<<20)
		b = b[:runtime.Stack(b, true)]
		return fmt.Errorf("the connection is still served\n%s", b)
	}
	if err := r.sends[0]("late", 1); err == nil {
		return fmt.Errorf("no error when sending on a connection which is over")
	}
	return nil
}

func TestHistories(t *testing.T) {
	vh.Check(t, 2000, 60000, func(t *rapid.T) {
		h := genHistory(t)
		busy := 0
		for _, s := range h.senders {
			if len(s.Msgs) > 1 {
				busy++
			}
		}
		end := h.end
		if end == "" {
			end = "none"
		}
		vh.Case(busy > 1, h.String(), fmt.Sprintf("rpc-%v", h.rpc), "end-"+end, fmt.Sprintf("slow-%v", h.slow))
		if err := h.run(t); err != nil {
			t.Fatalf("%v: %v", h, err)
		}
	})
}
