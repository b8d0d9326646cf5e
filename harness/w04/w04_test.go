package w04

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
	"verif/wsc"
)

func TestMain(m *testing.M) {
	vh.Main(m, "W04", "sets of parallel connections to one generic handler: refused, cancelled, closed and failing ones, messages of all sizes and JSON kinds, whole or in pieces with pings in between, malformed ones, and clients which leave; non-trivial: a connection with at least two messages")
}

// ---- what is sent, and what the handler does

type message struct {
	text   []byte
	op     byte
	pieces []int
	ping   bool
	bad    bool // not JSON
	pause  int  // of the handler
	reply  bool
}

type plan struct {
	connect string // "", none, error, wrong (an error and a context), greet, panic
	msgs    []message
	act     string // what the handler does at a message: "", error, close, cancel, panic
	at      int
	kind    int    // of the error
	end     string // stay (until all came), polite, leave, or cut, mixed, lonely: a damaged message comes last
	tail    []byte
	derive  bool // OnConnect returns another context
}

func (p *plan) String() string {
	var l []string
	for _, m := range p.msgs {
		s := string(m.text)
		if len(s) > 40 {
			s = fmt.Sprintf("%.20s...(%d)", s, len(s))
		}
		l = append(l, fmt.Sprintf("%d:%q%v", m.op, s, m.pieces))
	}
	return fmt.Sprintf("{connect=%q %s at %d kind %d end=%s%.40x msgs=%v}", p.connect, p.act, p.at, p.kind, p.end, p.tail, l)
}

var sizes = []int{0, 1, 20, 100, 125, 126, 127, 1000, 4090, 4096, 4097, 30000, 65530, 65536, 70000, 200000}

var rarely = []bool{24: true}

func genMessage(t *rapid.T, i int) message {
	m := message{op: wsc.Text, reply: rapid.IntRange(0, 9).Draw(t, "silent") < 7}
	switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
	case k == 3 && rapid.SampledFrom(rarely).Draw(t, "huge"):
		n := rapid.SampledFrom([]int{1<<20 - 10, 1<<20 + 1, 3 << 20}).Draw(t, "size")
		m.text = []byte(fmt.Sprintf(`{"i":%d,"fill":%q}`, i, strings.Repeat(string(rune('a'+i%26)), n)))
	case k < 4:
		m.text = []byte(fmt.Sprintf(`{"i":%d,"fill":%q}`, i, strings.Repeat(string(rune('a'+i%26)), rapid.SampledFrom(sizes).Draw(t, "size"))))
	case k < 6:
		m.text = []byte(fmt.Sprint(i))
	case k < 9:
		m.text = []byte(gen.JSON(3).Draw(t, "json").Text(t))
	default:
		m.text = []byte(rapid.SampledFrom([]string{"null", "", `"close"`, `{"type":"close"}`, `{"type":"open","path":"x"}`, `[]`, ` 1 `, `1e400`}).Draw(t, "odd"))
	}
	if rapid.IntRange(0, 3).Draw(t, "binary") > 2 {
		m.op = wsc.Binary
	}
	if len(m.text) > 1 && rapid.IntRange(0, 2).Draw(t, "split") > 1 {
		left := len(m.text)
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "pieces"); i < n; i++ {
			k := rapid.IntRange(0, left).Draw(t, "piece")
			m.pieces = append(m.pieces, k)
			left -= k
		}
	}
	m.ping = rapid.IntRange(0, 4).Draw(t, "ping") > 3
	m.pause = rapid.SampledFrom([]int{0, 0, 0, 0, 20, 300}).Draw(t, "pause")
	return m
}

func genPlan(t *rapid.T, connect string) *plan {
	p := &plan{connect: connect, end: rapid.SampledFrom([]string{"stay", "stay", "polite", "leave"}).Draw(t, "end")}
	if connect == "" {
		p.connect = rapid.SampledFrom([]string{"", "", "", "", "greet", "error", "wrong", "panic"}).Draw(t, "connect")
		p.derive = rapid.Bool().Draw(t, "derive")
	}
	if rapid.SampledFrom([]bool{false, false, false, true}).Draw(t, "damaged") {
		op := rapid.SampledFrom([]byte{wsc.Text, wsc.Binary}).Draw(t, "op")
		other := rapid.SampledFrom([]byte{wsc.Text, wsc.Binary}).Draw(t, "other")
		text := bytes.Repeat([]byte("7"), rapid.SampledFrom([]int{1, 2, 20, 125, 126, 5000, 70000}).Draw(t, "length"))
		p.end = rapid.SampledFrom([]string{"cut", "cut", "mixed", "lonely"}).Draw(t, "how")
		switch p.end {
		case "cut": // any part of these digits would be a number
			if rapid.Bool().Draw(t, "piece first") {
				p.tail = wsc.Encode(false, 0, op, []byte("3"), wsc.Mask)
				op = wsc.Cont
			}
			b := wsc.Encode(true, 0, op, text, wsc.Mask)
			head := len(b) - len(text)
			p.tail = append(p.tail, b[:rapid.SampledFrom([]int{1, head - 1, head, head, head + len(text)/2, len(b) - 1}).Draw(t, "at")]...)
		case "mixed":
			p.tail = append(wsc.Encode(false, 0, op, text, wsc.Mask), wsc.Encode(rapid.Bool().Draw(t, "fin"), 0, other, text, wsc.Mask)...)
		case "lonely":
			p.tail = wsc.Encode(true, 0, wsc.Cont, text, wsc.Mask)
		}
	}
	n := rapid.IntRange(0, 8).Draw(t, "messages")
	for i := 0; i < n; i++ {
		p.msgs = append(p.msgs, genMessage(t, i))
	}
	if n > 0 {
		p.act = rapid.SampledFrom([]string{"", "", "", "error", "error", "close", "cancel", "panic"}).Draw(t, "act")
		if p.act == "cancel" && !p.derive {
			p.act = "close"
		}
		p.at = rapid.IntRange(0, n-1).Draw(t, "at")
		p.kind = rapid.SampledFrom(errorKinds).Draw(t, "error")
		if rapid.IntRange(0, 9).Draw(t, "malformed") > 8 {
			i := rapid.IntRange(0, n-1).Draw(t, "which")
			p.msgs[i].bad = true
			p.msgs[i].text = []byte(rapid.SampledFrom([]string{"{", "nul", `{"a":1}}`, "1 2", "\x00", `"\x"`, "[1,]"}).Draw(t, "text"))
			p.msgs[i].pieces = nil
		}
	}
	return p
}

// how many messages must be handled at least and at most, and whether the server ends the connection after that
func (p *plan) handled() (min, max int, ends bool) {
	switch p.connect {
	case "error", "wrong", "panic":
		return 0, 0, true
	}
	for i, m := range p.msgs {
		if m.bad {
			return i, i, true
		}
		if i == p.at {
			switch p.act {
			case "error", "panic":
				return i + 1, i + 1, true
			case "close", "cancel":
				max := len(p.msgs)
				for k, m := range p.msgs {
					if m.bad {
						max = k
						break
					}
				}
				return i + 1, max, true
			}
		}
	}
	return len(p.msgs), len(p.msgs), false
}

type chanError struct{ C chan int }

func (chanError) Error() string { return "chan error" }

var errorKinds = func() (out []int) {
	for i := 0; i < 6+len(vh.Errs); i++ {
		out = append(out, i)
	}
	return
}()

func failure(c ctx.C, kind int) error {
	switch kind {
	case 0:
		return errors.New("failed")
	case 1:
		return ctx.NewErrorf(c, "failed")
	case 2:
		_, err := os.Open("/nonexistent/file")
		return err
	case 3:
		return chanError{make(chan int)}
	case 4:
		return context.Canceled
	case 5:
		return fmt.Errorf("wrapped: %w", shutdown.Err)
	default:
		return vh.Errs[kind-6]
	}
}

// ---- the handler, which notes all

type key struct{}

type state struct {
	mu       sync.Mutex
	p        *plan
	sid      string
	conn     *ws.Conn
	base     ctx.C
	cancel   ctx.CancelFunc
	connects int
	nodes    []enc.Node
	inside   atomic.Int32
	errs     []string
	ended    bool
}

func (s *state) bad(f string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.errs = append(s.errs, fmt.Sprintf(f, args...))
}

func sidTag(c ctx.C) (out string) {
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		if k == "ws.sid" {
			_ = json.Unmarshal(j, &out)
		}
		return nil
	})
	return out
}

type pathKey struct{}

func (s *state) handler(onConnect bool) http.Handler {
	h := ws.Handler{
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			if s.inside.Add(1) != 1 {
				s.bad("a message is handled while another one is")
			}
			defer s.inside.Add(-1)
			s.mu.Lock()
			i := len(s.nodes)
			s.nodes = append(s.nodes, n)
			if s.conn == nil && !onConnect {
				s.conn, s.sid, s.base = conn, conn.SID(), c
			}
			connects := s.connects
			s.mu.Unlock()
			if onConnect && connects != 1 {
				s.bad("message %d after %d connects", i, connects)
			}
			if conn != s.conn || conn.SID() != s.sid || sidTag(c) != s.sid {
				s.bad("message %d on %q, tagged %q, instead of %q", i, conn.SID(), sidTag(c), s.sid)
			}
			if got, _ := c.Value(key{}).(*state); s.p.derive && got != s {
				s.bad("message %d without the context returned by OnConnect", i)
			}
			select {
			case <-shutdown.Done():
				s.bad("the shutdown is complete while message %d is handled", i)
			default:
			}
			if i >= len(s.p.msgs) {
				s.bad("message %d is one too many: %v", i, n)
				return nil
			}
			m := s.p.msgs[i]
			if m.pause > 0 {
				time.Sleep(time.Duration(m.pause) * time.Microsecond)
			}
			if m.reply {
				if err := conn.Send(c, map[string]any{"echo": i, "data": n}); err != nil && s.p.end == "stay" && (s.p.act == "" || i <= s.p.at) {
					s.bad("echo %d: %v", i, err)
				}
			}
			if i == s.p.at {
				switch s.p.act {
				case "error":
					return failure(c, s.p.kind)
				case "panic":
					panic(http.ErrAbortHandler)
				case "close":
					_ = conn.Close(c, ws.EXIT)
				case "cancel":
					s.cancel(nil)
				}
			}
			return nil
		},
	}
	if onConnect {
		h.OnConnect = func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			s.mu.Lock()
			s.connects++
			s.conn, s.sid, s.base = conn, conn.SID(), c
			n := len(s.nodes)
			s.mu.Unlock()
			if n > 0 {
				s.bad("connect after %d messages", n)
			}
			if conn.SID() == "" || sidTag(c) != conn.SID() {
				s.bad("connection %q is tagged %q", conn.SID(), sidTag(c))
			}
			if c.Err() != nil {
				s.bad("connect with a context which has ended: %v", c.Err())
			}
			select {
			case <-shutdown.Done():
				s.bad("the shutdown is complete while connecting")
			default:
			}
			switch s.p.connect {
			case "error":
				return nil, failure(c, s.p.kind)
			case "wrong":
				return c, failure(c, s.p.kind)
			case "panic":
				panic(http.ErrAbortHandler)
			case "greet":
				if err := conn.Send(c, map[string]any{"greeting": conn.SID()}); err != nil {
					s.bad("greeting: %v", err)
				}
			}
			if s.p.derive {
				c, s.cancel = ctx.WithCancel(context.WithValue(c, key{}, s))
			}
			return c, nil
		}
	}
	return h.Server()
}

// ---- the server

var (
	states   sync.Map
	nextPath atomic.Int64
	server   = sync.OnceValue(func() string {
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h, ok := states.Load(r.URL.Path)
			if !ok {
				w.WriteHeader(404)
				return
			}
			h.(http.Handler).ServeHTTP(w, r)
		}))
		return strings.TrimPrefix(s.URL, "http://")
	})
)

func mount(h http.Handler) (path string, over chan bool, unmount func()) {
	path = fmt.Sprintf("/ws/%d", nextPath.Add(1))
	over = make(chan bool)
	states.Store(path, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer close(over)
		h.ServeHTTP(w, r)
	}))
	return path, over, func() { states.Delete(path) }
}

// ---- one connection

// do the texts mean the same?
func differ(got, want []byte) string {
	g, err := gen.ParseJ(got)
	if err != nil {
		return err.Error()
	}
	w, err := gen.ParseJ(want)
	if err != nil {
		return err.Error()
	}
	return gen.Cmp{}.Diff(g, w)
}

func (p *plan) run(s *state) error {
	path, over, unmount := mount(s.handler(p.connect != "none"))
	defer unmount()
	conn, err := wsc.Dial(server(), path)
	if err != nil {
		return err
	}
	defer conn.Close()
	min, max, ends := p.handled()
	wrote := make(chan bool)
	var broken atomic.Bool
	go func() {
		defer close(wrote)
		for _, m := range p.msgs {
			var b bytes.Buffer
			op, rest := m.op, m.text
			for _, n := range m.pieces {
				b.Write(wsc.Encode(false, 0, op, rest[:n], wsc.Mask))
				op, rest = wsc.Cont, rest[n:]
				if m.ping {
					b.Write(wsc.Encode(true, 0, wsc.Ping, []byte("p"), wsc.Mask))
				}
			}
			b.Write(wsc.Encode(true, 0, op, rest, wsc.Mask))
			if _, err := conn.Write(b.Bytes()); err != nil {
				broken.Store(!errors.Is(err, net.ErrClosed))
				return
			}
		}
		if p.end == "polite" {
			_ = conn.Send(wsc.Close, []byte{3, 232})
		}
		if p.tail != nil {
			_, _ = conn.Write(p.tail)
			if p.end == "cut" {
				if w, ok := conn.Conn.(interface{ CloseWrite() error }); ok {
					_ = w.CloseWrite()
				}
			}
		}
	}()
	wantReplies := 0
	for _, m := range p.msgs[:min] {
		if m.reply {
			wantReplies++
		}
	}
	pings := 0
	for _, m := range p.msgs {
		if m.ping {
			pings += len(m.pieces)
		}
	}
	greeted, replies, pongs, disconnects, closes := 0, 0, 0, 0, 0
	next, left := 0, false
	var readErr error
	for {
		if p.end == "stay" && !ends && replies == wantReplies && pongs == pings && (greeted == 1 || p.connect != "greet") {
			select { // all of it, with an end in order
			case <-wrote:
			case <-time.After(vh.HangLimit()):
				return fmt.Errorf("the messages are not read")
			}
			if !left {
				left = true
				_ = conn.Send(wsc.Close, []byte{3, 232})
			}
		}
		if p.end == "leave" && replies >= wantReplies/2 {
			break
		}
		f, err := conn.Read(32 << 20)
		if err != nil {
			readErr = err
			break
		}
		if closes > 0 && f.Op != wsc.Close && f.Op != wsc.Pong { // a ping might be read meanwhile
			return fmt.Errorf("%v after a close", f)
		}
		switch {
		case !f.Fin:
			return fmt.Errorf("a piece %v", f)
		case f.Op == wsc.Pong && string(f.Payload) == "p":
			pongs++
		case f.Op == wsc.Close:
			closes++
			if len(f.Payload) != 2 || f.Payload[0] != 3 || f.Payload[1] != 232 {
				return fmt.Errorf("close %v", f)
			}
		case f.Op == wsc.Text:
			var d struct {
				Type     string
				Greeting *string
				Echo     *int
				Data     json.RawMessage
			}
			if err := json.Unmarshal(f.Payload, &d); err != nil {
				return fmt.Errorf("got %v: %v", f, err)
			}
			switch {
			case disconnects > 0:
				return fmt.Errorf("%v after a disconnect", f)
			case d.Greeting != nil && p.connect == "greet" && replies == 0 && greeted == 0:
				greeted++
				s.mu.Lock()
				sid := s.sid
				s.mu.Unlock()
				if *d.Greeting != sid {
					return fmt.Errorf("greeted by %q, on %q", *d.Greeting, sid)
				}
			case d.Echo != nil:
				for next < len(p.msgs) && !p.msgs[next].reply {
					next++
				}
				if *d.Echo != next || next >= max {
					return fmt.Errorf("echo %v instead of %d (of %d)", f, next, max)
				}
				want := "null"
				if len(p.msgs[next].text) > 0 {
					want = string(p.msgs[next].text)
				}
				if d := differ(d.Data, []byte(want)); d != "" {
					return fmt.Errorf("echo %d of %.200s: %s", next, want, d)
				}
				next++
				replies++
			case d.Type == "disconnect":
				disconnects++
			default:
				return fmt.Errorf("got %v", f)
			}
		default:
			return fmt.Errorf("got %v", f)
		}
	}
	if wsc.Hung(readErr) {
		return fmt.Errorf("neither messages nor an end: %d replies, %d pongs", replies, pongs)
	}
	if readErr != nil && strings.HasPrefix(readErr.Error(), "MALFORMED") {
		return readErr
	}
	// with messages left unread at its end, what was on the way might be lost
	reset := false
	if ends {
		conn.Close()
		<-wrote // the reset might be told there
		reset = broken.Load() || readErr != nil && strings.Contains(readErr.Error(), "reset")
	}
	if p.end == "stay" && !reset {
		if !left && !ends {
			return fmt.Errorf("the connection ended: %v", readErr)
		}
		if replies < wantReplies {
			return fmt.Errorf("%d replies instead of %d: %v", replies, wantReplies, readErr)
		}
		reported := 0
		if p.act == "error" && min == p.at+1 && max == p.at+1 && !p.msgs[p.at].bad {
			reported = 1
		}
		if disconnects != reported && p.connect != "error" && p.connect != "wrong" {
			return fmt.Errorf("%d disconnects instead of %d", disconnects, reported)
		}
	}
	conn.Close()
	select {
	case <-over:
	case <-time.After(vh.HangLimit()):
		return fmt.Errorf("the connection is still served")
	}
	<-wrote
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.errs) > 0 {
		return fmt.Errorf("%s", strings.Join(s.errs, "; "))
	}
	if p.connect != "none" && s.connects != 1 {
		return fmt.Errorf("connected %d times", s.connects)
	}
	if len(s.nodes) > max {
		return fmt.Errorf("%d messages handled instead of %d", len(s.nodes), max)
	}
	if len(s.nodes) < min && p.end != "leave" && !reset {
		return fmt.Errorf("%d messages handled instead of %d", len(s.nodes), min)
	}
	for i, n := range s.nodes {
		var got []byte
		if n == nil {
			got = []byte("null")
		} else {
			got = enc.JSON{}.Encode(s.base, n)
		}
		want := p.msgs[i].text
		if len(want) == 0 {
			want = []byte("null")
		}
		if d := differ(got, want); d != "" {
			return fmt.Errorf("message %d handled as %.300s instead of %.300s: %s", i, got, want, d)
		}
	}
	if s.conn != nil {
		if err := s.conn.Send(s.base, 1); err == nil {
			return fmt.Errorf("no error when sending on a connection which is over")
		}
	}
	return nil
}

func TestConnections(t *testing.T) {
	vh.Check(t, 1500, 60000, func(t *rapid.T) {
		plans := make([]*plan, rapid.IntRange(1, 4).Draw(t, "connections"))
		connect := ""
		if rapid.IntRange(0, 4).Draw(t, "no connect") > 3 {
			connect = "none"
		}
		long := false
		var labels []string
		for i := range plans {
			plans[i] = genPlan(t, connect)
			long = long || len(plans[i].msgs) > 1
			for _, m := range plans[i].msgs {
				if len(m.text) > 1<<20 {
					labels = append(labels, "huge")
				}
			}
			labels = append(labels, "connect-"+plans[i].connect, "act-"+plans[i].act, "end-"+plans[i].end)
		}
		vh.Case(long, fmt.Sprint(plans), labels...)
		errs := make([]error, len(plans))
		all := make([]*state, len(plans))
		var wg sync.WaitGroup
		for i, p := range plans {
			all[i] = &state{p: p}
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = p.run(all[i])
			}()
		}
		wg.Wait()
		seen := map[string]bool{}
		for i, err := range errs {
			if err != nil {
				t.Fatalf("%v: %v", plans[i], err)
			}
			if sid := all[i].sid; sid != "" && seen[sid] {
				t.Fatalf("%q is used twice", sid)
			}
			seen[all[i].sid] = true
		}
		vh.Eventually("the release of the shutdown", func() bool {
			select {
			case <-shutdown.Done():
				return true
			default:
				return false
			}
		})
	})
}

// ---- the shutdown is held by each connection

type Obj struct{ Opened chan bool }

func (o *Obj) Ping(c ws.C) error { return nil }

func TestHold(t *testing.T) {
	vh.Check(t, 150, 4000, func(t *rapid.T) {
		n := rapid.IntRange(1, 5).Draw(t, "connections")
		type peer struct {
			conn *wsc.Conn
			over chan bool
		}
		var peers []peer
		c, _ := ctx.Background()
		var kinds []string
		for i := 0; i < n; i++ {
			var h http.Handler
			kind := rapid.SampledFrom([]string{"rpc", "plain"}).Draw(t, "kind")
			kinds = append(kinds, kind)
			if kind == "rpc" {
				h = (&ws.RpcHandler{}).MustRegister(c, &Obj{}).Server()
			} else {
				h = ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) }}.Server()
			}
			path, over, unmount := mount(h)
			defer unmount()
			conn, err := wsc.Dial(server(), path)
			if err != nil {
				t.Fatalf("dial: %v", err)
			}
			defer conn.Close()
			msg := "1"
			if kind == "rpc" {
				_ = conn.Send(wsc.Text, []byte(`{"type":"open","path":"obj","channel":"x"}`))
				msg = `{"channel":"x","path":"ping"}`
			}
			_ = conn.Send(wsc.Text, []byte(msg))
			if f, err := conn.Read(1 << 16); err != nil || f.Op != wsc.Text {
				t.Fatalf("got %v %v", f, err)
			}
			peers = append(peers, peer{conn, over})
		}
		order := rapid.Permutation(peers).Draw(t, "order")
		vh.Case(n > 1, fmt.Sprintf("hold %v", kinds), "hold")
		for i, p := range order {
			done := shutdown.Done()
			select {
			case <-done:
				t.Fatalf("%v: the shutdown is complete with %d connections left", kinds, n-i)
			default:
			}
			if rapid.Bool().Draw(t, "polite") {
				_ = p.conn.Send(wsc.Close, []byte{3, 232})
				for {
					if _, err := p.conn.Read(1 << 16); err != nil {
						break
					}
				}
			} else {
				p.conn.Close()
			}
			vh.Eventually("end of the connection", func() bool {
				select {
				case <-p.over:
					return true
				default:
					return false
				}
			})
			if i == n-1 {
				vh.Eventually("the completion", func() bool {
					select {
					case <-done:
						return true
					default:
						return false
					}
				})
			}
		}
	})
}

// ---- who is refused

func TestOrigin(t *testing.T) {
	vh.Check(t, 300, 5000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"rpc", "plain"}).Draw(t, "kind")
		var connects atomic.Int32
		var h http.Handler
		c, _ := ctx.Background()
		if kind == "rpc" {
			h = (&ws.RpcHandler{}).MustRegister(c, &Obj{}).Server()
		} else {
			h = ws.Handler{
				OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { connects.Add(1); return c, nil },
				OnData:    func(c ctx.C, conn *ws.Conn, n enc.Node) error { return nil },
			}.Server()
		}
		path, over, unmount := mount(h)
		defer unmount()
		origin := rapid.SampledFrom([]string{"http://HOST/", "https://example.com", "http://other:8080/x?y", "file:///x", "", "-", "null", "http://[::1", "%zz", "ex ample"}).Draw(t, "origin")
		good := strings.Contains(origin, "://") && !strings.Contains(origin, "[")
		vh.Case(true, kind+" "+origin, "origin")
		text := wsc.Handshake(server(), path)
		line := "Origin: http://" + server() + "/\r\n"
		if !strings.Contains(text, line) {
			vh.Inconclusive("no origin in %q", text)
		}
		if origin == "-" {
			text = strings.Replace(text, line, "", 1)
		} else {
			text = strings.Replace(text, line, "Origin: "+strings.ReplaceAll(origin, "HOST", server())+"\r\n", 1)
		}
		conn, err := net.Dial("tcp", server())
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(vh.HangLimit()))
		_, _ = conn.Write([]byte(text))
		var status int
		if _, err := fmt.Fscanf(conn, "HTTP/1.1 %d", &status); err != nil {
			t.Fatalf("%s with origin %q: %v", kind, origin, err)
		}
		if good != (status == 101) {
			t.Fatalf("%s with origin %q: status %d", kind, origin, status)
		}
		if !good && (status < 400 || status > 499) {
			t.Fatalf("%s with origin %q: status %d", kind, origin, status)
		}
		conn.Close()
		<-over
		if n := connects.Load(); kind == "plain" && (n == 1) != good {
			t.Fatalf("%s with origin %q: connected %d times", kind, origin, n)
		}
	})
}

// a handler of nothing is refused
func TestNoOnData(t *testing.T) {
	vh.Check(t, 5, 5, func(t *rapid.T) {
		h := ws.Handler{}
		if rapid.Bool().Draw(t, "connect") {
			h.OnConnect = func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return c, nil }
		}
		vh.Case(false, "no OnData", "no-ondata")
		if p := vh.Try(func() { h.Server() }); p == "" {
			t.Fatalf("a handler without OnData is accepted")
		}
	})
}
