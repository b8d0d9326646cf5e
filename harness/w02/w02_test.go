package w02

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
	"verif/wsc"
)

func TestMain(m *testing.M) {
	if vh.InChild() == "server" {
		log.SetDefaultLoggerLevel(100)
		childServer()
		os.Exit(0)
	}
	vh.Main(m, "W02", "byte streams sent to a server in its own process: frames of every kind, in pieces, damaged, cut, never read; damaged handshakes; calls with any data; after each one the process and another connection must still work; non-trivial: at least one frame which is not a plain message")
}

// ---- the server

type Thing struct {
	N int
	M map[string]int
}

type deep struct {
	A *deep          `json:"a"`
	B []deep         `json:"b"`
	C map[string]any `json:"c"`
	T time.Time      `json:"t"`
	N enc.Node       `json:"n"`
}

func (o *Thing) Init(c ws.C, in []int8) error {
	if len(in) > 2 {
		panic("init")
	}
	if len(in) > 1 {
		return errors.New("two")
	}
	return nil
}
func (o *Thing) Int(c ws.C, n int) error            { return c.Reply("int", n) }
func (o *Thing) Deep(c ws.C, d *deep) error         { return c.Reply("deep", d) }
func (o *Thing) Any(c ws.C, d any) error            { return c.Reply("any", d) }
func (o *Thing) Node(c ws.C, d enc.Node) error      { return c.Reply("node", d) }
func (o *Thing) Map(c ws.C, d map[int][]bool) error { o.M["x"]++; return c.Reply("map", d) } // panics: nil map
func (o *Thing) Boom(c ws.C) error                  { panic(errors.New("boom")) }
func (o *Thing) Func(c ws.C) error                  { return c.Reply("func", func() {}) }
func (o *Thing) Wrong(c ws.C) int                   { return 3 }
func (o *Thing) Nothing(c ws.C)                     {}
func (o *Thing) Fail(c ws.C, s string) error        { return badError{make(chan int), s} }

type badError struct {
	Ch chan int
	s  string
}

func (e badError) Error() string { return e.s }

func childServer() {
	c, _ := ctx.Background()
	s := fhttp.NewServer(c)
	var active atomic.Int64
	count := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			active.Add(1)
			defer active.Add(-1)
			h.ServeHTTP(w, r)
		})
	}
	rpc := &ws.RpcHandler{}
	rpc.MustRegister(c, &Thing{N: 3})
	echo := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error { return conn.Send(c, n) }}
	s.Handle("/rpc", count(rpc.Server()))
	s.Handle("/echo", count(echo.Server()))
	s.Handle("/deny", count(ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return c, errors.New("no") },
		OnData:    echo.OnData,
	}.Server()))
	s.Handle("/fail", count(ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return c, conn.Send(c, conn.SID() != "") },
		OnData:    func(c ctx.C, conn *ws.Conn, n enc.Node) error { return badError{nil, "no data"} },
	}.Server()))
	s.Handle("/good", echo.Server())
	addr, err := s.Listen(c, "127.0.0.1:0")
	if err != nil {
		vh.Say("FAIL %v", err)
		return
	}
	vh.Say("ADDR %s", addr)
	in := bufio.NewReader(os.Stdin)
	for {
		if _, err := in.ReadString('\n'); err != nil {
			return
		}
		t0 := time.Now()
		for active.Load() > 0 && time.Since(t0) < vh.HangLimit() {
			time.Sleep(20 * time.Microsecond)
		}
		vh.Say("IDLE %d", active.Load())
	}
}

type server struct {
	c    *vh.Child
	addr string
	good *wsc.Conn
	n    int
}

var srv struct {
	sync.Mutex
	s *server
}

func get(t *rapid.T) *server {
	if srv.s != nil && !srv.s.c.Ended() {
		return srv.s
	}
	c := vh.Spawn("server")
	l, ok := c.Next(vh.HangLimit())
	if !ok || !strings.HasPrefix(l, "ADDR ") {
		vh.Inconclusive("no server: %q %s", l, c.Stderr())
	}
	s := &server{c: c, addr: l[5:]}
	var err error
	if s.good, err = wsc.Dial(s.addr, "/good"); err != nil {
		t.Fatalf("healthy connection: %v", err)
	}
	srv.s = s
	return s
}

func (s *server) drop() {
	s.c.Kill()
	srv.s = nil
}

// the server must be well after what was done to it
func (s *server) well(t *rapid.T, desc string) {
	fail := func(f string, args ...any) {
		defer s.drop()
		_, ended := s.c.WaitExit(time.Second)
		t.Fatalf("%s: %s (process ended: %v)\n%.4000s", desc, fmt.Sprintf(f, args...), ended, tail(s.c.Stderr()))
	}
	s.c.Send("idle")
	l, ok := s.c.Next(2 * vh.HangLimit())
	if !ok {
		fail("the process does not answer")
	}
	if l != "IDLE 0" {
		fail("connections are still served after their client left: %s", l)
	}
	s.n++
	msg := fmt.Sprintf(`{"n":%d,"s":"%s"}`, s.n, strings.Repeat("x", s.n%300))
	if err := s.good.Send(wsc.Text, []byte(msg)); err != nil {
		fail("a healthy connection can't send: %v", err)
	}
	f, err := s.good.Read(1 << 20)
	if err != nil || f.Op != wsc.Text || string(f.Payload) != msg {
		fail("a healthy connection got %v %v instead of %s", f, err, msg)
	}
	if e := s.c.Stderr(); strings.Contains(e, "DATA RACE") {
		fail("data race")
	}
}

func tail(s string) string {
	if i := strings.Index(s, "DATA RACE"); i >= 0 {
		return s[i:]
	}
	if i := strings.Index(s, "panic:"); i >= 0 {
		return s[i:]
	}
	return s
}

// ---- streams of frames to the echo

type script struct {
	bytes []byte
	want  []wsc.Frame // exactly, until the end
	end   string      // open, offence, lenient, cut, closed
	desc  []string
	odd   int
}

func mask(t *rapid.T) []byte {
	return rapid.SampledFrom([][]byte{{0, 0, 0, 0}, {1, 2, 3, 4}, {0xff, 0x7b, 0x22, 0x5b}}).Draw(t, "mask")
}

func (s *script) frame(t *rapid.T, fin bool, op byte, payload []byte, what string) {
	s.bytes = append(s.bytes, wsc.Encode(fin, 0, op, payload, mask(t))...)
	s.desc = append(s.desc, fmt.Sprintf("%s(op=%d fin=%v %.40q)", what, op, fin, payload))
}

func control(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 10, 124, 125}).Draw(t, "size")
	return []byte(strings.Repeat("p", n))
}

// pings and pongs
func (s *script) pings(t *rapid.T) {
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "controls"); i < n; i++ {
		p := control(t)
		s.odd++
		if rapid.Bool().Draw(t, "ping") {
			s.frame(t, true, wsc.Ping, p, "ping")
			s.want = append(s.want, wsc.Frame{Fin: true, Op: wsc.Pong, Payload: p})
		} else {
			s.frame(t, true, wsc.Pong, p, "pong")
		}
	}
}

func text(t *rapid.T) []byte {
	b := []byte(gen.JSON(3).Draw(t, "json").Text(t))
	switch rapid.IntRange(0, 19).Draw(t, "long") {
	case 17:
		b = []byte(fmt.Sprintf("[%s%s]", strings.Repeat("1,", rapid.IntRange(60, 200).Draw(t, "len")), b))
	case 18:
		b = []byte(fmt.Sprintf(`["%s",%s]`, strings.Repeat("y", rapid.SampledFrom([]int{110, 65520, 65530, 65536, 200000}).Draw(t, "len")), b))
	case 19:
		n := rapid.SampledFrom([]int{10, 500, 9000}).Draw(t, "nest")
		b = []byte(strings.Repeat("[", n) + string(b) + strings.Repeat("]", n))
	}
	return b
}

func genScript(t *rapid.T) *script {
	s := &script{end: "open"}
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "messages"); i < n; i++ {
		s.pings(t)
		b := text(t)
		op := rapid.SampledFrom([]byte{wsc.Text, wsc.Text, wsc.Binary}).Draw(t, "op")
		pieces := 1
		if rapid.IntRange(0, 9).Draw(t, "split") > 5 {
			pieces = rapid.IntRange(2, 4).Draw(t, "pieces")
			s.odd++
		}
		rest := b
		for k := 0; k < pieces; k++ {
			p := rest
			if k < pieces-1 {
				p = rest[:rapid.IntRange(0, len(rest)).Draw(t, "cut")]
			}
			rest = rest[len(p):]
			s.frame(t, k == pieces-1, op, p, "piece")
			op = wsc.Cont
			if k < pieces-1 {
				s.pings(t)
			}
		}
		s.want = append(s.want, wsc.Frame{Fin: true, Op: wsc.Text, Payload: b})
	}
	s.pings(t)
	good := []byte(`"after"`)
	k := rapid.IntRange(0, 15).Draw(t, "end")
	if k > 1 {
		s.odd++
	}
	switch k {
	case 0, 1:
	case 2:
		s.end = "offence"
		s.bytes = append(s.bytes, wsc.Encode(true, 0, wsc.Text, good, nil)...)
		s.desc = append(s.desc, "unmasked")
	case 3:
		s.end = "offence"
		s.frame(t, rapid.Bool().Draw(t, "fin"), rapid.SampledFrom([]byte{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}).Draw(t, "op"), control(t), "reserved")
	case 4:
		s.end = "offence"
		s.frame(t, rapid.Bool().Draw(t, "fin"), wsc.Cont, good, "lonely continuation")
	case 5:
		s.end = "offence"
		s.frame(t, false, wsc.Text, []byte(`[1,`), "first piece")
		s.frame(t, true, wsc.Text, good, "another message in between")
	case 6:
		b := gen.Mutate(t, text(t))
		if json.Valid(b) || len(bytes.TrimSpace(b)) == 0 {
			b = []byte(`[1,`)
		}
		s.end = "offence"
		s.frame(t, true, wsc.Text, b, "not json")
	case 7:
		s.end = "lenient"
		s.frame(t, true, wsc.Text, rapid.SampledFrom([][]byte{nil, []byte(" "), []byte("\n\t ")}).Draw(t, "blank"), "blank")
	case 8:
		s.end = "lenient"
		s.frame(t, rapid.Bool().Draw(t, "fin"), rapid.SampledFrom([]byte{wsc.Ping, wsc.Pong, wsc.Close}).Draw(t, "op"), bytes.Repeat([]byte("z"), rapid.SampledFrom([]int{126, 200, 70000}).Draw(t, "size")), "long control")
	case 9:
		s.end = "lenient"
		s.bytes = append(s.bytes, wsc.Encode(true, byte(rapid.IntRange(1, 7).Draw(t, "rsv")), rapid.SampledFrom([]byte{1, 2, 9, 10}).Draw(t, "op"), good, mask(t))...)
		s.desc = append(s.desc, "reserved bits")
	case 10, 11:
		s.end = "cut"
		b := wsc.Encode(true, 0, wsc.Text, text(t), mask(t))
		b = b[:rapid.IntRange(1, len(b)-1).Draw(t, "at")]
		s.bytes = append(s.bytes, b...)
		s.desc = append(s.desc, fmt.Sprintf("cut after %d bytes", len(b)))
	case 12:
		s.end = "cut" // of the declared length only little comes
		b := wsc.Encode(true, 0, wsc.Text, make([]byte, 70000), mask(t))[:14]
		for i := 2; i < 10; i++ {
			b[i] = rapid.SampledFrom([]byte{0, 0x7f, 0x80, 0xff}).Draw(t, "length")
		}
		b[8] = 1 // at least 256
		b = append(b, []byte(rapid.SampledFrom([]string{"", "1", "1234567"}).Draw(t, "some"))...)
		s.bytes = append(s.bytes, b...)
		s.desc = append(s.desc, fmt.Sprintf("huge % x", b))
	case 13:
		s.end = "cut"
		s.frame(t, false, wsc.Text, []byte(`1234`), "only the first piece")
		s.pings(t)
	case 14:
		s.end = "closed"
		s.frame(t, true, wsc.Close, rapid.SampledFrom([][]byte{nil, {3}, {3, 232}, []byte("\x03\xe8bye"), []byte("\xff\xff\xff\xfe")}).Draw(t, "status"), "close")
	case 15:
		s.end = "lenient"
		s.bytes = append(s.bytes, rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "garbage")...)
		s.desc = append(s.desc, "garbage")
	}
	return s
}

// write in chunks, ignoring errors: the other side may have closed already
func chop(conn net.Conn, b []byte, sizes []int) {
	_ = conn.SetWriteDeadline(time.Now().Add(vh.HangLimit()))
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if i < len(sizes) && sizes[i] < n {
			n = sizes[i]
		}
		if _, err := conn.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if i < len(sizes) {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// does the answer look as wanted?
func differs(got, want wsc.Frame) string {
	if got.Op != want.Op || got.Fin != want.Fin {
		return fmt.Sprintf("got %v instead of %v", got, want)
	}
	if want.Op == wsc.Pong {
		if !bytes.Equal(got.Payload, want.Payload) {
			return fmt.Sprintf("got %v instead of %v", got, want)
		}
		return ""
	}
	a, err := gen.ParseJ(got.Payload)
	if err != nil {
		return fmt.Sprintf("got %v instead of %v: %v", got, want, err)
	}
	b, err := gen.ParseJ(want.Payload)
	if err != nil {
		panic(err)
	}
	if d := (gen.Cmp{}).Diff(a, b); d != "" {
		return fmt.Sprintf("got %v instead of %v: %s", got, want, d)
	}
	return ""
}

// read the answers. Pongs come from the reader and messages from the handler, in any order
func (s *script) follow(conn *wsc.Conn) error {
	var pongs, msgs []wsc.Frame
	for _, w := range s.want {
		if w.Op == wsc.Pong {
			pongs = append(pongs, w)
		} else {
			msgs = append(msgs, w)
		}
	}
	over := false // a close or disconnect was seen
	for s.end != "open" || len(pongs)+len(msgs) > 0 {
		f, err := conn.Read(1 << 24)
		switch {
		case wsc.Hung(err):
			return errors.New("the connection is neither answered nor closed")
		case err != nil && strings.HasPrefix(err.Error(), "MALFORMED"):
			return err
		case err != nil:
			if s.end != "offence" && len(pongs)+len(msgs) > 0 { // which may overtake the answers
				return fmt.Errorf("%d pongs and %d messages still to come: %v", len(pongs), len(msgs), err)
			}
			return nil
		case f.Op == wsc.Close || f.Op == wsc.Text && bytes.Contains(f.Payload, []byte(`"disconnect"`)) && len(msgs) == 0:
			over = true
			if s.end == "open" {
				return fmt.Errorf("unexpected %v", f)
			}
			continue
		}
		l := &msgs
		if f.Op == wsc.Pong {
			l = &pongs
		}
		if len(*l) == 0 {
			return fmt.Errorf("unexpected %v (after a close: %v)", f, over)
		}
		if d := differs(f, (*l)[0]); d != "" {
			return errors.New(d)
		}
		*l = (*l)[1:]
	}
	return nil
}

func TestStreams(t *testing.T) {
	vh.Check(t, 2400, 80000, func(t *rapid.T) {
		s := genScript(t)
		sizes := rapid.SliceOfN(rapid.IntRange(1, 40), 0, 4).Draw(t, "chunks")
		vh.Case(s.odd > 0, fmt.Sprint(s.desc), "stream-"+s.end)
		srv.Lock()
		defer srv.Unlock()
		sv := get(t)
		desc := fmt.Sprint(s.desc, sizes)
		conn, err := wsc.Dial(sv.addr, "/echo")
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		wrote := make(chan bool)
		go func() {
			defer close(wrote)
			chop(conn.Conn, s.bytes, sizes)
			if s.end == "cut" {
				_ = conn.Conn.(*net.TCPConn).CloseWrite()
			}
		}()
		switch s.end {
		case "lenient":
			<-wrote
		default:
			err = s.follow(conn)
			if err == nil && s.end == "open" {
				<-wrote
				_ = conn.Send(wsc.Text, []byte(`["done"]`))
				var f wsc.Frame
				if f, err = conn.Read(1 << 20); err == nil && string(f.Payload) != `["done"]` {
					err = fmt.Errorf("got %v instead of the last answer", f)
				}
			}
			if err != nil {
				conn.Close()
				sv.well(t, desc)
				t.Fatalf("%s: %v", desc, err)
			}
		}
		conn.Close()
		sv.well(t, desc)
	})
}

// ---- clients which do not read, or leave at any time

func TestRude(t *testing.T) {
	vh.Check(t, 200, 6000, func(t *rapid.T) {
		path := rapid.SampledFrom([]string{"/echo", "/rpc", "/deny", "/fail"}).Draw(t, "path")
		n := rapid.SampledFrom([]int{0, 1, 5, 50}).Draw(t, "messages")
		size := rapid.SampledFrom([]int{1, 1000, 100000}).Draw(t, "size")
		how := rapid.SampledFrom([]string{"close", "reset", "half"}).Draw(t, "how")
		desc := fmt.Sprintf("%s: %d messages of %d bytes, never read, then %s", path, n, size, how)
		vh.Case(true, desc, "rude")
		srv.Lock()
		defer srv.Unlock()
		sv := get(t)
		conn, err := wsc.Dial(sv.addr, path)
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		msg := []byte(`"` + strings.Repeat("x", size) + `"`)
		if path == "/rpc" {
			_ = conn.Send(wsc.Text, []byte(`{"channel":"a","path":"thing","type":"open"}`))
			msg = []byte(fmt.Sprintf(`{"channel":"a","path":"any","data":%s}`, msg))
		}
		_ = conn.SetWriteDeadline(time.Now().Add(300 * time.Millisecond)) // the server might be stuck on its own writes
		for i := 0; i < n; i++ {
			if _, err := conn.Write(wsc.Encode(true, 0, wsc.Text, msg, wsc.Mask)); err != nil {
				break
			}
		}
		tc := conn.Conn.(*net.TCPConn)
		switch how {
		case "reset":
			_ = tc.SetLinger(0)
		case "half":
			_ = tc.CloseWrite()
		}
		conn.Close()
		sv.well(t, desc)
	})
}

// ---- handshakes

func TestHandshakes(t *testing.T) {
	vh.Check(t, 600, 20000, func(t *rapid.T) {
		lines := strings.Split(strings.TrimSuffix(wsc.Handshake("localhost", rapid.SampledFrom([]string{"/echo", "/rpc", "/fail", "/none"}).Draw(t, "path")), "\r\n\r\n"), "\r\n")
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "changes"); i < n; i++ {
			k := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
			switch rapid.SampledFrom([]string{"drop", "twice", "value", "extra", "mutate", "method"}).Draw(t, "change") {
			case "drop":
				if len(lines) > 1 {
					lines = append(append([]string{}, lines[:k]...), lines[k+1:]...)
				}
			case "twice":
				lines = append(lines, lines[k])
			case "value":
				if p := strings.IndexByte(lines[k], ':'); p > 0 {
					lines[k] = lines[k][:p+1] + rapid.SampledFrom([]string{"", " ", " null", " 8", " 13, 8", " x", " http://[::1", " %zz", " \x01", " file:///etc", " a b c", " " + strings.Repeat("k", 5000)}).Draw(t, "value")
				}
			case "extra":
				lines = append(lines, rapid.SampledFrom([]string{"Sec-WebSocket-Protocol: a, b", "Content-Length: 5", "Transfer-Encoding: chunked", "Expect: 100-continue", "Sec-WebSocket-Extensions: permessage-deflate", "Accept-Encoding: gzip", "Connection: close"}).Draw(t, "header"))
			case "mutate":
				lines[k] = string(gen.Mutate(t, []byte(lines[k])))
			case "method":
				lines[0] = rapid.SampledFrom([]string{"POST", "HEAD", "OPTIONS", "get", "CONNECT"}).Draw(t, "method") + strings.TrimPrefix(lines[0], "GET")
			}
		}
		b := []byte(strings.Join(lines, "\r\n") + "\r\n\r\n")
		if rapid.IntRange(0, 9).Draw(t, "short") > 7 {
			b = b[:rapid.IntRange(0, len(b)).Draw(t, "at")]
		}
		b = append(b, wsc.Encode(true, 0, wsc.Text, []byte(`{"type":"open","path":"thing","channel":"x"}`), wsc.Mask)...)
		vh.Case(true, string(b), "handshake")
		srv.Lock()
		defer srv.Unlock()
		sv := get(t)
		conn, err := net.Dial("tcp", sv.addr)
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		chop(conn, b, nil)
		_ = conn.(*net.TCPConn).CloseWrite()
		_ = conn.SetReadDeadline(time.Now().Add(vh.HangLimit()))
		buf := make([]byte, 4096)
		for {
			if _, err = conn.Read(buf); err != nil {
				break
			}
		}
		if wsc.Hung(err) {
			sv.well(t, fmt.Sprintf("%q", b))
			t.Fatalf("%q: neither answered nor closed", b)
		}
		conn.Close()
		sv.well(t, fmt.Sprintf("%q", b))
	})
}

// ---- frames of the protocol with anything in them

func TestFrames(t *testing.T) {
	vh.Check(t, 1600, 60000, func(t *rapid.T) {
		var msgs []string
		odd := false
		if rapid.IntRange(0, 9).Draw(t, "opened") > 1 {
			msgs = append(msgs, `{"channel":"a","path":"thing","type":"open"}`)
		}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "frames"); i < n; i++ {
			o := gen.Obj()
			add := func(k string, usual ...string) {
				switch x := rapid.IntRange(0, 19).Draw(t, "how"); {
				case x > 18:
					o.Add(k, gen.JSON(2).Draw(t, "v"))
					odd = true
				case x > 17:
				default:
					o.Add(k, gen.Str(rapid.SampledFrom(usual).Draw(t, "v")))
				}
			}
			add("channel", "a", "a", "a", "a", "a", "a", "b")
			add("path", "int", "deep", "any", "node", "map", "boom", "func", "wrong", "nothing", "fail", "thing", "int", "deep", "any", "node", "fail")
			add("type", "", "", "", "", "", "data", "open", "close", "error", "return")
			if rapid.IntRange(0, 9).Draw(t, "data") > 1 {
				odd = true
				o.Add("data", gen.JSON(4).Draw(t, "data"))
			}
			msg := o.Text(t)
			if rapid.IntRange(0, 9).Draw(t, "fitting") > 6 { // data which gets that far
				msg = rapid.SampledFrom([]string{
					`{"channel":"b","path":"thing","type":"open","data":[1,2,3]}`,
					`{"channel":"b","path":"thing","type":"new","data":[1,2,3,4]}`,
					`{"channel":"a","path":"thing","type":"open","data":[1,2]}`,
					`{"channel":"b","path":"thing","type":"open","data":[1]}`,
					`{"channel":"b","path":"thing","type":"open","data":[]}`,
					`{"channel":"b","path":"thing","type":"open","data":[1000]}`,
					`{"channel":"b","path":"int","data":1}`,
					`{"channel":"a","path":"int","data":9223372036854775808}`,
					`{"channel":"a","path":"map","data":{"1":[true]}}`,
					`{"channel":"a","path":"map","data":{}}`,
					`{"channel":"a","path":"deep","data":{"a":{"b":[{},{"c":{"x":null}}]},"t":"2020-01-01T00:00:00Z"}}`,
					`{"channel":"a","path":"fail","data":"x"}`,
					`{"channel":"a","path":"boom"}`,
					`{"channel":"a","type":"close"}`,
				}).Draw(t, "known")
				odd = true
			}
			if rapid.IntRange(0, 29).Draw(t, "else") > 28 {
				msg = gen.JSON(3).Draw(t, "other").Text(t)
			}
			msgs = append(msgs, msg)
		}
		desc := fmt.Sprintf("%q", msgs)
		vh.Case(odd, desc, "frames")
		srv.Lock()
		defer srv.Unlock()
		sv := get(t)
		conn, err := wsc.Dial(sv.addr, "/rpc")
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		go func() {
			for _, m := range msgs {
				_ = conn.Send(wsc.Text, []byte(m))
			}
			_ = conn.Send(wsc.Text, []byte(`{"channel":"!","path":"thing","type":"new"}`))
			_ = conn.Send(wsc.Text, []byte(`{"channel":"!","path":"int","data":42}`))
		}()
		// either the last one is answered, or the connection is closed
		for {
			f, err := conn.Read(1 << 24)
			if wsc.Hung(err) || err != nil && strings.HasPrefix(err.Error(), "MALFORMED") {
				sv.well(t, desc)
				t.Fatalf("%s: neither answered nor closed: %v", desc, err)
			}
			if err != nil {
				break
			}
			if f.Op == wsc.Text {
				if _, err := gen.ParseJ(f.Payload); err != nil {
					t.Fatalf("%s: answer %v: %v", desc, f, err)
				}
				var x struct{ Channel, Type string }
				if json.Unmarshal(f.Payload, &x) == nil && x.Channel == "!" && x.Type == "return" {
					break
				}
			}
		}
		conn.Close()
		sv.well(t, desc)
	})
}
