package h04

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/shutdown"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	if vh.InChild() == "server" {
		log.SetDefaultLoggerLevel(100)
		childServer()
		return
	}
	vh.Main(m, "H04", "histories of requests (answered by raw, streaming and operation handlers, some still uploading) on several servers of a fresh process, releases of their handlers, a shutdown by signal or call, and late connections; non-trivial: at least one request in flight when the shutdown begins")
}

// ---- the process which is shut down

var gates sync.Map

func gate(id string) chan struct{} {
	v, _ := gates.LoadOrStore(id, make(chan struct{}))
	return v.(chan struct{})
}

func body(id string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnop"[(i+len(id)+int(id[len(id)-1]))%16]
	}
	return b
}

type op struct {
	R    api.Request `url:"/op"`
	Id   string      `api:"in" json:"id"`
	Size int         `api:"in" json:"size"`
	Out  string      `api:"out" json:"out"`
}

func (o *op) Do(c ctx.C) error {
	vh.Say("ENTER %s", o.Id)
	<-gate(o.Id)
	o.Out = string(body(o.Id, o.Size))
	return nil
}

func server(c ctx.C) *fhttp.Server {
	s := fhttp.NewServer(c)
	s.HandleRequest("/raw", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
		id := r.Header.Get("X-Id")
		n, _ := strconv.Atoi(r.Header.Get("X-Size"))
		vh.Say("ENTER %s", id)
		<-gate(id)
		if err := c.Err(); err != nil {
			return nil, err
		}
		if r.Header.Get("X-Echo") != "" {
			return in, nil
		}
		return body(id, n), nil
	})
	s.HandleFunc("/stream", func(w http.ResponseWriter, r *http.Request) {
		id := r.Header.Get("X-Id")
		n, _ := strconv.Atoi(r.Header.Get("X-Size"))
		b := body(id, n)
		w.Header().Set("Content-Length", fmt.Sprint(n))
		_, _ = w.Write(b[:n/2])
		vh.Say("ENTER %s", id)
		<-gate(id)
		_, _ = w.Write(b[n/2:])
	})
	s.Mux().HandleFunc("/mux", func(w http.ResponseWriter, r *http.Request) {
		id := r.Header.Get("X-Id")
		n, _ := strconv.Atoi(r.Header.Get("X-Size"))
		vh.Say("ENTER %s", id)
		<-gate(id)
		_, _ = w.Write(body(id, n))
	})
	if _, err := s.RegisterAPI(c, &op{}); err != nil {
		vh.Say("FAIL %v", err)
	}
	return s
}

func childServer() {
	c, cf := ctx.Background()
	n, _ := strconv.Atoi(os.Getenv("VH_SERVERS"))
	s := server(c)
	for i := 0; i < n; i++ {
		if i > 0 && os.Getenv("VH_SEPARATE") != "" {
			s = server(c)
		}
		addr, err := s.Listen(c, "127.0.0.1:0")
		if err != nil {
			vh.Say("FAIL listen: %v", err)
			return
		}
		vh.Say("ADDR %s", addr)
	}
	go func() {
		in := bufio.NewReader(os.Stdin)
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				os.Exit(9) // the parent is gone
			}
			f := strings.Fields(l)
			switch f[0] {
			case "release":
				close(gate(f[1]))
			case "begin":
				shutdown.Begin()
			case "listen":
				ch := make(chan error, 1)
				go func() {
					_, err := s.Listen(c, "127.0.0.1:0")
					ch <- err
				}()
				select {
				case err := <-ch:
					vh.Say("LISTEN %v", err != nil)
				case <-time.After(vh.HangLimit()):
					vh.Say("LISTEN hangs")
				}
			}
			vh.Say("ok %s", f[0])
		}
	}()
	go func() {
		<-shutdown.Started()
		vh.Say("STARTED")
	}()
	id, done := make(chan string), make(chan bool)
	go func() {
		id <- vh.GoID()
		shutdown.WaitForSignal(c, cf)
		close(done)
	}()
	vh.Parked(<-id) // waits for signals
	vh.Say("READY")
	<-done
	vh.Say("DONE")
	if os.Getenv("VH_LINGER") != "" { // for what might come later
		time.Sleep(20 * time.Millisecond)
	}
	os.Exit(0)
}

// ---- the other side

type result struct {
	what string // what came back
	err  error
}

type request struct {
	id, kind string
	size     int
	conn     net.Conn
	want     []byte
	rest     []byte // of the upload, still to be sent
	entered  bool
	res      chan result
	released bool
}

func (r *request) String() string { return fmt.Sprintf("%s(%s %d)", r.id, r.kind, r.size) }

// reads the response, reports its body
func (r *request) read(br *bufio.Reader) {
	_ = r.conn.SetReadDeadline(time.Now().Add(3 * vh.HangLimit()))
	res, err := http.ReadResponse(br, nil)
	if err != nil {
		r.res <- result{err: err}
		return
	}
	b, err := io.ReadAll(res.Body)
	if err == nil && res.StatusCode != 200 {
		err = fmt.Errorf("status %d: %q", res.StatusCode, b)
	}
	if err == nil && r.kind == "op" {
		var x struct {
			Out string `json:"out"`
		}
		if err = json.Unmarshal(b, &x); err == nil {
			b = []byte(x.Out)
		}
	}
	r.res <- result{string(b), err}
}

func start(addr, kind, id string, size int) (*request, error) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	r := &request{id: id, kind: kind, size: size, conn: conn, res: make(chan result, 1), want: body(id, size)}
	br := bufio.NewReader(conn)
	var buf bytes.Buffer
	switch kind {
	case "op":
		in := fmt.Sprintf(`{"id":%q,"size":%d}`, id, size)
		fmt.Fprintf(&buf, "POST /op HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(in), in)
	case "upload":
		fmt.Fprintf(&buf, "POST /raw HTTP/1.1\r\nHost: x\r\nX-Id: %s\r\nX-Echo: 1\r\nExpect: 100-continue\r\nContent-Length: %d\r\n\r\n", id, size)
	case "rude": // closes its sending side
		fmt.Fprintf(&buf, "GET /stream HTTP/1.1\r\nHost: x\r\nX-Id: %s\r\nX-Size: %d\r\nConnection: close\r\n\r\n", id, size)
	default:
		fmt.Fprintf(&buf, "GET /%s HTTP/1.1\r\nHost: x\r\nX-Id: %s\r\nX-Size: %d\r\n\r\n", kind, id, size)
	}
	if _, err = conn.Write(buf.Bytes()); err != nil {
		return nil, err
	}
	if kind == "upload" { // the server asks for the body once the handler is there
		_ = conn.SetReadDeadline(time.Now().Add(vh.HangLimit()))
		l, err := br.ReadString('\n')
		if err != nil || !strings.HasPrefix(l, "HTTP/1.1 100") {
			return nil, fmt.Errorf("no 100 Continue: %q %v", l, err)
		}
		if _, err = br.ReadString('\n'); err != nil {
			return nil, err
		}
		n := len(r.want) / 3
		if _, err = conn.Write(r.want[:n]); err != nil {
			return nil, err
		}
		r.rest = r.want[n:]
	}
	go r.read(br)
	return r, nil
}

func TestHistory(t *testing.T) {
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		servers := rapid.IntRange(1, 3).Draw(t, "servers")
		env := []string{fmt.Sprintf("VH_SERVERS=%d", servers)}
		if rapid.Bool().Draw(t, "separate") {
			env = append(env, "VH_SEPARATE=1")
		}
		if rapid.Bool().Draw(t, "linger") {
			env = append(env, "VH_LINGER=1")
		}
		c := vh.Spawn("server", env...)
		defer c.Kill()
		var trace []string
		var addrs []string
		var reqs []*request
		defer func() {
			for _, r := range reqs {
				r.conn.Close()
			}
		}()
		byId := map[string]*request{}
		ready, begun, started, done := false, false, false, false
		oks, listens := 0, 0
		open := func() (n int) {
			for _, r := range reqs {
				if !r.released {
					n++
				}
			}
			return n
		}
		note := func(l string) {
			f := strings.Fields(l)
			switch f[0] {
			case "ADDR":
				addrs = append(addrs, f[1])
			case "READY":
				ready = true
			case "ENTER":
				if r := byId[f[1]]; r != nil {
					r.entered = true
				}
			case "STARTED":
				started = true
			case "ok":
				oks++
			case "LISTEN":
				listens++
				if f[1] != "true" {
					t.Fatalf("%v: a server started after the shutdown began: error: %s", trace, f[1])
				}
			case "DONE":
				done = true
				if n := open(); n > 0 {
					t.Fatalf("%v: the shutdown completed with %d requests in flight", trace, n)
				}
			case "FAIL":
				t.Fatalf("%v: %s", trace, l)
			}
		}
		until := func(what string, cond func() bool) {
			deadline := time.Now().Add(vh.HangLimit())
			for !cond() {
				l, ok := c.Next(time.Until(deadline))
				if !ok {
					if code, ended := c.WaitExit(2 * time.Second); ended {
						t.Fatalf("%v: %s: the process ended with %d\n%.2000s", trace, what, code, c.Stderr())
					}
					dump := c.Dump()
					if vh.RuntimeHang(dump) {
						t.Skip("the Go runtime hangs")
					}
					t.Fatalf("%v: %s never happened after %q\n%s", trace, what, c.Log, dump)
				}
				note(l)
			}
		}
		send := func(f string, args ...any) {
			want := oks + 1
			c.Send(f, args...)
			until("the answer", func() bool { return oks >= want })
		}
		until("the start", func() bool { return ready })
		kinds := []string{"raw", "stream", "mux", "op", "upload", "rude"}
		launch := func() {
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			size := rapid.SampledFrom([]int{0, 1, 100, 5000, 20000, 300000}).Draw(t, "size")
			if kind == "upload" {
				size = max(size, 3)
			} else if kind == "raw" {
				size = max(size, 1) // nothing is a 204
			}
			id := fmt.Sprintf("r%d", len(reqs))
			trace = append(trace, fmt.Sprintf("start %s %s %d", id, kind, size))
			r, err := start(rapid.SampledFrom(addrs).Draw(t, "addr"), kind, id, size)
			if err != nil {
				t.Fatalf("%v: %v", trace, err)
			}
			byId[id] = r
			reqs = append(reqs, r)
			if kind != "upload" {
				until(id+" enters", func() bool { return r.entered })
			}
		}
		finish := func(r *request) {
			trace = append(trace, "release "+r.id)
			if len(r.rest) > 0 {
				if _, err := r.conn.Write(r.rest); err != nil {
					t.Fatalf("%v: %v: writing the body: %v", trace, r, err)
				}
				until(r.id+" enters", func() bool { return r.entered })
			}
			// from now on the process may end at any time
			r.released = true
			c.Send("release %s", r.id)
			res := <-r.res
			if res.err != nil {
				t.Fatalf("%v: %v: %v", trace, r, res.err)
			}
			if res.what != string(r.want) {
				t.Fatalf("%v: %v: got %d bytes instead of %d", trace, r, len(res.what), len(r.want))
			}
		}
		pick := func() *request {
			var l []*request
			for _, r := range reqs {
				if !r.released {
					l = append(l, r)
				}
			}
			if len(l) == 0 {
				return nil
			}
			return l[rapid.IntRange(0, len(l)-1).Draw(t, "which")]
		}
		// a connection which may be refused or served, but not left hanging
		late := func(addr string) bool {
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				return true
			}
			defer conn.Close()
			_ = conn.SetDeadline(time.Now().Add(vh.HangLimit()))
			_, _ = conn.Write([]byte("GET /live HTTP/1.1\r\nHost: x\r\n\r\n"))
			res, err := http.ReadResponse(bufio.NewReader(conn), nil)
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				t.Fatalf("%v: a late connection hangs", trace)
			}
			if err == nil && res.StatusCode != 204 {
				t.Fatalf("%v: a late connection gets %d", trace, res.StatusCode)
			}
			return false
		}
		// idle connections
		var idle []net.Conn
		defer func() {
			for _, i := range idle {
				i.Close()
			}
		}()
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "idle"); i < n; i++ {
			conn, err := net.Dial("tcp", rapid.SampledFrom(addrs).Draw(t, "addr"))
			if err != nil {
				t.Fatalf("%v: %v", trace, err)
			}
			idle = append(idle, conn)
			_ = conn.SetDeadline(time.Now().Add(vh.HangLimit()))
			_, _ = conn.Write([]byte("GET /ready HTTP/1.1\r\nHost: x\r\n\r\n"))
			if res, err := http.ReadResponse(bufio.NewReader(conn), nil); err != nil || res.StatusCode != 204 {
				t.Fatalf("%v: /ready: %v %v", trace, res, err)
			}
		}
		// before
		for i, n := 0, rapid.IntRange(0, 7).Draw(t, "before"); i < n; i++ {
			if r := pick(); r != nil && rapid.IntRange(0, 9).Draw(t, "end") > 5 {
				finish(r)
			} else {
				launch()
			}
		}
		if open() == 0 && rapid.IntRange(0, 9).Draw(t, "any") > 1 {
			launch()
		}
		inflight := open()
		how := rapid.SampledFrom([]string{"term", "int", "call"}).Draw(t, "how")
		trace = append(trace, how)
		switch how {
		case "term":
			_ = c.Cmd.Process.Signal(syscall.SIGTERM)
		case "int":
			_ = c.Cmd.Process.Signal(syscall.SIGINT)
		case "call":
			c.Send("begin")
		}
		begun = true
		vh.Case(inflight > 0, fmt.Sprint(servers, trace), how, fmt.Sprintf("inflight-%d", min(inflight, 4)), fmt.Sprintf("servers-%d", servers))
		if inflight > 0 {
			until("the begin", func() bool { return started })
			// refused, at last, while the requests are still there
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "after"); i < n; i++ {
				switch rapid.SampledFrom([]string{"late", "listen", "again", "finish", "idle"}).Draw(t, "op") {
				case "late":
					a := rapid.SampledFrom(addrs).Draw(t, "addr")
					trace = append(trace, "late connection")
					vh.Eventually("refusal of connections after the shutdown began", func() bool { return late(a) })
					if !late(a) {
						t.Fatalf("%v: accepts connections again", trace)
					}
				case "listen":
					trace = append(trace, "listen")
					send("listen")
				case "again":
					trace = append(trace, "begin again")
					send("begin")
				case "idle":
					for _, conn := range idle {
						trace = append(trace, "idle connection used")
						_ = conn.SetDeadline(time.Now().Add(vh.HangLimit()))
						_, _ = conn.Write([]byte("GET /live HTTP/1.1\r\nHost: x\r\n\r\n"))
						_, err := http.ReadResponse(bufio.NewReader(conn), nil)
						var ne net.Error
						if errors.As(err, &ne) && ne.Timeout() {
							t.Fatalf("%v: an idle connection hangs", trace)
						}
					}
				case "finish":
					if open() > 1 {
						finish(pick())
					}
				}
			}
			if done || c.Ended() {
				t.Fatalf("%v: the shutdown completed with %d requests in flight", trace, open())
			}
		}
		for open() > 0 {
			finish(pick())
		}
		// and then it is over
		deadline := time.Now().Add(vh.HangLimit())
		for !done {
			l, ok := c.Next(time.Until(deadline))
			if !ok {
				t.Fatalf("%v: the shutdown does not complete\n%.3000s", trace, c.Stderr())
			}
			note(l)
		}
		if code, ended := c.WaitExit(vh.HangLimit()); !ended || code != 0 {
			t.Fatalf("%v: the process ended with %d %v\n%.2000s", trace, code, ended, c.Stderr())
		}
		_ = begun
	})
}

// the grace period: one request which never completes
func TestGrace(t *testing.T) {
	vh.Case(true, "grace period", "grace")
	if vh.Shard > 0 {
		return
	}
	var c *vh.Child
	var addr string
	defer func() { c.Kill() }()
	for i := 0; ; i++ { // until it is ready, see vh.RuntimeHang
		c = vh.Spawn("server", "VH_SERVERS=1")
		l, ok := "", true
		var log []string
		for ok && l != "READY" {
			l, ok = c.Next(vh.HangLimit())
			log = append(log, l)
			if strings.HasPrefix(l, "ADDR ") {
				addr = l[5:]
			}
		}
		if ok {
			break
		}
		if dump := c.Dump(); i > 2 || !vh.RuntimeHang(dump) {
			t.Fatalf("the start never happened after %q\n%s", log, dump)
		}
		c.Kill()
	}
	wait := func(prefix string, d time.Duration) string {
		deadline := time.Now().Add(d)
		for {
			l, ok := c.Next(time.Until(deadline))
			if !ok {
				t.Fatalf("%s never came (%v)\n%.2000s", prefix, c.Log, c.Stderr())
			}
			if strings.HasPrefix(l, prefix) {
				return l
			}
		}
	}
	r, err := start(addr, "raw", "never", 10)
	if err != nil {
		t.Fatal(err)
	}
	defer r.conn.Close()
	wait("ENTER", vh.HangLimit())
	t0 := time.Now()
	c.Send("begin")
	wait("DONE", 30*time.Second+vh.HangLimit())
	if d := time.Since(t0); d < 29900*time.Millisecond {
		t.Fatalf("the shutdown gave up on a request after %v", d)
	}
}
