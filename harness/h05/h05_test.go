package h05

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "H05", "client calls of each kind against a server which answers with a generated status and body, in any encoding, complete, cut, reset, garbled, hanging until the caller gives up, or not there at all; non-trivial: all")
}

// ---- the other side

type plan struct {
	status  int
	body    []byte // as the caller should see it
	gzip    bool
	chunked bool
	cut     int    // -1: complete, or how many bytes of the payload are sent before the connection goes away
	reset   bool   // with a RST
	garbage []byte // sent instead of a response
	hang    string // "head" or "body": nothing more until the caller gives up
	hangAt  int

	entered chan struct{}
	release chan struct{}

	mu     sync.Mutex
	method string
	path   string
	ctype  string
	got    []byte
	calls  int
}

var (
	current *plan
	curMu   sync.Mutex
	conns   = map[net.Conn]http.ConnState{}
	connMu  sync.Mutex
	addr    string
	once    sync.Once
)

func openConns() int {
	connMu.Lock()
	defer connMu.Unlock()
	return len(conns)
}

func handle(w http.ResponseWriter, r *http.Request) {
	curMu.Lock()
	p := current
	curMu.Unlock()
	in, _ := io.ReadAll(r.Body)
	p.mu.Lock()
	p.calls++
	p.method, p.path, p.ctype, p.got = r.Method, r.URL.RequestURI(), r.Header.Get("Content-Type"), in
	p.mu.Unlock()
	if p.hang == "head" {
		close(p.entered)
		<-p.release
		return
	}
	payload := p.body
	head := fmt.Sprintf("HTTP/1.1 %03d %s\r\nContent-Type: application/json\r\n", p.status, http.StatusText(p.status))
	if p.gzip && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
		var buf bytes.Buffer
		z := gzip.NewWriter(&buf)
		_, _ = z.Write(payload)
		z.Close()
		payload = buf.Bytes()
		head += "Content-Encoding: gzip\r\n"
	}
	noBody := p.status == 204 || p.status == 304 || p.status < 200
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	connMu.Lock()
	conns[c] = http.StateHijacked // still open
	connMu.Unlock()
	defer func() {
		if p.reset {
			_ = c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
		connMu.Lock()
		delete(conns, c)
		connMu.Unlock()
	}()
	if p.garbage != nil {
		_, _ = c.Write(p.garbage)
		return
	}
	var wire []byte
	switch {
	case noBody:
	case p.chunked:
		head += "Transfer-Encoding: chunked\r\n"
		for i := 0; i < len(payload); i += 1000 {
			part := payload[i:min(i+1000, len(payload))]
			wire = append(wire, fmt.Sprintf("%x\r\n%s\r\n", len(part), part)...)
		}
		wire = append(wire, "0\r\n\r\n"...)
	default:
		head += fmt.Sprintf("Content-Length: %d\r\n", len(payload))
		wire = payload
	}
	if p.hang == "body" {
		_, _ = c.Write(append([]byte(head+"\r\n"), wire[:min(p.hangAt, len(wire)-1)]...))
		close(p.entered)
		<-p.release
		return
	}
	if p.cut >= 0 {
		all := append([]byte(head+"\r\n"), wire...)
		_, _ = c.Write(all[:max(0, len(all)-1-p.cut)])
		return
	}
	_, _ = c.Write(append([]byte(head+"\r\n"), wire...))
	if p.reset {
		p.reset = false // it is complete
	}
	// like any server, keep the connection until the other side closes it
	_, _ = io.Copy(io.Discard, c)
}

func setup() {
	once.Do(func() {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vh.Inconclusive("can't listen: %v", err)
		}
		addr = ln.Addr().String()
		go func() {
			_ = (&http.Server{
				Handler: http.HandlerFunc(handle),
				ConnState: func(c net.Conn, s http.ConnState) {
					connMu.Lock()
					defer connMu.Unlock()
					switch s {
					case http.StateHijacked:
					case http.StateClosed:
						delete(conns, c)
					default:
						conns[c] = s
					}
				},
			}).Serve(ln)
		}()
	})
}

// ---- operations

type Op struct {
	R  api.Request `url:"/op/x?v=1&y=a%2Fb"`
	A  int         `api:"in" json:"a"`
	B  string      `api:"both" json:"b"`
	C  []int       `api:"out" json:"c"`
	D  *gen.Inner  `api:"out" json:"d"`
	E  string
	f_ int
}

func (*Op) Do(ctx.C) error { return nil }

type NoURL struct {
	A int `api:"in"`
}

func (*NoURL) Do(ctx.C) error { return nil }

func drawBody(t *rapid.T) []byte {
	n := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 999, 1000, 1001, 4095, 4096, 100000}), rapid.IntRange(0, 9000)).Draw(t, "size")
	b := make([]byte, n)
	x := rapid.Byte().Draw(t, "x")
	for i := range b {
		b[i] = byte(i)*x + byte(i>>8)
	}
	return b
}

func fill(n int, f func(int) byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = f(i)
	}
	return b
}

func TestClient(t *testing.T) {
	setup()
	vh.Check(t, 6000, 150000, func(t *rapid.T) {
		p := &plan{cut: -1, entered: make(chan struct{}), release: make(chan struct{})}
		kind := rapid.SampledFrom([]string{"Get", "Post", "Do", "API"}).Draw(t, "call")
		p.status = rapid.OneOf(rapid.Just(200), rapid.SampledFrom([]int{200, 201, 202, 204, 206, 300, 304, 400, 401, 404, 500, 503, 599, 600, 999}), rapid.IntRange(200, 599)).Draw(t, "status")
		p.chunked, p.gzip = rapid.Bool().Draw(t, "chunked"), rapid.Bool().Draw(t, "gzip")
		p.body = drawBody(t)
		var want *gen.J
		if kind == "API" {
			want = gen.Obj()
			want.Add("b", gen.Str(gen.Text().Draw(t, "b")))
			want.Add("c", gen.List(gen.Num("1"), gen.Num("2")))
			if rapid.Bool().Draw(t, "d") {
				want.Add("d", gen.Obj().Add("a", gen.Num("5")))
			}
			p.body = []byte(want.Text(t))
		}
		malformed := false
		if kind == "API" && rapid.IntRange(0, 4).Draw(t, "malformed") == 2 {
			malformed = true
			p.body = []byte(rapid.SampledFrom([]string{"{", "[]", "1", `{"c":"x"}`, `{"b":[]}`, `{"d":7}`, "<html>", "{}{}", `{"c":[1,"x"]}`}).Draw(t, "text"))
		}
		fault := rapid.SampledFrom([]string{"", "", "", "", "cut", "garbage", "hang-head", "hang-body", "refused", "before"}).Draw(t, "fault")
		target := addr
		switch fault {
		case "cut":
			p.cut = rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, len(p.body)+200)).Draw(t, "cut")
			p.reset = rapid.Bool().Draw(t, "reset")
			if p.status == 204 || p.status == 304 {
				p.cut += 2 // so that the head is not complete
			}
		case "garbage":
			p.garbage = []byte(rapid.SampledFrom([]string{"", "\r\n", "HTTP/1.1", "HTTP/1.1 200", "HTTP/1.1 abc OK\r\n\r\n", "200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nbad header\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\nabc"}).Draw(t, "garbage"))
		case "hang-head":
			p.hang = "head"
		case "hang-body":
			p.hang, p.hangAt = "body", rapid.IntRange(0, len(p.body)).Draw(t, "at")
			if p.status == 204 || p.status == 304 {
				p.status = 200
			}
			if len(p.body) == 0 {
				p.body = []byte(" ")
			}
		case "refused":
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				vh.Inconclusive("%v", err)
			}
			target = ln.Addr().String()
			ln.Close()
		}
		huge := 0 // the size, if so
		if fault == "" && !malformed && rapid.IntRange(0, 39).Draw(t, "huge") == 23 {
			sizes := []int{1, 2, 4, 5, 8, 10, 12, 16}
			if vh.Thorough {
				sizes = append(sizes, 32, 33, 64, 100)
			}
			huge = rapid.SampledFrom(sizes).Draw(t, "huge MiB")<<20 + rapid.IntRange(0, 100).Draw(t, "more")
			vh.Label("huge")
			if kind == "API" {
				want = gen.Obj().Add("b", gen.Str(string(fill(huge, func(i int) byte { return "abcd efgh"[i%9] }))))
				p.body = []byte(want.Text(t))
			} else {
				p.body = fill(huge, func(i int) byte { return byte(i) ^ byte(i>>8) ^ byte(i>>16) })
			}
		}
		if kind == "API" && huge == 0 && fault == "" && !malformed && rapid.IntRange(0, 5).Draw(t, "empty") == 1 {
			p.body = nil // nothing is like an empty object
			want = gen.Obj()
		}
		curMu.Lock()
		current = p
		curMu.Unlock()

		desc := fmt.Sprintf("%s %d chunked %v gzip %v fault %q cut %d hang at %d %q malformed %v: %d bytes %.200q", kind, p.status, p.chunked, p.gzip, fault, p.cut, p.hangAt, p.garbage, malformed, len(p.body), p.body)
		vh.Case(true, desc, kind+"-"+fault)

		c, cf := context.WithCancelCause(context.Background())
		defer cf(nil)
		why := errors.New("enough")
		switch fault {
		case "before":
			cf(why)
		case "hang-head", "hang-body":
			go func() {
				<-p.entered
				cf(why)
			}()
		}

		base, _ := url.Parse("http://" + target)
		cli := fhttp.Client{}
		var got []byte
		var err error
		sent := drawSent(t)
		if huge > 0 && rapid.Bool().Draw(t, "huge sent") {
			sent = p.body
		}
		op := &Op{A: rapid.IntRange(0, 99).Draw(t, "a"), B: "before", C: []int{7}, E: "own", f_: 3}
		before := *op
		vh.Within(desc, func() {
			switch kind {
			case "Get":
				got, err = cli.Get(c, base.String()+"/get?x=y")
			case "Post":
				got, err = cli.Post(c, base.String()+"/post", sent)
			case "Do":
				var r *http.Request
				r, err = fhttp.NewRequest(c, "PUT", base.String()+"/do", bytes.NewReader(sent))
				if err != nil {
					return
				}
				var res *http.Response
				res, err = cli.Do(r)
				if res != nil {
					if err != nil && res.StatusCode != p.status {
						t.Fatalf("%s: response of status %d", desc, res.StatusCode)
					}
					var err2 error
					got, err2 = io.ReadAll(res.Body)
					res.Body.Close()
					if err == nil {
						err = err2
					}
				}
			case "API":
				cli.BaseUrl, _ = url.Parse(base.String() + rapid.SampledFrom([]string{"", "/", "/sub/dir"}).Draw(t, "base"))
				err = cli.API(c, op)
			}
		})
		close(p.release)

		// verdict
		p.mu.Lock()
		calls, method, path, ctype, in := p.calls, p.method, p.path, p.ctype, p.got
		p.mu.Unlock()
		if calls > 0 {
			w := map[string]string{"Get": "GET /get?x=y", "Post": "POST /post", "Do": "PUT /do", "API": "POST /op/x?v=1&y=a%2Fb"}[kind]
			if method+" "+path != w {
				t.Fatalf("%s: sent %s %s", desc, method, path)
			}
			switch kind {
			case "Post", "Do":
				if !bytes.Equal(in, sent) || kind == "Post" && ctype != "application/json" {
					t.Fatalf("%s: sent %d bytes as %q, the server got %d other ones", desc, len(sent), ctype, len(in))
				}
			case "API":
				j, err := gen.ParseJ(in)
				if err != nil || len(j.Keys) != 2 || j.Get("a") == nil || j.Get("b") == nil || j.Get("a").S != fmt.Sprint(before.A) || j.Get("b").S != before.B {
					t.Fatalf("%s: sent %s", desc, in)
				}
			}
		}
		same := func() string {
			if op.A != before.A || op.B != before.B || len(op.C) != 1 || op.C[0] != 7 || op.D != nil || op.E != before.E || op.f_ != 3 {
				return fmt.Sprintf("%+v", *op)
			}
			return ""
		}
		good := p.status == 200 || p.status == 204
		switch fault {
		case "refused", "garbage", "cut", "hang-head", "hang-body", "before":
			if err == nil {
				t.Fatalf("%s: no error, got %.200q %+v", desc, got, *op)
			}
			// a status which came through may be the error as well
			if (fault == "before" || good && strings.HasPrefix(fault, "hang")) && !errors.Is(err, context.Canceled) && !errors.Is(err, why) {
				t.Fatalf("%s: cancelled, got error %v", desc, err)
			}
			if fault == "before" && calls > 0 {
				t.Fatalf("%s: cancelled before, still sent", desc)
			}
			if kind == "API" && same() != "" {
				t.Fatalf("%s: error, and object changed to %s", desc, same())
			}
		default:
			if calls != 1 {
				t.Fatalf("%s: %d requests arrived (%v)", desc, calls, err)
			}
			if !good {
				if err == nil || fhttp.ErrorCode(err, -1) != p.status {
					t.Fatalf("%s: error %v (code %d)", desc, err, fhttp.ErrorCode(err, -1))
				}
				if kind == "API" && same() != "" {
					t.Fatalf("%s: error, and object changed to %s", desc, same())
				}
				break
			}
			if kind == "API" {
				if p.status == 204 {
					if err != nil || same() != "" {
						t.Fatalf("%s: error %v, object %+v", desc, err, *op)
					}
					break
				}
				if malformed {
					if err == nil {
						t.Fatalf("%s: malformed response accepted: %+v", desc, *op)
					}
					break
				}
				if err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if op.A != before.A || op.E != before.E || op.f_ != 3 {
					t.Fatalf("%s: changed to %+v", desc, *op)
				}
				if b := want.Get("b"); b != nil && op.B != b.S || b == nil && op.B != before.B {
					t.Fatalf("%s: b is %.300q (%d bytes)", desc, op.B, len(op.B))
				}
				if d := want.Get("d"); d != nil && (op.D == nil || op.D.A != 5) {
					t.Fatalf("%s: d is %v", desc, op.D)
				}
				if w := want.Get("c"); w != nil && fmt.Sprint(op.C) != "[1 2]" {
					t.Fatalf("%s: c is %v", desc, op.C)
				}
				break
			}
			body := p.body
			if p.status == 204 {
				body = nil
			}
			if err != nil || !bytes.Equal(got, body) {
				t.Fatalf("%s: got %d bytes, error %v: %.100q", desc, len(got), err, got)
			}
		}
		http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		vh.Eventually("the release of the connection after "+desc, func() bool {
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
			return openConns() == 0
		})
	})
}

func drawSent(t *rapid.T) []byte {
	b := drawBody(t)
	if len(b) > 20000 {
		return b[:20000]
	}
	return b
}

// nothing to call, or nowhere
func TestNowhere(t *testing.T) {
	vh.Check(t, 500, 5000, func(t *rapid.T) {
		u := rapid.SampledFrom([]string{"", "://", "http://", "nope://x", "http://[::1", "%zz", "http://\x7f", "/rel", "http://127.0.0.1:99999/", "ftp://127.0.0.1/"}).Draw(t, "url")
		kind := rapid.SampledFrom([]string{"Get", "Post", "API", "NoURL", "base"}).Draw(t, "call")
		vh.Case(true, kind+" "+u, "nowhere")
		var err error
		if p := vh.Try(func() {
			switch kind {
			case "Get":
				_, err = fhttp.DefaultClient.Get(ctx.TODO(), u)
			case "Post":
				_, err = fhttp.DefaultClient.Post(ctx.TODO(), u, nil)
			case "API":
				err = fhttp.DefaultClient.API(ctx.TODO(), &Op{}) // no host
			case "NoURL":
				err = fhttp.DefaultClient.API(ctx.TODO(), &NoURL{})
			case "base":
				err = fhttp.Client{BaseUrl: &url.URL{Scheme: "http"}}.API(ctx.TODO(), &Op{})
			}
		}); p != "" {
			t.Fatalf("%s %q: %s", kind, u, p)
		}
		if err == nil {
			t.Fatalf("%s %q: no error", kind, u)
		}
	})
	_ = time.Now
}
