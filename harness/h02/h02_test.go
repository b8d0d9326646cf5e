package h02

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptrace"
	"net/textproto"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "H02", "requests (parallel ones too) to handlers of each kind which return a generated error tree, a generated body or status, or never run because the request is broken or too long; non-trivial: all")
}

// ---- what a handler does, found by the X-Id header

type behaviour struct {
	out    []byte
	err    error
	inErr  error // from a field of the request
	outErr error // from a field of the response
	info   []int // informational responses
	codes  []int // WriteHeader calls, for plain handlers
	writes [][]byte

	meet *meeting

	mu       sync.Mutex
	ran      int
	in       []byte
	tracking string
}

var (
	behaviours sync.Map
	ids        atomic.Int64
)

func lookup(r *http.Request) *behaviour {
	b, ok := behaviours.Load(r.Header.Get("X-Id"))
	if !ok {
		panic("no behaviour")
	}
	return b.(*behaviour)
}

func (b *behaviour) enter(c ctx.C, in []byte) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.ran++
	b.in = append([]byte{}, in...)
	b.tracking = ctx.GetTracking(c)
}

type apiOp struct {
	R  api.Request `url:"/api"`
	Id string      `api:"in,required" json:"id"`
	A  int         `api:"in" json:"a"`
	B  int         `api:"out" json:"b"`
}

func (o *apiOp) Do(c ctx.C) error {
	b, ok := behaviours.Load(o.Id)
	if !ok {
		return nil
	}
	b.(*behaviour).enter(c, nil)
	o.B = o.A
	return b.(*behaviour).err
}

// fields which read and write themselves, or refuse to

type picky string

func (p *picky) UnmarshalNode(c ctx.C, n enc.Node) error {
	var s string
	if err := enc.Unmarshal(c, n, &s); err != nil {
		return err
	}
	*p = picky(s)
	if b, ok := behaviours.Load(s); ok {
		return b.(*behaviour).inErr
	}
	return nil
}

type moody string

func (m moody) MarshalNode(ctx.C) (enc.Node, error) {
	if b, ok := behaviours.Load(string(m)); ok && b.(*behaviour).outErr != nil {
		return nil, b.(*behaviour).outErr
	}
	return enc.String(m), nil
}

type typedOp struct {
	R  api.Request `url:"/typed"`
	Id string      `api:"in" json:"id"`
	P  picky       `api:"in" json:"p"`
	Q  picky       `api:"in" json:"q"`
	A  string      `api:"out" json:"a"`
	M  moody       `api:"out" json:"m"`
	Z  string      `api:"out" json:"z"`
}

func (o *typedOp) Do(c ctx.C) error {
	b, ok := behaviours.Load(o.Id)
	if !ok {
		return nil
	}
	b.(*behaviour).enter(c, nil)
	o.A, o.M, o.Z = "kept-a", moody(o.Id), "kept-z"
	return b.(*behaviour).err
}

// a meeting of handlers: nobody leaves before all of them arrived
type meeting struct {
	left atomic.Int64
	done chan struct{}
}

func (m *meeting) arrive() {
	if m == nil {
		return
	}
	if m.left.Add(-1) == 0 {
		close(m.done)
	}
	<-m.done
}

const limit = 3000
const longLimit = 5 << 19 // more than the default

var base, addr string
var once sync.Once

func setup() {
	once.Do(func() {
		c, _ := ctx.Background()
		s := fhttp.NewServer(c)
		s.HandleRequest("/req", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
			b := lookup(r)
			b.enter(c, in)
			b.meet.arrive()
			return b.out, b.err
		})
		s.HandleFunc("/func", func(w http.ResponseWriter, r *http.Request) {
			b := lookup(r)
			in, _ := io.ReadAll(r.Body)
			b.enter(r.Context(), in)
			b.meet.arrive()
			for _, i := range b.info {
				w.WriteHeader(i)
			}
			for _, i := range b.codes {
				w.WriteHeader(i)
			}
			for _, x := range b.writes {
				_, _ = w.Write(x)
			}
		})
		call := func(c ctx.C, call *fhttp.Call) error {
			// a call does not show its request: one at a time, see below
			b := calling.Load()
			b.enter(c, nil)
			for i, x := range b.writes {
				if i == 0 {
					call.SetBody(x)
				} else {
					call.Write(x)
				}
			}
			return b.err
		}
		fhttp.CallHandler{Path: "/call", Handler: call}.Register(s)
		fhttp.CallHandler{Path: "/short", Handler: call, MaxLength: limit}.Register(s)
		fhttp.CallHandler{Path: "/long", Handler: call, MaxLength: longLimit}.Register(s)
		fhttp.CallHandler{Path: "/quick", Handler: call, ReadTimeout: 60 * time.Millisecond}.Register(s)
		fhttp.CallHandler{Path: "/patient", Handler: call, ReadTimeout: 20 * time.Second}.Register(s)
		s.MustRegisterAPI(c, &apiOp{})
		s.MustRegisterAPI(c, &typedOp{})
		a, err := s.Listen(c, "127.0.0.1:0")
		if err != nil {
			vh.Inconclusive("can't listen: %v", err)
		}
		addr = a.String()
		base = "http://" + addr
	})
}

var calling atomic.Pointer[behaviour]

var client = &http.Client{
	Transport:     &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16, IdleConnTimeout: vh.IdleLimit},
	Timeout:       60 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

// a client with so little room that the server can't write a large response before it's read
var narrow = &http.Client{
	Transport: &http.Transport{DisableCompression: true, DisableKeepAlives: true, DialContext: func(c context.Context, network, addr string) (net.Conn, error) {
		d := net.Dialer{Control: func(_, _ string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}}
		return d.DialContext(c, network, addr)
	}},
	Timeout: 60 * time.Second,
}

// ---- errors

type opaque struct{ err error }

func (o opaque) Error() string { return "opaque " + o.err.Error() }

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

// tree draws an error and tells the code of the first http.Error which can be found in it
func tree(t *rapid.T, depth int, secrets *[]string) (err error, code int, found bool) {
	text := func() string {
		s := rapid.StringMatching(`[a-z]{9}`).Draw(t, "secret") + rapid.SampledFrom([]string{"", "\n", "\"x\"", "%d%s", "<b>", "\xff\xfe", "\u2028é", "\x00"}).Draw(t, "odd")
		*secrets = append(*secrets, s[:9])
		return s
	}
	codeGen := rapid.Custom(func(t *rapid.T) int {
		if rapid.IntRange(0, 5).Draw(t, "bad") == 3 {
			return rapid.SampledFrom([]int{0, -1, 1, 99, 100, 101, 103, 150, 199, 1000, 4040, 1 << 40}).Draw(t, "invalid")
		}
		return rapid.OneOf(rapid.SampledFrom([]int{200, 204, 301, 304, 400, 401, 403, 404, 409, 429, 499, 500, 501, 503, 599, 600, 999}), rapid.IntRange(200, 599)).Draw(t, "code")
	})
	if rapid.SampledFrom([]bool{false, false, false, false, true}).Draw(t, "well known") {
		return rapid.SampledFrom(vh.Errs).Draw(t, "error"), 0, false
	}
	kind := rapid.IntRange(0, 11).Draw(t, "kind")
	if depth <= 0 {
		kind %= 4
	}
	switch kind {
	case 0:
		return errors.New(text()), 0, false
	case 1:
		code = codeGen.Draw(t, "c")
		return fhttp.NewErrorf(ctx.TODO(), code, "%s", text()), code, true
	case 2:
		code = codeGen.Draw(t, "c")
		return fhttp.Error{Code: code}, code, true
	case 3:
		return ctx.NewErrorf(ctx.WithTag(ctx.TODO(), "k", text()), "%s", text()), 0, false
	}
	in, code, found := tree(t, depth-1, secrets)
	switch kind {
	case 4, 5:
		return fmt.Errorf("%s: %w", text(), in), code, found
	case 6:
		return ctx.NewErrorf(ctx.TODO(), "%s: %w", text(), in), code, found
	case 7:
		return ctx.WrapError(ctx.TODO(), in), code, found
	case 8:
		in2, code2, found2 := tree(t, depth-1, secrets)
		if !found {
			code, found = code2, found2
		}
		return errors.Join(in, in2), code, found
	case 9:
		return &wrapped{in}, code, found
	case 10:
		return opaque{in}, 0, false
	default:
		c := codeGen.Draw(t, "c")
		return fhttp.Error{Code: c, Err: in}, c, true
	}
}

// ---- one exchange

type exchange struct {
	path    string
	method  string
	accept  []string // Accept-Encoding headers
	body    []byte
	chunked bool
	b       *behaviour
	id      string
	secrets []string

	// expected
	refused int // the request never gets to the handler
	code    int
	out     []byte
	desc    string

	meet  *meeting // read the response once all the handlers are done
	res   *http.Response
	got   []byte
	infos []int
	err   error
}

func (x *exchange) send() {
	var body io.Reader = bytes.NewReader(x.body)
	if x.chunked {
		body = io.MultiReader(body)
	}
	r, err := http.NewRequest(x.method, base+x.path, body)
	if err != nil {
		x.err = err
		return
	}
	r.Header.Set("X-Id", x.id)
	for _, a := range x.accept {
		r.Header.Add("Accept-Encoding", a)
	}
	r = r.WithContext(httptrace.WithClientTrace(r.Context(), &httptrace.ClientTrace{
		Got1xxResponse: func(code int, _ textproto.MIMEHeader) error {
			x.infos = append(x.infos, code)
			return nil
		},
	}))
	cli := client
	if x.meet != nil {
		cli = narrow
	}
	x.res, x.err = cli.Do(r)
	if x.err != nil {
		return
	}
	defer x.res.Body.Close()
	if x.meet != nil {
		<-x.meet.done
		time.Sleep(time.Millisecond)
	}
	x.got, x.err = io.ReadAll(x.res.Body)
}

// mayGzip tells whether the client accepts gzip: 1 yes, 0 no, -1 unclear
func mayGzip(accept []string) int {
	star, starQ := false, 1.0
	for _, h := range accept {
		for _, p := range strings.Split(h, ",") {
			name, params, has := strings.Cut(p, ";")
			name = strings.ToLower(strings.TrimSpace(name))
			q := 1.0
			if has {
				k, v, _ := strings.Cut(params, "=")
				f, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
				if err != nil || strings.ToLower(strings.TrimSpace(k)) != "q" {
					return -1
				}
				q = f
			}
			switch name {
			case "gzip", "x-gzip":
				if q > 0 {
					return 1
				}
				return 0
			case "*":
				star, starQ = true, q
			}
		}
	}
	if star && starQ > 0 {
		return 1
	}
	return 0
}

// plain decodes the body of the response
func (x *exchange) plain() ([]byte, string) {
	switch e := x.res.Header.Values("Content-Encoding"); {
	case len(e) == 0:
		return x.got, ""
	case len(e) == 1 && e[0] == "gzip":
		if mayGzip(x.accept) == 0 {
			return nil, fmt.Sprintf("compressed although the client sent Accept-Encoding %q", x.accept)
		}
		vh.Label("gzipped")
		z, err := gzip.NewReader(bytes.NewReader(x.got))
		if err != nil {
			return nil, fmt.Sprintf("bad gzip: %v", err)
		}
		out, err := io.ReadAll(z)
		if err != nil {
			return nil, fmt.Sprintf("bad gzip: %v", err)
		}
		return out, ""
	default:
		return nil, fmt.Sprintf("Content-Encoding %q", e)
	}
}

func bodyless(code int) bool { return code == 204 || code == 304 }

func (x *exchange) check() string {
	if x.err != nil {
		return fmt.Sprintf("no response: %v", x.err)
	}
	x.b.mu.Lock()
	defer x.b.mu.Unlock()
	if x.refused != 0 {
		if x.b.ran != 0 {
			return "the handler ran"
		}
		if x.res.StatusCode != x.refused {
			return fmt.Sprintf("status %d, want %d", x.res.StatusCode, x.refused)
		}
		return ""
	}
	if x.b.ran != 1 {
		return fmt.Sprintf("the handler ran %d times (status %d)", x.b.ran, x.res.StatusCode)
	}
	if (x.path == "/req" || x.path == "/func") && !bytes.Equal(x.b.in, x.body) {
		return fmt.Sprintf("sent a body of %d bytes, the handler got %d other ones", len(x.body), len(x.b.in))
	}
	if x.res.StatusCode != x.code {
		return fmt.Sprintf("status %d, want %d", x.res.StatusCode, x.code)
	}
	if fmt.Sprint(x.infos) != fmt.Sprint(x.b.info) {
		return fmt.Sprintf("informational responses %v, want %v", x.infos, x.b.info)
	}
	got, d := x.plain()
	if d != "" {
		return d
	}
	if x.b.err == nil {
		if x.path == "/api" {
			j, err := gen.ParseJ(got)
			if err != nil || len(j.Keys) != 1 || j.Get("b") == nil || j.Get("b").S != "7" {
				return fmt.Sprintf("body %q", got)
			}
			return ""
		}
		if !bytes.Equal(got, x.out) {
			return fmt.Sprintf("got a body of %d bytes, want %d: %.200q vs %.200q", len(got), len(x.out), got, x.out)
		}
		if x.path == "/req" && len(got) > 0 && !strings.HasPrefix(x.res.Header.Get("Content-Type"), "application/json") {
			return fmt.Sprintf("content type %q", x.res.Header.Get("Content-Type"))
		}
		return ""
	}
	if x.code >= 500 {
		head := fmt.Sprint(x.res.Header, x.res.Trailer)
		for _, s := range x.secrets {
			if bytes.Contains(got, []byte(s)) || strings.Contains(head, s) {
				return fmt.Sprintf("internal error text %q sent to the client: %q %s", s, got, head)
			}
		}
	}
	if bodyless(x.code) {
		return ""
	}
	if strings.HasPrefix(x.path, "/call") || x.path == "/short" || x.path == "/long" {
		if len(got) == 0 {
			return ""
		}
	}
	var j map[string]any
	if err := json.Unmarshal(got, &j); err != nil {
		return fmt.Sprintf("error body %q: %v", got, err)
	}
	if j["tracking"] != x.b.tracking || x.b.tracking == "" {
		return fmt.Sprintf("error body %q, the tracking id of the request is %q", got, x.b.tracking)
	}
	if x.code < 500 {
		if j["error"] != valid(x.b.err.Error()) || len(j) != 2 {
			return fmt.Sprintf("error body %q, the error is %q", got, x.b.err.Error())
		}
	} else if len(j) != 1 {
		return fmt.Sprintf("server error body %q tells more than the tracking id", got)
	}
	return ""
}

func valid(s string) string {
	b, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(b, &out)
	return out
}

func drawBody(t *rapid.T) []byte {
	n := rapid.OneOf(
		rapid.SampledFrom([]int{0, 1, 2, 511, 512, 513, 2047, 2048, 2049, 4096, 16383, 16384, 16385, 16386, 20000, 32768, 65536, 65537, 200000}),
		rapid.IntRange(0, 40000)).Draw(t, "size")
	b := make([]byte, n)
	switch rapid.IntRange(0, 2).Draw(t, "content") {
	case 0:
		for i := range b {
			b[i] = "abcde{}[]\",:0 "[i%13]
		}
	case 1:
		rand.New(rand.NewSource(int64(rapid.Int32().Draw(t, "bytes")))).Read(b)
	}
	return b
}

func drawAccept(t *rapid.T) (out []string) {
	one := rapid.Custom(func(t *rapid.T) string {
		n := rapid.SampledFrom([]string{"gzip", "gzip", "GZip", "identity", "deflate", "br", "*", "gzip2", "x", ""}).Draw(t, "enc")
		return n + rapid.SampledFrom([]string{"", "", "", ";q=0", "; q=0", " ; Q=0.000", ";q=1", ";q=0.5", ";q=0.001", ";q=", ";level=1"}).Draw(t, "q")
	})
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "headers"); i < n; i++ {
		out = append(out, strings.Join(rapid.SliceOfN(one, 0, 4).Draw(t, "enc"), rapid.SampledFrom([]string{",", ", ", " ,"}).Draw(t, "sep")))
	}
	return
}

func drawExchange(t *rapid.T) *exchange {
	x := &exchange{b: &behaviour{}, id: fmt.Sprintf("id%d", ids.Add(1)), method: "POST"}
	x.path = rapid.SampledFrom([]string{"/req", "/req", "/func", "/api", "/call", "/call", "/short", "/short", "/long"}).Draw(t, "path")
	x.method = rapid.SampledFrom([]string{"POST", "PUT", "GET", "DELETE", "PATCH"}).Draw(t, "method")
	x.accept = drawAccept(t)
	x.chunked = rapid.Bool().Draw(t, "chunked")
	if x.path != "/api" {
		x.body = drawBody(t)
	}
	if x.path != "/func" && rapid.IntRange(0, 9).Draw(t, "fails") < 5 {
		var found bool
		x.b.err, x.code, found = tree(t, 4, &x.secrets)
		if !found || x.code < 200 || x.code > 999 {
			x.code = 500
		}
	}
	switch x.path {
	case "/req":
		x.b.out = drawBody(t)
		x.out = x.b.out
	case "/func":
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "infos"); i < n; i++ {
			x.b.info = append(x.b.info, rapid.SampledFrom([]int{100, 102, 103, 150, 199}).Draw(t, "info"))
		}
		// the go server itself answers 100, which is not repeated
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "codes"); i < n; i++ {
			x.b.codes = append(x.b.codes, rapid.OneOf(rapid.SampledFrom([]int{200, 204, 304, 302, 404, 500, 999}), rapid.IntRange(200, 999)).Draw(t, "code"))
		}
		x.code = 200
		if len(x.b.codes) > 0 {
			x.code = x.b.codes[0]
		}
	case "/api":
		x.body = []byte(fmt.Sprintf(`{"id":%q,"a":7}`, x.id))
		switch rapid.IntRange(0, 9).Draw(t, "broken") {
		case 3:
			x.body = x.body[:rapid.IntRange(1, len(x.body)-1).Draw(t, "cut")]
			x.refused = 400
		case 4:
			x.body = []byte(rapid.SampledFrom([]string{"{}", `{"id":""}`, `{"id":5,"a":"x"}`, `[]`, `null`, ``, `{"id":"x","a":"7"}`}).Draw(t, "unfit"))
			x.refused = 400
		}
	}
	if x.path == "/func" || x.path == "/call" || x.path == "/short" || x.path == "/long" {
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "writes"); i < n; i++ {
			w := drawBody(t)
			x.b.writes = append(x.b.writes, w)
			x.out = append(x.out, w...)
		}
	}
	if x.path == "/short" {
		switch rapid.IntRange(0, 3).Draw(t, "len") {
		case 0:
			x.body = make([]byte, rapid.IntRange(limit-2, limit+2).Draw(t, "around"))
		}
		if len(x.body) > limit {
			x.refused = 413
		}
	}
	if x.path == "/call" && rapid.IntRange(0, 20).Draw(t, "big") == 13 {
		x.body = make([]byte, 1<<20+rapid.IntRange(-1, 1).Draw(t, "around"))
		if len(x.body) > 1<<20 {
			x.refused = 413
		}
	}
	if x.path == "/long" && rapid.IntRange(0, 5).Draw(t, "big") == 4 {
		x.body = make([]byte, rapid.SampledFrom([]int{1<<20 + 1, 2 << 20, longLimit - 1, longLimit, longLimit + 1, 4 << 20}).Draw(t, "around"))
		if len(x.body) > longLimit {
			x.refused = 413
		}
	}
	if (x.path == "/req" || x.path == "/func") && rapid.IntRange(0, 99).Draw(t, "big") == 77 {
		x.body = bytes.Repeat([]byte("0123456789abcde\n"), rapid.SampledFrom([]int{1 << 14, 1<<16 + 1, 1 << 18, 1<<19 + 3}).Draw(t, "large"))
	}
	if x.b.err == nil && x.path != "/func" {
		x.code = 200
		if len(x.out) == 0 && x.path != "/api" {
			x.code = 204
		}
	}
	if bodyless(x.code) {
		x.out = nil
	}
	if len(x.b.info) == 0 {
		x.b.info = nil
	}
	what := "ok"
	switch {
	case x.refused != 0:
		what = "refused"
	case x.b.err != nil && x.code >= 500:
		what = "server-error"
	case x.b.err != nil:
		what = "client-error"
	}
	x.desc = fmt.Sprintf("%s %s (%d bytes, chunked %v, accept %q) out %d err %v", x.method, x.path, len(x.body), x.chunked, x.accept, len(x.out), x.b.err)
	if x.path == "/func" {
		x.desc += fmt.Sprintf(" info %v codes %v", x.b.info, x.b.codes)
	}
	vh.Case(true, x.desc, x.path[1:]+"-"+what)
	return x
}

func TestResponses(t *testing.T) {
	setup()
	vh.Check(t, 20000, 600000, func(t *rapid.T) {
		n := 1
		if rapid.IntRange(0, 3).Draw(t, "parallel") == 0 {
			n = rapid.IntRange(2, 4).Draw(t, "n")
		}
		var xs []*exchange
		call := false
		for i := 0; i < n; i++ {
			x := drawExchange(t)
			if strings.HasPrefix(x.path, "/call") || x.path == "/short" || x.path == "/long" {
				if call {
					continue
				}
				call = true
				calling.Store(x.b)
			}
			behaviours.Store(x.id, x.b)
			defer behaviours.Delete(x.id)
			xs = append(xs, x)
		}
		var wg sync.WaitGroup
		for _, x := range xs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.send()
			}()
		}
		wg.Wait()
		for _, x := range xs {
			if d := x.check(); d != "" {
				t.Fatalf("%s: %s", x.desc, d)
			}
		}
	})
}

// operations whose fields refuse what they read or can't be written
func TestTyped(t *testing.T) {
	setup()
	vh.Check(t, 3000, 100000, func(t *rapid.T) {
		x := &exchange{path: "/typed", method: "POST", b: &behaviour{}, id: fmt.Sprintf("id%d", ids.Add(1))}
		x.accept = drawAccept(t)
		x.chunked = rapid.Bool().Draw(t, "chunked")
		behaviours.Store(x.id, x.b)
		defer behaviours.Delete(x.id)
		kind := rapid.SampledFrom([]string{"ok", "in", "out", "do", "out+do"}).Draw(t, "fails")
		first := rapid.Bool().Draw(t, "first")
		in := map[string]string{"id": x.id, "p": "x", "q": "x"}
		x.code = 200
		var secrets []string
		draw := func() (error, int) {
			err, code, found := tree(t, 3, &secrets)
			if !found || code < 200 || code > 999 {
				code = 500
			}
			return err, code
		}
		switch kind {
		case "in":
			x.b.inErr, _ = draw()
			if first {
				in["p"] = x.id
			} else {
				in["q"] = x.id
			}
		case "out":
			x.b.outErr, x.code = draw()
		case "do":
			x.b.err, x.code = draw()
		case "out+do":
			x.b.err, x.code = draw()
			x.b.outErr, _ = draw()
		}
		x.body, _ = json.Marshal(in)
		desc := fmt.Sprintf("/typed %s: in %v out %v do %v", x.body, x.b.inErr, x.b.outErr, x.b.err)
		vh.Case(true, desc, "typed-"+kind)
		x.send()
		if x.err != nil {
			t.Fatalf("%s: no response: %v", desc, x.err)
		}
		got, d := x.plain()
		if d != "" {
			t.Fatalf("%s: %s", desc, d)
		}
		x.b.mu.Lock()
		defer x.b.mu.Unlock()
		code := x.res.StatusCode
		if kind == "in" {
			if code < 400 || code > 499 || x.b.ran != 0 {
				t.Fatalf("%s: status %d, the operation ran %d times", desc, code, x.b.ran)
			}
			return
		}
		if code != x.code || x.b.ran != 1 {
			t.Fatalf("%s: status %d, want %d, the operation ran %d times", desc, code, x.code, x.b.ran)
		}
		if kind == "ok" {
			var j map[string]any
			if err := json.Unmarshal(got, &j); err != nil || fmt.Sprint(j) != fmt.Sprint(map[string]any{"a": "kept-a", "m": x.id, "z": "kept-z"}) {
				t.Fatalf("%s: body %q", desc, got)
			}
			return
		}
		if bytes.Contains(got, []byte("kept-")) {
			t.Fatalf("%s: part of the result is sent with the error: %q", desc, got)
		}
		if code >= 500 {
			for _, s := range secrets {
				if bytes.Contains(got, []byte(s)) || strings.Contains(fmt.Sprint(x.res.Header), s) {
					t.Fatalf("%s: internal error text %q sent to the client: %q", desc, s, got)
				}
			}
		}
		if bodyless(code) {
			return
		}
		var j map[string]any
		if err := json.Unmarshal(got, &j); err != nil || j["tracking"] != x.b.tracking || x.b.tracking == "" {
			t.Fatalf("%s: error body %q, the tracking id is %q", desc, got, x.b.tracking)
		}
	})
}

// responses which are written at the same time
func TestTogether(t *testing.T) {
	setup()
	vh.Check(t, 320, 12000, func(t *rapid.T) {
		n := rapid.IntRange(2, 5).Draw(t, "n")
		m := &meeting{done: make(chan struct{})}
		m.left.Store(int64(n))
		var xs []*exchange
		desc := ""
		for i := 0; i < n; i++ {
			x := &exchange{b: &behaviour{meet: m}, id: fmt.Sprintf("id%d", ids.Add(1)), method: "POST", meet: m, code: 200}
			defer behaviours.Delete(x.id)
			behaviours.Store(x.id, x.b)
			x.path = rapid.SampledFrom([]string{"/req", "/req", "/req", "/func"}).Draw(t, "path")
			x.accept = rapid.SampledFrom([][]string{{"gzip"}, {"gzip"}, {"gzip"}, nil, {"identity"}}).Draw(t, "accept")
			x.body = []byte(x.id)
			x.out = make([]byte, rapid.SampledFrom([]int{10, 16385, 70000, 300000, 900000}).Draw(t, "size"))
			rand.New(rand.NewSource(int64(rapid.Int32().Draw(t, "bytes")))).Read(x.out)
			if rapid.Bool().Draw(t, "text") {
				for i, b := range x.out {
					x.out[i] = "abcdefghijklmnop"[b&15]
				}
			}
			if x.path == "/req" {
				x.b.out = x.out
			} else {
				half := len(x.out) / 2
				x.b.writes = [][]byte{x.out[:half], x.out[half:]}
			}
			if i > 0 && rapid.IntRange(0, 9).Draw(t, "fails") == 7 {
				x.b.err, x.code = fhttp.NewErrorf(context.Background(), 404, "not %s", x.id), 404
				if x.path == "/func" {
					x.b.err, x.code = nil, 200
				}
			}
			x.desc = fmt.Sprintf("%s %q %d bytes, %d", x.path, x.accept, len(x.out), x.code)
			desc += x.desc + "; "
			xs = append(xs, x)
		}
		vh.Case(true, desc, "together")
		vh.Within("the responses", func() {
			var wg sync.WaitGroup
			for _, x := range xs {
				x := x
				wg.Add(1)
				go func() { defer wg.Done(); x.send() }()
			}
			wg.Wait()
		})
		for _, x := range xs {
			if d := x.check(); d != "" {
				t.Fatalf("%s: %s\nwith %s", x.desc, d, desc)
			}
		}
	})
}

// requests cut or garbled on the wire
func TestBroken(t *testing.T) {
	setup()
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		path := rapid.SampledFrom([]string{"/req", "/api", "/call"}).Draw(t, "path")
		b := &behaviour{}
		id := fmt.Sprintf("id%d", ids.Add(1))
		behaviours.Store(id, b)
		defer behaviours.Delete(id)
		calling.Store(b)
		n := rapid.IntRange(0, 3000).Draw(t, "sent")
		body := bytes.Repeat([]byte(" "), n)
		head := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nX-Id: %s\r\n", path, id)
		how := rapid.SampledFrom([]string{"short", "chunk-size", "chunk-cut", "chunk-end"}).Draw(t, "how")
		switch how {
		case "short":
			head += fmt.Sprintf("Content-Length: %d\r\n\r\n", n+rapid.IntRange(1, 500).Draw(t, "missing"))
		default:
			head += "Transfer-Encoding: chunked\r\n\r\n"
			if n > 0 {
				body = []byte(fmt.Sprintf("%x\r\n%s\r\n", n, body))
			}
			switch how {
			case "chunk-size":
				body = append(body, rapid.SampledFrom([]string{"zz\r\n", "-1\r\n\r\n", "ffffffffffffffffff\r\n", " \r\n"}).Draw(t, "size")...)
			case "chunk-cut":
				body = append(body, "10\r\nabc"...)
			}
		}
		vh.Case(true, fmt.Sprintf("%s %s %d", path, how, n), "broken-"+how)
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			vh.Inconclusive("%v", err)
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = conn.Write(append([]byte(head), body...))
		_ = conn.(*net.TCPConn).CloseWrite()
		res, err := http.ReadResponse(bufio.NewReader(conn), nil)
		if err != nil {
			t.Fatalf("%s of %d bytes, %s: no response: %v", path, n, how, err)
		}
		_, _ = io.ReadAll(res.Body)
		b.mu.Lock()
		defer b.mu.Unlock()
		if res.StatusCode != 400 || b.ran != 0 {
			t.Fatalf("%s of %d bytes, %s: status %d, handler ran %d times", path, n, how, res.StatusCode, b.ran)
		}
	})
}

// bodies which do not arrive in the time a call handler allows, or arrive slowly but do
func TestStalled(t *testing.T) {
	setup()
	vh.Check(t, 25, 300, func(t *rapid.T) {
		b := &behaviour{}
		calling.Store(b)
		path := rapid.SampledFrom([]string{"/quick", "/quick", "/patient", "/call"}).Draw(t, "path")
		n := rapid.SampledFrom([]int{0, 1, 100, 5000, 100000}).Draw(t, "sent")
		missing := rapid.SampledFrom([]int{1, 100, 400000}).Draw(t, "missing")
		chunked := rapid.Bool().Draw(t, "chunked")
		head := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\n", path)
		first, second := strings.Repeat("x", n), strings.Repeat("y", missing)
		if chunked {
			head += "Transfer-Encoding: chunked\r\n\r\n"
			if n > 0 {
				first = fmt.Sprintf("%x\r\n%s\r\n", n, first)
			}
			second = fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", missing, second)
		} else {
			head += fmt.Sprintf("Content-Length: %d\r\n\r\n", n+missing)
		}
		desc := fmt.Sprintf("%s: %d bytes, then %d (chunked: %v)", path, n, missing, chunked)
		vh.Case(true, desc, "stalled"+path)
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			vh.Inconclusive("%v", err)
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = conn.Write([]byte(head + first))
		t0 := time.Now()
		if path != "/quick" {
			time.Sleep(20 * time.Millisecond)
			_, _ = conn.Write([]byte(second))
		}
		res, err := http.ReadResponse(bufio.NewReader(conn), nil)
		if err != nil {
			t.Fatalf("%s: no response: %v", desc, err)
		}
		d := time.Since(t0)
		_, _ = io.ReadAll(res.Body)
		b.mu.Lock()
		defer b.mu.Unlock()
		if path == "/quick" {
			if res.StatusCode < 400 || res.StatusCode > 499 || b.ran != 0 {
				t.Fatalf("%s, the rest never: status %d, handler ran %d times", desc, res.StatusCode, b.ran)
			}
			if d > 20*time.Second { // the server gives up after 30
				t.Fatalf("%s, the rest never: refused after %v instead of 60ms", desc, d)
			}
		} else if res.StatusCode != 204 || b.ran != 1 {
			t.Fatalf("%s: status %d, handler ran %d times", desc, res.StatusCode, b.ran)
		}
	})
}
