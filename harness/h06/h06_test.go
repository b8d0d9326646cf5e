package h06

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	http.DefaultTransport.(*http.Transport).IdleConnTimeout = vh.IdleLimit
	vh.Main(m, "H06", "servers made by sequences of registrations of every form (operations under one or more urls, request functions, handlers, plain mux entries, refused operations), readiness changes and requests to registered, nested, unknown and built-in paths, directly or over loopback, against a table of what was registered; non-trivial: at least two registrations")
}

// ---- operations: which one answers is told by the text they hold

type one struct {
	R   api.Request `url:"/a"`
	In  string      `api:"in" json:"in"`
	Out string      `api:"out" json:"out"`
	id  string
}

func (o *one) Do(ctx.C) error { o.Out = o.id + ":" + o.In; return nil }

type deep struct {
	R   api.Request `url:"/tree/op"`
	In  string      `api:"in" json:"in"`
	Out string      `api:"out" json:"out"`
	id  string
}

func (o *deep) Do(ctx.C) error { o.Out = o.id + ":" + o.In; return nil }

type many struct {
	R   api.Request `url:"/b"`
	R2  api.Request `url:"/tree/b"`
	In  string      `api:"in" json:"in"`
	Out string      `api:"out" json:"out"`
	R3  api.Request `url:"/sub/"`
	id  string
}

func (o *many) Do(ctx.C) error { o.Out = o.id + ":" + o.In; return nil }

type nowhere struct {
	In string `api:"in" json:"in"`
}

func (o *nowhere) Do(ctx.C) error { return nil }

type weird struct {
	R  api.Request `url:"/weird"`
	R2 api.Request `url:"/weird/too"`
	In chan int    `api:"in" json:"in"`
}

func (o *weird) Do(ctx.C) error { return nil }

type weirdOut struct {
	R   api.Request `url:"/weird"`
	Out func()      `api:"out" json:"out"`
}

func (o *weirdOut) Do(ctx.C) error { return nil }

type twice struct {
	R  api.Request `url:"/weird"`
	A  string      `api:"auth"`
	A2 string      `api:"auth"`
}

func (o *twice) Do(ctx.C) error { return nil }

type badURL struct {
	R api.Request `url:"http://[::1"`
}

func (o *badURL) Do(ctx.C) error { return nil }

// ---- the table

type entry struct {
	id   string
	kind string // api, request, handler, mux
}

type table map[string]entry

// find is the rule of http.ServeMux
func (tb table) find(path string) (e entry, redirect bool, ok bool) {
	if e, ok := tb[path]; ok {
		return e, false, true
	}
	best := ""
	for p, x := range tb {
		if strings.HasSuffix(p, "/") && strings.HasPrefix(path, p) && len(p) > len(best) {
			best, e = p, x
		}
	}
	if _, ok := tb[path+"/"]; ok {
		return e, true, true
	}
	return e, false, best != ""
}

var paths = []string{"/a", "/b", "/tree/", "/tree/op", "/tree/b", "/sub/", "/c", "/d/e", "/d/", "/f.json", "/x-y_z", "/tree/op/"}
var probes = append([]string{"/none", "/tree", "/tree/x/y", "/sub/z", "/sub", "/", "/d", "/live/x", "/weird", "/weird/too", "/openapi", "/readyness", "/aa", "/tree/opp"}, paths...)

type srv struct {
	s    *fhttp.Server
	addr string // if listening
}

var listeners = 0

func (s *srv) do(t *rapid.T, method, path, body string) (int, string, http.Header) {
	if s.addr == "" {
		w := httptest.NewRecorder()
		if p := vh.Try(func() { s.s.Mux().ServeHTTP(w, httptest.NewRequest(method, path, strings.NewReader(body))) }); p != "" {
			t.Fatalf("%s %s: %s", method, path, p)
		}
		return w.Code, w.Body.String(), w.Header()
	}
	r, err := http.NewRequest(method, s.addr+path, strings.NewReader(body))
	if err != nil {
		t.Fatal(err)
	}
	res, err := client.Do(r)
	if err != nil {
		t.Fatalf("%s %s: %v", method, path, err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		t.Fatalf("%s %s: %v", method, path, err)
	}
	return res.StatusCode, string(b), res.Header
}

var client = &http.Client{Timeout: vh.HangLimit(), CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

var c, _ = ctx.Background()

func names(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func TestServer(t *testing.T) {
	vh.Check(t, 3000, 100000, func(t *rapid.T) {
		s := &srv{s: fhttp.NewServer(c)}
		if listeners < 250 && rapid.IntRange(0, 9).Draw(t, "listen") == 6 {
			listeners++
			a, err := s.s.Listen(c, "127.0.0.1:0")
			if err != nil {
				vh.Inconclusive("can't listen: %v", err)
			}
			s.addr = "http://" + a.String()
		}
		tb := table{}
		published := map[string]bool{}
		summary := map[string]string{}
		ready := 204
		var log []string
		n, regs := 0, 0
		add := func(p, id, kind string) {
			tb[p] = entry{id, kind}
			if kind != "mux" {
				published[p] = true
			}
		}
		fail := func(f string, args ...any) { t.Fatalf("%q: %s", log, fmt.Sprintf(f, args...)) }
		free := func(ps ...string) bool {
			for _, p := range ps {
				if _, used := tb[p]; used {
					return false
				}
			}
			return true
		}
		for i := rapid.IntRange(2, 16).Draw(t, "steps"); i > 0; i-- {
			n++
			id := fmt.Sprintf("id%d", n)
			what := rapid.SampledFrom([]string{"probe", "probe", "api", "request", "handler", "func", "mux", "refused", "ready", "doc", "probe", "builtin"}).Draw(t, "what")
			p := rapid.SampledFrom(paths).Draw(t, "path")
			switch what {
			case "api":
				var obj fhttp.Doable
				var ps []string
				switch rapid.IntRange(0, 2).Draw(t, "op") {
				case 0:
					obj, ps = &one{id: id}, []string{"/a"}
				case 1:
					obj, ps = &many{id: id}, []string{"/b", "/tree/b", "/sub/"}
				case 2:
					obj, ps = &deep{id: id}, []string{"/tree/op"}
				}
				if !free(ps...) {
					continue
				}
				log = append(log, fmt.Sprintf("%s: operation %q", id, ps))
				var pi *openapi.PathItem
				var err error
				if rapid.Bool().Draw(t, "must") {
					if msg := vh.Try(func() { pi = s.s.MustRegisterAPI(c, obj) }); msg != "" {
						fail("%s", msg)
					}
				} else if pi, err = s.s.RegisterAPI(c, obj); err != nil {
					fail("%v", err)
				}
				pi.Summary = "summary of " + id
				for _, p := range ps {
					add(p, id, "api")
					summary[p] = pi.Summary
				}
				regs++
			case "request":
				if !free(p) {
					continue
				}
				log = append(log, fmt.Sprintf("%s: request %q", id, p))
				pi := s.s.HandleRequest(p, func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
					return []byte(id + ":" + string(in)), nil
				})
				pi.Summary = "summary of " + id
				summary[p] = pi.Summary
				add(p, id, "request")
				regs++
			case "handler", "func":
				if !free(p) {
					continue
				}
				log = append(log, fmt.Sprintf("%s: %s %q", id, what, p))
				h := func(w http.ResponseWriter, r *http.Request) {
					b, _ := io.ReadAll(r.Body)
					_, _ = w.Write([]byte(id + ":" + string(b)))
				}
				var op *openapi.Path
				if what == "func" {
					op = s.s.HandleFunc(p, h)
				} else {
					op = s.s.Handle(p, http.HandlerFunc(h))
				}
				if rapid.Bool().Draw(t, "describe") {
					op.Post = &openapi.PathItem{Summary: "summary of " + id, Responses: map[string]openapi.Response{}}
					summary[p] = op.Post.Summary
				}
				add(p, id, "handler")
				regs++
			case "mux":
				if !free(p) {
					continue
				}
				log = append(log, fmt.Sprintf("%s: mux %q", id, p))
				s.s.Mux().HandleFunc(p, func(w http.ResponseWriter, r *http.Request) {
					b, _ := io.ReadAll(r.Body)
					_, _ = w.Write([]byte(id + ":" + string(b)))
				})
				add(p, id, "mux")
				regs++
			case "refused": // an error, and nothing else
				obj := rapid.SampledFrom([]fhttp.Doable{&nowhere{}, &weird{}, &weirdOut{}, &twice{}, &badURL{}}).Draw(t, "op")
				log = append(log, fmt.Sprintf("refused: %T", obj))
				if rapid.Bool().Draw(t, "must") {
					if vh.Try(func() { s.s.MustRegisterAPI(c, obj) }) == "" {
						fail("MustRegisterAPI does not panic")
					}
				} else if msg := vh.Try(func() {
					if _, err := s.s.RegisterAPI(c, obj); err == nil {
						fail("registered")
					}
				}); msg != "" {
					fail("%s", msg)
				}
				vh.Label("refused")
			case "ready":
				ready = rapid.SampledFrom([]int{200, 204, 500, 503, 429, 404}).Draw(t, "code")
				log = append(log, fmt.Sprintf("ready %d", ready))
				s.s.SetReady(ready)
			case "builtin":
				if code, body, _ := s.do(t, "GET", "/live", ""); code != 204 || body != "" {
					fail("/live is %d %q", code, body)
				}
				if code, body, _ := s.do(t, "GET", "/ready", ""); code != ready || body != "" {
					fail("/ready is %d %q, was set to %d", code, body, ready)
				}
			case "doc":
				s.doc(t, fail, published, summary, tb)
			case "probe":
				p := rapid.SampledFrom(probes).Draw(t, "probe")
				s.probe(t, fail, tb, p)
			}
		}
		s.doc(t, fail, published, summary, tb)
		for p := range tb {
			s.probe(t, fail, tb, p)
		}
		kind := "direct"
		if s.addr != "" {
			kind = "over loopback"
		}
		vh.Case(regs > 1, fmt.Sprintf("%q", log), kind)
	})
}

func (s *srv) probe(t *rapid.T, fail func(string, ...any), tb table, p string) {
	text := rapid.SampledFrom([]string{"hello", "", "x y", "é\n"}).Draw(t, "text")
	e, redirect, found := tb.find(p)
	body := string(enc.JSON{}.Encode(c, enc.Map{"in": enc.String(text)}))
	code, got, h := s.do(t, "POST", p, body)
	switch {
	case redirect:
		if code/100 != 3 || !strings.HasSuffix(h.Get("Location"), p+"/") {
			fail("%s: %d to %q, only %s/ is registered", p, code, h.Get("Location"), p)
		}
		vh.Label("redirect")
	case !found:
		if code != 404 {
			fail("%s: %d %q, nothing is registered there", p, code, got)
		}
		vh.Label("nothing there")
	case e.kind == "api":
		n, err := gen.ParseJ([]byte(got))
		if code != 200 || err != nil || n.Get("out") == nil || n.Get("out").S != e.id+":"+text {
			fail("%s: %d %q, expected %s to answer %q", p, code, got, e.id, text)
		}
		vh.Label("operation")
	default:
		if code != 200 || got != e.id+":"+body {
			fail("%s: %d %q, expected %s to answer %q", p, code, got, e.id, body)
		}
		vh.Label(e.kind)
	}
}

// doc checks what is published
func (s *srv) doc(t *rapid.T, fail func(string, ...any), published map[string]bool, summary map[string]string, tb table) {
	code, body, _ := s.do(t, "GET", "/openapi.json", "")
	root, err := gen.ParseJ([]byte(body))
	if code != 200 || err != nil {
		fail("/openapi.json: %d %v %q", code, err, body)
	}
	got := map[string]bool{}
	ps := root.Get("paths")
	if ps == nil || ps.K != 'o' {
		fail("no paths: %s", body)
	}
	for _, k := range ps.Keys {
		got[k] = true
	}
	if names(got) != names(published) {
		fail("published are %s, registered %s", names(got), names(published))
	}
	for p := range published {
		post := ps.Get(p).Get("post")
		if (tb[p].kind == "api" || tb[p].kind == "request") != (post != nil && post.Get("requestBody") != nil && post.Get("responses").Get("200") != nil) {
			fail("%s %s is published as %v", tb[p].kind, p, ps.Get(p))
		}
		if summary[p] != "" && (post == nil || post.Get("summary") == nil || post.Get("summary").S != summary[p]) {
			fail("%s is published as %v, its summary is %q", p, post, summary[p])
		}
		if tb[p].kind == "api" {
			for _, f := range []struct{ sch, name string }{{"in", "requestBody"}, {"out", "responses"}} {
				x := post.Get(f.name)
				if f.name == "responses" {
					x = x.Get("200")
				}
				if x.Get("content").Get("application/json").Get("schema").Get("properties").Get(f.sch) == nil {
					fail("%s: %s is published as %v", p, f.name, x)
				}
			}
		}
	}
}
