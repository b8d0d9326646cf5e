package h03

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils/prom"
	"pgregory.net/rapid"
	"verif/expo"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "H03", "sequences of batches of parallel requests to live servers (built in, registered in every way, unregistered, failing, redirecting), each followed by a scrape compared with the log of what the clients saw; non-trivial: at least two different outcomes")
}

type op struct {
	R  api.Request `url:"/op"`
	N  int         `api:"in,required" json:"n"`
	Ok bool        `api:"out" json:"ok"`
}

func (o *op) Do(c ctx.C) error {
	if o.N >= 200 {
		return fhttp.NewErrorf(c, o.N, "as asked")
	}
	o.Ok = true
	return nil
}

func asked(r *http.Request) (code int) {
	_, _ = fmt.Sscan(r.Header.Get("X-Code"), &code)
	return
}

var (
	base [2]string
	srv  [2]*fhttp.Server
	once sync.Once
)

func plain(w http.ResponseWriter, r *http.Request) {
	for _, x := range r.Header.Values("X-Info") {
		var i int
		_, _ = fmt.Sscan(x, &i)
		w.WriteHeader(i)
	}
	code := asked(r)
	if r.Header.Get("X-Empty") != "" {
		_, _ = w.Write(nil) // this is a 200, whatever comes next
	}
	if code != 0 {
		w.WriteHeader(code)
		if r.Header.Get("X-Twice") != "" {
			w.WriteHeader(code + 1)
		}
	}
	if r.Header.Get("X-Body") != "" {
		_, _ = io.WriteString(w, "body")
	}
}

func setup() {
	once.Do(func() {
		for i := range base {
			c, _ := ctx.Background()
			s := fhttp.NewServer(c)
			srv[i] = s
			s.HandleRequest("/req", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
				if code := asked(r); code != 0 {
					return nil, fhttp.NewErrorf(c, code, "as asked")
				}
				return []byte(r.Header.Get("X-Body")), nil
			})
			s.HandleFunc("/func", plain)
			s.Handle("/handle/", http.HandlerFunc(plain))
			s.Mux().HandleFunc("/mux", plain)
			s.Mux().HandleFunc("/tree/", plain)
			fhttp.CallHandler{Path: "/call", MaxLength: 10, Handler: func(c ctx.C, call *fhttp.Call) error {
				call.Write([]byte("x"))
				return nil
			}}.Register(s)
			s.MustRegisterAPI(c, &op{})
			s.SetupPrometheus(c, "")
			a, err := s.Listen(c, "127.0.0.1:0")
			if err != nil {
				vh.Inconclusive("can't listen: %v", err)
			}
			base[i] = "http://" + a.String()
		}
	})
}

var client = &http.Client{
	Transport:     &http.Transport{MaxIdleConnsPerHost: 16, IdleConnTimeout: vh.IdleLimit},
	Timeout:       60 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

type outcome struct{ method, path, code string }

var seen = map[string]int{} // everything the clients saw in this process
var total int

func (o outcome) key() string {
	return expo.Key("", map[string]string{"method": o.method, "path": o.path, "code": o.code})
}

// counted is a cheap look at the number of observations
func counted() (n int) {
	w := httptest.NewRecorder()
	prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
	for _, l := range strings.Split(w.Body.String(), "\n") {
		if strings.HasPrefix(l, "http_request_count{") {
			var i int
			_, _ = fmt.Sscan(l[strings.LastIndexByte(l, ' ')+1:], &i)
			n += i
		}
	}
	return
}

// scrape without a request
func scrape(t *rapid.T) map[string]*expo.Hist {
	w := httptest.NewRecorder()
	prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
	fams, err := expo.Parse(w.Body.String())
	if err != nil {
		t.Fatalf("exposition: %v", err)
	}
	h, err := fams["http_request"].Hists()
	if err != nil {
		t.Fatalf("exposition: %v", err)
	}
	return h
}

type request struct {
	srv    int
	method string
	path   string // escaped
	want   string // URL path
	code   int
	info   []string
	body   string
	outb   bool
	twice  bool
	empty  bool
	got    int
	err    error
}

func (r *request) String() string {
	return fmt.Sprintf("%s %s asks %d info %v twice %v empty %v body %q -> %d", r.method, r.path, r.code, r.info, r.twice, r.empty, r.body, r.got)
}

func (r *request) send() {
	q, err := http.NewRequest(r.method, base[r.srv]+r.path, strings.NewReader(r.body))
	if err != nil {
		r.err = err
		return
	}
	if r.code != 0 {
		q.Header.Set("X-Code", fmt.Sprint(r.code))
	}
	for _, i := range r.info {
		q.Header.Add("X-Info", i)
	}
	if r.outb {
		q.Header.Set("X-Body", "1")
	}
	if r.empty {
		q.Header.Set("X-Empty", "1")
	}
	if r.twice {
		q.Header.Set("X-Twice", "1")
	}
	res, err := client.Do(q)
	if err != nil {
		r.err = err
		return
	}
	_, r.err = io.Copy(io.Discard, res.Body)
	res.Body.Close()
	r.got = res.StatusCode
}

func draw(t *rapid.T) *request {
	r := &request{srv: rapid.IntRange(0, 1).Draw(t, "server")}
	r.method = rapid.SampledFrom([]string{"GET", "POST", "HEAD", "BREW", "get", "Patch", "OPTIONS", "x"}).Draw(t, "method")
	r.path = rapid.SampledFrom([]string{"/live", "/ready", "/openapi.json", "/metrics", "/req", "/func", "/handle/", "/handle/x", "/mux", "/tree/", "/tree", "/tree/a/b", "/call", "/op", "/none", "/", "/req/", "/a%20b", "/caf%C3%A9", "/q%22%5C", "/n%0A", "/z%00%7f", "/%E2%80%8B", "/tree//x", "/tree/../func", "/*"}).Draw(t, "path")
	if rapid.IntRange(0, 4).Draw(t, "query") == 0 {
		r.path += "?a=b"
	}
	if rapid.Bool().Draw(t, "coded") {
		r.code = rapid.SampledFrom([]int{200, 204, 301, 304, 404, 451, 500, 999}).Draw(t, "code")
	}
	if rapid.IntRange(0, 5).Draw(t, "info") == 0 {
		r.info = rapid.SliceOfN(rapid.SampledFrom([]string{"102", "103", "199"}), 1, 2).Draw(t, "infos")
	}
	r.outb, r.twice = rapid.Bool().Draw(t, "out"), rapid.IntRange(0, 3).Draw(t, "twice") == 0
	r.empty = rapid.SampledFrom([]bool{false, false, false, true}).Draw(t, "empty")
	switch {
	case strings.HasPrefix(r.path, "/op"):
		r.body = rapid.SampledFrom([]string{`{"n":1}`, `{"n":0}`, `{"n":404}`, `{"n":500}`, `{"n":"x"}`, `{`, ``}).Draw(t, "json")
	default:
		r.body = strings.Repeat("x", rapid.IntRange(0, 20).Draw(t, "len"))
	}
	return r
}

func TestCounts(t *testing.T) {
	setup()
	vh.Check(t, 1000, 16000, func(t *rapid.T) {
		var log []string
		distinct := map[outcome]bool{}
		ready := [2]int{}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "batches"); i < n; i++ {
			if rapid.IntRange(0, 3).Draw(t, "setready") == 0 {
				s := rapid.IntRange(0, 1).Draw(t, "which")
				ready[s] = rapid.SampledFrom([]int{200, 204, 500, 503}).Draw(t, "ready")
				srv[s].SetReady(ready[s])
			}
			var rs []*request
			for j, k := 0, rapid.IntRange(1, 6).Draw(t, "parallel"); j < k; j++ {
				rs = append(rs, draw(t))
			}
			var wg sync.WaitGroup
			for _, r := range rs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.send()
				}()
			}
			wg.Wait()
			for _, r := range rs {
				log = append(log, r.String())
				if r.err != nil {
					t.Fatalf("%v: no response: %v", r, r.err)
				}
				q, _ := http.NewRequest(r.method, base[0]+r.path, nil)
				o := outcome{r.method, q.URL.Path, fmt.Sprint(r.got)}
				seen[o.key()]++
				total++
				distinct[o] = true
				vh.Label(fmt.Sprintf("status-%dxx", r.got/100))
			}
			vh.Eventually("the observation of all requests of "+strings.Join(log, "; "), func() bool { return counted() >= total })
			h := scrape(t)
			var diff []string
			for k, x := range h {
				if x.Count != float64(seen[k]) {
					diff = append(diff, fmt.Sprintf("%s counted %v times, seen %d times", k, x.Count, seen[k]))
				}
				if x.Sum < 0 {
					diff = append(diff, fmt.Sprintf("%s took %v seconds", k, x.Sum))
				}
			}
			for k, n := range seen {
				if h[k] == nil {
					diff = append(diff, fmt.Sprintf("%s never counted, seen %d times", k, n))
				}
			}
			sort.Strings(diff)
			if diff != nil {
				// start the next attempt from what is there
				seen, total = map[string]int{}, 0
				for k, x := range h {
					seen[k] = int(x.Count)
					total += int(x.Count)
				}
				t.Fatalf("%s: %s", strings.Join(log, "; "), strings.Join(diff, "; "))
			}
		}
		vh.Case(len(distinct) > 1, strings.Join(log, "; "), fmt.Sprintf("outcomes-%d", min(5, len(distinct))))
	})
}
