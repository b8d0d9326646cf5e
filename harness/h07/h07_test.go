package h07

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"html"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/utils/prom"
	"pgregory.net/rapid"
	"verif/expo"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "H07", "servers with the monitoring and the metrics set up under generated prefixes and paths (or not at all), with generated numbers of entries in named profiles, of parked goroutines and of metrics, then requests to every endpoint, to the links of the index and next to them; non-trivial: a server with the monitoring or the metrics")
}

// what the process reports
var (
	names    = []string{"conns", "deep/in.side", "two words", "ünï", "what?x=1", "a&b", "goroutines"}
	profiles []*pprof.Profile
	builtin  = map[string]string{
		"goroutine": "goroutine profile: total ", "heap": "heap profile: ", "allocs": "heap profile: ",
		"threadcreate": "threadcreate profile: total ", "block": "--- contention:", "mutex": "--- mutex:",
	}
	gauge   *prom.Gauge
	counter *prom.Gauge
	setup   sync.Once
)

func initialize() {
	for _, n := range names {
		profiles = append(profiles, pprof.NewProfile(n))
	}
	gauge = prom.Register("h07_gauge", &prom.Gauge{Desc: "x"})
	counter = prom.Register("h07_labels", &prom.Gauge{Labels: []string{"l"}})
}

//go:noinline
func parkedHere(ready chan<- bool, stop <-chan bool) {
	ready <- true
	<-stop
}

// the profile which gets one more entry, or (beyond those) the goroutines
var changes = []int{7, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7}

// how many goroutines are in parkedHere
var group = regexp.MustCompile(`(?m)^(\d+) @[^\n]*\n((?:#[^\n]*\n)*)`)

func countParked(body string) (n int) {
	for _, m := range group.FindAllStringSubmatch(body, -1) {
		if strings.Contains(m[2], "h07.parkedHere") {
			k, _ := strconv.Atoi(m[1])
			n += k
		}
	}
	return n
}

type server struct {
	prefix  string // of the monitoring
	monitor bool
	path    string // of the metrics
	metrics bool
	first   bool // which one is first
	s       *fhttp.Server
}

func (s *server) String() string {
	return fmt.Sprintf("{monitor=%v %q metrics=%v %q}", s.monitor, s.prefix, s.metrics, s.path)
}

func (s *server) get(t *rapid.T, path string) (int, http.Header, string) {
	w := httptest.NewRecorder()
	method := rapid.SampledFrom([]string{"GET", "GET", "POST"}).Draw(t, "method")
	if p := vh.Try(func() { s.s.Mux().ServeHTTP(w, httptest.NewRequest(method, path, nil)) }); p != "" {
		t.Fatalf("%s %s: panic %s", method, path, p)
	}
	body, _ := io.ReadAll(w.Result().Body)
	return w.Code, w.Header(), string(body)
}

func escape(path string) string { return (&url.URL{Path: path}).EscapedPath() }

func TestEndpoints(t *testing.T) {
	setup.Do(initialize)
	vh.Check(t, 1600, 60000, func(t *rapid.T) {
		c := ctx.TODO()
		s := &server{
			prefix:  rapid.SampledFrom([]string{"", "/debug", "/mon", "/a/b", "/x.y", "/pprof", "/ünï", "/debug/pprof"}).Draw(t, "prefix"),
			path:    rapid.SampledFrom([]string{"", "/metrics", "/mon/metrics", "/m/", "/pprofs"}).Draw(t, "path"),
			monitor: rapid.IntRange(0, 9).Draw(t, "monitor") < 8,
			metrics: rapid.IntRange(0, 9).Draw(t, "metrics") < 7,
			first:   rapid.Bool().Draw(t, "first"),
			s:       fhttp.NewServer(c),
		}
		vh.Case(s.monitor || s.metrics, "", "server")
		if s.metrics && s.first {
			s.s.SetupPrometheus(c, s.path)
		}
		if s.monitor {
			s.s.SetupMonitoring(c, s.prefix)
		}
		if s.metrics && !s.first {
			s.s.SetupPrometheus(c, s.path)
		}
		served := "x"
		s.s.HandleFunc("/other", func(w http.ResponseWriter, r *http.Request) { _, _ = io.WriteString(w, served) })
		counts := make([]int, len(profiles))
		for i, p := range profiles {
			counts[i] = rapid.IntRange(0, 3).Draw(t, "entries")
			for k := 0; k < counts[i]; k++ {
				p.Add([2]int{i, k}, 1)
				defer p.Remove([2]int{i, k})
			}
		}
		var stops, dones []chan bool
		parked := 0
		park := func() {
			stop, done, ready := make(chan bool), make(chan bool), make(chan bool)
			go func() {
				defer close(done)
				parkedHere(ready, stop)
			}()
			<-ready
			stops, dones = append(stops, stop), append(dones, done)
			parked++
		}
		unpark := func() {
			parked--
			close(stops[parked])
			<-dones[parked]
			stops, dones = stops[:parked], dones[:parked]
		}
		defer func() {
			for parked > 0 {
				unpark()
			}
		}()
		for i := rapid.IntRange(0, 4).Draw(t, "goroutines"); i > 0; i-- {
			park()
		}
		at := s.prefix + "/pprof/"
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "requests"); i < n; i++ {
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "changes") == 2 { // the state changes between the requests
				switch k := rapid.SampledFrom(changes).Draw(t, "change"); {
				case k < len(profiles):
					p, e := profiles[k], [2]int{k, counts[k]}
					counts[k]++
					p.Add(e, 1)
					defer p.Remove(e)
				case parked > 0 && rapid.Bool().Draw(t, "fewer"):
					unpark()
				default:
					park()
				}
			}
			switch what := rapid.SampledFrom([]string{"custom", "custom", "builtin", "raw", "unknown", "index", "cmdline", "symbol", "goroutines", "metrics", "link", "other", "nothing"}).Draw(t, "what"); what {
			case "custom":
				k := rapid.IntRange(0, len(names)-1).Draw(t, "profile")
				path := escape(at+names[k]) + "?debug=1"
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path, counts[k]), what)
				if !s.monitor {
					want404(t, s, path, code)
				} else if want := fmt.Sprintf("%s profile: total %d\n", names[k], counts[k]); code != 200 || !strings.HasPrefix(body, want) {
					t.Fatalf("%v %s: %d %.200q instead of %q", s, path, code, body, want)
				}
			case "builtin":
				name := rapid.SampledFrom([]string{"goroutine", "heap", "allocs", "threadcreate", "block", "mutex"}).Draw(t, "profile")
				path := escape(at) + name + "?debug=1"
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path), what)
				if !s.monitor {
					want404(t, s, path, code)
				} else if code != 200 || !strings.HasPrefix(body, builtin[name]) {
					t.Fatalf("%v %s: %d %.200q", s, path, code, body)
				} else if name == "goroutine" && countParked(body) != parked {
					t.Fatalf("%v %s: %d of %d goroutines: %s", s, path, countParked(body), parked, body)
				}
			case "raw":
				name := rapid.SampledFrom([]string{"goroutine", "heap", "threadcreate", "conns"}).Draw(t, "profile")
				path := escape(at) + name
				code, h, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path), what)
				if !s.monitor {
					want404(t, s, path, code)
					break
				}
				r, err := gzip.NewReader(bytes.NewReader([]byte(body)))
				if err == nil {
					_, err = io.Copy(io.Discard, r)
				}
				if code != 200 || err != nil || strings.Contains(h.Get("Content-Type"), "html") {
					t.Fatalf("%v %s: %d %v %v %.200q", s, path, code, h, err, body)
				}
			case "unknown":
				path := escape(at) + rapid.SampledFrom([]string{"none", "heap/x", "xheap", "debug/pprof/heap", "pprof/heap", "Heap"}).Draw(t, "profile")
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path), what)
				if code != 404 {
					t.Fatalf("%v %s: %d %.200q", s, path, code, body)
				}
			case "index", "link":
				code, _, body := s.get(t, escape(at))
				vh.Case(s.monitor, fmt.Sprint(s, what, counts), what)
				if !s.monitor {
					want404(t, s, at, code)
					break
				}
				for _, name := range append([]string{"heap", "goroutine"}, names...) {
					if code != 200 || !strings.Contains(body, html.EscapeString(name)) {
						t.Fatalf("%v %s: %d without %q: %s", s, at, code, name, body)
					}
				}
				if what == "index" {
					break
				}
				var links []string
				for _, m := range regexp.MustCompile(`href=['"]([^'"]*)['"]`).FindAllStringSubmatch(body, -1) {
					if l := html.UnescapeString(m[1]); !strings.HasPrefix(l, "profile") && !strings.HasPrefix(l, "trace") { // which take a while
						links = append(links, l)
					}
				}
				if len(links) < len(names)+4 {
					t.Fatalf("%v %s: links %q", s, at, links)
				}
				l := rapid.SampledFrom(links).Draw(t, "link")
				base, err := url.Parse(escape(at))
				if err != nil {
					t.Fatal(err)
				}
				u, err := base.Parse(l)
				if err != nil {
					t.Fatalf("link %q: %v", l, err)
				}
				code, h, page := s.get(t, u.String())
				if code != 200 || page == body || strings.Contains(h.Get("Content-Type"), "html") {
					t.Fatalf("%v the link %q to %s leads to %d %.300q", s, l, u, code, page)
				}
			case "cmdline":
				path := escape(at) + "cmdline"
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path), what)
				if !s.monitor {
					want404(t, s, path, code)
				} else if code != 200 || body != strings.Join(os.Args, "\x00") {
					t.Fatalf("%v %s: %d %q", s, path, code, body)
				}
			case "symbol":
				path := escape(at) + "symbol"
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path), what)
				if !s.monitor {
					want404(t, s, path, code)
				} else if code != 200 || !strings.HasPrefix(body, "num_symbols: ") {
					t.Fatalf("%v %s: %d %q", s, path, code, body)
				}
			case "goroutines":
				path := escape(s.prefix + "/goroutines")
				code, _, body := s.get(t, path)
				vh.Case(s.monitor, fmt.Sprint(s, path, parked), what)
				if !s.monitor {
					want404(t, s, path, code)
				} else if code != 200 || !strings.HasPrefix(body, "goroutine profile: total ") || countParked(body) != parked {
					t.Fatalf("%v %s: %d, %d goroutines instead of %d: %s", s, path, code, countParked(body), parked, body)
				}
			case "metrics":
				v := rapid.IntRange(-5, 1000).Draw(t, "value")
				gauge.SetFunc(func() float64 { return float64(v) / 4 })
				label := rapid.SampledFrom([]string{"a", "b c", "\"", "\\\n"}).Draw(t, "label")
				counter.SetFunc(func() float64 { return float64(v) }, label)
				path := s.path
				if path == "" {
					path = "/metrics"
				}
				code, _, body := s.get(t, path)
				counter.SetFunc(nil, label)
				vh.Case(s.metrics, fmt.Sprint(s, path, v, label), what)
				if !s.metrics {
					want404(t, s, path, code)
					break
				}
				fams, err := expo.Parse(body)
				if code != 200 || err != nil {
					t.Fatalf("%v %s: %d %v %s", s, path, code, err, body)
				}
				for _, name := range []string{"h07_gauge", "h07_labels", "go_routines", "go_info", "go_memstats_alloc_bytes", "go_gc_duration_seconds"} {
					if fams[name] == nil {
						t.Fatalf("%v %s: no %s: %s", s, path, name, body)
					}
				}
				for line, want := range map[string]string{"h07_gauge ": fmt.Sprint(float64(v) / 4), "h07_labels{": fmt.Sprint(v)} {
					_, rest, _ := strings.Cut("\n"+body, "\n"+line)
					rest, _, _ = strings.Cut(rest, "\n")
					if f := strings.Fields(rest); len(f) == 0 || f[len(f)-1] != want {
						t.Fatalf("%v %s: %s%s instead of %s", s, path, line, rest, want)
					}
				}
			case "other":
				served = fmt.Sprint("other ", i)
				if code, _, body := s.get(t, "/other"); code != 200 || body != served {
					t.Fatalf("%v /other: %d %q", s, code, body)
				}
			case "nothing":
				path := rapid.SampledFrom([]string{"/", "/none", "/debug", "/mon", "/goroutines/x", "/metrics/x", "/pprof/x/none", "/other/x"}).Draw(t, "path")
				if s.metrics && s.path == "/m/" && strings.HasPrefix(path, "/m/") {
					break
				}
				code, _, body := s.get(t, path)
				if code != 404 {
					t.Fatalf("%v %s: %d %.200q", s, path, code, body)
				}
			}
		}
	})
}

func want404(t *rapid.T, s *server, path string, code int) {
	t.Helper()
	if code != 404 {
		t.Fatalf("%v %s: %d", s, path, code)
	}
}
