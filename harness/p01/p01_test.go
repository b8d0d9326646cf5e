package p01

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/utils/prom"
	"pgregory.net/rapid"
	"verif/expo"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "P01", "sequences of observations on generated metrics (any labels, values, buckets), printed after any step and compared with an independent aggregation; concurrent observations with scrapes in between; non-trivial: at least two series or five observations")
}

var labelNames = []string{"path", "op", "code", "_x", "A1", "method"}

// text is a valid label value or help
func text() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return strings.ToValidUTF8(rapid.OneOf(gen.Text(),
			rapid.SampledFrom([]string{"", "a", "/foo", `"`, `\`, "\n", "\r\n", "\t", "\x00", "\x7f", "\u200b", "é", "}", "{", ",", "=", `\n`, `a"b\c` + "\n", " ", "# HELP x", "\u2028", "\U0001F600", `\x00`, "%d"})).Draw(t, "text"), "?")
	})
}

func value() *rapid.Generator[float64] {
	return rapid.OneOf(
		rapid.SampledFrom([]float64{0, 1, -1, 0.5, 1e-9, 1.0000001, 123456789.125, 1e21, 1e-300, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1}),
		rapid.Map(rapid.IntRange(-50, 5000), func(i int) float64 { return float64(i) / 100 }),
		rapid.Float64())
}

func same(a, b float64) bool { return a == b || a != a && b != b }

type series struct {
	labels map[string]string
	count  int
	sum    float64
	le     []int
	kind   string // of gauges
}

// model of any metric
type model struct {
	kind    string
	name    string
	help    string
	labels  []string
	buckets []float64
	all     map[string]*series
	n       int

	h *prom.Histogram
	c *prom.Counter
	g *prom.Gauge
	p map[string]*prom.GaugeCounter
}

func newModel(t *rapid.T, name string) *model {
	m := &model{name: name, help: text().Draw(t, "help"), all: map[string]*series{}, p: map[string]*prom.GaugeCounter{}}
	m.kind = rapid.SampledFrom([]string{"histogram", "counter", "countergauge", "gauge"}).Draw(t, "kind")
	m.labels = rapid.SliceOfNDistinct(rapid.SampledFrom(labelNames), 0, 3, rapid.ID[string]).Draw(t, "labels")
	switch m.kind {
	case "histogram":
		bs := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]float64{0, 0.001, 0.5, 1, 2.5, 10, 1e6, 1e-7, 1e21, -1, -5}), rapid.Float64Range(-100, 100)), 0, 6).Draw(t, "buckets")
		sort.Float64s(bs)
		for i, b := range bs {
			if i == 0 || b != bs[i-1] {
				m.buckets = append(m.buckets, b+0) // no -0
			}
		}
		if rapid.IntRange(0, 5).Draw(t, "default") == 0 {
			m.buckets = prom.DefaultBuckets
		}
		m.h = &prom.Histogram{Desc: m.help, Buckets: m.buckets, Labels: m.labels}
		if rapid.IntRange(0, 5).Draw(t, "infinite") == 5 { // the last bucket is always there
			m.h.Buckets = append(append([]float64{}, m.buckets...), math.Inf(1))
		}
	case "counter", "countergauge":
		m.c = &prom.Counter{Name: name, Desc: m.help, Labels: m.labels, Gauge: m.kind == "countergauge"}
	case "gauge":
		m.g = &prom.Gauge{Desc: m.help, Labels: m.labels}
	}
	return m
}

func (m *model) print(w io.Writer) error {
	switch {
	case m.h != nil:
		return m.h.Print(m.name, w)
	case m.c != nil:
		return m.c.Print(w)
	default:
		return m.g.Print(m.name, w)
	}
}

// step does one thing on the metric and on the model
func (m *model) step(t *rapid.T, vals []string) string {
	labels := map[string]string{}
	for i, k := range m.labels {
		labels[k] = vals[i]
	}
	k := expo.Key("", labels)
	s := m.all[k]
	fresh := func() {
		if s == nil {
			s = &series{labels: labels, le: make([]int, len(m.buckets))}
			m.all[k] = s
		}
	}
	m.n++
	switch {
	case m.g != nil:
		what := rapid.SampledFrom([]string{"func", "func", "remove", "inc", "inc", "dec"}).Draw(t, "what")
		switch what {
		case "func":
			fresh()
			v := value().Draw(t, "v")
			s.kind, s.sum = "func", v
			m.g.SetFunc(func() float64 { return v }, vals...)
			return fmt.Sprintf("SetFunc(%v) %q", v, vals)
		case "remove":
			delete(m.all, k)
			delete(m.p, k)
			m.g.SetFunc(nil, vals...)
			return fmt.Sprintf("SetFunc(nil) %q", vals)
		default:
			if s != nil && s.kind == "func" {
				return "-" // refused with a panic
			}
			if s == nil {
				delete(m.p, k)
			}
			fresh()
			s.kind = "counter"
			g := m.p[k]
			if g == nil || rapid.Bool().Draw(t, "again") {
				g2 := m.g.Counter(vals...)
				if g != nil && g != g2 {
					t.Fatalf("Counter(%q) is another one than before", vals)
				}
				g = g2
				m.p[k] = g
			}
			amt := rapid.IntRange(-10, 1000).Draw(t, "amt")
			if what == "inc" {
				s.sum += float64(amt)
				g.Inc(amt)
			} else {
				s.sum -= float64(amt)
				g.Dec(amt)
			}
			return fmt.Sprintf("%s %d %q", what, amt, vals)
		}
	default:
		fresh()
		v := value().Draw(t, "v")
		if len(m.buckets) > 0 && rapid.IntRange(0, 3).Draw(t, "bound") == 0 {
			v = rapid.SampledFrom(m.buckets).Draw(t, "b")
		}
		s.count++
		s.sum += v
		for i, b := range m.buckets {
			if v <= b {
				s.le[i]++
			}
		}
		if m.h != nil {
			m.h.Observe(v, vals...)
		} else {
			m.c.Observe(v, vals...)
		}
		return fmt.Sprintf("Observe(%v) %q", v, vals)
	}
}

// check compares the family with the model
func (m *model) check(fam *expo.Family) string {
	if len(m.all) == 0 {
		if fam != nil && len(fam.Samples) > 0 {
			return fmt.Sprintf("nothing observed, printed %v", fam.Samples)
		}
		return ""
	}
	if fam == nil {
		return "not printed"
	}
	if want := strings.Replace(m.kind, "countergauge", "gauge", 1); fam.Type != want {
		return fmt.Sprintf("type %q, want %q", fam.Type, want)
	}
	if !fam.HasHelp || fam.Help != m.help {
		return fmt.Sprintf("help %q, want %q", fam.Help, m.help)
	}
	if m.h == nil {
		if len(fam.Samples) != len(m.all) {
			return fmt.Sprintf("%d series, want %d", len(fam.Samples), len(m.all))
		}
		for _, x := range fam.Samples {
			s := m.all[expo.Key("", x.Labels)]
			if s == nil || x.Name != m.name {
				return fmt.Sprintf("unknown series %s%q", x.Name, x.Labels)
			}
			if !same(x.Value, s.sum) {
				return fmt.Sprintf("%q is %s, want %v", x.Labels, x.Text, s.sum)
			}
		}
		return ""
	}
	hs, err := fam.Hists()
	if err != nil {
		return err.Error()
	}
	if len(hs) != len(m.all) {
		return fmt.Sprintf("%d series, want %d", len(hs), len(m.all))
	}
	for k, h := range hs {
		s := m.all[k]
		if s == nil {
			return fmt.Sprintf("unknown series %q", k)
		}
		if h.Count != float64(s.count) || !same(h.Sum, s.sum) {
			return fmt.Sprintf("%q counts %v and sums %v, want %v and %v", k, h.Count, h.Sum, s.count, s.sum)
		}
		if len(h.Le) != len(m.buckets) {
			return fmt.Sprintf("%q has buckets %v, want %v", k, h.Le, m.buckets)
		}
		le := map[float64]float64{}
		for text, n := range h.Le {
			b, _ := strconv.ParseFloat(text, 64)
			le[b] = n
		}
		for i, b := range m.buckets {
			if n, ok := le[b]; !ok || n != float64(s.le[i]) {
				return fmt.Sprintf("%q bucket %v is %v, want %d", k, b, n, s.le[i])
			}
		}
	}
	return ""
}

func drawVals(t *rapid.T, m *model, pool [][]string) []string {
	if len(pool) > 0 && rapid.Bool().Draw(t, "known") {
		return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "which")]
	}
	out := []string{}
	for range m.labels {
		out = append(out, text().Draw(t, "val"))
	}
	return out
}

func TestSequence(t *testing.T) {
	vh.Check(t, 12000, 300000, func(t *rapid.T) {
		m := newModel(t, rapid.SampledFrom([]string{"m", "http_request", "a:b_c", "X9"}).Draw(t, "name"))
		var log []string
		var pool [][]string
		for i, n := 0, rapid.IntRange(0, 12).Draw(t, "steps"); i < n; i++ {
			vals := drawVals(t, m, pool)
			pool = append(pool, vals)
			log = append(log, m.step(t, vals))
			if i == n-1 || rapid.IntRange(0, 2).Draw(t, "print") == 0 {
				var buf bytes.Buffer
				if err := m.print(&buf); err != nil {
					t.Fatalf("%s %v: print: %v", m.kind, log, err)
				}
				fams, err := expo.Parse(buf.String())
				if err != nil {
					t.Fatalf("%s %v: %v\n%s", m.kind, log, err, buf.String())
				}
				if d := m.check(fams[m.name]); d != "" {
					t.Fatalf("%s buckets %v, %v: %s\n%s", m.kind, m.buckets, log, d, buf.String())
				}
			}
		}
		vh.Case(len(m.all) > 1 || m.n > 4, fmt.Sprintf("%s labels %q help %q buckets %v: %s", m.kind, m.labels, m.help, m.buckets, strings.Join(log, "; ")), m.kind)
	})
}

// label values which are not even text must not break the exposition
func TestBytes(t *testing.T) {
	vh.Check(t, 3000, 50000, func(t *rapid.T) {
		m := newModel(t, "m")
		for i := 0; i < 3; i++ {
			vals := []string{}
			for range m.labels {
				vals = append(vals, string(rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("\xff\xc3\x28\"\\\n"))), 0, 5).Draw(t, "bytes")))
			}
			if m.g != nil {
				m.g.SetFunc(func() float64 { return 1 }, vals...)
			} else {
				m.step(t, vals)
			}
		}
		var buf bytes.Buffer
		_ = m.print(&buf)
		vh.Case(len(m.labels) > 0, fmt.Sprintf("bytes %q", buf.String()), "bytes")
		if _, err := expo.Parse(buf.String()); err != nil {
			t.Fatalf("%v\n%q", err, buf.String())
		}
	})
}

// everything registered, in one scrape
func TestRegistry(t *testing.T) {
	var all []*model
	n := 0
	vh.Check(t, 200, 2000, func(t *rapid.T) {
		if len(all) < 60 {
			n++
			m := newModel(t, fmt.Sprintf("vh_%d", n))
			switch {
			case m.h != nil:
				prom.Register(m.name, m.h)
				if vh.Try(func() { prom.Register(m.name, m.h) }) == "" {
					t.Fatalf("%s registered twice", m.name)
				}
			case m.g != nil:
				prom.Register(m.name, m.g)
			default:
				v := value().Draw(t, "custom")
				prom.Register(m.name, &prom.Custom{Desc: m.help, Type: "counter", Func: func() map[string]any { return map[string]any{m.name: v} }})
				m.kind, m.all, m.labels = "counter", map[string]*series{"": {sum: v}}, nil
				m.c = nil
			}
			all = append(all, m)
		}
		desc := []string{}
		for i := 0; i < 4; i++ {
			m := rapid.SampledFrom(all).Draw(t, "metric")
			if m.h != nil || m.g != nil {
				desc = append(desc, m.name+": "+m.step(t, drawVals(t, m, nil)))
			}
		}
		w := httptest.NewRecorder()
		prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
		fams, err := expo.Parse(w.Body.String())
		vh.Case(len(desc) > 0, fmt.Sprintf("scrape of %d after %v", len(all), desc), "registry")
		if err != nil || w.Code != 200 {
			t.Fatalf("%v: %d %v\n%s", desc, w.Code, err, w.Body.String())
		}
		for _, m := range all {
			if d := m.check(fams[m.name]); d != "" {
				t.Fatalf("%v: %s %s: %s", desc, m.kind, m.name, d)
			}
		}
		for _, name := range []string{"go_routines", "go_info", "go_memstats_alloc_bytes", "go_gc_duration_seconds"} {
			if fams[name] == nil {
				t.Fatalf("%s is not exposed", name)
			}
		}
	})
}

// cut fails after some bytes
type cut struct {
	bytes.Buffer
	left int
	err  error
}

func (w *cut) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n, _ := w.Buffer.Write(b[:w.left])
		w.left = 0
		return n, w.err
	}
	w.left -= len(b)
	return w.Buffer.Write(b)
}

// what can't be written is not lost silently
func TestCut(t *testing.T) {
	vh.Check(t, 4000, 100000, func(t *rapid.T) {
		m := newModel(t, "m")
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "steps"); i < n; i++ {
			m.step(t, drawVals(t, m, nil))
		}
		var whole bytes.Buffer
		if err := m.print(&whole); err != nil {
			t.Fatal(err)
		}
		size := whole.Len()
		at := rapid.IntRange(0, size+3).Draw(t, "at")
		w := &cut{left: at, err: fmt.Errorf("cut at %d", at)}
		err := m.print(w)
		vh.Case(size > 0 && at < size, fmt.Sprintf("%s of %d bytes, cut at %d", m.kind, size, at), "cut")
		if at >= size && err != nil || at < size && !errors.Is(err, w.err) {
			t.Fatalf("%s prints %d bytes, only %d can be written: %v\n%s", m.kind, size, at, err, whole.String())
		}
	})
}

type broken struct {
	err  error
	some string
}

func (m *broken) Print(name string, w io.Writer) error {
	if _, err := io.WriteString(w, m.some); err != nil {
		return err
	}
	return m.err
}

// a metric which fails: no partial scrape looks like a good one
func TestFailing(t *testing.T) {
	b := &broken{}
	prom.Register("vh_broken", b)
	defer func() { *b = broken{} }()
	vh.Check(t, 300, 5000, func(t *rapid.T) {
		*b = broken{some: rapid.SampledFrom([]string{"", "# HELP vh_broken x\n# TYPE vh_broken gauge\nvh_broken 1\n"}).Draw(t, "some")}
		if rapid.Bool().Draw(t, "fails") {
			b.err = errors.New("broken")
		}
		w := httptest.NewRecorder()
		if rapid.Bool().Draw(t, "head") {
			prom.Handler()(w, httptest.NewRequest("HEAD", "/metrics", nil))
		} else {
			prom.Handler()(w, httptest.NewRequest("GET", "/metrics", nil))
		}
		vh.Case(b.err != nil, fmt.Sprintf("scrape with an error: %v, after %q", b.err, b.some), "failing")
		if want := map[bool]int{true: 500, false: 200}[b.err != nil]; w.Code != want {
			t.Fatalf("scrape with a metric which returns %v: status %d", b.err, w.Code)
		}
		if err := prom.Range(func(name string, m prom.Metric) error { return m.Print(name, io.Discard) }); !errors.Is(err, b.err) {
			t.Fatalf("range: %v instead of %v", err, b.err)
		}
	})
}

// concurrent observations lose nothing and every scrape is consistent
func TestConcurrent(t *testing.T) {
	vh.Check(t, 600, 15000, func(t *rapid.T) {
		m := newModel(t, "m")
		pool := [][]string{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "series"); i < n; i++ {
			pool = append(pool, drawVals(t, m, nil))
		}
		type obs struct {
			v    float64
			vals []string
		}
		var plan [][]obs
		for i, n := 0, rapid.IntRange(2, 6).Draw(t, "goroutines"); i < n; i++ {
			var l []obs
			for j, k := 0, rapid.IntRange(1, 30).Draw(t, "observations"); j < k; j++ {
				l = append(l, obs{float64(rapid.IntRange(0, 400).Draw(t, "v")) / 8, rapid.SampledFrom(pool).Draw(t, "series")})
			}
			plan = append(plan, l)
		}
		for _, l := range plan {
			for _, o := range l {
				labels := map[string]string{}
				for i, k := range m.labels {
					labels[k] = o.vals[i]
				}
				k := expo.Key("", labels)
				s := m.all[k]
				if s == nil {
					s = &series{labels: labels, le: make([]int, len(m.buckets))}
					m.all[k] = s
				}
				if m.g != nil {
					o.v = math.Floor(o.v)
				}
				s.count++
				s.sum += o.v
				for i, b := range m.buckets {
					if o.v <= b {
						s.le[i]++
					}
				}
			}
		}
		vh.Case(true, fmt.Sprintf("concurrent %s buckets %v: %v", m.kind, m.buckets, plan), "concurrent-"+m.kind)
		start := make(chan struct{})
		var wg, wg2 sync.WaitGroup
		stop := make(chan struct{})
		var bad string
		for _, l := range plan {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range l {
					switch {
					case m.h != nil:
						m.h.Observe(o.v, o.vals...)
					case m.c != nil:
						m.c.Observe(o.v, o.vals...)
					default:
						m.g.Counter(o.vals...).Inc(int(o.v))
					}
				}
			}()
		}
		wg2.Add(1)
		go func() {
			defer wg2.Done()
			prev := map[string]float64{}
			<-start
			for {
				var buf bytes.Buffer
				err := m.print(&buf)
				fams, err2 := expo.Parse(buf.String())
				if err != nil || err2 != nil {
					bad = fmt.Sprintf("scrape: %v %v\n%s", err, err2, buf.String())
					return
				}
				if m.h != nil {
					if _, err := fams["m"].Hists(); err != nil {
						bad = fmt.Sprintf("scrape: %v\n%s", err, buf.String())
						return
					}
				}
				if f := fams["m"]; f != nil {
					for _, s := range f.Samples {
						k := expo.Key(s.Name, s.Labels)
						if s.Value < prev[k] {
							bad = fmt.Sprintf("%s went from %v to %v", k, prev[k], s.Value)
							return
						}
						prev[k] = s.Value
					}
				}
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		close(start)
		vh.Within("the observers", wg.Wait)
		close(stop)
		wg2.Wait()
		if bad != "" {
			t.Fatalf("%s buckets %v: %s", m.kind, m.buckets, bad)
		}
		var buf bytes.Buffer
		_ = m.print(&buf)
		fams, err := expo.Parse(buf.String())
		if err != nil {
			t.Fatalf("%v\n%s", err, buf.String())
		}
		if d := m.check(fams["m"]); d != "" {
			t.Fatalf("%s buckets %v %v: %s\n%s", m.kind, m.buckets, plan, d, buf.String())
		}
	})
}

// what began at some moment is observed in seconds since
func TestSince(t *testing.T) {
	vh.Check(t, 400, 20000, func(t *rapid.T) {
		h := &prom.Histogram{Desc: "since", Buckets: []float64{0.001, 0.25, 7, 70, 7000}, Labels: []string{"a"}}
		sum := map[string][2]float64{}
		count := map[string]int{}
		le := map[string]*[5][2]int{}
		var desc []string
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			ago := rapid.SampledFrom([]time.Duration{0, 100 * time.Microsecond, 10 * time.Millisecond, 3 * time.Second, 40 * time.Second, time.Hour, 100 * time.Hour}).Draw(t, "ago")
			l := rapid.SampledFrom([]string{"x", "y"}).Draw(t, "label")
			start := time.Now().Add(-ago)
			if rapid.Bool().Draw(t, "wall") {
				start = start.Round(0)
			}
			lo := time.Since(start).Seconds()
			hi := lo
			if rapid.IntRange(0, 3).Draw(t, "known") == 0 {
				h.Observe(lo, l)
			} else {
				h.ObserveSince(start, l)
				hi = time.Since(start).Seconds()
			}
			s := sum[l]
			sum[l] = [2]float64{s[0] + lo, s[1] + hi}
			count[l]++
			if le[l] == nil {
				le[l] = &[5][2]int{}
			}
			for i, b := range h.Buckets {
				if hi <= b {
					le[l][i][0]++
				}
				if lo <= b {
					le[l][i][1]++
				}
			}
			desc = append(desc, l+"="+ago.String())
		}
		vh.Case(len(desc) > 2, strings.Join(desc, " "), "since")
		var buf bytes.Buffer
		if err := h.Print("m", &buf); err != nil {
			t.Fatal(err)
		}
		fams, err := expo.Parse(buf.String())
		if err != nil {
			t.Fatalf("%v: %v\n%s", desc, err, buf.String())
		}
		hs, err := fams["m"].Hists()
		if err != nil || len(hs) != len(count) {
			t.Fatalf("%v: %v\n%s", desc, err, buf.String())
		}
		for l, n := range count {
			x := hs[expo.Key("", map[string]string{"a": l})]
			if x == nil || x.Count != float64(n) || x.Sum < sum[l][0]-1e-6 || x.Sum > sum[l][1]+1e-6 {
				t.Fatalf("%v: %s must have %d, between %v:\n%s", desc, l, n, sum[l], buf.String())
			}
			for i, b := range h.Buckets {
				got := -1.0
				for k, v := range x.Le {
					if f, _ := strconv.ParseFloat(k, 64); f == b {
						got = v
					}
				}
				if got < float64(le[l][i][0]) || got > float64(le[l][i][1]) {
					t.Fatalf("%v: %s has %v up to %v, must be %v:\n%s", desc, l, got, b, le[l][i], buf.String())
				}
			}
		}
	})
}

// metrics computed when printed
func TestCustom(t *testing.T) {
	vh.Check(t, 2000, 60000, func(t *rapid.T) {
		vals := map[string]any{}
		for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
			k := "m" + rapid.SampledFrom([]string{"", "_sum", "_count", "_total"}).Draw(t, "suffix") + rapid.SampledFrom([]string{"", `{quantile="0.5"}`, `{quantile="0.99"}`, `{a="\"x\"",b="1"}`}).Draw(t, "labels")
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				vals[k] = value().Draw(t, "v")
			case 1:
				vals[k] = rapid.Int().Draw(t, "int")
			default:
				vals[k] = rapid.Uint64().Draw(t, "uint")
			}
		}
		calls := 0
		m := &prom.Custom{Desc: text().Draw(t, "help"), Type: rapid.SampledFrom([]string{"summary", "gauge", "counter", "untyped"}).Draw(t, "type"), Func: func() map[string]any { calls++; return vals }}
		desc := fmt.Sprintf("%s %q %v", m.Type, m.Desc, vals)
		vh.Case(len(vals) > 1, desc, "custom")
		var buf bytes.Buffer
		if err := m.Print("m", &buf); err != nil || calls != 1 {
			t.Fatalf("%s: %v after %d calls", desc, err, calls)
		}
		out := buf.String()
		for at := 0; at < len(out); at += 1 + len(out)/7 {
			w := &cut{left: at, err: fmt.Errorf("cut at %d", at)}
			if err := m.Print("m", w); !errors.Is(err, w.err) {
				t.Fatalf("%s: cut at %d of %d: %v", desc, at, len(out), err)
			}
		}
		if len(vals) == 0 {
			if out != "" {
				t.Fatalf("%s: nothing to tell, printed %q", desc, out)
			}
			return
		}
		head := strings.SplitN(out, "\n", 3)
		if len(head) != 3 || !strings.HasPrefix(head[0], "# HELP m ") || head[1] != "# TYPE m "+m.Type {
			t.Fatalf("%s: head\n%s", desc, out)
		}
		if fams, err := expo.Parse(head[0] + "\n" + head[1] + "\n"); err != nil || fams["m"].Help != m.Desc {
			t.Fatalf("%s: help %v %v\n%s", desc, fams["m"], err, out)
		}
		got := map[string]string{}
		for _, l := range strings.Split(strings.TrimSuffix(head[2], "\n"), "\n") {
			i := strings.LastIndexByte(l, ' ')
			if i < 0 || got[l[:i]] != "" {
				t.Fatalf("%s: line %q\n%s", desc, l, out)
			}
			got[l[:i]] = l[i+1:]
		}
		if len(got) != len(vals) {
			t.Fatalf("%s: %d lines\n%s", desc, len(got), out)
		}
		for k, v := range vals {
			ok := false
			switch v := v.(type) {
			case float64:
				f, err := strconv.ParseFloat(got[k], 64)
				ok = err == nil && same(f, v)
			default:
				ok = got[k] == fmt.Sprint(v)
			}
			if !ok {
				t.Fatalf("%s: %s is %q\n%s", desc, k, got[k], out)
			}
		}
	})
}
