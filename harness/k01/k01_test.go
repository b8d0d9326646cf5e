package k01

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/storage"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "K01", "sequences of upserts, deletes, gets and filtered range reads (with callbacks which stop, fail or use the store) over generated keys and values, and concurrent histories of them; non-trivial: a range read which selects some of the entries, or a history with overlapping operations")
}

func quiet() (ctx.C, func()) {
	c, cf := ctx.Background()
	return log.WithLogFunc(c, func(ctx.C, slog.Level, string, string, ...any) {}), func() { cf(nil) }
}

// a value, with the model of its JSON
type val struct {
	n enc.Node
	j *gen.J
}

type doc struct {
	m enc.Map
	f map[string]val
}

func (d *doc) String() string {
	if d == nil {
		return "none"
	}
	var l []string
	for k, v := range d.f {
		l = append(l, fmt.Sprintf("%q:%T %v", k, v.n, v.j))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

// same kind and content
func strict(n enc.Node) string {
	switch n := n.(type) {
	case nil:
		return "null"
	case enc.Nil:
		return "null"
	case enc.Map:
		var l []string
		for k, v := range n {
			l = append(l, fmt.Sprintf("%q:%s", k, strict(v)))
		}
		sort.Strings(l)
		return "map{" + strings.Join(l, ",") + "}"
	case enc.List:
		var l []string
		for _, v := range n {
			l = append(l, strict(v))
		}
		return "list[" + strings.Join(l, ",") + "]"
	case enc.Pairs:
		var l []string
		for _, v := range n {
			l = append(l, fmt.Sprintf("%q/%q:%s", v.Name, v.JSON, strict(v.Value)))
		}
		return "pairs{" + strings.Join(l, ",") + "}"
	case enc.Time:
		return "time " + time.Time(n).Format(time.RFC3339Nano) + time.Time(n).Location().String()
	default:
		return fmt.Sprintf("%T %v", n, n)
	}
}

// +1 must be equal, -1 must be different, 0 not specified
func equal(a, b val) int {
	if strict(a.n) == strict(b.n) {
		return 1
	}
	if (gen.Cmp{}).Diff(a.j, b.j) != "" && !numericallyClose(a.j, b.j) && !hasPairs(a.n) && !hasPairs(b.n) {
		return -1
	}
	return 0
}

func hasPairs(n enc.Node) bool { return strings.Contains(strict(n), "pairs{") }

// numbers of different kinds or notations: do not insist
func numericallyClose(a, b *gen.J) bool {
	x, y := a.String(), b.String()
	strip := func(s string) string {
		out, in := "", false
		for i := 0; i < len(s); i++ {
			if s[i] == '"' {
				in = !in
			}
			if !in && (s[i] >= '0' && s[i] <= '9' || strings.IndexByte("+-.eE", s[i]) >= 0) {
				continue
			}
			out += s[i : i+1]
		}
		return out
	}
	return strip(x) == strip(y) && x != y && (strings.ContainsAny(x, ".eE-") || strings.ContainsAny(y, ".eE-"))
}

func drawVal(t *rapid.T, pool *[]val) val {
	if len(*pool) > 0 && rapid.IntRange(0, 2).Draw(t, "again") > 0 {
		v := (*pool)[rapid.IntRange(0, len(*pool)-1).Draw(t, "pooled")]
		if rapid.Bool().Draw(t, "rebuilt") {
			v.n = rebuild(v.n)
		}
		return v
	}
	var v val
	switch rapid.IntRange(0, 5).Draw(t, "value") {
	case 0:
		i := rapid.IntRange(0, 3).Draw(t, "small")
		v = val{enc.Integer(i), gen.Num(fmt.Sprint(i))}
	case 1:
		s := rapid.SampledFrom([]string{"", "a", "A", "1", "null", "é", "a\""}).Draw(t, "text")
		v = val{enc.String(s), gen.Str(s)}
	case 2: // maps of a few fields
		m, j := enc.Map{}, gen.Obj()
		for _, k := range []string{"x", "y", "z", "1", "é"} {
			if i := rapid.IntRange(0, 3).Draw(t, k); i > 0 {
				m[k] = enc.Integer(i)
				j.Add(k, gen.Num(fmt.Sprint(i)))
			}
		}
		v = val{m, j}
	default:
		s := gen.Node(2).Draw(t, "node")
		v = val{s.Node, s.J}
	}
	*pool = append(*pool, v)
	return v
}

// an equal value which shares nothing
func rebuild(n enc.Node) enc.Node {
	switch n := n.(type) {
	case enc.Map:
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		m := make(enc.Map, 50)
		for _, k := range ks {
			m[k] = rebuild(n[k])
		}
		return m
	case enc.List:
		l := make(enc.List, 0, len(n)+3)
		for _, v := range n {
			l = append(l, rebuild(v))
		}
		return l
	}
	return n
}

var fields = []string{"a", "b", "c", "", "A"}

func drawDoc(t *rapid.T, pool *[]val) *doc {
	d := &doc{m: enc.Map{}, f: map[string]val{}}
	for n := rapid.IntRange(0, 3).Draw(t, "fields"); n > 0; n-- {
		k := rapid.SampledFrom(fields).Draw(t, "field")
		v := drawVal(t, pool)
		d.f[k], d.m[k] = v, v.n
	}
	return d
}

var null = val{enc.Nil{}, gen.Null()}

type filter struct {
	f storage.Filter
	v val
}

// 1 in, -1 out, 0 not specified, 2 an error
func matches(d *doc, fs []filter) int {
	res := 1
	for _, f := range fs {
		v, ok := d.f[f.f.Field]
		if !ok {
			v = null
		}
		e := equal(v, f.v)
		switch f.f.Cmp {
		case storage.Equal:
		case storage.NotEqual:
			e = -e
		default:
			if res == 0 {
				return 3 // maybe an error
			}
			return 2
		}
		if e == -1 {
			if res == 0 {
				return 0 // an unsupported one might come after, but this is out
			}
			return -1
		}
		if e == 0 {
			res = 0
		}
	}
	return res
}

func drawFilters(t *rapid.T, pool *[]val) (fs []filter) {
	for n := rapid.SampledFrom([]int{0, 1, 2, 3, 1, 2, 3, 6}).Draw(t, "filters"); n > 0; n-- {
		f := filter{}
		f.f.Field = rapid.SampledFrom(append(append([]string{}, fields...), "none")).Draw(t, "field")
		k := rapid.IntRange(0, 9).Draw(t, "cmp")
		switch {
		case k == 8:
			f.f.Cmp = rapid.SampledFrom([]storage.Cmp{storage.Greater, storage.Lesser, storage.GreaterEq, storage.LesserEq, "", "eq", "??"}).Draw(t, "unsupported")
		case k >= 5:
			f.f.Cmp = storage.NotEqual
		default:
			f.f.Cmp = storage.Equal
		}
		switch rapid.IntRange(0, 5).Draw(t, "against") {
		case 4:
			f.v = null
		case 5:
			f.v = null
			fs = append(fs, f) // no value at all
			continue
		default:
			f.v = drawVal(t, pool)
		}
		f.f.Val = f.v.n
		fs = append(fs, f)
	}
	return fs
}

func list(fs []filter) (out []storage.Filter) {
	for _, f := range fs {
		out = append(out, f.f)
	}
	return
}

func TestMap(t *testing.T) {
	vh.Check(t, 8000, 400000, func(t *rapid.T) {
		c, cf := quiet()
		defer cf()
		var kv storage.KeyValue = storage.NewMemKeyValue()
		model := map[string]*doc{}
		keys := []string{"one", "two", "", "One", "k\x00", "é", strings.Repeat("long", 20)}
		key := func() string {
			if rapid.IntRange(0, 9).Draw(t, "new key") == 9 {
				return rapid.String().Draw(t, "key")
			}
			return rapid.SampledFrom(keys).Draw(t, "key")
		}
		var pool []val
		var labels []string
		nontrivial := false
		steps := rapid.IntRange(1, 20).Draw(t, "steps")
		var ops []string
		get := func(k string) {
			got, err := kv.Get(c, k)
			if err != nil {
				t.Fatalf("get %q: %v", k, err)
			}
			want := model[k]
			if want == nil {
				if got != nil {
					t.Fatalf("get %q: %v, want none\n%s", k, got, ops)
				}
			} else if !reflect.DeepEqual(got, want.m) {
				t.Fatalf("get %q: %v, want %v\n%s", k, got, want, ops)
			}
		}
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1, 2, 3:
				k, d := key(), drawDoc(t, &pool)
				ops = append(ops, fmt.Sprintf("upsert %q %v", k, d))
				if err := kv.Upsert(c, k, d.m); err != nil {
					t.Fatalf("upsert: %v", err)
				}
				model[k] = d
				labels = append(labels, "upsert")
			case 4:
				k := key()
				ops = append(ops, fmt.Sprintf("delete %q", k))
				if err := kv.Delete(c, k); err != nil {
					t.Fatalf("delete: %v", err)
				}
				delete(model, k)
				labels = append(labels, "delete")
			case 5:
				get(key())
			default:
				fs := drawFilters(t, &pool)
				nt, l := rangeOnce(t, c, kv, model, fs, keys, &pool, &ops)
				nontrivial = nontrivial || nt
				labels = append(labels, l...)
			}
		}
		for k := range model {
			get(k)
		}
		for _, k := range keys {
			get(k)
		}
		rangeOnce(t, c, kv, model, nil, nil, &pool, &ops)
		vh.Case(nontrivial, fmt.Sprintf("%.300s", strings.Join(ops, "; ")), labels...)
	})
}

var errStop = errors.New("stop")

// none of them is the one which ends the range
var errsLike = []error{errors.New(storage.EOD.Error()), io.EOF, context.Canceled, context.DeadlineExceeded, fmt.Errorf("reading: %w", io.EOF)}

// one range read; the callback stops, fails or uses the store after some calls
func rangeOnce(t *rapid.T, c ctx.C, kv storage.KeyValue, model map[string]*doc, fs []filter, keys []string, pool *[]val, ops *[]string) (nontrivial bool, labels []string) {
	must, may, bad, maybeBad := map[string]bool{}, map[string]bool{}, false, false
	before := map[string]*doc{}
	for k, d := range model {
		before[k] = d
		switch matches(d, fs) {
		case 1:
			must[k], may[k] = true, true
		case 0:
			may[k] = true
		case 2:
			bad = true
		case 3:
			maybeBad = true
			may[k] = true
		}
	}
	for _, f := range fs { // might as well be found before looking at any entry
		if f.f.Cmp != storage.Equal && f.f.Cmp != storage.NotEqual {
			maybeBad = true
		}
	}
	stopAt, how := -1, 0
	if keys != nil && rapid.IntRange(0, 1).Draw(t, "in the callback") == 1 {
		stopAt = rapid.IntRange(0, 3).Draw(t, "at")
		how = rapid.IntRange(0, 4).Draw(t, "how")
	}
	errLike := rapid.SampledFrom(errsLike).Draw(t, "error like")
	var fdesc []string
	for _, f := range fs {
		fdesc = append(fdesc, fmt.Sprintf("%q %s %T %v", f.f.Field, f.f.Cmp, f.f.Val, f.v.j))
	}
	*ops = append(*ops, fmt.Sprintf("range %s", fdesc))
	seen := map[string]bool{}
	n := 0
	dirty := map[string]bool{}
	var err error
	msg := vh.Try(func() {
		err = kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
			d := before[k]
			if d == nil {
				t.Fatalf("called back with %q, which is not there\n%s", k, *ops)
			}
			if !may[k] {
				t.Fatalf("called back with %q %v, which does not match %s\n%s", k, d, fdesc, *ops)
			}
			if seen[k] {
				t.Fatalf("called back twice with %q\n%s", k, *ops)
			}
			if !reflect.DeepEqual(m, d.m) && !dirty[k] {
				t.Fatalf("called back with %q %v, want %v\n%s", k, m, d, *ops)
			}
			seen[k] = true
			n++
			if n-1 == stopAt {
				switch how {
				case 0:
					return storage.EOD
				case 1:
					return errStop
				case 4:
					return errLike
				case 2: // use the store
					x := rapid.SampledFrom(keys).Draw(t, "in callback")
					d := drawDoc(t, pool)
					dirty[x] = true
					if err := kv.Upsert(c, x, d.m); err != nil {
						t.Fatalf("upsert: %v", err)
					}
					model[x] = d
					if got, err := kv.Get(c, x); err != nil || !reflect.DeepEqual(got, d.m) {
						t.Fatalf("get in the callback: %v %v", got, err)
					}
				case 3:
					x := rapid.SampledFrom(keys).Draw(t, "in callback")
					dirty[x] = true
					if err := kv.Delete(c, x); err != nil {
						t.Fatalf("delete: %v", err)
					}
					delete(model, x)
				}
			}
			return nil
		}, list(fs)...)
	})
	if msg != "" {
		t.Fatalf("range %s: %s\n%s", fdesc, msg, *ops)
	}
	stopped := stopAt >= 0 && n == stopAt+1 && (how < 2 || how == 4)
	labels = append(labels, "range")
	switch {
	case bad && err == nil:
		t.Fatalf("no error for an unsupported filter: %s\n%s", fdesc, *ops)
	case err != nil && maybeBad && !errors.Is(err, errStop) && err != errLike:
		labels = append(labels, "unsupported filter")
		return true, labels
	case stopped && how == 4:
		if err != errLike {
			t.Fatalf("the callback's error became %v", err)
		}
		labels = append(labels, "callback failed")
	case stopped && how == 1:
		if err != errStop {
			t.Fatalf("the callback's error became %v", err)
		}
		labels = append(labels, "callback failed")
	case err != nil:
		t.Fatalf("range %s: %v\n%s", fdesc, err, *ops)
	case stopped:
		labels = append(labels, "callback stopped")
	default:
		for k := range must {
			if !seen[k] && !dirty[k] {
				t.Fatalf("not called back with %q %v, which matches %s\n%s", k, before[k], fdesc, *ops)
			}
		}
		if stopAt >= 0 && n > stopAt {
			labels = append(labels, "callback used the store")
		}
	}
	return len(fs) > 0 && len(must) > 0 && len(must) < len(before), labels
}

func TestMany(t *testing.T) {
	vh.Check(t, 12, 200, func(t *rapid.T) {
		c, cf := quiet()
		defer cf()
		var kv storage.KeyValue = storage.NewMemKeyValue()
		n := rapid.SampledFrom([]int{255, 256, 257, 1000, 1025, 4097, 10000}).Draw(t, "entries")
		mod := rapid.IntRange(1, 5).Draw(t, "mod")
		gone := rapid.IntRange(0, 7).Draw(t, "gone")
		for i := 0; i < n; i++ {
			if err := kv.Upsert(c, fmt.Sprint("k", i), enc.Map{"i": enc.Integer(i), "m": enc.Integer(i % mod)}); err != nil {
				t.Fatalf("upsert: %v", err)
			}
		}
		want := map[string]int{}
		for i := 0; i < n; i++ {
			if gone > 1 && i%gone == 0 {
				if err := kv.Delete(c, fmt.Sprint("k", i)); err != nil {
					t.Fatalf("delete: %v", err)
				}
			} else if i%mod == 0 {
				want[fmt.Sprint("k", i)] = i
			}
		}
		got := map[string]int{}
		err := kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
			if _, ok := got[k]; ok {
				t.Fatalf("called back twice with %q", k)
			}
			got[k] = int(m["i"].(enc.Integer))
			return nil
		}, storage.Filter{Field: "m", Cmp: storage.Equal, Val: enc.Integer(0)})
		if err != nil {
			t.Fatalf("range: %v", err)
		}
		if len(got) != len(want) || !reflect.DeepEqual(got, want) {
			t.Fatalf("%d entries, every %dth of them deleted: a range of those with m=0 gives %d, want %d", n, gone, len(got), len(want))
		}
		for i := 0; i < n; i += 1 + n/50 {
			m, err := kv.Get(c, fmt.Sprint("k", i))
			if exists := !(gone > 1 && i%gone == 0); err != nil || (m != nil) != exists {
				t.Fatalf("get %d: %v %v, exists: %v", i, m, err, exists)
			}
		}
		vh.Case(len(want) > 0 && len(want) < n, fmt.Sprintf("%d entries, mod %d, gone %d", n, mod, gone), "many entries")
	})
}

// ---- concurrent histories

type in struct {
	op  int // 0 get, 1 upsert, 2 delete, 3 range
	key string
	val int
	fil int // of a range: only those with this value, -1 for all
}

// the state is the text of a sorted map
func state(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func parse(s string) map[string]int {
	m := map[string]int{}
	for _, p := range strings.Fields(s) {
		k, v, _ := strings.Cut(p, "=")
		var n int
		fmt.Sscan(v, &n)
		m[k] = n
	}
	return m
}

var kvModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(st, i, o any) (bool, any) {
		m, x := parse(st.(string)), i.(in)
		switch x.op {
		case 0:
			v, ok := m[x.key]
			if !ok {
				v = -1
			}
			return o.(string) == fmt.Sprint(v), st
		case 1:
			m[x.key] = x.val
			return true, state(m)
		case 2:
			delete(m, x.key)
			return true, state(m)
		default:
			if x.fil >= 0 {
				for k, v := range m {
					if v%2 != x.fil {
						delete(m, k)
					}
				}
			}
			return o.(string) == state(m), st
		}
	},
	DescribeOperation: func(i, o any) string { return fmt.Sprintf("%+v -> %v", i, o) },
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 600, 30000, func(t *rapid.T) {
		c, cf := quiet()
		defer cf()
		var kv storage.KeyValue = storage.NewMemKeyValue()
		ng := rapid.IntRange(2, 5).Draw(t, "goroutines")
		plans := make([][]in, ng)
		n := 0
		var desc []string
		for g := range plans {
			for i := rapid.IntRange(1, 6).Draw(t, "ops"); i > 0; i-- {
				n++
				x := in{op: rapid.SampledFrom([]int{1, 0, 3, 2, 1, 1, 3}).Draw(t, "op"), key: rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "key"), val: n, fil: -1}
				if x.op == 3 && rapid.Bool().Draw(t, "filtered") {
					x.fil = rapid.IntRange(0, 1).Draw(t, "parity")
				}
				plans[g] = append(plans[g], x)
				desc = append(desc, fmt.Sprintf("%d:%d%s%d", g, x.op, x.key, x.fil))
			}
		}
		var hist [8][]porcupine.Operation
		var clock atomic.Int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		var overlap atomic.Int32
		var running atomic.Int32
		var fails sync.Map
		for g := range plans {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, x := range plans[g] {
					if running.Add(1) > 1 {
						overlap.Add(1)
					}
					op := porcupine.Operation{ClientId: g, Input: x, Call: clock.Add(1)}
					out := ""
					var err error
					switch x.op {
					case 0:
						var m enc.Map
						m, err = kv.Get(c, x.key)
						out = "-1"
						if m != nil {
							out = m["v"].String()
						}
					case 1:
						err = kv.Upsert(c, x.key, enc.Map{"v": enc.Integer(x.val), "p": enc.Integer(x.val % 2)})
					case 2:
						err = kv.Delete(c, x.key)
					case 3:
						got := map[string]int{}
						var fs []storage.Filter
						if x.fil >= 0 {
							fs = append(fs, storage.Filter{Field: "p", Cmp: storage.Equal, Val: enc.Integer(x.fil)})
						}
						err = kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
							got[k] = int(m["v"].(enc.Integer))
							return nil
						}, fs...)
						out = state(got)
					}
					op.Output, op.Return = out, clock.Add(1)
					running.Add(-1)
					if err != nil {
						fails.Store(fmt.Sprint(x), err)
					}
					hist[g] = append(hist[g], op)
					if x.val%3 == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		vh.Within("the operations", wg.Wait)
		fails.Range(func(k, v any) bool { t.Fatalf("%v: %v", k, v); return false })
		var all []porcupine.Operation
		for _, h := range hist {
			all = append(all, h...)
		}
		if res, _ := porcupine.CheckOperationsVerbose(kvModel, all, 20*time.Second); res == porcupine.Illegal {
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			var l []string
			for _, o := range all {
				l = append(l, fmt.Sprintf("%d-%d client %d: %+v -> %q", o.Call, o.Return, o.ClientId, o.Input, o.Output))
			}
			t.Fatalf("no order of the operations explains the results:\n%s", strings.Join(l, "\n"))
		} else if res == porcupine.Unknown {
			vh.Label("not decided in time")
		}
		l := []string{"concurrent"}
		if overlap.Load() > 0 {
			l = append(l, "overlapping")
		}
		vh.Case(overlap.Load() > 0, strings.Join(desc, " "), l...)
	})
}
