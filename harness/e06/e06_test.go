package e06

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E06", "batches of concurrent marshal/unmarshal/encode/decode calls by 2-8 goroutines on shared values, shared data trees and a shared handler, types mixed; non-trivial: at least two goroutines work on the same input")
}

func c() ctx.C { return ctx.TODO() }

// Own is a family of types converting themselves through the standard interface.
type Own[T any] struct{ s string }

func (o *Own[T]) UnmarshalJSON(j []byte) error { o.s = string(j); return nil }
func (o Own[T]) MarshalJSON() ([]byte, error)  { return json.Marshal(o.s) }
func own[T any](out *[]reflect.Type)           { *out = append(*out, reflect.TypeOf(Own[T]{})) }
func own2[T any](out *[]reflect.Type)          { own[T](out); own[[]T](out); own[*T](out); own[[2]T](out) }
func own3[T any](out *[]reflect.Type)          { own2[T](out); own2[map[string]T](out); own2[chan T](out) }
func ownTypes() (out []reflect.Type) {
	own3[int](&out)
	own3[string](&out)
	own3[bool](&out)
	own3[float64](&out)
	return
}

var owns = ownTypes()
var nextOwn = 0

type job struct {
	rt   reflect.Type
	v    reflect.Value // shared value
	n    enc.Node      // shared tree
	text []byte
	// results of a lone call
	js    string
	back  string
	hooks string
	dup   bool
}

func (j *job) run(h enc.Handler, kind int) string {
	switch kind {
	case 0:
		b, err := enc.MarshalJSON(c(), j.v.Interface())
		if err != nil {
			return err.Error()
		}
		return norm(b)
	case 1:
		p := reflect.New(j.rt)
		if err := h.Unmarshal(c(), j.n, p.Interface()); err != nil {
			return "error"
		}
		return gen.Show(p.Elem())
	case 2:
		return norm(enc.JSON{}.Encode(c(), j.n))
	case 3:
		n, err := enc.JSON{}.Decode(c(), j.text)
		if err != nil {
			return err.Error()
		}
		return norm(enc.JSON{Indent: true}.Encode(c(), n))
	default:
		var paths []string
		var raw [][]any
		h.UnhandledFields = func(c ctx.C, path []any, n enc.Node) error {
			paths = append(paths, fmt.Sprint(path...))
			raw = append(raw, path)
			return nil
		}
		p := reflect.New(j.rt)
		err := h.Unmarshal(c(), j.n, p.Interface())
		for i := range raw {
			if s := fmt.Sprint(raw[i]...); s != paths[i] {
				return "path changed from " + paths[i] + " to " + s
			}
		}
		if err != nil {
			return "error"
		}
		count := map[string]int{}
		for _, p := range paths {
			count[p]++
		}
		return fmt.Sprint(count)
	}
}

// object entries in any order
func norm(b []byte) string {
	var x any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		return "invalid " + string(b)
	}
	out, err := json.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return string(out)
}

type mix struct {
	A json.RawMessage
	B gen.Temp
	C *gen.Tree
	D map[int]gen.Odd
	E enc.Time
	F any
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 2400, 60000, func(t *rapid.T) {
		var jobs []*job
		nj := rapid.IntRange(1, 4).Draw(t, "jobs")
		for i := 0; i < nj; i++ {
			var rt reflect.Type
			switch rapid.IntRange(0, 4).Draw(t, "what") {
			case 0:
				rt = reflect.TypeOf(mix{})
			case 1:
				rt = reflect.TypeOf(gen.Tree{})
			case 2: // a type the library has not met yet
				rt = reflect.SliceOf(owns[nextOwn%len(owns)])
				nextOwn++
			case 3:
				rt = gen.Struct(2, gen.TypeOpts{}).Draw(t, "type")
			default:
				rt = gen.Type(3, gen.TypeOpts{}).Draw(t, "type")
			}
			j := &job{rt: rt}
			j.v = gen.Value(t, rt, 3, false)
			doc := gen.DocFor(t, rt, 3)
			if rt.Kind() == reflect.Slice && strings.Contains(rt.String(), "Own[") {
				doc = gen.List(gen.JSON(1).Draw(t, "x"), gen.JSON(1).Draw(t, "y"))
			}
			j.n, j.text = gen.ToNode(doc), []byte(doc.String())
			jobs = append(jobs, j)
		}
		h := enc.Handler{}
		if rapid.Bool().Draw(t, "shared") {
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "prefix"); i < n; i++ {
				h = h.Append("base")
			}
		}
		type task struct {
			j    *job
			kind int
			got  string
		}
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		tasks := make([][]task, g)
		same := map[*job]int{}
		for i := range tasks {
			used := map[*job]bool{}
			for k, n := 0, rapid.IntRange(1, 4).Draw(t, "calls"); k < n; k++ {
				j := jobs[rapid.IntRange(0, nj-1).Draw(t, "job")]
				tasks[i] = append(tasks[i], task{j: j, kind: rapid.IntRange(0, 4).Draw(t, "kind")})
				used[j] = true
			}
			for j := range used {
				same[j]++
			}
		}
		shared := false
		for _, n := range same {
			shared = shared || n > 1
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		panics := make([]string, g)
		for i := range tasks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				panics[i] = vh.Try(func() {
					for k := range tasks[i] {
						tasks[i][k].got = tasks[i][k].j.run(h, tasks[i][k].kind)
					}
				})
			}()
		}
		vh.Within("concurrent conversions", func() { close(start); wg.Wait() })
		desc := fmt.Sprintf("%d goroutines:", g)
		for i, ts := range tasks {
			if panics[i] != "" {
				t.Fatalf("%s", panics[i])
			}
			for _, x := range ts {
				desc += fmt.Sprintf(" %d:%v:%d", i, x.j.rt, x.kind)
			}
		}
		vh.Case(shared, desc, fmt.Sprintf("goroutines-%d", g))
		for _, ts := range tasks {
			for _, x := range ts {
				if want := x.j.run(h, x.kind); want != x.got {
					t.Fatalf("%v kind %d: alone %s, concurrently %s", x.j.rt, x.kind, want, x.got)
				}
			}
		}
	})
}
