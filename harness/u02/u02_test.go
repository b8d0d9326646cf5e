package u02

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strings"
	gosync "sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils/sync"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "U02", "sequences of operations on typed maps (nil interfaces and pointers included) against a plain map, concurrent histories checked for linearizability, iterations during writes; non-trivial: a removal or a replacement, or overlapping operations")
}

var errStop = errors.New("stop")

func sequence[K comparable, V any](t *rapid.T, name string, ks []K, vs []V, marshal bool) {
	c, cf := ctx.Background()
	defer cf(nil)
	m := &sync.Map[K, V]{}
	model := map[K]V{}
	var ops []string
	changed := false
	var labels []string
	eq := func(a, b V) bool { return reflect.DeepEqual(a, b) }
	for i := rapid.IntRange(1, 25).Draw(t, "steps"); i > 0; i-- {
		ki, vi := rapid.IntRange(0, len(ks)-1).Draw(t, "k"), rapid.IntRange(0, len(vs)-1).Draw(t, "v")
		k, v := ks[ki], vs[vi]
		was, has := model[k]
		op := rapid.SampledFrom([]string{"store", "load", "get", "get or store", "load or store", "delete", "load and delete", "range", "range err", "map", "empty", "marshal", "unmarshal", "unmarshal any"}).Draw(t, "op")
		ops = append(ops, fmt.Sprintf("%s %d %d", op, ki, vi))
		labels = append(labels, op)
		var got V
		var ok bool
		bad := func() {
			t.Fatalf("%s: %s: %v %v, was %v %v\n%s", name, ops[len(ops)-1], got, ok, was, has, ops)
		}
		msg := vh.Try(func() {
			switch op {
			case "store":
				m.Store(k, v)
				changed = changed || has
				model[k] = v
			case "load":
				if got, ok = m.Load(k); ok != has || !eq(got, was) {
					bad()
				}
			case "get":
				if got = m.Get(k); !eq(got, was) {
					bad()
				}
			case "get or store":
				if !has {
					model[k] = v
				}
				if got = m.GetOrStore(k, v); !eq(got, model[k]) {
					bad()
				}
			case "load or store":
				if !has {
					model[k] = v
				}
				if got, ok = m.LoadOrStore(k, v); ok != has || !eq(got, model[k]) {
					bad()
				}
			case "delete":
				m.Delete(k)
				changed = changed || has
				delete(model, k)
			case "load and delete":
				if got, ok = m.LoadAndDelete(k); ok != has || !eq(got, was) {
					bad()
				}
				changed = changed || has
				delete(model, k)
			case "range", "range err":
				stop := rapid.IntRange(0, len(ks)).Draw(t, "stop")
				n := 0
				seen := map[K]bool{}
				f := func(k K, v V) bool {
					w, has := model[k]
					if !has || seen[k] || !eq(v, w) {
						t.Fatalf("%s: range gives %v %v (seen %v), want %v %v\n%s", name, k, v, seen[k], w, has, ops)
					}
					seen[k] = true
					n++
					return n <= stop
				}
				if op == "range" {
					m.Range(f)
				} else {
					errStop := rapid.SampledFrom(vh.Errs).Draw(t, "error")
					err := m.RangeErr(func(k K, v V) error {
						if f(k, v) {
							return nil
						}
						return errStop
					})
					if (n > stop) != (err == errStop) || err != nil && err != errStop {
						t.Fatalf("%s: range to %d: %v after %d\n%s", name, stop, err, n, ops)
					}
				}
				if want := len(model); stop >= want && n != want || stop < want && n != stop+1 {
					t.Fatalf("%s: range to %d of %d: %d calls\n%s", name, stop, want, n, ops)
				}
			case "map":
				if got := m.Map(); !reflect.DeepEqual(got, model) {
					t.Fatalf("%s: map: %v, want %v\n%s", name, got, model, ops)
				}
			case "empty":
				if m.IsEmpty() != (len(model) == 0) {
					t.Fatalf("%s: is empty: %v with %v\n%s", name, m.IsEmpty(), model, ops)
				}
			case "marshal":
				if !marshal {
					return
				}
				n, err := enc.Marshal(c, m)
				want, err2 := enc.Marshal(c, model)
				if err != nil || err2 != nil || string(enc.JSON{}.Encode(c, n)) != string(enc.JSON{}.Encode(c, want)) {
					t.Fatalf("%s: marshal %v: %v %v, want %v %v\n%s", name, model, n, err, want, err2, ops)
				}
				back := &sync.Map[K, V]{}
				if err := enc.Unmarshal(c, n, back); err != nil || len(back.Map()) != len(model) {
					t.Fatalf("%s: unmarshal %v: %v, want %v (%v)\n%s", name, n, back.Map(), model, err, ops)
				}
			case "unmarshal": // adds
				if !marshal {
					return
				}
				n, err := enc.Marshal(c, map[K]V{k: v})
				if err != nil {
					t.Fatal(err)
				}
				plain := map[K]V{}
				if enc.Unmarshal(c, n, &plain) != nil || !reflect.DeepEqual(plain, map[K]V{k: v}) {
					return // comes back as something else
				}
				if err := enc.Unmarshal(c, n, m); err != nil {
					t.Fatalf("%s: unmarshal %v: %v\n%s", name, n, err, ops)
				}
				model[k] = v
			case "unmarshal any": // what a plain map takes is added, the rest is refused
				if !marshal {
					return
				}
				n := rapid.SampledFrom([]enc.Node{nil, enc.Nil{}, enc.Map{}, enc.List{}, enc.String("x"), enc.Bool(true), enc.Map{"a": enc.Map{"z": enc.List{}}}, enc.Map{"b": enc.List{enc.Nil{}}}, enc.Map{"a": enc.String("x")}, enc.Map{"a": enc.Bool(true), "zz": enc.Integer(3)}}).Draw(t, "node")
				plain := map[K]V{}
				err := enc.Unmarshal(c, n, &plain)
				if err2 := enc.Unmarshal(c, n, m); (err == nil) != (err2 == nil) {
					t.Fatalf("%s: unmarshal %v: %v, in a plain map %v\n%s", name, n, err2, err, ops)
				}
				if err == nil {
					for k, v := range plain {
						model[k] = v
					}
				}
			}
		})
		if msg != "" {
			t.Fatalf("%s: %s: %s\n%s", name, ops[len(ops)-1], msg, ops)
		}
	}
	if got := m.Map(); !reflect.DeepEqual(got, model) {
		t.Fatalf("%s: %v, want %v\n%s", name, got, model, ops)
	}
	vh.Case(changed, name+": "+strings.Join(ops, "; "), append(labels, name)...)
}

func TestSequences(t *testing.T) {
	one, two := 1, 2
	vh.Check(t, 8000, 400000, func(t *rapid.T) {
		switch rapid.IntRange(0, 6).Draw(t, "type") {
		case 0:
			sequence(t, "int int", []int{0, 1, 2, -1}, []int{0, 1, 2}, false)
		case 1:
			sequence(t, "string string", []string{"", "a", "b", "A"}, []string{"", "x", "y"}, true)
		case 2:
			sequence(t, "string any", []string{"", "a", "b"}, []any{nil, 1, "x", (*int)(nil), []int{1}}, false)
		case 3:
			sequence(t, "any error", []any{nil, 1, "1", 1.0, (*int)(nil)}, []error{nil, io.EOF, errStop}, false)
		case 4:
			sequence(t, "string pointer", []string{"a", "b", ""}, []*int{nil, &one, &two}, true)
		case 5:
			sequence(t, "struct slice", []struct{ a, b int }{{0, 0}, {1, 2}, {2, 1}}, [][]string{nil, {}, {"a"}}, false)
		case 6:
			sequence(t, "string any JSON", []string{"a", "b", ""}, []any{nil, true, "x"}, true)
		}
	})
}

// ---- concurrent histories, of each key

type in struct {
	op  string
	key int
	val int // 0 is stored as a nil
}
type out struct {
	val int
	ok  bool
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(in).key
			by[k] = append(by[k], o)
		}
		var l [][]porcupine.Operation
		for _, o := range by {
			l = append(l, o)
		}
		return l
	},
	Init: func() any { return out{} },
	Step: func(st, i, o any) (bool, any) {
		s, x, r := st.(out), i.(in), o.(out)
		cur := out{}
		if s.ok {
			cur = s
		}
		switch x.op {
		case "store":
			return true, out{x.val, true}
		case "load":
			return r == cur, s
		case "get":
			return r.val == cur.val, s
		case "get or store", "load or store":
			want := out{x.val, false}
			if s.ok {
				want = s
			}
			if x.op == "get or store" {
				return r.val == want.val, out{want.val, true}
			}
			return r == want, out{want.val, true}
		case "delete":
			return true, out{}
		case "load and delete":
			return r == cur, out{}
		}
		return false, s
	},
	DescribeOperation: func(i, o any) string { return fmt.Sprintf("%+v -> %+v", i, o) },
}

func boxed(v int) any {
	if v == 0 {
		return nil
	}
	return v
}

func unboxed(v any) int {
	n, _ := v.(int)
	return n
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 1000, 50000, func(t *rapid.T) {
		m := &sync.Map[any, any]{}
		ng := rapid.IntRange(2, 6).Draw(t, "goroutines")
		nk := rapid.IntRange(1, 3).Draw(t, "keys")
		var n int
		plans := make([][]in, ng)
		var desc []string
		for g := range plans {
			for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
				n++
				x := in{op: rapid.SampledFrom([]string{"store", "load and delete", "load or store", "load", "get or store", "delete", "get"}).Draw(t, "op"), key: rapid.IntRange(0, nk-1).Draw(t, "key"), val: n}
				if rapid.IntRange(0, 4).Draw(t, "nil") == 4 {
					x.val = 0
				}
				plans[g] = append(plans[g], x)
				desc = append(desc, fmt.Sprint(g, x))
			}
		}
		hist := make([][]porcupine.Operation, ng)
		var clock atomic.Int64
		var wg gosync.WaitGroup
		var running, overlap atomic.Int32
		start := make(chan struct{})
		for g := range plans {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i, x := range plans[g] {
					if running.Add(1) > 1 {
						overlap.Add(1)
					}
					k, v := boxed(x.key), boxed(x.val)
					op := porcupine.Operation{ClientId: g, Input: x, Call: clock.Add(1)}
					var r any
					ok := false
					switch x.op {
					case "store":
						m.Store(k, v)
					case "load":
						r, ok = m.Load(k)
					case "get":
						r = m.Get(k)
					case "get or store":
						r = m.GetOrStore(k, v)
					case "load or store":
						r, ok = m.LoadOrStore(k, v)
					case "delete":
						m.Delete(k)
					case "load and delete":
						r, ok = m.LoadAndDelete(k)
					}
					op.Output, op.Return = out{unboxed(r), ok}, clock.Add(1)
					running.Add(-1)
					hist[g] = append(hist[g], op)
					if i%2 == 1 {
						runtime.Gosched()
					}
				}
			}()
		}
		close(start)
		vh.Within("the operations", wg.Wait)
		var all []porcupine.Operation
		for _, h := range hist {
			all = append(all, h...)
		}
		for k := 0; k < nk; k++ { // what is left
			v, ok := m.Load(boxed(k))
			c := clock.Add(2)
			all = append(all, porcupine.Operation{ClientId: ng, Input: in{op: "load", key: k}, Call: c, Output: out{unboxed(v), ok}, Return: c + 1})
			clock.Add(2)
		}
		if res, _ := porcupine.CheckOperationsVerbose(model, all, 20*time.Second); res == porcupine.Illegal {
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			var l []string
			for _, o := range all {
				l = append(l, fmt.Sprintf("%d-%d client %d: %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
			}
			t.Fatalf("no order of the operations explains the results:\n%s", strings.Join(l, "\n"))
		} else if res == porcupine.Unknown {
			vh.Label("not decided in time")
		}
		l := []string{"concurrent"}
		if overlap.Load() > 0 {
			l = append(l, "overlapping")
		}
		vh.Case(overlap.Load() > 0, strings.Join(desc, " "), l...)
	})
}

// iterations while others write: what stays is visited exactly once
func TestRangeConcurrent(t *testing.T) {
	vh.Check(t, 300, 15000, func(t *rapid.T) {
		m := &sync.Map[int, any]{}
		stable := rapid.IntRange(0, 20).Draw(t, "stable")
		for i := 0; i < stable; i++ {
			m.Store(i, boxed(i))
		}
		var wg, readers gosync.WaitGroup
		stop := make(chan struct{})
		for g := 0; g < rapid.IntRange(1, 3).Draw(t, "writers"); g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					k := 1000 + g*100 + i%10
					switch i % 3 {
					case 0:
						m.Store(k, k)
					case 1:
						m.LoadOrStore(k, k)
					case 2:
						m.Delete(k)
					}
				}
			}()
		}
		var bad atomic.Value
		n := rapid.IntRange(1, 3).Draw(t, "readers")
		how := rapid.IntRange(0, 2).Draw(t, "how")
		for g := 0; g < n; g++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for r := 0; r < 5; r++ {
					seen := map[int]bool{}
					f := func(k int, v any) bool {
						if seen[k] {
							bad.Store(fmt.Sprintf("%d visited twice", k))
						}
						seen[k] = true
						if k < 1000 && v != boxed(k) || k >= 1000 && v != k {
							bad.Store(fmt.Sprintf("%d has %v", k, v))
						}
						return true
					}
					switch how {
					case 0:
						m.Range(f)
					case 1:
						_ = m.RangeErr(func(k int, v any) error { f(k, v); return nil })
					case 2:
						for k, v := range m.Map() {
							f(k, v)
						}
					}
					if stable > 0 && m.IsEmpty() {
						bad.Store("empty")
					}
					for i := 0; i < stable; i++ {
						if !seen[i] {
							bad.Store(fmt.Sprintf("%d not visited", i))
						}
					}
				}
			}()
		}
		vh.Within("the iterations", readers.Wait)
		close(stop)
		vh.Within("the writers", wg.Wait)
		if b := bad.Load(); b != nil {
			t.Fatal(b)
		}
		vh.Case(stable > 0, fmt.Sprintf("%d stable, %d readers, %d", stable, n, how), "iteration during writes")
	})
}
