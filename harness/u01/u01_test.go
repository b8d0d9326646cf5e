package u01

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "U01", "slices (with duplicates, spare capacity, nil), predicates and scores, sets and ordered maps through sequences of operations; non-trivial: more than two elements, or a sequence with a removal")
}

// a slice with something after its end, which nobody may touch
func drawInts(t *rapid.T, max int) (l []int, untouched func() bool) {
	n := rapid.IntRange(0, max).Draw(t, "len")
	if rapid.IntRange(0, 39).Draw(t, "long") == 29 {
		n = rapid.SampledFrom([]int{13, 33, 65, 100, 129, 257, 300}).Draw(t, "longer")
	}
	if n == 0 && rapid.Bool().Draw(t, "nil") {
		return nil, func() bool { return true }
	}
	spare := rapid.IntRange(0, 3).Draw(t, "spare")
	full := make([]int, n+spare)
	for i := range full {
		full[i] = -1000 - i
	}
	r := rapid.SampledFrom([]int{3, 10, 1000}).Draw(t, "range")
	for i := 0; i < n; i++ {
		full[i] = rapid.IntRange(-r, r).Draw(t, "e")
	}
	return full[: n : n+spare], func() bool {
		for i := n; i < n+spare; i++ {
			if full[i] != -1000-i {
				return false
			}
		}
		return true
	}
}

type item struct {
	v, id int
}

func items(l []int) (out []item) {
	for i, v := range l {
		out = append(out, item{v, i})
	}
	return
}

func TestSplit(t *testing.T) {
	vh.Check(t, 6000, 300000, func(t *rapid.T) {
		in, ok := drawInts(t, 60)
		size := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 10, 59, 60, 61, math.MaxInt}).Draw(t, "size")
		if rapid.Bool().Draw(t, "any size") {
			size = rapid.IntRange(1, 70).Draw(t, "n")
		}
		was := append([]int{}, in...)
		var out [][]int
		msg := vh.Try(func() { out = lists.Split(in, size) })
		if size == math.MaxInt && msg != "" {
			t.Fatalf("split %v by %d: %s", in, size, msg)
		}
		if msg != "" {
			t.Fatalf("split %v by %d: %s", in, size, msg)
		}
		var flat []int
		min, max := math.MaxInt, 0
		for _, s := range out {
			flat = append(flat, s...)
			if len(s) > size {
				t.Fatalf("split %v by %d: %v is too long", in, size, s)
			}
			if len(s) == 0 && len(in) > 0 {
				t.Fatalf("split %v by %d: an empty part in %v", in, size, out)
			}
			if len(s) < min {
				min = len(s)
			}
			if len(s) > max {
				max = len(s)
			}
		}
		if !equal(flat, in) || !equal(in, was) || !ok() {
			t.Fatalf("split %v by %d: %v, and the input is %v", was, size, out, in)
		}
		want := 1
		if len(in) > 0 {
			want = (len(in)-1)/size + 1
		}
		if len(out) != want {
			t.Fatalf("split %v by %d: %d parts, %d are enough", in, size, len(out), want)
		}
		if back := lists.Flatten(out); !equal(back, in) {
			t.Fatalf("flatten %v: %v", out, back)
		}
		vh.Case(len(out) > 2, fmt.Sprintf("split %d by %d", len(in), size), "split")
	})
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestSplitRefused(t *testing.T) {
	for _, n := range []int{0, -1, math.MinInt} {
		if vh.Try(func() { lists.Split([]int{1, 2}, n) }) == "" {
			vh.Violation("Split() by %d does not panic", n)
		}
	}
}

func TestFlatten(t *testing.T) {
	vh.Check(t, 3000, 150000, func(t *rapid.T) {
		var in [][]int
		var want []int
		var checks []func() bool
		for n := rapid.IntRange(0, 6).Draw(t, "groups"); n > 0; n-- {
			l, ok := drawInts(t, 6)
			in = append(in, l)
			want = append(want, l...)
			checks = append(checks, ok)
		}
		out := lists.Flatten(in)
		if !equal(out, want) {
			t.Fatalf("flatten %v: %v", in, out)
		}
		for i := range out { // it is ours
			out[i] = 12345
		}
		_ = append(out, 777)
		var again []int
		for i, l := range in {
			again = append(again, l...)
			if !checks[i]() {
				t.Fatalf("flatten %v: something was written after an input", in)
			}
		}
		if !equal(again, want) {
			t.Fatalf("flatten shares its input: %v, was %v", again, want)
		}
		vh.Case(len(want) > 2, fmt.Sprint(in), "flatten")
	})
}

func TestSimple(t *testing.T) {
	vh.Check(t, 6000, 300000, func(t *rapid.T) {
		in, ok := drawInts(t, 12)
		x := rapid.IntRange(-4, 4).Draw(t, "x")
		was := append([]int{}, in...)
		has := false
		for _, v := range in {
			has = has || v == x
		}
		if lists.Contains(in, x) != has {
			t.Fatalf("contains %v %v: %v", in, x, !has)
		}
		cp := lists.Copy(in)
		if !equal(cp, in) {
			t.Fatalf("copy %v: %v", in, cp)
		}
		for i := range cp {
			cp[i]++
		}
		if !equal(in, was) {
			t.Fatalf("copy shares its input: %v", in)
		}
		if !ok() {
			t.Fatalf("written after the input")
		}
		// reverse is in place
		rev := append([]int{}, in...)
		lists.Reverse(rev)
		for i, v := range rev {
			if v != in[len(in)-1-i] {
				t.Fatalf("reverse %v: %v", in, rev)
			}
		}
		lists.Reverse(rev)
		if !equal(rev, in) {
			t.Fatalf("reversed twice %v: %v", in, rev)
		}
		// the last one, might use the room after the input
		add := lists.AddUnique(in, x)
		want := was
		if !has {
			want = append(append([]int{}, was...), x)
		}
		if !equal(add, want) || !equal(in, was) {
			t.Fatalf("add unique %v %v: %v, and the input is %v", was, x, add, in)
		}
		vh.Case(len(in) > 2, fmt.Sprint(in, x), "contains, copy, reverse, add")
	})
}

func TestSort(t *testing.T) {
	vh.Check(t, 6000, 300000, func(t *rapid.T) {
		in, ok := drawInts(t, 40)
		its := items(in)
		kind := rapid.IntRange(0, 5).Draw(t, "kind")
		var key func(item) float64
		label := ""
		switch kind {
		case 0:
			label = "sort"
			key = func(i item) float64 { return float64(i.v) }
			lists.Sort(its, func(a, b item) bool { return a.v < b.v })
		case 1:
			label = "sort descending"
			key = func(i item) float64 { return float64(-i.v) }
			lists.Sort(its, func(a, b item) bool { return a.v > b.v })
		case 2:
			label = "sort by int"
			key = func(i item) float64 { return float64(i.v % 5) }
			lists.SortFunc(its, func(i item) int { return i.v % 5 })
		case 3:
			label = "sort by float"
			key = func(i item) float64 { return float64(i.v) / 3 }
			lists.SortFunc(its, func(i item) float64 { return float64(i.v) / 3 })
		case 4:
			label = "sort by string"
			key = func(i item) float64 { return float64(i.v) }
			lists.SortFunc(its, func(i item) string { return fmt.Sprintf("%08d", i.v+5000) })
		case 5:
			label = "sort by big int"
			key = func(i item) float64 { return float64(i.v) }
			lists.SortFunc(its, func(i item) int {
				switch {
				case i.v > 2:
					return math.MaxInt - 1000 + i.v
				case i.v < -2:
					return math.MinInt + 1000 + i.v
				}
				return i.v
			})
		}
		seen := make([]bool, len(in))
		for i, it := range its {
			if it.id < 0 || it.id >= len(in) || seen[it.id] || in[it.id] != it.v {
				t.Fatalf("%s %v: %v is not made of the same elements", label, in, its)
			}
			seen[it.id] = true
			if i > 0 && key(its[i-1]) > key(it) {
				t.Fatalf("%s %v: %v", label, in, its)
			}
		}
		if len(its) != len(in) || !ok() {
			t.Fatalf("%s %v: %v", label, in, its)
		}
		vh.Case(len(in) > 2, fmt.Sprint(label, in), label)
	})
}

func TestPermute(t *testing.T) {
	vh.Check(t, 400, 8000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{3, 4, 0, 1, 2, 5, 6, 7}).Draw(t, "n")
		full := make([]int, n, n+2)
		for i := range full {
			full[i] = i
		}
		dup := rapid.IntRange(0, 4).Draw(t, "dup") == 4 // of equal elements: by position
		at := make([]*int, n)
		for i := range at {
			v := i
			if dup {
				v = i / 2
			}
			at[i] = &v
		}
		orig := append([]*int{}, at...)
		next := lists.Permute(at)
		if !reflect.DeepEqual(orig, at) {
			t.Fatal("permuted before the first call")
		}
		index := func() string {
			var s []string
			for _, p := range at {
				for i, o := range orig {
					if o == p {
						s = append(s, fmt.Sprint(i))
					}
				}
			}
			return strings.Join(s, " ")
		}
		seen := map[string]bool{}
		fact := 1
		for i := 2; i <= n; i++ {
			fact *= i
		}
		first := index()
		prev := ""
		for next() {
			s := index()
			if len(seen) == 0 && s != first {
				t.Fatalf("the first is %s", s)
			}
			if seen[s] {
				t.Fatalf("%s twice", s)
			}
			if strings.Count(s, " ") != n-1 && n > 0 {
				t.Fatalf("%s is not a permutation of %d", s, n)
			}
			seen[s] = true
			prev = s
			if len(seen) > fact {
				break
			}
		}
		if len(seen) != fact {
			t.Fatalf("%d permutations of %d elements, want %d", len(seen), n, fact)
		}
		for i := 0; i < 3; i++ {
			if next() || index() != prev {
				t.Fatalf("more after the end: %s", index())
			}
		}
		vh.Case(n > 2, fmt.Sprintf("permutations of %d dup %v", n, dup), "permute")
	})
}

func TestSet(t *testing.T) {
	vh.Check(t, 3000, 150000, func(t *rapid.T) {
		s := &lists.Set[string]{}
		model := map[string]bool{}
		var ops []string
		removed := false
		key := rapid.SampledFrom([]string{"a", "b", "c", "", "A", "\x00"})
		if rapid.IntRange(0, 9).Draw(t, "long") == 7 {
			n := rapid.SampledFrom([]int{9, 17, 33, 65, 130, 300}).Draw(t, "keys")
			key = rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(0, n-1).Draw(t, "key")) })
			for i := 0; i < n; i++ {
				if !s.Add(fmt.Sprint(i)) {
					t.Fatalf("add %d: false", i)
				}
				model[fmt.Sprint(i)] = true
			}
		}
		for i := rapid.IntRange(1, 25).Draw(t, "steps"); i > 0; i-- {
			k := key.Draw(t, "k")
			switch rapid.IntRange(0, 3).Draw(t, "op") {
			case 0, 1:
				ops = append(ops, "add "+k)
				if got := s.Add(k); got == model[k] {
					t.Fatalf("add %q: %v\n%s", k, got, ops)
				}
				model[k] = true
			case 2:
				ops = append(ops, "remove "+k)
				if got := s.Remove(k); got != model[k] {
					t.Fatalf("remove %q: %v\n%s", k, got, ops)
				}
				removed = removed || model[k]
				delete(model, k)
			case 3:
				if got := s.Has(k); got != model[k] {
					t.Fatalf("has %q: %v\n%s", k, got, ops)
				}
			}
			all := s.All()
			sort.Strings(all)
			var want []string
			for k := range model {
				want = append(want, k)
			}
			sort.Strings(want)
			if fmt.Sprintf("%q", all) != fmt.Sprintf("%q", want) {
				t.Fatalf("all: %q, want %q\n%s", all, want, ops)
			}
		}
		vh.Case(removed, strings.Join(ops, " "), "set")
	})
}

// the Set is made on a concurrent map: one add and one remove wins
func TestSetConcurrent(t *testing.T) {
	vh.Check(t, 300, 15000, func(t *rapid.T) {
		s := &lists.Set[int]{}
		ng := rapid.IntRange(2, 6).Draw(t, "goroutines")
		rounds := rapid.IntRange(1, 30).Draw(t, "keys")
		var added, removed [40]atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		rm := rapid.Bool().Draw(t, "remove")
		for g := 0; g < ng; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < rounds; k++ {
					if s.Add(k) {
						added[k].Add(1)
					}
					if !rm && !s.Has(k) {
						added[k].Add(100)
					}
					if g%2 == 1 {
						runtime.Gosched()
					}
					if rm && s.Remove(k) {
						removed[k].Add(1)
					}
				}
				_ = s.All()
			}()
		}
		close(start)
		vh.Within("the operations", wg.Wait)
		for k := 0; k < rounds; k++ {
			a, r := added[k].Load(), removed[k].Load()
			if rm && a != r || !rm && a != 1 {
				t.Fatalf("%d was added %d times, removed %d times", k, a, r)
			}
			if s.Has(k) == rm {
				t.Fatalf("has %d: %v", k, s.Has(k))
			}
		}
		vh.Case(true, fmt.Sprintf("%d goroutines %d keys %v", ng, rounds, rm), "set, concurrent")
	})
}

func TestPairs(t *testing.T) {
	vh.Check(t, 2000, 100000, func(t *rapid.T) {
		m := rapid.MapOf(rapid.String(), rapid.Int()).Draw(t, "map")
		was := map[string]int{}
		for k, v := range m {
			was[k] = v
		}
		p := maps.Pairs(m)
		ks, vs := p.Keys(), p.Values()
		if len(p) != len(m) || len(ks) != len(m) || len(vs) != len(m) {
			t.Fatalf("%v: %v %v %v", m, p, ks, vs)
		}
		got := map[string]int{}
		for i, x := range p {
			got[x.Key] = x.Value
			if ks[i] != x.Key || vs[i] != x.Value {
				t.Fatalf("%v: %v but keys %v and values %v", m, p, ks, vs)
			}
		}
		if !reflect.DeepEqual(got, was) || !reflect.DeepEqual(m, was) {
			t.Fatalf("%v: %v", m, p)
		}
		vh.Case(len(m) > 2, fmt.Sprint(m), "pairs")
	})
}

var errStop = errors.New("stop")

func TestOrderedMap(t *testing.T) {
	vh.Check(t, 6000, 300000, func(t *rapid.T) {
		m := utils.NewOrderedMap[string, int]()
		type pair struct {
			k string
			v int
		}
		var model []pair
		find := func(k string) int {
			for i, p := range model {
				if p.k == k {
					return i
				}
			}
			return -1
		}
		var ops []string
		removed := false
		entry := func(i int) utils.MapEntry[int] {
			if i < 0 {
				return utils.MapEntry[int]{}
			}
			return utils.MapEntry[int]{Value: model[i].v, Found: true}
		}
		put := func(k string, v int) {
			ops = append(ops, fmt.Sprintf("put %q %d", k, v))
			i := find(k)
			if got := m.Put(k, v); got != entry(i) {
				t.Fatalf("put %q: %v, want %v\n%s", k, got, entry(i), ops)
			}
			if i >= 0 {
				model[i].v = v
			} else {
				model = append(model, pair{k, v})
			}
		}
		del := func(k string) {
			ops = append(ops, fmt.Sprintf("delete %q", k))
			i := find(k)
			if got := m.Delete(k); got != entry(i) {
				t.Fatalf("delete %q: %v, want %v\n%s", k, got, entry(i), ops)
			}
			if i >= 0 {
				model = append(model[:i:i], model[i+1:]...)
				removed = true
			}
		}
		key := rapid.SampledFrom([]string{"a", "b", "c", "", "A", "d", "e"})
		long := 0
		if rapid.IntRange(0, 9).Draw(t, "long") == 7 { // many keys: first filled, then thinned out
			long = rapid.SampledFrom([]int{9, 17, 33, 65, 70, 129, 257, 300}).Draw(t, "keys")
			key = rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(rapid.IntRange(0, long-1).Draw(t, "key")) })
			for i := 0; i < long; i++ {
				put(fmt.Sprint(i), i)
			}
			from := rapid.IntRange(0, long-1).Draw(t, "from")
			by := rapid.SampledFrom([]int{1, 2, 3, -1}).Draw(t, "by")
			for i, n := from, rapid.IntRange(0, long).Draw(t, "deletes"); n > 0; n-- {
				del(fmt.Sprint((i + long) % long))
				i = (i + by) % long
			}
			for _, p := range append([]pair{}, model...) {
				if got := m.Get(p.k); got != entry(find(p.k)) {
					t.Fatalf("get %q: %v, want %v\n%s", p.k, got, entry(find(p.k)), ops)
				}
			}
		}
		for i := rapid.IntRange(1, 30).Draw(t, "steps"); i > 0; i-- {
			k := key.Draw(t, "k")
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1, 2, 3, 4:
				put(k, rapid.IntRange(0, 99).Draw(t, "v"))
			case 5, 6:
				del(k)
			case 7:
				if got := m.Get(k); got != entry(find(k)) {
					t.Fatalf("get %q: %v, want %v\n%s", k, got, entry(find(k)), ops)
				}
			case 8: // stop at some point
				stop := rapid.IntRange(0, 4).Draw(t, "stop")
				n := 0
				err := m.Range(func(k string, v int) error {
					if n >= len(model) || model[n] != (pair{k, v}) {
						t.Fatalf("range: %q %d as number %d, want %v\n%s", k, v, n, model, ops)
					}
					n++
					if n > stop {
						return errStop
					}
					return nil
				})
				if stop < len(model) && (err != errStop || n != stop+1) || stop >= len(model) && (err != nil || n != len(model)) {
					t.Fatalf("range stopped at %d: %d calls, %v\n%s", stop, n, err, ops)
				}
			case 9: // delete the current one while iterating, as for maps
				ops = append(ops, "range and delete")
				was := append([]pair{}, model...)
				n := 0
				err := m.Range(func(k string, v int) error {
					if n >= len(was) || was[n] != (pair{k, v}) {
						t.Fatalf("range: %q %d as number %d, want %v\n%s", k, v, n, was, ops)
					}
					n++
					if v%2 == 0 {
						del(k)
					}
					return nil
				})
				if err != nil || n != len(was) {
					t.Fatalf("range: %d calls of %d, %v\n%s", n, len(was), err, ops)
				}
			}
			var ks []string
			var vs []int
			for _, p := range model {
				ks = append(ks, p.k)
				vs = append(vs, p.v)
			}
			if got := m.Keys(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", ks) {
				t.Fatalf("keys %q, want %q\n%s", got, ks, ops)
			}
			if got := m.Values(); !equal(got, vs) {
				t.Fatalf("values %v, want %v\n%s", got, vs, ops)
			}
			if m.Len() != len(model) {
				t.Fatalf("len %d, want %d\n%s", m.Len(), len(model), ops)
			}
		}
		vh.Case(removed, strings.Join(ops, "; "), "ordered map")
	})
}
