package e02

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E02", "Go types built by reflection from all supported kinds (plus declared named, recursive and self-converting types), filled with drawn values; non-trivial: a value that is not the zero value of a composite or extreme scalar type")
}

func c() ctx.C { return ctx.TODO() }

func roundTrip(t *rapid.T, v reflect.Value) {
	rt := v.Type()
	before := gen.Show(v)
	n, err := enc.Marshal(c(), v.Interface())
	if err != nil {
		t.Fatalf("marshal %v %s: %v", rt, before, err)
	}
	if _, err := gen.ModelOf(n); err != nil {
		t.Fatalf("%v is marshalled as %v: %v", rt, n, err)
	}
	direct := reflect.New(rt)
	if err := enc.Unmarshal(c(), n, direct.Interface()); err != nil {
		t.Fatalf("unmarshal %v from %v: %v", rt, n, err)
	}
	if d := gen.Same(v, direct.Elem()); d != "" {
		t.Fatalf("direct round trip of %v through %v: %s", rt, n, d)
	}
	js, err := enc.MarshalJSON(c(), v.Interface())
	if err != nil {
		t.Fatalf("marshal JSON %v %s: %v", rt, before, err)
	}
	if !json.Valid(js) {
		t.Fatalf("marshal JSON of %v gave %q", rt, js)
	}
	text := reflect.New(rt)
	if err := enc.UnmarshalJSON(c(), js, text.Interface()); err != nil {
		t.Fatalf("unmarshal %v from %s: %v", rt, js, err)
	}
	if d := gen.Same(v, text.Elem()); d != "" {
		t.Fatalf("round trip of %v through %s: %s", rt, js, d)
	}
	// the untyped form has the same names and nesting either way (durations are numbers in one of them)
	var a1, a2 any
	if err := enc.Unmarshal(c(), n, &a1); err != nil {
		t.Fatalf("unmarshal into any of %v: %v", n, err)
	}
	if err := enc.UnmarshalJSON(c(), js, &a2); err != nil {
		t.Fatalf("unmarshal into any of %s: %v", js, err)
	}
	b1, _ := json.Marshal(a1)
	b2, _ := json.Marshal(a2)
	x1, e1 := gen.ParseJ(b1)
	x2, e2 := gen.ParseJ(b2)
	if e1 != nil || e2 != nil {
		t.Fatalf("%s %s: %v %v", b1, b2, e1, e2)
	}
	if d := (gen.Cmp{}).Diff(shape(x1), shape(x2)); d != "" {
		t.Fatalf("%v read into any directly gives %s, through its text %s: %s", rt, b1, b2, d)
	}
	// a pointer to it is encoded like the value
	p := reflect.New(rt)
	p.Elem().Set(v)
	js2, err := enc.MarshalJSON(c(), p.Interface())
	if err != nil {
		t.Fatalf("marshal JSON of pointer to %v: %v", rt, err)
	}
	a, e1 := gen.ParseJ(js)
	b, e2 := gen.ParseJ(js2)
	if e1 != nil || e2 != nil {
		t.Fatalf("%v %v", e1, e2)
	}
	if d := (gen.Cmp{}).Diff(a, b); d != "" {
		t.Fatalf("value and pointer encode differently: %s vs %s", js, js2)
	}
	if after := gen.Show(v); after != before {
		t.Fatalf("marshal changed its input: %s -> %s", before, after)
	}
}

func shape(j *gen.J) *gen.J {
	out := &gen.J{K: j.K, Keys: j.Keys}
	switch j.K {
	case 'l':
		for _, x := range j.L {
			out.L = append(out.L, shape(x))
		}
	case 'o':
		for _, x := range j.Vals {
			out.Vals = append(out.Vals, shape(x))
		}
	default:
		return gen.Null()
	}
	return out
}

func TestTypes(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		depth := rapid.IntRange(0, 4).Draw(t, "depth")
		rt := gen.Type(depth, gen.TypeOpts{}).Draw(t, "type")
		v := gen.Value(t, rt, depth, false)
		vh.Case(!v.IsZero(), fmt.Sprintf("%v = %s", rt, gen.Show(v)), "type-"+rt.Kind().String())
		roundTrip(t, v)
	})
}

// structs get most of the attention
func TestStructs(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		rt := gen.Struct(rapid.IntRange(1, 3).Draw(t, "depth"), gen.TypeOpts{}).Draw(t, "type")
		v := gen.Value(t, rt, 3, false)
		vh.Case(!v.IsZero(), fmt.Sprintf("%v = %s", rt, gen.Show(v)), "struct")
		roundTrip(t, v)
	})
}

// declared types seen often enough on their own
func TestZoo(t *testing.T) {
	zoo := []reflect.Type{reflect.TypeOf(gen.Inner{}), reflect.TypeOf(gen.Tree{}), reflect.TypeOf(gen.Emb{}), reflect.TypeOf(map[gen.MyStr]*gen.Tree{}), reflect.TypeOf([]gen.Point{}), reflect.TypeOf(map[uint64]gen.Temp{}), reflect.TypeOf(map[int8][]enc.Node{})}
	vh.Check(t, 20000, 500000, func(t *rapid.T) {
		rt := rapid.SampledFrom(zoo).Draw(t, "type")
		v := gen.Value(t, rt, rapid.IntRange(1, 5).Draw(t, "depth"), false)
		vh.Case(!v.IsZero(), fmt.Sprintf("%v = %s", rt, gen.Show(v)), "zoo")
		roundTrip(t, v)
	})
}

// wide values: few different elements, repeated
func TestLarge(t *testing.T) {
	vh.Check(t, 1200, 30000, func(t *rapid.T) {
		et := gen.Type(rapid.IntRange(0, 1).Draw(t, "depth"), gen.TypeOpts{}).Draw(t, "type")
		n := rapid.SampledFrom([]int{9, 17, 33, 65, 130, 300, 1100, 2100}).Draw(t, "size")
		var vals []reflect.Value
		for k := rapid.IntRange(1, 4).Draw(t, "values"); k > 0; k-- {
			vals = append(vals, gen.Value(t, et, 1, false))
		}
		every := rapid.IntRange(1, 9).Draw(t, "every")
		val := func(i int) reflect.Value { return vals[i/every%len(vals)] }
		var v reflect.Value
		switch rapid.IntRange(0, 4).Draw(t, "shape") {
		case 0:
			v = reflect.MakeSlice(reflect.SliceOf(et), n, n)
			for i := 0; i < n; i++ {
				v.Index(i).Set(val(i))
			}
		case 1:
			v = reflect.New(reflect.ArrayOf(n, et)).Elem()
			for i := 0; i < n; i++ {
				v.Index(i).Set(val(i))
			}
		case 2:
			v = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), et))
			for i := 0; i < n; i++ {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)), val(i))
			}
		case 3:
			v = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), et))
			for i := 0; i < n; i++ {
				v.SetMapIndex(reflect.ValueOf((i-7)*every), val(i))
			}
		case 4: // many fields
			var fs []reflect.StructField
			for i := 0; i < n%400; i++ {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: et, Tag: reflect.StructTag(rapid.SampledFrom([]string{"", fmt.Sprintf(`json:"f%d"`, i)}).Draw(t, "tag"))})
				if i >= 70 {
					break
				}
			}
			v = reflect.New(reflect.StructOf(fs)).Elem()
			for i := range fs {
				v.Field(i).Set(val(i))
			}
		}
		vh.Case(true, fmt.Sprintf("%d of %v: %.80s", n, et, gen.Show(v)), "large")
		roundTrip(t, v)
	})
}

type failNode struct{ err error }
type failJSON struct{ err error }

func (x failNode) MarshalNode(c ctx.C) (enc.Node, error) { return enc.String("garbage"), x.err }
func (x failJSON) MarshalJSON() ([]byte, error)          { return []byte(`"garbage"`), x.err }

// values that have no encoding are refused, not a panic
func TestRefused(t *testing.T) {
	bad := []any{make(chan int), func() {}, complex(1, 2), uintptr(3), map[bool]int{true: 1}, map[[2]int]int{{1, 2}: 3}, math.NaN(), math.Inf(1), float32(math.Inf(-1))}
	for _, err := range vh.Errs {
		bad = append(bad, failNode{err}, failJSON{err}, map[failNode]int{{err}: 1}, map[failJSON]int{{err}: 1})
	}
	// options which only the standard library knows: refused, or followed
	odd := map[reflect.Type]bool{}
	for _, x := range []any{
		struct {
			A int `json:",string"`
		}{}, struct {
			A int `json:"a,omitempty,string"`
		}{}, struct {
			A []int `json:"a,omitzero"`
		}{}, struct {
			A *int `json:"a,x"`
		}{}} {
		bad = append(bad, x)
		odd[reflect.TypeOf(x)] = true
	}
	vh.Check(t, 4000, 50000, func(t *rapid.T) {
		x := rapid.SampledFrom(bad).Draw(t, "bad")
		v := reflect.ValueOf(x)
		wraps := rapid.SliceOfN(rapid.IntRange(0, 4), 0, 4).Draw(t, "wraps")
		for _, w := range wraps {
			switch w {
			case 0:
				s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
				s.Index(0).Set(v)
				v = s
			case 1:
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			case 2:
				m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
				m.SetMapIndex(reflect.ValueOf("k"), v)
				v = m
			case 3:
				v = reflect.ValueOf([]any{1, v.Interface()})
			case 4:
				st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "B", Type: v.Type()}})).Elem()
				st.Field(1).Set(v)
				v = st
			}
		}
		vh.Case(true, fmt.Sprintf("%T %v", x, wraps), "refused")
		var n enc.Node
		var err error
		if p := vh.Try(func() { n, err = enc.Marshal(c(), v.Interface()) }); p != "" {
			t.Fatalf("marshal of %v: %s", v.Type(), p)
		}
		if err == nil && !odd[reflect.TypeOf(x)] {
			t.Fatalf("marshal of %v gave %v", v.Type(), n)
		}
	})
}

type ring struct {
	N    int             `json:"n"`
	Next *ring           `json:"next,omitempty"`
	Any  any             `json:"any,omitempty"`
	List []*ring         `json:"list,omitempty"`
	Map  map[string]ring `json:"map,omitempty"`
	End  *int            `json:"end,omitempty"`
}

type (
	selfMap   map[string]selfMap
	selfSlice []selfSlice
	selfPtr   *selfPtr
)

// a value and its first field are at the same place
type placed struct {
	First struct {
		A *int `json:"a"`
	} `json:"first"`
	P    any `json:"p"`
	Next any `json:"next"`
}

// a chain of values, which ends in the first of them (or not)
func chain(t *rapid.T) (v any, desc string, cyclic bool) {
	cyclic = rapid.Bool().Draw(t, "cyclic")
	n := rapid.SampledFrom([]int{1, 2, 3, 10, 999, 1000, 1001, 2500, 6000}).Draw(t, "length")
	kinds := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}), 1, 4).Draw(t, "kinds")
	shared := 7
	first := &ring{N: -1, End: &shared}
	var last any = "end"
	if cyclic {
		last = first
	}
	cur := last
	tail, _ := last.(*ring)
	for i := 0; i < n; i++ {
		r := &ring{N: i, End: &shared}
		switch kinds[i%len(kinds)] {
		case 0, 1, 2:
			r.Next = tail
		case 3:
			r.Any = cur
		case 4:
			r.List = []*ring{{N: -2}, tail}
		case 5:
			r.Any = map[string]any{"k": cur, "l": &shared}
		case 6:
			r.Any = []any{cur, &shared}
		case 7:
			r.Any = [2]any{1, cur}
		case 8:
			y := cur
			r.Any = &y
		case 9: // a part of itself, but not itself
			l := []any{i, nil, cur}
			l[1] = l[:1]
			r.Any = l
		case 10:
			p := &placed{Next: cur}
			p.First.A = &shared
			p.P = &p.First
			r.Any = p
		case 11:
			a := [2]any{nil, cur}
			a[0] = a[1:1]
			r.Any = &a
		}
		tail, cur = r, r
	}
	if cyclic {
		first.Next = tail
	}
	return tail, fmt.Sprintf("%d of %v", n, kinds), cyclic
}

// a value which contains itself has no encoding, a deep one or one used twice does
func TestCycles(t *testing.T) {
	debug.SetMaxStack(128 << 20)
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		var v any
		desc, cyclic := "", true
		switch k := rapid.IntRange(0, 9).Draw(t, "shape"); k {
		case 9:
			m := map[string]any{"a": 1}
			m["m"] = m
			v, desc = m, "map"
		case 8:
			s := []any{1, nil}
			s[1] = s
			v, desc = s, "slice"
		case 7:
			var x any
			x = &x
			v, desc = x, "pointer to an interface"
		case 6:
			m := selfMap{}
			m["m"] = selfMap{"n": m}
			v, desc = m, "typed map"
		case 5:
			s := selfSlice{nil, nil}
			s[1] = s
			v, desc = s, "typed slice"
		case 4:
			var p selfPtr
			p = &p
			v, desc = p, "typed pointer"
		default:
			v, desc, cyclic = chain(t)
		}
		vh.Case(true, fmt.Sprintf("cyclic=%v %s", cyclic, desc), fmt.Sprintf("cyclic-%v", cyclic))
		var n enc.Node
		var err error
		if p := vh.Try(func() { n, err = enc.Marshal(c(), v) }); p != "" {
			t.Fatalf("marshal of %s: %s", desc, p)
		}
		if cyclic {
			if err == nil {
				t.Fatalf("marshal of a cycle, %s: no error", desc)
			}
			return
		}
		if err != nil {
			t.Fatalf("marshal of %s: %v", desc, err)
		}
		want, err := json.Marshal(v)
		if err != nil { // too deep for it
			return
		}
		if got := (enc.JSON{}).Encode(c(), n); !bytes.Equal(got, want) {
			t.Fatalf("marshal of %s: differs", desc)
		}
	})
}
