package t01

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/test"
	"pgregory.net/rapid"
	"verif/gen"
	alike "verif/t01/alike"
	"verif/vh"
)

// the recorded findings: the searches keep clear of exactly these
var nilFunc, typeName, jsonInt, stringer bool

func TestMain(m *testing.M) {
	vh.Property = "T01"
	nilFunc, typeName, jsonInt = vh.Listed("nil-func"), vh.Listed("type-name"), vh.Listed("json-int")
	stringer = vh.Listed("stringer")
	vh.Main(m, "T01", "each assertion helper run as a test of its own on drawn values (all kinds, nil and typed nil, NaN, unexported fields, look-alike types, JSON values in several spellings and one-step mutations of them), its verdict compared with the documented condition computed independently; non-trivial: the value is neither nil nor a plain scalar, or the two sides differ in one step")
}

func TestKnown(t *testing.T) {
	if vh.Shard != 0 {
		return
	}
	is := func(name string, x *args, want bool) error {
		if v := run(name, x); v.panicked != "" || v.passed != want {
			return fmt.Errorf("%s: %+v", name, v)
		}
		return nil
	}
	vh.Known(t, "nil-func", "a nil function or unsafe.Pointer counts as not nil", func() error {
		return errors.Join(is("Nil", &args{a: (func())(nil)}, true), is("NotNil", &args{a: (func())(nil)}, false), is("Nil", &args{a: unsafe.Pointer(nil)}, true), is("NoError", &args{err: funcErr(nil)}, true))
	})
	vh.Known(t, "type-name", "EqualsType() takes different types of the same name as equal", func() error {
		return errors.Join(is("EqualsType", &args{a: local1(), b: local2()}, false), is("EqualsType", &args{a: alike.Point{}, b: gen.Point{}}, false))
	})
	vh.Known(t, "stringer", "Nil() and NotNil() panic when the String() method of the value does", func() error {
		return errors.Join(is("NotNil", &args{a: loose{}}, true), is("NotNil", &args{a: panicky{}}, true))
	})
	vh.Known(t, "json-int", "JSON text is compared with its integers rounded to float64", func() error {
		return errors.Join(is("EqualsJSON", &args{a: "9007199254740993", b: "9007199254740992"}, false), is("EqualsJSON", &args{a: "[9007199254740993]", b: []int64{9007199254740993}}, true))
	})
}

// verdict runs one assertion as a test of its own
type verdict struct {
	passed, after bool
	panicked      string
}

func run(name string, x *args, check ...func(t *testing.T, c ctx.C)) (v verdict) {
	old := os.Stdout
	os.Stdout = devnull
	defer func() { os.Stdout = old }()
	v.passed = testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: name, F: func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				v.panicked = fmt.Sprint(p)
				t.Fail()
			}
		}()
		c := test.WithTester(context.Background(), t)
		for _, f := range check {
			f(t, c)
		}
		calls[name](t, c, x)
		v.after = true
	}}})
	return
}

var devnull = func() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	return f
}()

func expect(t *rapid.T, name string, x *args, want bool, desc string) {
	var v verdict
	vh.Within(name+" "+desc, func() { v = run(name, x) })
	if v.panicked != "" {
		t.Fatalf("%s(%s) panics: %s", name, desc, v.panicked)
	}
	if v.passed != want {
		t.Fatalf("%s(%s): passed %v, the condition holds: %v", name, desc, v.passed, want)
	}
	if v.after != want {
		t.Fatalf("%s(%s): passed %v, and the test went on: %v", name, desc, want, v.after)
	}
}

// ------------------------------------------------------------ values

type hidden struct {
	a int
	b string
	c *int
	d []string
	e any
	f float64
}
type (
	named      string
	num        int
	list       []int
	dict       map[string]int
	fn         func() error
	arr        [2]int
	loose      struct{ fmt.Stringer }
	strPtr     struct{ s string }
	valErr     struct{ code int }
	ptrErr     struct{ code int }
	sliceErr   []string
	mapErr     map[string]bool
	funcErr    func() string
	chanErr    chan int
	numErr     int
	panicky    struct{ n int }
	panickyErr struct{ n int }
	node       struct {
		Name string
		Kids []*node
	}
)

func (p *strPtr) String() string   { return p.s } // panics when nil
func (e valErr) Error() string     { return fmt.Sprint("code ", e.code) }
func (e *ptrErr) Error() string    { return fmt.Sprint("code ", e.code) } // panics when nil
func (e sliceErr) Error() string   { return strings.Join(e, ",") }
func (e mapErr) Error() string     { return fmt.Sprint(len(e)) }
func (e funcErr) Error() string    { return "func" }
func (e chanErr) Error() string    { return "chan" }
func (e numErr) Error() string     { return "num" }
func (p panicky) String() string   { panic("no text") }
func (p panickyErr) Error() string { panic("no text") }
func (n named) String() string     { return "named " + string(n) }

// what is known about a value by construction
type val struct {
	v     any
	desc  string
	isNil bool
	empty int // 1 empty, 0 not, -1 unspecified
	plain bool
}

func ptr[T any](v T) *T { return &v }

// what makes pairs look alike
func local1() any { type T struct{ A int }; return T{1} }
func local2() any { type T struct{ A int }; return T{1} }

func value(t *rapid.T) val {
	s := rapid.SampledFrom([]string{"", "", "x", " ", "nil", "0"}).Draw(t, "s")
	n := rapid.IntRange(0, 2).Draw(t, "n")
	e := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	ints := make([]int, n)
	m := map[string]int{}
	for i := 0; i < n; i++ {
		m[fmt.Sprint(i)] = i
	}
	ch := make(chan int, 3)
	for i := 0; i < n; i++ {
		ch <- i
	}
	v := func(v any, isNil bool, empty int) val { return val{v: v, isNil: isNil, empty: empty} }
	var out val
	k := rapid.IntRange(0, 59).Draw(t, "kind")
	if nilFunc && (k == 34 || k == 35 || k == 37) {
		k = 36
	}
	switch k {
	default:
		out = v(nil, true, 1)
		out.plain = true
	case 1:
		out = v(s, false, e(s == ""))
		out.plain = true
	case 2:
		out = v(named(s), false, e(s == ""))
	case 3:
		out = v(ints, false, e(n == 0))
	case 4:
		out = v([]int(nil), true, 1)
	case 5:
		out = v(list(ints), false, e(n == 0))
	case 6:
		out = v(list(nil), true, 1)
	case 7:
		out = v(m, false, e(n == 0))
	case 8:
		out = v(map[string]int(nil), true, 1)
	case 9:
		out = v(dict(m), false, e(n == 0))
	case 10:
		out = v(dict(nil), true, 1)
	case 11:
		out = v(ch, false, e(n == 0))
	case 12:
		out = v((chan int)(nil), true, 1)
	case 13:
		out = v((<-chan int)(ch), false, e(n == 0))
	case 14:
		out = v((chan<- int)(nil), true, 1)
	case 15:
		out = v(&n, false, 0)
	case 16:
		out = v((*int)(nil), true, 1)
	case 17:
		out = v(ptr(0), false, 0)
	case 18:
		out = v(ptr((*int)(nil)), false, 0)
	case 19:
		out = v(&hidden{a: n}, false, 0)
	case 20:
		out = v((*hidden)(nil), true, 1)
	case 21:
		out = v(hidden{}, false, 1)
	case 22:
		out = v(hidden{a: n}, false, e(n == 0))
	case 23:
		out = v(hidden{b: s}, false, e(s == ""))
	case 24:
		out = v(hidden{d: []string{}}, false, 0)
	case 25:
		out = v(hidden{c: &n}, false, 0)
	case 26:
		out = v(hidden{f: math.NaN()}, false, 0)
	case 27:
		out = v(hidden{e: 0}, false, 0)
	case 28:
		out = v(struct{}{}, false, 1)
	case 29:
		out = v([]any{nil}, false, 0)
	case 30:
		out = v(map[any]any{nil: nil}, false, 0)
	case 31:
		out = v(map[float64]int{math.NaN(): 1}, false, 0)
	case 32:
		out = v((*strPtr)(nil), true, 1)
	case 33:
		out = v(&strPtr{s}, false, 0)
	case 34:
		out = v((func())(nil), true, -1)
	case 35:
		out = v(fn(nil), true, -1)
	case 36:
		out = v(func() {}, false, -1)
	case 37:
		out = v(unsafe.Pointer(nil), true, -1)
	case 38:
		out = v(unsafe.Pointer(&n), false, -1)
	case 39:
		out = v(n, false, -1)
		out.plain = true
	case 40:
		out = v(math.NaN(), false, -1)
		out.plain = true
	case 41:
		out = v(s == "", false, -1)
		out.plain = true
	case 42:
		out = v([2]int{}, false, -1)
	case 43:
		out = v([0]int{}, false, -1)
	case 44:
		out = v(loose{}, false, 1)
	case 45:
		out = v(loose{named("x")}, false, 0)
	case 46:
		out = v(panicky{1}, false, 0)
	case 47:
		out = v(&panicky{}, false, 0)
	case 48:
		out = v([]byte(s), false, e(s == ""))
	case 49:
		out = v([]byte{0xff, 0xfe}[:n], false, e(n == 0))
	case 50:
		out = v(json.RawMessage(s), false, e(s == ""))
	case 51:
		out = v(json.RawMessage(nil), true, 1)
	case 52:
		out = v(time.Time{}, false, 1)
	case 53:
		out = v(&node{Name: s, Kids: []*node{nil, {Name: "kid"}}}, false, 0)
	case 54:
		out = v([]string{s}, false, 0)
	case 55:
		out = v(num(n), false, -1)
	case 56:
		out = v(&ints, false, 0)
	case 57:
		out = v((*[]int)(nil), true, 1)
	case 58:
		out = v(enc.Nil{}, false, 1)
	}
	out.desc = fmt.Sprintf("%d: %T of %q or %d", k, out.v, s, n)
	return out
}

func TestNilEmpty(t *testing.T) {
	vh.Check(t, 8000, 160000, func(t *rapid.T) {
		v := value(t)
		x := &args{a: v.v}
		name := rapid.SampledFrom([]string{"Nil", "NotNil", "Empty", "NotEmpty"}).Draw(t, "helper")
		switch v.v.(type) {
		case loose, panicky:
			if stringer && strings.HasSuffix(name, "Nil") {
				t.Skip("listed")
			}
		}
		switch name {
		case "Nil":
			expect(t, name, x, v.isNil, v.desc)
		case "NotNil":
			expect(t, name, x, !v.isNil, v.desc)
		default:
			if v.empty < 0 { // no documented meaning: must not pass both ways
				a, b := run("Empty", x), run("NotEmpty", x)
				if a.passed && b.passed {
					t.Fatalf("%s is empty and not empty", v.desc)
				}
				break
			}
			expect(t, name, x, (v.empty == 1) == (name == "Empty"), v.desc)
		}
		vh.Case(!v.plain, name+" "+v.desc, name)
	})
}

func TestErrors(t *testing.T) {
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		n := rapid.IntRange(0, 3).Draw(t, "n")
		var err error
		isNil := false
		k := rapid.IntRange(0, 25).Draw(t, "kind")
		if nilFunc && k == 10 {
			k = 9
		}
		switch k {
		default:
			isNil = true
		case 1:
			err = errors.New("")
		case 2:
			err = valErr{n}
		case 3:
			err = &ptrErr{n}
		case 4:
			err, isNil = (*ptrErr)(nil), true
		case 5:
			err = sliceErr{}
		case 6:
			err, isNil = sliceErr(nil), true
		case 7:
			err = mapErr{}
		case 8:
			err, isNil = mapErr(nil), true
		case 9:
			err = funcErr(func() string { return "" })
		case 10:
			err, isNil = funcErr(nil), true
		case 11:
			err = numErr(0)
		case 12:
			err = ctx.NewErrorf(context.Background(), "n %d", n)
		case 13:
			err = ctx.WrapError(context.Background(), valErr{n})
		case 14:
			err = fmt.Errorf("w %w", ctx.NewErrorf(nil, "inner"))
		case 15:
			err = panickyErr{n}
		case 16:
			err = ctx.Error{}
		case 17:
			err = errors.Join(nil, valErr{n})
		case 18:
			err = errors.Join(nil, nil)
			isNil = true
		case 19:
			err, isNil = (*valErr)(nil), true
		case 20:
			err, isNil = chanErr(nil), true
		case 21:
			err = make(chanErr)
		case 23, 24, 25:
			err = rapid.SampledFrom(vh.Errs).Draw(t, "well known")
		case 22:
			err = fmt.Errorf("100%% %%s %w", os.ErrNotExist)
		}
		name := rapid.SampledFrom([]string{"Error", "NoError"}).Draw(t, "helper")
		desc := fmt.Sprintf("%d: %T %d", k, err, n)
		expect(t, name, &args{err: err}, isNil == (name == "NoError"), desc)
		vh.Case(err != nil, name+" "+desc, name)
	})
}

func TestTypes(t *testing.T) {
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		pool := []any{nil, 1, int64(1), num(1), "x", named("x"), ptr(1), (*int)(nil), ptr(num(1)), []int{1}, []int(nil), list{1}, []any{1}, map[string]int{}, dict{},
			hidden{}, &hidden{}, local1(), local2(), []any{local1()}, reflect.ValueOf(local1()).Interface(), alike.Point{}, gen.Point{}, &alike.Point{}, &gen.Point{}, []alike.Point{}, []gen.Point{},
			errors.New("x"), fmt.Errorf("x"), valErr{}, &ptrErr{}, struct{ A int }{1}, struct{ A int }{2}, struct{ B int }{1}, struct {
				A int `json:"a"`
			}{1}, func() {}, func(int) {}, [2]int{}, [3]int{}, make(chan int), make(<-chan int), uint8(1), byte(2), 'x', int32(1)}
		i := rapid.IntRange(0, len(pool)-1).Draw(t, "a")
		j := i
		if rapid.Bool().Draw(t, "other") {
			j = rapid.IntRange(0, len(pool)-1).Draw(t, "b")
		}
		a, b := pool[i], pool[j]
		if !typeName && rapid.IntRange(0, 3).Draw(t, "alike") == 3 { // same name, another type
			pair := rapid.SampledFrom([][2]any{{local1(), local2()}, {alike.Point{}, gen.Point{}}, {&alike.Point{}, &gen.Point{}}, {[]alike.Point{}, []gen.Point{}}, {map[string]alike.Point{}, map[string]gen.Point{}}, {ptr(local1()), ptr(local2())}, {func(alike.Point) {}, func(gen.Point) {}}}).Draw(t, "pair")
			a, b = pair[0], pair[1]
			if rapid.Bool().Draw(t, "swap") {
				a, b = b, a
			}
			i, j = -1, -2
		}
		desc := fmt.Sprintf("%d: %T, %d: %T", i, a, j, b)
		if typeName && reflect.TypeOf(a) != reflect.TypeOf(b) && fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b) {
			t.Skip("listed")
		}
		expect(t, "EqualsType", &args{a: a, b: b}, reflect.TypeOf(a) == reflect.TypeOf(b), desc)
		vh.Case(i != j, desc, "EqualsType")
	})
}

func TestStrings(t *testing.T) {
	vh.Check(t, 8000, 160000, func(t *rapid.T) {
		s := gen.Text().Draw(t, "s")
		p := gen.Text().Draw(t, "p")
		switch rapid.IntRange(0, 5).Draw(t, "relation") {
		case 0:
			p = s
		case 1:
			s = s + p
		case 2:
			r := []rune(s)
			if len(r) > 1 {
				p = string(r[1:])
			}
		case 3:
			s = strings.Repeat(s, 3)
			p = s + "x"
		case 4:
			p = strings.ToUpper(s)
		}
		name := rapid.SampledFrom([]string{"EqualsStr", "NotEqualsStr", "Contains", "NotContains", "ContainsGo", "Assert"}).Draw(t, "helper")
		x := &args{s: s, p: p, a: s}
		contains := false // by hand
		for i := 0; i+len(p) <= len(s); i++ {
			if s[i:i+len(p)] == p {
				contains = true
			}
		}
		want := false
		switch name {
		case "EqualsStr":
			want = s == p
		case "NotEqualsStr":
			want = s != p
		case "Contains":
			want = contains
		case "NotContains":
			want = !contains
		case "ContainsGo":
			v := value(t)
			x.a = v.v
			txt := fmt.Sprintf("%#v", v.v)
			switch rapid.IntRange(0, 3).Draw(t, "pattern") {
			case 0:
				x.p = txt
			case 1:
				if len(txt) > 0 {
					i := rapid.IntRange(0, len(txt)).Draw(t, "from")
					x.p = txt[i:rapid.IntRange(i, len(txt)).Draw(t, "to")]
				}
			case 2:
				x.p = txt + "!"
			}
			want = strings.Contains(txt, x.p)
		case "Assert":
			x.cond = rapid.Bool().Draw(t, "cond")
			want = x.cond
		}
		desc := fmt.Sprintf("%q, %q", s, x.p)
		expect(t, name, x, want, desc)
		vh.Case(s != "" && p != "", name+" "+desc, name)
	})
}

// EqualsGo: same Go syntax
func TestGo(t *testing.T) {
	vh.Check(t, 6000, 120000, func(t *rapid.T) {
		a, b := value(t), value(t)
		if rapid.Bool().Draw(t, "same") {
			b = a
		}
		want := fmt.Sprintf("%#v", a.v) == fmt.Sprintf("%#v", b.v)
		name := rapid.SampledFrom([]string{"EqualsGo", "NotEqualsGo"}).Draw(t, "helper")
		desc := a.desc + ", " + b.desc
		expect(t, name, &args{a: a.v, b: b.v}, want == (name == "EqualsGo"), desc)
		vh.Case(!a.plain, name+" "+desc, name)
	})
}

// ------------------------------------------------------------ JSON

// numbers whose JSON value does not depend on how a float is printed
func number(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "num") {
	case 0, 1:
		return fmt.Sprint(rapid.IntRange(-3, 100).Draw(t, "i"))
	case 2:
		return fmt.Sprint(rapid.Int64().Draw(t, "i"))
	case 3:
		return fmt.Sprint(rapid.SampledFrom([]int64{1 << 53, 1<<53 + 1, 1<<53 - 1, -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, 1700000000000000001, 1700000000000000000}).Draw(t, "i"))
	case 4:
		return rapid.SampledFrom([]string{"0.5", "-0.25", "1.5", "25.75", "0.1", "123.456"}).Draw(t, "f")
	default:
		return fmt.Sprint(rapid.Uint64().Draw(t, "u"))
	}
}

func model(t *rapid.T, depth int) *gen.J {
	max := 5
	if depth == 0 {
		max = 3
	}
	switch rapid.IntRange(0, max).Draw(t, "kind") {
	case 0:
		return gen.Str(gen.Text().Draw(t, "s"))
	case 1:
		return gen.Num(number(t))
	case 2:
		return gen.Bool(rapid.Bool().Draw(t, "b"))
	case 3:
		return gen.Null()
	case 4:
		out := gen.List()
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			out.L = append(out.L, model(t, depth-1))
		}
		return out
	default:
		out := gen.Obj()
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			k := gen.Key().Draw(t, "k")
			if out.Get(k) == nil {
				out.Add(k, model(t, depth-1))
			}
		}
		return out
	}
}

// the same value with other spelling: order of keys, integers with a fraction of zero
func respell(t *rapid.T, j *gen.J) *gen.J {
	out := &gen.J{K: j.K, B: j.B, S: j.S}
	for _, e := range j.L {
		out.L = append(out.L, respell(t, e))
	}
	idx := make([]int, len(j.Keys))
	for i := range idx {
		idx[i] = i
	}
	if len(idx) > 1 {
		idx = rapid.Permutation(idx).Draw(t, "order")
	}
	for _, i := range idx {
		out.Add(j.Keys[i], respell(t, j.Vals[i]))
	}
	return out
}

// one step away
func mutate(t *rapid.T, j *gen.J) *gen.J {
	out := respell(t, j)
	at := out
	for len(at.L)+len(at.Vals) > 0 && rapid.IntRange(0, 3).Draw(t, "deeper") > 0 {
		kids := append(append([]*gen.J{}, at.L...), at.Vals...)
		at = kids[rapid.IntRange(0, len(kids)-1).Draw(t, "kid")]
	}
	switch at.K {
	case 'n':
		*at = *rapid.SampledFrom([]*gen.J{gen.Bool(false), gen.Num("0"), gen.Str(""), gen.List(), gen.Obj(), gen.Str("null")}).Draw(t, "to")
	case 'b':
		at.B = !at.B
	case 'd':
		if strings.ContainsAny(at.S, ".e") {
			at.S = "1" + at.S
			if strings.HasPrefix(at.S, "1-") {
				at.S = at.S[1:] + "1"
			}
		} else if b := []byte(at.S); b[len(b)-1] != '7' {
			b[len(b)-1] = "1234567809"[b[len(b)-1]-'0'] // next digit
			at.S = string(b)
		} else {
			*at = *gen.Str(at.S)
		}
	case 's':
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			at.S += "x"
		case 1:
			at.S = " " + at.S
		default:
			*at = *gen.List(gen.Str(at.S))
		}
	case 'l':
		if len(at.L) > 0 && rapid.Bool().Draw(t, "drop") {
			at.L = at.L[1:]
		} else {
			at.L = append(at.L, gen.Null())
		}
	case 'o':
		k := "new"
		for at.Get(k) != nil {
			k += "w"
		}
		if len(at.Keys) > 0 && rapid.Bool().Draw(t, "rename") {
			at.Keys[0] = k
		} else {
			at.Add(k, gen.Null())
		}
	}
	return out
}

// as a Go value
func native(t *rapid.T, j *gen.J) any {
	switch j.K {
	case 'n':
		return rapid.SampledFrom([]any{nil, (*int)(nil), enc.Nil{}}).Draw(t, "nil")
	case 'b':
		if rapid.Bool().Draw(t, "ptr") {
			return ptr(j.B)
		}
		return j.B
	case 's':
		switch rapid.IntRange(0, 2).Draw(t, "str") {
		case 0:
			return ptr(j.S)
		case 1:
			return enc.String(j.S)
		}
		return j.S
	case 'd':
		if strings.ContainsAny(j.S, ".e") {
			var f float64
			if _, err := fmt.Sscan(j.S, &f); err != nil {
				panic(err)
			}
			return f
		}
		switch k := rapid.IntRange(0, 3).Draw(t, "num"); {
		case k == 1 && jsonInt && big(j):
			return enc.Digits(j.S)
		case k == 0:
			return enc.Digits(j.S)
		case k == 1:
			return json.RawMessage(j.S)
		}
		var i int64
		if _, err := fmt.Sscan(j.S, &i); err == nil {
			return i
		}
		var u uint64
		if _, err := fmt.Sscan(j.S, &u); err != nil {
			return enc.Digits(j.S) // the largest one, mutated
		}
		return u
	case 'l':
		l := make([]any, 0)
		for _, e := range j.L {
			l = append(l, native(t, e))
		}
		return l
	default:
		if rapid.Bool().Draw(t, "pairs") {
			var p enc.Pairs
			for i, k := range j.Keys {
				p = append(p, enc.Pair{JSON: k, Value: gen.ToNode(j.Vals[i])})
			}
			if len(p) > 0 {
				m := enc.Map{}
				for _, e := range p {
					m[e.JSON] = e.Value
				}
				return m
			}
		}
		m := map[string]any{}
		for i, k := range j.Keys {
			m[k] = native(t, j.Vals[i])
		}
		return m
	}
}

// big tells whether some integer is beyond what a float64 holds
func big(j *gen.J) bool {
	if j.K == 'd' && !strings.ContainsAny(j.S, ".e") {
		var i int64
		if _, err := fmt.Sscan(j.S, &i); err != nil || i > 1<<53 || i < -1<<53 {
			return true
		}
	}
	for _, e := range append(append([]*gen.J{}, j.L...), j.Vals...) {
		if big(e) {
			return true
		}
	}
	return false
}

func form(t *rapid.T, j *gen.J) (any, string) {
	k := rapid.IntRange(0, 4).Draw(t, "form")
	if jsonInt && big(j) {
		k |= 3
	}
	switch k {
	case 0:
		s := j.Text(t)
		return s, "text " + s
	case 1:
		s := j.Text(t)
		return []byte(s), "bytes " + s
	case 2:
		s := j.Text(t)
		return json.RawMessage(s), "raw " + s
	case 3:
		return gen.ToNode(j), "node " + j.String()
	default:
		if j.K == 's' && json.Valid([]byte(j.S)) { // documented: a string which is valid JSON stands for its value
			return []string{j.S}, "unreachable"
		}
		return native(t, j), "value " + j.String()
	}
}

func TestJSON(t *testing.T) {
	vh.Check(t, 10000, 200000, func(t *rapid.T) {
		a := model(t, 2)
		rel := rapid.SampledFrom([]string{"equal", "mutated", "mutated", "other"}).Draw(t, "relation")
		b := respell(t, a)
		switch rel {
		case "mutated":
			b = mutate(t, a)
		case "other":
			b = model(t, 2)
		}
		for _, j := range []*gen.J{a, b} {
			if j.K == 's' && json.Valid([]byte(j.S)) {
				j.S += "~" // ambiguous by design
				if json.Valid([]byte(j.S)) {
					t.Skip("ambiguous")
				}
			}
		}
		want := gen.Cmp{NumValue: true}.Diff(a, b) == ""
		x := &args{}
		var da, db string
		x.a, da = form(t, a)
		x.b, db = form(t, b)
		desc := da + ", " + db
		name := rapid.SampledFrom([]string{"EqualsJSON", "NotEqualsJSON"}).Draw(t, "helper")
		expect(t, name, x, want == (name == "EqualsJSON"), desc)
		vh.Case(rel == "mutated" || a.K == 'o' || a.K == 'l', name+" "+desc, name, rel)
	})
}

func TestContainsJSON(t *testing.T) {
	vh.Check(t, 4000, 80000, func(t *rapid.T) {
		a := model(t, 2)
		if a.K == 's' && json.Valid([]byte(a.S)) {
			a.S += "~"
			if json.Valid([]byte(a.S)) {
				t.Skip("ambiguous")
			}
		}
		x := &args{}
		var desc string
		x.a, desc = form(t, a)
		// a scalar of the value, as compact JSON, is in the text; one with a fresh mark is not
		var leaves []string
		var walk func(j *gen.J)
		walk = func(j *gen.J) {
			switch j.K {
			case 'n':
				leaves = append(leaves, "null")
			case 'b':
				leaves = append(leaves, fmt.Sprint(j.B))
			case 'd':
				if !strings.ContainsAny(j.S, ".e") {
					leaves = append(leaves, j.S)
				}
			case 's':
				plain := true
				for _, r := range j.S {
					plain = plain && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
				}
				if plain {
					leaves = append(leaves, `"`+j.S+`"`)
				}
			}
			for _, e := range append(append([]*gen.J{}, j.L...), j.Vals...) {
				walk(e)
			}
		}
		walk(a)
		want := false
		x.p = `"not in there, ever"`
		if len(leaves) > 0 && rapid.Bool().Draw(t, "in") {
			x.p = rapid.SampledFrom(leaves).Draw(t, "leaf")
			want = true
		}
		name := rapid.SampledFrom([]string{"ContainsJSON", "NotContainsJSON"}).Draw(t, "helper")
		expect(t, name, x, want == (name == "ContainsJSON"), desc+", "+x.p)
		vh.Case(len(leaves) > 1, name+" "+desc+" "+x.p, name)
	})
}

// ------------------------------------------------------------ lists

func TestLists(t *testing.T) {
	vh.Check(t, 3000, 60000, func(t *rapid.T) {
		n := rapid.IntRange(0, 4).Draw(t, "n")
		anys := rapid.Bool().Draw(t, "anys")
		x := &args{}
		var ints []int
		var all []any
		for i := 0; i < n; i++ {
			ints = append(ints, i*10+1)
			all = append(all, value(t).v)
		}
		ic := append([]int{}, ints...)
		ac := append([]any{}, all...)
		x.ints, x.anys = &ints, &all
		desc := fmt.Sprintf("%d elements", n)
		same := func(a, b any) bool {
			return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
		}
		for i := rapid.IntRange(1, 6).Draw(t, "ops"); i > 0; i-- {
			name := rapid.SampledFrom([]string{"Shift", "Pop"}).Draw(t, "op")
			desc += " " + name
			x.got = "unset"
			if anys {
				expect(t, name+"Any", x, len(ac) > 0, desc)
				if len(ac) > 0 {
					want := ac[0]
					if name == "Shift" {
						ac = ac[1:]
					} else {
						want = ac[len(ac)-1]
						ac = ac[:len(ac)-1]
					}
					if !same(want, x.got) {
						t.Fatalf("%s: got %#v instead of %#v", desc, x.got, want)
					}
				}
				if len(all) != len(ac) {
					t.Fatalf("%s: %d elements left", desc, len(all))
				}
				for k := range ac {
					if !same(ac[k], all[k]) {
						t.Fatalf("%s: %#v instead of %#v", desc, all[k], ac[k])
					}
				}
			} else {
				expect(t, name, x, len(ic) > 0, desc)
				if len(ic) > 0 {
					want := ic[0]
					if name == "Shift" {
						ic = ic[1:]
					} else {
						want = ic[len(ic)-1]
						ic = ic[:len(ic)-1]
					}
					if x.got != want {
						t.Fatalf("%s: got %v instead of %v", desc, x.got, want)
					}
				}
				if fmt.Sprint(ints) != fmt.Sprint(ic) {
					t.Fatalf("%s: left %v instead of %v", desc, ints, ic)
				}
			}
		}
		vh.Case(n > 1, fmt.Sprint(desc, anys), "lists")
	})
}

func TestOKFail(t *testing.T) {
	vh.Check(t, 600, 12000, func(t *rapid.T) {
		f := rapid.SampledFrom([]string{"%v", "", "plain", "%s %s", "100%", "%d", "%#v"}).Draw(t, "format")
		v := value(t)
		name := rapid.SampledFrom([]string{"OK", "Fail"}).Draw(t, "helper")
		expect(t, name, &args{s: f, a: v.v}, name == "OK", f+" "+v.desc)
		vh.Case(!v.plain, name+f+v.desc, name)
	})
}

// the context of a test carries its tester and lives as long as the test
func TestContext(t *testing.T) {
	vh.Check(t, 300, 6000, func(t *rapid.T) {
		fails := rapid.Bool().Draw(t, "fails")
		var c ctx.C
		var bad string
		old := os.Stdout
		os.Stdout = devnull
		passed := testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestOne", F: func(tt *testing.T) {
			c = test.Context(tt)
			if test.ExtractTester(c) != tt {
				bad = "the context has no tester"
			}
			sub, cf := context.WithCancel(c)
			if test.ExtractTester(sub) != tt {
				bad = "the tester is not inherited"
			}
			cf()
			if c.Err() != nil {
				bad = "the context ends before the test"
			}
			if fails {
				test.EqualsJSON(c, 1, 2)
			} else {
				test.EqualsJSON(c, 1, 1)
			}
		}}})
		os.Stdout = old
		if bad == "" && passed == fails {
			bad = fmt.Sprintf("the assertion on the context: passed %v", passed)
		}
		if bad == "" && c.Err() == nil {
			bad = "the context outlives the test"
		}
		if bad == "" && test.ExtractTester(context.Background()) != nil {
			bad = "a tester from nowhere"
		}
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		vh.Case(fails, fmt.Sprint("context ", fails), "context")
	})
}
