package g01

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/config"
	"github.com/Aize-Public/forego/ctx"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "G01", "struct types over all supported kinds (and the unsupported ones), prefilled, with environments of valid, nearly valid and random texts, compared with a reference conversion; non-trivial: at least one field set to something else than its zero or prefilled value, or an error")
}

// ---- types

type (
	nStr  string
	nInt  int
	nBool bool
	nList []nInt
	nMap  map[nStr]nBool
)

// with the context
type custom struct{ s string }

func (x *custom) UnmarshalText(c ctx.C, t string) error {
	if strings.Contains(t, "bad") {
		return refusal
	}
	x.s = "<" + t + ">"
	return nil
}

// encoding.TextUnmarshaler on a string
type upper string

func (x *upper) UnmarshalText(t []byte) error {
	if strings.Contains(string(t), "bad") {
		return refusal
	}
	*x = upper(strings.ToUpper(string(t)))
	return nil
}

// json.Unmarshaler
type jsoned struct{ V any }

func (x *jsoned) UnmarshalJSON(j []byte) error { return json.Unmarshal(j, &x.V) }

type R[T any] struct {
	V T `config:"the.key"`
}
type D[T any] struct {
	V T `config:"the key,default"`
}
type P[A, B any] struct {
	Before []string
	A      A `config:"a"`
	keep   map[string]int
	Keep   any `json:"keep" config:""`
	B      B   `config:"B_2,default="`
	After  *int
}
type Q[A, B, C any] struct {
	A A `config:"same"`
	B B `config:"same"`
	C C `config:"other,default=1"`
}
type wide struct {
	Listen string         `config:"listen,default=:8080"`
	Local  bool           `config:"local,default=true"`
	N      int            `config:"n,default=-12"`
	NS     nStr           `config:"ns,default=a=b"`
	NI     nInt           `config:"ni,default=7"`
	NB     nBool          `config:"nb,default=YES"`
	L      []string       `config:"l,default=one"`
	M      map[string]int `config:"m,default=k=3"`
	C      custom         `config:"c,default=dflt"`
	U      upper          `config:"u,default=up"`
	J      jsoned         `config:"j,default={\"a\":[1]}"`
	A      netip.Addr     `config:"a,default=127.0.0.1"`
	Un     float64
	T      time.Time        `config:"t,default=2020-01-02T03:04:05Z"`
	MM     map[nInt][]nBool `config:"mm,default=1=y"`
	Broken int              `config:"broken,default=x1"`
}
type hidden struct {
	A string `config:"a,default=x"`
	b int    `config:"b,default=1"`
}
type oddTag struct {
	A string `config:"a,required"`
}
type commaDefault struct {
	A []string `config:"a,default=x,y"`
}
type noKey struct {
	A string `config:",default=x"`
}

// ---- reference

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)

// what the types above refuse with
var refusal = errors.New("refused")

var errAny = errors.New("an error")

// convert the text into v
func convert(v reflect.Value, text string) error {
	switch p := v.Addr().Interface().(type) {
	case *custom:
		if strings.Contains(text, "bad") {
			return errAny
		}
		p.s = "<" + text + ">"
		return nil
	case *upper:
		if strings.Contains(text, "bad") {
			return errAny
		}
		*p = upper(strings.ToUpper(text))
		return nil
	case *jsoned:
		if text == "" {
			return errLoose
		}
		return json.Unmarshal([]byte(text), &p.V)
	case *netip.Addr:
		if text == "" {
			return errLoose
		}
		a, err := netip.ParseAddr(text)
		*p = a
		return err
	case *time.Time:
		if text == "" {
			return errLoose
		}
		a, err := time.Parse(time.RFC3339, text)
		*p = a
		return err
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(text)
	case reflect.Bool:
		for _, s := range []string{"true", "1", "yes", "y"} {
			if strings.EqualFold(s, text) {
				v.SetBool(true)
				return nil
			}
		}
		for _, s := range []string{"", "false", "0", "no", "n"} {
			if strings.EqualFold(s, text) {
				v.SetBool(false)
				return nil
			}
		}
		return errAny
	case reflect.Int:
		if !intRe.MatchString(text) {
			return errAny
		}
		b, _ := new(big.Int).SetString(strings.TrimPrefix(text, "+"), 10)
		if !b.IsInt64() {
			return errAny
		}
		v.SetInt(b.Int64())
	case reflect.Slice:
		if text == "" {
			return nil
		}
		l := reflect.MakeSlice(v.Type(), 0, 0)
		for _, s := range strings.Split(text, ",") {
			e := reflect.New(v.Type().Elem()).Elem()
			if err := convert(e, s); err != nil {
				return err
			}
			l = reflect.Append(l, e)
		}
		v.Set(l)
	case reflect.Map:
		if text == "" {
			return nil
		}
		m := reflect.MakeMap(v.Type())
		for _, s := range strings.Split(text, ",") {
			a, b, _ := strings.Cut(s, "=")
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if err := convert(k, a); err != nil {
				return err
			}
			if err := convert(e, b); err != nil {
				return err
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	default:
		return errAny
	}
	return nil
}

var errLoose = errors.New("not specified")

// fill the struct, returns the key of the first which is wrong
func reference(v reflect.Value, env map[string]string) (key string, err error) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		tag := f.Tag.Get("config")
		if tag == "" {
			continue
		}
		key, opts, has := strings.Cut(tag, ",")
		def, hasDef := "", false
		if has {
			name, val, _ := strings.Cut(opts, "=")
			if name != "default" || strings.Contains(val, ",") {
				return key, errAny
			}
			def, hasDef = val, true
		}
		if !f.IsExported() {
			return key, errAny
		}
		text := env[key]
		if text == "" {
			if !hasDef {
				return key, errAny
			}
			text = def
		}
		if err := convert(v.Field(i), text); err != nil {
			return key, err
		}
	}
	return "", nil
}

// ---- texts

func textFor(t *rapid.T, rt reflect.Type, depth int) string {
	if k := rapid.IntRange(0, 11).Draw(t, "text"); k == 0 {
		return ""
	} else if k == 10 {
		return rapid.String().Draw(t, "random")
	} else if k == 11 {
		return rapid.SampledFrom([]string{" 1", "1 ", "1.0", "0x10", "1_000", "bad", "TRUE", "true ", "null", "nil", ",", "=", "a=b", "-", "+", "99999999999999999999", "9223372036854775808", "-9223372036854775809", "\x00", "١"}).Draw(t, "near")
	}
	switch reflect.New(rt).Interface().(type) {
	case *custom, *upper:
		return rapid.SampledFrom([]string{"abc", "x y", "bad", "é", "a-b"}).Draw(t, "custom")
	case *jsoned:
		return rapid.SampledFrom([]string{`1`, `{"a":"b"}`, `"x"`, `null`, `{`, `[1]`}).Draw(t, "json")
	case *netip.Addr:
		return rapid.SampledFrom([]string{"1.2.3.4", "::1", "fe80::1%eth0", "1.2.3", "localhost"}).Draw(t, "addr")
	case *time.Time:
		return rapid.SampledFrom([]string{"2020-02-29T00:00:00Z", "2019-02-29T00:00:00Z", "2020-01-01T10:00:00+02:00", "yesterday"}).Draw(t, "time")
	}
	switch rt.Kind() {
	case reflect.Bool:
		return rapid.SampledFrom([]string{"true", "1", "yes", "y", "false", "0", "no", "n", "True", "NO", "Y", "t", "f", "on", "off", "2", "truee", "01", "00", "10", " true", "no ", "TRUE", "nO", "ye", "yesno", "-1", "+1", "1.0", "false,true"}).Draw(t, "bool")
	case reflect.Int:
		switch rapid.IntRange(0, 3).Draw(t, "int kind") {
		case 0:
			return strconv.Itoa(rapid.Int().Draw(t, "int"))
		case 1:
			return strconv.Itoa(rapid.SampledFrom([]int{0, 1, -1, math.MaxInt, math.MinInt, math.MaxInt32 + 1}).Draw(t, "int"))
		case 2:
			return "+" + strconv.Itoa(rapid.IntRange(0, 99).Draw(t, "int"))
		default:
			return "00" + strconv.Itoa(rapid.IntRange(0, 99).Draw(t, "int"))
		}
	case reflect.Slice:
		var l []string
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			l = append(l, textFor(t, rt.Elem(), depth-1))
		}
		return strings.Join(l, ",")
	case reflect.Map:
		var l []string
		for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
			s := textFor(t, rt.Key(), depth-1)
			if rapid.IntRange(0, 5).Draw(t, "no value") < 5 {
				s += "=" + textFor(t, rt.Elem(), depth-1)
			}
			l = append(l, s)
		}
		return strings.Join(l, ",")
	default:
		return rapid.OneOf(rapid.StringMatching(`[a-z0-9 :/.-]{1,8}`), rapid.String()).Draw(t, "string")
	}
}

// something in the field before, returns what tells whether it was written to
func prefill(t *rapid.T, v reflect.Value) (check func() bool) {
	check = func() bool { return true }
	if !v.CanSet() || rapid.Bool().Draw(t, "empty") {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("before")
	case reflect.Int:
		v.SetInt(42)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64:
		v.SetFloat(1.5)
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("iface"))
		}
	case reflect.Slice:
		n := rapid.IntRange(0, 2).Draw(t, "len")
		s := reflect.MakeSlice(v.Type(), n, n+5)
		v.Set(s)
		full := s.Slice(0, n+5)
		before := reflect.MakeSlice(v.Type(), n+5, n+5)
		reflect.Copy(before, full)
		return func() bool { return reflect.DeepEqual(before.Interface(), full.Interface()) }
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		m.SetMapIndex(reflect.Zero(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		v.Set(m)
		return func() bool { return m.Len() == 1 }
	}
	return
}

func run[T any](t *rapid.T) {
	var cfg T
	rt := reflect.TypeOf(cfg)
	v := reflect.ValueOf(&cfg).Elem()
	env := map[string]string{}
	keys := map[string]bool{}
	var checks []func() bool
	for i := 0; i < v.NumField(); i++ {
		f := rt.Field(i)
		checks = append(checks, prefill(t, v.Field(i)))
		tag, ok := f.Tag.Lookup("config")
		if !ok || tag == "" {
			continue
		}
		key, _, _ := strings.Cut(tag, ",")
		keys[key] = true
		if v.NumField() > 6 && rapid.IntRange(0, 2).Draw(t, "leave") > 0 { // many at once would rarely all be right
			continue
		}
		if f.Name == "Broken" {
			env[key] = "5"
		} else {
			env[key] = textFor(t, f.Type, 3)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "fix") == 0 {
		env["broken"] = "5"
	}
	want := cfg
	wantKey, wantErr := reference(reflect.ValueOf(&want).Elem(), env)

	given := cfg
	base, cf := ctx.Background()
	defer cf(nil)
	var got T
	var err error
	if msg := vh.Try(func() {
		got, err = config.From(base, cfg, func(k string) string {
			if !keys[k] {
				t.Fatalf("asked for %q, which no field names", k)
			}
			return env[k]
		})
	}); msg != "" {
		t.Fatalf("%v with %q: %s", rt, env, msg)
	}
	var must T
	msg := vh.Try(func() { must = config.Must(base, cfg, func(k string) string { return env[k] }) })
	if (msg == "") != (err == nil) {
		t.Fatalf("%v with %q: From() error is %v, while Must() panic is %.200q", rt, env, err, msg)
	}
	if err == nil && !reflect.DeepEqual(must, got) {
		t.Fatalf("%v with %q: Must() gives %+v, From() %+v", rt, env, must, got)
	}

	for i, c := range checks {
		if !c() {
			t.Fatalf("%v with %q: what the caller has in %s was written to", rt, env, rt.Field(i).Name)
		}
	}
	if !reflect.DeepEqual(given, cfg) {
		t.Fatalf("%v with %q: the given struct was changed to %+v", rt, env, cfg)
	}
	label := "ok"
	switch {
	case wantErr == errLoose:
		label = "not specified"
	case wantErr != nil:
		label = "error"
		if err == nil {
			t.Fatalf("%v with %q: no error for %q, but %+v", rt, env, wantKey, got)
		}
		if !strings.Contains(err.Error(), wantKey) {
			t.Fatalf("%v with %q: the error does not name %q: %v", rt, env, wantKey, err)
		}
	default:
		if err != nil {
			t.Fatalf("%v with %q: %v", rt, env, err)
		}
		g, w := reflect.ValueOf(got), reflect.ValueOf(want)
		for i := 0; i < g.NumField(); i++ {
			if eq(g.Field(i), w.Field(i)) {
				continue
			}
			// elements might come after those which were there
			if p := reflect.ValueOf(cfg).Field(i); p.Kind() == reflect.Slice && p.Len() > 0 {
				if eq(g.Field(i), reflect.AppendSlice(p.Slice3(0, p.Len(), p.Len()), w.Field(i))) {
					continue
				}
			}
			t.Fatalf("%v with %q: %s is %#v, want %#v", rt, env, rt.Field(i).Name, g.Field(i), w.Field(i))
		}
	}
	vh.Case(err != nil || !reflect.DeepEqual(got, cfg), fmt.Sprintf("%v %q", rt, env), label)
}

func eq(a, b reflect.Value) bool {
	if !a.CanInterface() { // unexported: only simple ones here
		return fmt.Sprint(a) == fmt.Sprint(b)
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func both[T any]() []func(*rapid.T) {
	return []func(*rapid.T){run[R[T]], run[D[T]], run[P[T, int]], run[P[string, T]], run[Q[T, string, T]], run[Q[string, nBool, T]]}
}

func all(l ...[]func(*rapid.T)) (out []func(*rapid.T)) {
	for _, x := range l {
		out = append(out, x...)
	}
	return
}

var runs = all(
	both[string](), both[bool](), both[int](), both[nStr](), both[nInt](), both[nBool](),
	both[[]string](), both[[]int](), both[[]nBool](), both[nList](), both[[][]string](),
	both[map[string]string](), both[map[string]int](), both[nMap](), both[map[int]bool](), both[map[nInt]nStr](),
	both[map[string][]int](), both[[]map[string]int](), both[map[bool]custom](), both[map[netip.Addr]upper](),
	both[custom](), both[upper](), both[jsoned](), both[netip.Addr](), both[time.Time](), both[[]custom](), both[[]netip.Addr](), both[[]upper](),
	// not supported: errors
	both[int64](), both[uint](), both[float64](), both[*int](), both[*netip.Addr](), both[struct{}](), both[func()](), both[chan int](), both[any](), both[error](), both[[2]int](), both[[]float64](), both[map[float64]int](), both[map[string]any](), both[complex128](), both[[]byte](),
)

var special = []func(*rapid.T){run[wide], run[hidden], run[oddTag], run[commaDefault], run[noKey], run[struct{}], run[struct{ X, y int }]}

func TestFrom(t *testing.T) {
	vh.Check(t, 20000, 1500000, func(t *rapid.T) {
		refusal = rapid.SampledFrom(vh.Errs).Draw(t, "refused with")
		if rapid.IntRange(0, 9).Draw(t, "which") >= 7 {
			if rapid.Bool().Draw(t, "wide") {
				special[0](t)
			} else {
				special[rapid.IntRange(0, len(special)-1).Draw(t, "special")](t)
			}
			return
		}
		runs[rapid.IntRange(0, len(runs)-1).Draw(t, "type")](t)
	})
}

// what is not a struct is an error
func notStruct[T any](t *testing.T, v T) {
	base, cf := ctx.Background()
	defer cf(nil)
	var err error
	if msg := vh.Try(func() { _, err = config.From(base, v, func(string) string { return "1" }) }); msg != "" {
		vh.Violation("From(%T): %s", v, msg)
	}
	if err == nil {
		vh.Violation("From(%T): no error", v)
	}
	vh.Case(true, fmt.Sprintf("From(%T)", v), "not a struct")
}

func TestNotStruct(t *testing.T) {
	notStruct(t, 1)
	notStruct(t, "x")
	notStruct(t, &wide{})
	notStruct(t, (*wide)(nil))
	notStruct(t, []wide{{}})
	notStruct[any](t, nil)
	notStruct[any](t, wide{})
	notStruct[error](t, nil)
	notStruct(t, func() {})
	notStruct(t, map[string]string{})
}
