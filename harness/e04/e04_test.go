package e04

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E04", "number spellings drawn from the JSON grammar and around every integer/float limit, offered to every integer and float kind as decoded digits, typed integers and typed floats, and as map keys; non-trivial: a spelling outside 0..127, or with a fraction or exponent")
}

func c() ctx.C { return ctx.TODO() }

var targets = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(gen.MyInt(0)), reflect.TypeOf(gen.MyInt8(0)), reflect.TypeOf(gen.MyUint16(0)), reflect.TypeOf(gen.MyU64(0)), reflect.TypeOf(gen.MyF32(0)), reflect.TypeOf(gen.MyF64(0)),
	reflect.TypeOf(enc.Integer(0)), reflect.TypeOf(enc.Float(0)),
}

// truncation toward zero of an exact rational
func trunc(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

func limits(rt reflect.Type) (lo, hi *big.Int) {
	bits := uint(rt.Bits())
	one := big.NewInt(1)
	switch rt.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		p := new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(p), new(big.Int).Sub(p, one)
	default:
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
}

// expect gives the wanted value as text ("" = must be an error); lenient tells that an error is also fine
func expect(r *big.Rat, spelling string, rt reflect.Type) (want string, lenient bool) {
	switch rt.Kind() {
	case reflect.Float32, reflect.Float64:
		f, err := strconv.ParseFloat(spelling, rt.Bits())
		if err != nil {
			return "", false
		}
		return fmt.Sprint(f), false
	}
	i := trunc(r)
	lo, hi := limits(rt)
	if i.Cmp(lo) < 0 || i.Cmp(hi) > 0 {
		return "", false
	}
	return i.String(), i.Sign() == 0 && strings.HasPrefix(spelling, "-") && lo.Sign() == 0
}

func valueText(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	}
	return fmt.Sprint(v.Int())
}

func rat(spelling string) *big.Rat {
	r, ok := new(big.Rat).SetString(spelling)
	if !ok {
		panic("harness: bad number " + spelling)
	}
	return r
}

func check(t *rapid.T, how string, n enc.Node, spelling string, rt reflect.Type) {
	// at top level and inside a struct, a slice and behind a pointer
	holder := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: rt}, {Name: "L", Type: reflect.SliceOf(rt)}, {Name: "P", Type: reflect.PointerTo(rt)}}))
	place := rapid.SampledFrom([]string{"top", "field", "list", "pointer", "json"}).Draw(t, "place")
	r := rat(spelling)
	if f, ok := n.(enc.Float); ok && place != "json" {
		r.SetFloat64(float64(f)) // a typed float has an exact value; its JSON text is the shortest spelling
	}
	want, lenient := expect(r, spelling, rt)
	var got reflect.Value
	var err error
	switch place {
	case "top":
		x := reflect.New(rt)
		err = enc.Unmarshal(c(), n, x.Interface())
		got = x.Elem()
	case "json":
		x := reflect.New(rt)
		var js []byte
		js = enc.JSON{}.Encode(c(), n)
		err = enc.UnmarshalJSON(c(), js, x.Interface())
		got = x.Elem()
	case "field":
		err = enc.Unmarshal(c(), enc.Map{"V": n}, holder.Interface())
		got = holder.Elem().Field(0)
	case "list":
		err = enc.Unmarshal(c(), enc.Pairs{{JSON: "L", Value: enc.List{n}}}, holder.Interface())
		if err == nil {
			got = holder.Elem().Field(1).Index(0)
		}
	case "pointer":
		err = enc.Unmarshal(c(), enc.Map{"P": n}, holder.Interface())
		if err == nil {
			got = holder.Elem().Field(2).Elem()
		}
	}
	if err != nil {
		if want != "" && !lenient {
			t.Fatalf("%s %s into %v (%s): refused: %v; want %s", how, spelling, rt, place, err, want)
		}
		return
	}
	g := valueText(got)
	if want == "" {
		t.Fatalf("%s %s into %v (%s): silently became %s", how, spelling, rt, place, g)
	}
	if g != want && !(isZero(g) && isZero(want)) {
		t.Fatalf("%s %s into %v (%s): became %s, want %s", how, spelling, rt, place, g, want)
	}
}

func isZero(s string) bool { return s == "0" || s == "-0" }

func nontrivial(s string) bool {
	if strings.ContainsAny(s, ".eE-") {
		return true
	}
	n, err := strconv.Atoi(s)
	return err != nil || n > 127
}

func TestDigits(t *testing.T) {
	vh.Check(t, 60000, 2000000, func(t *rapid.T) {
		s := gen.NumText().Draw(t, "number")
		rt := rapid.SampledFrom(targets).Draw(t, "target")
		vh.Case(nontrivial(s), "digits "+s+" -> "+rt.String(), "digits-"+rt.Kind().String())
		check(t, "digits", enc.Digits(s), s, rt)
	})
}

func TestTyped(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		rt := rapid.SampledFrom(targets).Draw(t, "target")
		if rapid.Bool().Draw(t, "int") {
			i := rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{-129, -128, 127, 128, 255, 256, 65535, 65536, -1, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64})).Draw(t, "i")
			s := fmt.Sprint(i)
			vh.Case(nontrivial(s), "integer "+s+" -> "+rt.String(), "integer-"+rt.Kind().String())
			check(t, "integer", enc.Integer(i), s, rt)
			return
		}
		f := rapid.OneOf(gen.FiniteFloat(), rapid.Float64Range(-1e6, 1e6), rapid.SampledFrom([]float64{127.9, 128, -128.5, -129, 255.99, 256, -0.5, 1 << 63, -(1 << 63), 1 << 64, math.Nextafter(1<<63, 0), math.Nextafter(1<<64, 0), 1e39, 3.5e38, -1})).Draw(t, "f")
		s := strconv.FormatFloat(f, 'g', -1, 64)
		vh.Case(nontrivial(s), "float "+s+" -> "+rt.String(), "float-"+rt.Kind().String())
		check(t, "float", enc.Float(f), s, rt)
	})
}

// numbers that are not numbers never become integers
func TestNotFinite(t *testing.T) {
	for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		for _, rt := range targets {
			if rt.Kind() == reflect.Float64 || rt.Kind() == reflect.Float32 {
				continue
			}
			x := reflect.New(rt)
			if err := enc.Unmarshal(c(), enc.Float(f), x.Interface()); err == nil {
				t.Fatalf("%v into %v became %s", f, rt, valueText(x.Elem()))
			}
		}
	}
}

// the accessors follow the same rule
func TestAccessors(t *testing.T) {
	i64, u64 := reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0))
	vh.Check(t, 30000, 1000000, func(t *rapid.T) {
		var n enc.Numeric
		var s string
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			s = gen.NumText().Draw(t, "digits")
			n = enc.Digits(s)
		case 1:
			i := rapid.Int64().Draw(t, "i")
			s, n = fmt.Sprint(i), enc.Integer(i)
		default:
			f := gen.FiniteFloat().Draw(t, "f")
			s, n = strconv.FormatFloat(f, 'g', -1, 64), enc.Float(f)
		}
		vh.Case(nontrivial(s), fmt.Sprintf("accessors %T %s", n, s), "accessors")
		r := rat(s)
		if f, ok := n.(enc.Float); ok {
			r.SetFloat64(float64(f))
		}
		i, err := n.Int64()
		want, lenient := expect(r, s, i64)
		if (err != nil) != (want == "") && !lenient || (err == nil && fmt.Sprint(i) != want) {
			t.Fatalf("%T(%s).Int64() = %d, %v; want %q", n, s, i, err, want)
		}
		u, err := n.Uint64()
		want, lenient = expect(r, s, u64)
		if (err != nil) != (want == "") && !lenient || (err == nil && fmt.Sprint(u) != want) {
			t.Fatalf("%T(%s).Uint64() = %d, %v; want %q", n, s, u, err, want)
		}
		f, err := n.Float64()
		wf, werr := strconv.ParseFloat(s, 64)
		if (err != nil) != (werr != nil) || (err == nil && f != wf) {
			t.Fatalf("%T(%s).Float64() = %v, %v; want %v, %v", n, s, f, err, wf, werr)
		}
		if n.String() != s && !isZero(s) {
			t.Fatalf("%T(%s).String() = %q", n, s, n.String())
		}
	})
}

// numeric map keys
func TestKeys(t *testing.T) {
	keys := []reflect.Type{}
	for _, k := range targets {
		if k.Kind() != reflect.Float32 && k.Kind() != reflect.Float64 {
			keys = append(keys, k)
		}
	}
	vh.Check(t, 20000, 500000, func(t *rapid.T) {
		rt := rapid.SampledFrom(keys).Draw(t, "key type")
		s := gen.NumText().Filter(func(s string) bool { return !strings.ContainsAny(s, ".eE") && s != "-0" }).Draw(t, "key")
		vh.Case(nontrivial(s), "key "+s+" -> "+rt.String(), "key-"+rt.Kind().String())
		want, lenient := expect(rat(s), s, rt)
		m := reflect.New(reflect.MapOf(rt, reflect.TypeOf(true)))
		err := enc.Unmarshal(c(), enc.Map{s: enc.Bool(true)}, m.Interface())
		if err != nil {
			if want != "" && !lenient {
				t.Fatalf("key %s into %v: refused: %v", s, rt, err)
			}
			return
		}
		got := ""
		for _, k := range m.Elem().MapKeys() {
			got = valueText(k)
		}
		if got != want {
			t.Fatalf("key %s into %v: became %s, want %q", s, rt, got, want)
		}
	})
}

// a key which is not a decimal integer is no number, whatever the prefix
func TestOddKeys(t *testing.T) {
	keys := []reflect.Type{}
	for _, k := range targets {
		if k.Kind() != reflect.Float32 && k.Kind() != reflect.Float64 {
			keys = append(keys, k)
		}
	}
	decimal := regexp.MustCompile(`^[+-]?0*([0-9]+)$`)
	vh.Check(t, 10000, 300000, func(t *rapid.T) {
		rt := rapid.SampledFrom(keys).Draw(t, "key type")
		s := rapid.StringMatching(`[+-]?(0|00|0x|0X|0b|0o|)[0-9a-f_]{0,4}[1-9 _.]?`).Draw(t, "key")
		vh.Case(s != "", fmt.Sprintf("odd key %q -> %v", s, rt), "odd-key")
		m := reflect.New(reflect.MapOf(rt, reflect.TypeOf(true)))
		if err := enc.Unmarshal(c(), enc.Map{s: enc.Bool(true)}, m.Interface()); err != nil {
			return
		}
		got := ""
		for _, k := range m.Elem().MapKeys() {
			got = valueText(k)
		}
		x := decimal.FindStringSubmatch(s)
		if x == nil {
			t.Fatalf("key %q into %v: became %s", s, rt, got)
		}
		want := x[1]
		if s[0] == '-' && want != "0" {
			want = "-" + want
		}
		if got != want {
			t.Fatalf("key %q into %v: became %s", s, rt, got)
		}
	})
}

// into a generic destination a number is a float64 with the nearest value, or its own text
func TestGeneric(t *testing.T) {
	vh.Check(t, 20000, 500000, func(t *rapid.T) {
		s := gen.NumText().Draw(t, "digits")
		vh.Case(nontrivial(s), "generic "+s, "generic")
		var x any
		if err := enc.Unmarshal(c(), enc.Digits(s), &x); err != nil {
			t.Fatalf("%s: %v", s, err)
		}
		f, err := strconv.ParseFloat(s, 64)
		switch x := x.(type) {
		case float64:
			if err != nil || x != f {
				t.Fatalf("%s became %v", s, x)
			}
		case string:
			if err == nil || x != s {
				t.Fatalf("%s became %q", s, x)
			}
		default:
			t.Fatalf("%s became %T", s, x)
		}
		var str string
		if err := enc.Unmarshal(c(), enc.Digits(s), &str); err != nil || str != s {
			t.Fatalf("%s into a string: %q, %v", s, str, err)
		}
	})
}

// Go numbers into the data tree
func TestMarshal(t *testing.T) {
	vh.Check(t, 30000, 1000000, func(t *rapid.T) {
		rt := rapid.SampledFrom(targets).Draw(t, "type")
		v := gen.Value(t, rt, 0, false)
		s := valueText(v)
		vh.Case(nontrivial(s), "marshal "+rt.String()+" "+s, "marshal-"+rt.Kind().String())
		n, err := enc.Marshal(c(), v.Interface())
		if err != nil {
			t.Fatalf("marshal %v %s: %v", rt, s, err)
		}
		num, ok := n.(enc.Numeric)
		if !ok {
			t.Fatalf("marshal %v %s: %T", rt, s, n)
		}
		want := exact(v)
		got, ok := new(big.Rat).SetString(num.String())
		if !ok || !sameNumber(v, got, want) {
			t.Fatalf("marshal %v %s: %v", rt, s, num)
		}
		js := enc.JSON{}.Encode(c(), n)
		got, ok = new(big.Rat).SetString(string(js))
		if !ok || !sameNumber(v, got, want) {
			t.Fatalf("marshal %v %s: encoded as %s", rt, s, js)
		}
		// as a map key
		if v.Kind() != reflect.Float32 && v.Kind() != reflect.Float64 {
			m := reflect.MakeMap(reflect.MapOf(rt, reflect.TypeOf(0)))
			m.SetMapIndex(v, reflect.ValueOf(1))
			n, err := enc.Marshal(c(), m.Interface())
			if err != nil {
				t.Fatalf("marshal of key %v %s: %v", rt, s, err)
			}
			if _, ok := enc.MustMap(n)[s]; !ok {
				t.Fatalf("key %v %s marshalled as %v", rt, s, n)
			}
		}
	})
}

func exact(v reflect.Value) *big.Rat {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return new(big.Rat).SetFloat64(v.Float())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Rat).SetInt(new(big.Int).SetUint64(v.Uint()))
	}
	return new(big.Rat).SetInt64(v.Int())
}

// floats: the text must read back as the same float
func sameNumber(v reflect.Value, got, want *big.Rat) bool {
	if v.Kind() == reflect.Float32 {
		a, _ := got.Float32()
		b, _ := want.Float32()
		return a == b
	}
	if v.Kind() == reflect.Float64 {
		a, _ := got.Float64()
		b, _ := want.Float64()
		return a == b
	}
	return got.Cmp(want) == 0
}

// numbers of units of time
func TestUnits(t *testing.T) {
	vh.Check(t, 20000, 1000000, func(t *rapid.T) {
		s := gen.NumText().Draw(t, "number")
		unit := rapid.SampledFrom([]time.Duration{time.Nanosecond, time.Second, time.Millisecond, time.Minute, time.Hour, 24 * time.Hour, 7, -time.Second}).Draw(t, "unit")
		r := rat(s)
		r.Mul(r, new(big.Rat).SetInt64(int64(unit)))
		limit := new(big.Rat).SetInt64(math.MaxInt64)
		if abs := new(big.Rat).Abs(r); abs.Cmp(limit) >= 0 {
			return // does not fit
		}
		plain := !strings.ContainsAny(s, ".eE")
		judge := func(how string, n enc.Numeric, exactly bool) {
			got := new(big.Rat).SetInt64(int64(n.Duration(unit)))
			diff := new(big.Rat).Sub(got, r)
			diff.Abs(diff)
			tol := new(big.Rat)
			if !exactly { // two roundings, and a truncation
				tol.Abs(r)
				tol.Quo(tol, new(big.Rat).SetInt64(1<<51))
				tol.Add(tol, big.NewRat(1, 1))
				if tol.Cmp(big.NewRat(1, 1)) > 0 && new(big.Rat).Add(tol, new(big.Rat).Abs(r)).Cmp(limit) >= 0 {
					return
				}
			}
			if diff.Cmp(tol) > 0 {
				t.Fatalf("%s %q in units of %v: %v", how, s, unit, time.Duration(n.Duration(unit)))
			}
		}
		labels := []string{"units of time"}
		if plain {
			i, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return
			}
			judge("Digits", enc.Digits(s), true)
			judge("Integer", enc.Integer(i), true)
		} else {
			labels = append(labels, "fractions of units of time")
			judge("Digits", enc.Digits(s), false)
		}
		f, _ := strconv.ParseFloat(s, 64)
		judge("Float", enc.Float(f), false)
		vh.Case(nontrivial(s), fmt.Sprintf("%s of %v", s, unit), labels...)
	})
}
