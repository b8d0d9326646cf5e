package gen

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
)

// ---- a zoo of declared types

type (
	MyInt    int
	MyInt8   int8
	MyUint16 uint16
	MyU64    uint64
	MyStr    string
	MyBool   bool
	MyF32    float32
	MyF64    float64
	MyTime   time.Time
	MySlice  []MyInt
	MyMap    map[MyStr]int
	MyArr    [2]MyStr
)

// Point converts itself to text through the library's interface.
type Point struct{ x, y int32 }

func NewPoint(x, y int32) Point { return Point{x, y} }

func (p Point) MarshalNode(c ctx.C) (enc.Node, error) {
	return enc.String(fmt.Sprintf("%d|%d", p.x, p.y)), nil
}
func (p *Point) UnmarshalNode(c ctx.C, n enc.Node) error {
	s, ok := n.(enc.String)
	if !ok {
		return errors.New("point: not a string")
	}
	a, b, ok := strings.Cut(string(s), "|")
	if !ok {
		return errors.New("point: bad text")
	}
	x, e1 := strconv.ParseInt(a, 10, 32)
	y, e2 := strconv.ParseInt(b, 10, 32)
	if e1 != nil || e2 != nil {
		return errors.New("point: bad numbers")
	}
	p.x, p.y = int32(x), int32(y)
	return nil
}

// Temp converts itself through the standard interface.
type Temp struct{ milli int64 }

func NewTemp(i int64) Temp { return Temp{i} }

func (p Temp) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"milli":%d,"unit":"K"}`, p.milli)), nil
}
func (p *Temp) UnmarshalJSON(j []byte) error {
	if string(j) == "null" {
		return nil
	}
	var x struct {
		Milli json.Number `json:"milli"`
		Unit  string      `json:"unit"`
	}
	if err := json.Unmarshal(j, &x); err != nil {
		return err
	}
	if x.Unit != "K" {
		return errors.New("temp: bad unit")
	}
	i, err := x.Milli.Int64()
	p.milli = i
	return err
}

// Tagged and Odd are scalars which convert themselves, also as map keys.
type Tagged string

func (x Tagged) MarshalNode(c ctx.C) (enc.Node, error) { return enc.String("t:" + string(x)), nil }
func (x *Tagged) UnmarshalNode(c ctx.C, n enc.Node) error {
	s, ok := n.(enc.String)
	if !ok || !strings.HasPrefix(string(s), "t:") {
		return errors.New("tagged: bad text")
	}
	*x = Tagged(s[2:])
	return nil
}

type Odd int64

func (x Odd) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"odd%d"`, int64(x))), nil }
func (x *Odd) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	r, ok := strings.CutPrefix(s, "odd")
	i, err := strconv.ParseInt(r, 10, 64)
	if !ok || err != nil {
		return errors.New("odd: bad text")
	}
	*x = Odd(i)
	return nil
}

// Inner and Tree are ordinary declared structs.
type Inner struct {
	A int               `json:"a"`
	B *string           `json:"b,omitempty"`
	C []Inner           `json:"c"`
	D map[string]MyInt8 `json:"d"`
	e int
	F float64 `json:"-"`
}

type Tree struct {
	Name string           `json:"name"`
	Kids []*Tree          `json:"kids"`
	By   map[string]*Tree `json:"by,omitempty"`
}

// Emb embeds another struct: a field like any other for the library.
type Emb struct {
	Inner
	Z bool
}

func (i *Inner) Hidden() *int { return &i.e }

var RT = reflect.TypeOf

func tof[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// TypeOpts selects the domain.
type TypeOpts struct {
	Std   bool // only what encoding/json treats alike
	Wide  bool // also destinations that can not be marshalled back faithfully
	Times bool // avoid time types
}

var scalars = []reflect.Type{
	tof[bool](), tof[int](), tof[int8](), tof[int16](), tof[int32](), tof[int64](),
	tof[uint](), tof[uint8](), tof[uint16](), tof[uint32](), tof[uint64](),
	tof[float32](), tof[float64](), tof[string](), tof[string](), tof[int](),
	tof[MyInt](), tof[MyInt8](), tof[MyUint16](), tof[MyU64](), tof[MyStr](), tof[MyBool](), tof[MyF32](), tof[MyF64](),
	tof[time.Duration](), tof[any](), tof[time.Time](),
}
var libScalars = []reflect.Type{
	tof[enc.Node](), tof[enc.Map](), tof[enc.List](), tof[enc.String](), tof[enc.Digits](), tof[enc.Integer](), tof[enc.Float](), tof[enc.Bool](),
	tof[enc.Time](), tof[enc.Duration](), tof[Point](), tof[Temp](), tof[*big.Int](), tof[json.RawMessage](),
	tof[Inner](), tof[Tree](), tof[Emb](), tof[MySlice](), tof[MyMap](), tof[MyArr](), tof[[]byte](), tof[Tagged](), tof[Odd](),
}
var stdLib = []reflect.Type{tof[Temp](), tof[*big.Int](), tof[Inner](), tof[Tree](), tof[MySlice](), tof[MyMap]()}
var wide = []reflect.Type{tof[error](), tof[fmt.Stringer](), tof[enc.Numeric](), tof[enc.Nil](), tof[chan int](), tof[func()](), tof[complex128](), tof[uintptr](),
	tof[map[bool]int](), tof[map[float64]int](), tof[map[any]int](), tof[map[Point]int](), tof[MyTime](), tof[enc.Pairs](), tof[**int](), tof[struct{}]()}
var keyTypes = []reflect.Type{tof[string](), tof[string](), tof[MyStr](), tof[int](), tof[int8](), tof[int64](), tof[uint16](), tof[uint64](), tof[MyInt]()}

var ownKeys = append([]reflect.Type{tof[Tagged](), tof[Odd]()}, keyTypes...)

var fieldNames = []string{"A", "B", "C", "D", "Name", "ID", "Élan", "X_y", "F1", "ZZ"}
var hiddenNames = []string{"a", "h", "_", "priv"}
var jsonNames = []string{"", "", "a", "b", "name", "x-y", "id", "ñ", "A9", "data"}

// Type draws a type of bounded depth.
func Type(depth int, o TypeOpts) *rapid.Generator[reflect.Type] {
	return rapid.Custom(func(t *rapid.T) reflect.Type { return drawType(t, depth, o, true) })
}

// Struct draws a struct type.
func Struct(depth int, o TypeOpts) *rapid.Generator[reflect.Type] {
	return rapid.Custom(func(t *rapid.T) reflect.Type { return drawStruct(t, depth, o) })
}

func drawType(t *rapid.T, depth int, o TypeOpts, ptr bool) reflect.Type {
	max := 9
	if depth <= 0 {
		max = 4
	}
	k := rapid.IntRange(0, max).Draw(t, "kind")
	switch {
	case k <= 2:
		return rapid.SampledFrom(scalars).Draw(t, "scalar")
	case k <= 4:
		if o.Std {
			return rapid.SampledFrom(stdLib).Draw(t, "lib")
		}
		if o.Wide && rapid.Bool().Draw(t, "wide") {
			return rapid.SampledFrom(wide).Draw(t, "odd")
		}
		return rapid.SampledFrom(libScalars).Draw(t, "lib")
	case k == 5:
		if !ptr {
			return rapid.SampledFrom(scalars).Draw(t, "scalar")
		}
		e := drawType(t, depth-1, o, false)
		if e.Kind() == reflect.Pointer || e.Kind() == reflect.Interface {
			return e
		}
		return reflect.PointerTo(e)
	case k == 6:
		e := drawType(t, depth-1, o, true)
		if o.Std && e.Kind() == reflect.Uint8 {
			return reflect.ArrayOf(2, e)
		}
		return reflect.SliceOf(e)
	case k == 7:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "n"), drawType(t, depth-1, o, true))
	case k == 8:
		keys := ownKeys
		if o.Std {
			keys = keyTypes
		}
		return reflect.MapOf(rapid.SampledFrom(keys).Draw(t, "key"), drawType(t, depth-1, o, true))
	default:
		return drawStruct(t, depth, o)
	}
}

func drawStruct(t *rapid.T, depth int, o TypeOpts) reflect.Type {
	n := rapid.IntRange(0, 5).Draw(t, "fields")
	var fs []reflect.StructField
	names := map[string]bool{}
	jsons := map[string]bool{}
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, "hidden") == 0 {
			name := rapid.SampledFrom(hiddenNames).Draw(t, "hname")
			if names[name] {
				continue
			}
			names[name] = true
			fs = append(fs, reflect.StructField{Name: name, PkgPath: "verif/gen", Type: rapid.SampledFrom([]reflect.Type{tof[int](), tof[string](), tof[*int](), tof[[]int]()}).Draw(t, "htype"),
				Tag: reflect.StructTag(rapid.SampledFrom([]string{"", `json:"hid"`}).Draw(t, "htag"))})
			continue
		}
		name := rapid.SampledFrom(fieldNames).Draw(t, "name")
		if names[name] {
			continue
		}
		jn := rapid.SampledFrom(jsonNames).Draw(t, "json")
		opt := rapid.SampledFrom([]string{"", "", "", ",omitempty"}).Draw(t, "opt")
		tag := ""
		switch rapid.IntRange(0, 9).Draw(t, "tag") {
		case 0:
			tag = `json:"-"`
		case 1:
			tag, jn = `json:"-,"`, "-"
		case 2:
			tag, jn = "", ""
		default:
			tag = `json:"` + jn + opt + `"`
		}
		eff := jn
		if eff == "" {
			eff = name
		}
		if tag != `json:"-"` {
			if jsons[strings.ToLower(eff)] {
				continue
			}
			jsons[strings.ToLower(eff)] = true
		}
		names[name] = true
		fs = append(fs, reflect.StructField{Name: name, Type: drawType(t, depth-1, o, true), Tag: reflect.StructTag(tag)})
	}
	return reflect.StructOf(fs)
}

// Field describes how one struct field is encoded.
type Field struct {
	Index     int
	JSON      string
	Skip      bool // never encoded nor decoded
	OmitEmpty bool
}

// Fields lists the encoding of all fields, in order.
func Fields(rt reflect.Type) []Field {
	var out []Field
	for i := 0; i < rt.NumField(); i++ {
		ft := rt.Field(i)
		f := Field{Index: i, JSON: ft.Name}
		tag := ft.Tag.Get("json")
		if tag == "-" || ft.PkgPath != "" {
			f.Skip = true
		}
		name, opt, _ := strings.Cut(tag, ",")
		if name != "" {
			f.JSON = name
		}
		f.OmitEmpty = opt == "omitempty"
		out = append(out, f)
	}
	return out
}

// Value draws a value of the type; nonNil avoids nil at the top (used behind pointers).
func Value(t *rapid.T, rt reflect.Type, depth int, nonNil bool) reflect.Value {
	v := reflect.New(rt).Elem()
	fill(t, v, depth, nonNil)
	return v
}

func fill(t *rapid.T, v reflect.Value, depth int, nonNil bool) {
	rt := v.Type()
	size := func() int {
		if depth <= 0 {
			return 0
		}
		return rapid.IntRange(0, 3).Draw(t, "size")
	}
	isNil := func() bool { return !nonNil && rapid.IntRange(0, 4).Draw(t, "nil") == 0 }
	switch rt {
	case tof[time.Time](), tof[enc.Time](), tof[MyTime]():
		v.Set(reflect.ValueOf(Time().Draw(t, "time")).Convert(rt))
		return
	case tof[enc.Duration](), tof[time.Duration]():
		v.SetInt(int64(DurationGen().Draw(t, "dur")))
		return
	case tof[Point]():
		v.Set(reflect.ValueOf(NewPoint(rapid.Int32().Draw(t, "x"), rapid.Int32().Draw(t, "y"))))
		return
	case tof[Temp]():
		v.Set(reflect.ValueOf(NewTemp(rapid.Int64().Draw(t, "milli"))))
		return
	case tof[*big.Int]():
		if isNil() {
			return
		}
		b, _ := new(big.Int).SetString(rapid.StringMatching(`-?[1-9][0-9]{0,40}`).Draw(t, "big"), 10)
		v.Set(reflect.ValueOf(b))
		return
	case tof[json.RawMessage]():
		j := JSON(2).Draw(t, "raw")
		if nonNil && j.K == 'n' {
			j = Bool(true)
		}
		v.SetBytes([]byte(j.String()))
		return
	case tof[enc.Node]():
		v.Set(reflect.ValueOf(Node(depth).Draw(t, "node").Node))
		return
	case tof[enc.Digits]():
		v.SetString(NumText().Draw(t, "digits"))
		return
	case tof[enc.Map]():
		m := enc.Map{}
		for i, n := 0, size(); i < n; i++ {
			m[Key().Draw(t, "k")] = Node(depth-1).Draw(t, "v").Node
		}
		v.Set(reflect.ValueOf(m))
		return
	case tof[enc.List]():
		m := enc.List{}
		for i, n := 0, size(); i < n; i++ {
			m = append(m, Node(depth-1).Draw(t, "v").Node)
		}
		v.Set(reflect.ValueOf(m))
		return
	case tof[any]():
		if x := anyValue(t, depth); x != nil {
			v.Set(reflect.ValueOf(x))
		} else if nonNil {
			v.Set(reflect.ValueOf(true))
		}
		return
	}
	switch rt.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := rt.Bits()
		v.SetInt(rapid.OneOf(rapid.Int64Range(math.MinInt64>>(64-bits), math.MaxInt64>>(64-bits)), rapid.SampledFrom([]int64{0, 1, -1, math.MinInt64 >> (64 - bits), math.MaxInt64 >> (64 - bits)})).Draw(t, "int"))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		max := uint64(math.MaxUint64) >> (64 - rt.Bits())
		v.SetUint(rapid.OneOf(rapid.Uint64Range(0, max), rapid.SampledFrom([]uint64{0, 1, max, max/2 + 1, max / 2})).Draw(t, "uint"))
	case reflect.Float32:
		f := float64(rapid.Float32().Draw(t, "f32"))
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0.25
		}
		v.SetFloat(f)
	case reflect.Float64:
		v.SetFloat(FiniteFloat().Draw(t, "f64"))
	case reflect.String:
		v.SetString(Text().Draw(t, "str"))
	case reflect.Pointer:
		if isNil() || depth < -3 {
			return
		}
		v.Set(reflect.New(rt.Elem()))
		fill(t, v.Elem(), depth-1, true)
	case reflect.Slice:
		if isNil() {
			return
		}
		n := size()
		v.Set(reflect.MakeSlice(rt, n, n))
		for i := 0; i < n; i++ {
			fill(t, v.Index(i), depth-1, false)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(t, v.Index(i), depth-1, false)
		}
	case reflect.Map:
		if isNil() {
			return
		}
		v.Set(reflect.MakeMap(rt))
		if rt.Key().Kind() == reflect.Interface {
			return
		}
		for i, n := 0, size(); i < n; i++ {
			k := reflect.New(rt.Key()).Elem()
			fill(t, k, 0, true)
			e := reflect.New(rt.Elem()).Elem()
			fill(t, e, depth-1, false)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for _, f := range Fields(rt) {
			if rt.Field(f.Index).PkgPath != "" {
				continue
			}
			fill(t, v.Field(f.Index), depth-1, false)
		}
	}
}

func anyValue(t *rapid.T, depth int) any {
	max := 5
	if depth <= 0 {
		max = 3
	}
	switch rapid.IntRange(0, max).Draw(t, "any") {
	case 0:
		return nil
	case 1:
		return Text().Draw(t, "s")
	case 2:
		return FiniteFloat().Draw(t, "f")
	case 3:
		return rapid.Bool().Draw(t, "b")
	case 4:
		out := []any{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			out = append(out, anyValue(t, depth-1))
		}
		return out
	default:
		out := map[string]any{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
			out[Key().Draw(t, "k")] = anyValue(t, depth-1)
		}
		return out
	}
}

// Same compares an original with what came back; it returns the first difference.
func Same(a, b reflect.Value) string { return same("v", a, b) }

func same(p string, a, b reflect.Value) string {
	rt := a.Type()
	if b.Type() != rt {
		return fmt.Sprintf("%s: type %v vs %v", p, rt, b.Type())
	}
	differ := func() string { return fmt.Sprintf("%s: %s vs %s", p, Show(a), Show(b)) }
	switch rt {
	case tof[time.Time](), tof[enc.Time](), tof[MyTime]():
		x, y := a.Convert(tof[time.Time]()).Interface().(time.Time), b.Convert(tof[time.Time]()).Interface().(time.Time)
		_, xo := x.Zone()
		_, yo := y.Zone()
		if !x.Equal(y) || xo != yo {
			return fmt.Sprintf("%s: time %v vs %v", p, x, y)
		}
		return ""
	case tof[*big.Int]():
		x, y := a.Interface().(*big.Int), b.Interface().(*big.Int)
		if (x == nil) != (y == nil) || (x != nil && x.Cmp(y) != 0) {
			return differ()
		}
		return ""
	case tof[json.RawMessage]():
		x, e1 := ParseJ(orNull(a.Bytes()))
		y, e2 := ParseJ(orNull(b.Bytes()))
		if e1 != nil || e2 != nil {
			return differ()
		}
		if d := (Cmp{}).Diff(x, y); d != "" {
			return p + ": raw " + d
		}
		return ""
	case tof[enc.Node](), tof[enc.Map](), tof[enc.List]():
		var x, y enc.Node
		if n, ok := a.Interface().(enc.Node); ok {
			x = n
		}
		if n, ok := b.Interface().(enc.Node); ok {
			y = n
		}
		mx, e1 := ModelOf(x)
		my, e2 := ModelOf(y)
		if e1 != nil || e2 != nil {
			return differ()
		}
		if d := (Cmp{Num64: true}).Diff(mx, my); d != "" {
			return p + ": node " + d
		}
		return ""
	}
	if rt == tof[enc.Digits]() && a.Len() == 0 && b.String() == "0" {
		return "" // the zero value
	}
	switch rt.Kind() {
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() {
			return differ()
		}
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return differ()
			}
			return ""
		}
		return same("*"+p, a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return differ()
			}
			return ""
		}
		return same(p, a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return differ()
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(fmt.Sprintf("%s[%d]", p, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := same(fmt.Sprintf("%s[%d]", p, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return differ()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %v missing", p, k)
			}
			if d := same(fmt.Sprintf("%s[%v]", p, k), a.MapIndex(k), y); d != "" {
				return d
			}
		}
	case reflect.Struct:
		if rt == tof[Point]() || rt == tof[Temp]() {
			if !a.Equal(b) {
				return differ()
			}
			return ""
		}
		for _, f := range Fields(rt) {
			ft := rt.Field(f.Index)
			if ft.PkgPath != "" {
				if !b.Field(f.Index).IsZero() {
					return fmt.Sprintf("%s.%s: unexported field written", p, ft.Name)
				}
				continue
			}
			if f.Skip {
				if !b.Field(f.Index).IsZero() {
					return fmt.Sprintf("%s.%s: excluded field written", p, ft.Name)
				}
				continue
			}
			x, y := a.Field(f.Index), b.Field(f.Index)
			if f.OmitEmpty && emptyLike(x) && y.IsZero() {
				continue // an empty container may be left out
			}
			if d := same(p+"."+ft.Name, x, y); d != "" {
				return d
			}
		}
	default:
		if !a.Equal(b) {
			return differ()
		}
	}
	return ""
}

func emptyLike(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Array, reflect.String:
		return v.Len() == 0
	case reflect.Pointer, reflect.Interface, reflect.Struct:
		return false
	}
	return v.IsZero()
}

func orNull(b []byte) []byte {
	if len(b) == 0 {
		return []byte("null")
	}
	return b
}

// Show prints a value with pointers followed.
func Show(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, 0)
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if d > 12 {
		b.WriteString("...")
		return
	}
	rt := v.Type()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if rt == tof[*big.Int]() && v.CanInterface() {
			fmt.Fprint(b, v.Interface())
			return
		}
		b.WriteByte('&')
		show(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%v(", v.Elem().Type())
		show(b, v.Elem(), d+1)
		b.WriteByte(')')
	case reflect.Struct:
		if rt == tof[time.Time]() && v.CanInterface() {
			b.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(rt.Field(i).Name + ":")
			show(b, v.Field(i), d+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			show(b, v.Index(i), d+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("map[")
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			show(&e, k, d+1)
			e.WriteByte(':')
			show(&e, v.MapIndex(k), d+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, " "))
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprintf(b, "<%v>", rt)
	}
}
