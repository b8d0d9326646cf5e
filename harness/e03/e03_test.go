package e03

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E03", "types of the common subset built by reflection, values of them, and documents derived from the type (matching, missing, extra, null, wrong-kind entries); non-trivial: a composite type with a non-zero value, or a document that is not empty")
}

func c() ctx.C { return ctx.TODO() }

func has32(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return false
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Float32:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return has32(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if has32(rt.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// structOrder checks that struct fields appear in declaration order at every level reachable through rt.
func sameOrder(p string, rt reflect.Type, std, got *gen.J) string {
	if std == nil || got == nil || std.K != got.K {
		return ""
	}
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	switch rt.Kind() {
	case reflect.Slice, reflect.Array:
		for i := range std.L {
			if i < len(got.L) {
				if d := sameOrder(fmt.Sprintf("%s[%d]", p, i), rt.Elem(), std.L[i], got.L[i]); d != "" {
					return d
				}
			}
		}
	case reflect.Map:
		for i, k := range std.Keys {
			if d := sameOrder(p+"."+k, rt.Elem(), std.Vals[i], got.Get(k)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		if std.K != 'o' || rt == reflect.TypeOf(gen.Temp{}) {
			return ""
		}
		if strings.Join(std.Keys, "\x00") != strings.Join(got.Keys, "\x00") {
			return fmt.Sprintf("%s: field order %q vs %q", p, std.Keys, got.Keys)
		}
		for _, f := range gen.Fields(rt) {
			if x := std.Get(f.JSON); x != nil && !f.Skip {
				if d := sameOrder(p+"."+f.JSON, rt.Field(f.Index).Type, x, got.Get(f.JSON)); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

func cmpDocs(t *rapid.T, rt reflect.Type, std, got []byte) {
	a, err := gen.ParseJ(std)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	b, err := gen.ParseJ(got)
	if err != nil {
		t.Fatalf("output %q is not JSON: %v", got, err)
	}
	if has32(rt, map[reflect.Type]bool{}) {
		round32(rt, a)
		round32(rt, b)
	}
	if d := (gen.Cmp{Num64: true}).Diff(a, b); d != "" {
		t.Fatalf("%v: standard %s, library %s: %s", rt, std, got, d)
	}
	if d := sameOrder("$", rt, a, b); d != "" {
		t.Fatalf("%v: standard %s, library %s: %s", rt, std, got, d)
	}
}

// float32 text differs in digits only
func round32(rt reflect.Type, j *gen.J) {
	if j == nil {
		return
	}
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	switch rt.Kind() {
	case reflect.Float32:
		if j.K == 'd' {
			f, _ := strconv.ParseFloat(j.S, 32)
			j.S = strconv.FormatFloat(f, 'g', -1, 32)
		}
	case reflect.Slice, reflect.Array, reflect.Map:
		for _, x := range append(append([]*gen.J{}, j.L...), j.Vals...) {
			round32(rt.Elem(), x)
		}
	case reflect.Struct:
		for _, f := range gen.Fields(rt) {
			if !f.Skip && j.K == 'o' {
				round32(rt.Field(f.Index).Type, j.Get(f.JSON))
			}
		}
	}
}

func TestMarshal(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		var rt reflect.Type
		if rapid.Bool().Draw(t, "struct") {
			rt = gen.Struct(3, gen.TypeOpts{Std: true}).Draw(t, "type")
		} else {
			rt = gen.Type(rapid.IntRange(0, 4).Draw(t, "depth"), gen.TypeOpts{Std: true}).Draw(t, "type")
		}
		v := gen.Value(t, rt, 4, false)
		vh.Case(!v.IsZero(), fmt.Sprintf("marshal %v = %s", rt, gen.Show(v)), "marshal-"+rt.Kind().String())
		std, err := json.Marshal(v.Interface())
		if err != nil {
			t.Skip()
		}
		got, err := enc.MarshalJSON(c(), v.Interface())
		if err != nil {
			t.Fatalf("marshal %v %s: %v", rt, gen.Show(v), err)
		}
		cmpDocs(t, rt, std, got)
	})
}

// tolerated finds the documented differences: a number where a string is wanted, a fraction or
// exponent (or minus zero) where an integer is, a list of another length for a fixed array, a case-folded key,
// a number beyond float64 where anything goes.
func tolerated(rt reflect.Type, j *gen.J) bool {
	switch rt.String() {
	case "time.Time", "gen.Temp", "*big.Int":
		return false
	}
	switch rt.Kind() {
	case reflect.Interface:
		return hugeNumber(j)
	case reflect.String:
		return j.K == 'd'
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return j.K == 'd' && (strings.ContainsAny(j.S, ".eE") || j.S == "-0")
	case reflect.Pointer:
		return tolerated(rt.Elem(), j)
	case reflect.Slice, reflect.Array:
		if j.K == 's' && rt.Elem().Kind() == reflect.Uint8 {
			return true // bytes as text
		}
		if rt.Kind() == reflect.Array && j.K == 'l' && len(j.L) != rt.Len() {
			return true
		}
		for _, x := range j.L {
			if tolerated(rt.Elem(), x) {
				return true
			}
		}
	case reflect.Map:
		for _, x := range j.Vals {
			if tolerated(rt.Elem(), x) {
				return true
			}
		}
	case reflect.Struct:
		if j.K != 'o' {
			return false
		}
		for i, k := range j.Keys {
			for _, f := range gen.Fields(rt) {
				if rt.Field(f.Index).PkgPath != "" || f.Skip {
					continue
				}
				if f.JSON == k {
					if tolerated(rt.Field(f.Index).Type, j.Vals[i]) {
						return true
					}
				} else if strings.EqualFold(f.JSON, k) {
					return true
				}
			}
		}
	}
	return false
}

func hugeNumber(j *gen.J) bool {
	if j.K == 'd' {
		_, err := strconv.ParseFloat(j.S, 64)
		return err != nil
	}
	for _, x := range append(append([]*gen.J{}, j.L...), j.Vals...) {
		if hugeNumber(x) {
			return true
		}
	}
	return false
}

func TestUnmarshal(t *testing.T) {
	vh.Check(t, 60000, 2000000, func(t *rapid.T) {
		var rt reflect.Type
		if rapid.IntRange(0, 2).Draw(t, "struct") > 0 {
			rt = gen.Struct(3, gen.TypeOpts{Std: true}).Draw(t, "type")
		} else {
			rt = gen.Type(rapid.IntRange(0, 4).Draw(t, "depth"), gen.TypeOpts{Std: true}).Draw(t, "type")
		}
		j := gen.DocFor(t, rt, 3)
		text := []byte(j.Text(t))
		std := reflect.New(rt)
		stdErr := json.Unmarshal(text, std.Interface())
		tol := tolerated(rt, j)
		class := "accepted"
		if stdErr != nil {
			class = "refused"
		}
		if tol {
			class += "-tolerated"
		}
		vh.Case(len(text) > 2, fmt.Sprintf("unmarshal %v <- %s", rt, text), class)
		got := reflect.New(rt)
		err := enc.UnmarshalJSON(c(), bytes.Clone(text), got.Interface())
		if tol {
			return
		}
		if stdErr == nil {
			if err != nil {
				t.Fatalf("%v <- %s: accepted by the standard library, refused here: %v", rt, text, err)
			}
			if d := sameAsStd(std.Elem(), got.Elem()); d != "" {
				t.Fatalf("%v <- %s: %s", rt, text, d)
			}
		} else if err == nil {
			t.Fatalf("%v <- %s: refused by the standard library (%v), accepted here as %s", rt, text, stdErr, gen.Show(got.Elem()))
		}
	})
}

func sameAsStd(a, b reflect.Value) string {
	if reflect.DeepEqual(a.Interface(), b.Interface()) {
		return ""
	}
	return gen.Same(a, b)
}
