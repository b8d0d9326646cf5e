package gen

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"pgregory.net/rapid"
)

// DocFor draws a document aimed at the type, now and then with something that does not fit.
func DocFor(t *rapid.T, rt reflect.Type, depth int) *J {
	switch rapid.IntRange(0, 30).Draw(t, "twist") {
	case 13:
		return Null()
	case 17:
		return JSON(1).Filter(Plain).Draw(t, "any")
	}
	switch rt.String() {
	case "time.Time", "enc.Time", "gen.MyTime":
		return Str(Time().Draw(t, "time").Format("2006-01-02T15:04:05.999999999Z07:00"))
	case "gen.Point":
		p := NewPoint(rapid.Int32().Draw(t, "x"), rapid.Int32().Draw(t, "y"))
		return Str(fmt.Sprintf("%d|%d", p.x, p.y))
	case "enc.Duration":
		return Str(DurationGen().Draw(t, "dur").String())
	case "json.RawMessage":
		return JSON(2).Filter(Plain).Draw(t, "raw")
	case "enc.Digits":
		return Num(NumText().Draw(t, "n"))
	case "gen.Temp":
		return Obj().Add("milli", Num(fmt.Sprint(rapid.Int64().Draw(t, "milli")))).Add("unit", Str("K"))
	case "*big.Int":
		return Num(rapid.StringMatching(`-?[1-9][0-9]{0,40}`).Draw(t, "big"))
	}
	switch rt.Kind() {
	case reflect.Bool:
		return Bool(rapid.Bool().Draw(t, "b"))
	case reflect.String:
		return Str(Text().Draw(t, "s"))
	case reflect.Float32, reflect.Float64:
		return Num(NumText().Draw(t, "n"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if rapid.Bool().Draw(t, "small") {
			return Num(fmt.Sprint(rapid.IntRange(0, 127).Draw(t, "n")))
		}
		return Num(NumText().Filter(func(s string) bool { return !strings.ContainsAny(s, ".eE") && s != "-0" }).Draw(t, "n"))
	case reflect.Pointer:
		if depth < -3 {
			return Null()
		}
		return DocFor(t, rt.Elem(), depth-1)
	case reflect.Interface:
		return JSON(2).Filter(Plain).Draw(t, "any")
	case reflect.Slice, reflect.Array:
		out := List()
		n := rt.Len
		if rt.Kind() == reflect.Slice {
			k := 0
			if depth > 0 {
				k = rapid.IntRange(0, 3).Draw(t, "len")
			}
			n = func() int { return k }
		} else if rapid.IntRange(0, 20).Draw(t, "badlen") == 0 {
			n = func() int { return rt.Len() + 1 }
		}
		for i := 0; i < n(); i++ {
			out.L = append(out.L, DocFor(t, rt.Elem(), depth-1))
		}
		return out
	case reflect.Map:
		out, keys := Obj(), map[string]bool{}
		n := 0
		if depth > 0 {
			n = rapid.IntRange(0, 3).Draw(t, "len")
		}
		for i := 0; i < n; i++ {
			var k string
			if rt.Key().Kind() == reflect.String || rapid.IntRange(0, 9).Draw(t, "badkey") == 0 {
				k = Key().Draw(t, "k")
			} else {
				k = rapid.OneOf(rapid.Map(rapid.IntRange(-3, 200), func(i int) string { return fmt.Sprint(i) }), NumText()).Draw(t, "k")
			}
			if rt.Key().Kind() != reflect.String {
				if k == "null" {
					continue // the standard library takes it for the key 0
				}
				n := k
				if len(k) < 40 {
					if r, ok := new(big.Rat).SetString(k); ok && !strings.ContainsAny(k, "eE") {
						n = r.String()
					}
				}
				if keys[n] {
					continue // a repeated key, spelled differently
				}
				keys[n] = true
			}
			if out.Get(k) == nil {
				out.Add(k, DocFor(t, rt.Elem(), depth-1))
			}
		}
		return out
	case reflect.Struct:
		out := Obj()
		folded := map[string]bool{}
		for _, f := range Fields(rt) {
			if rt.Field(f.Index).PkgPath != "" {
				continue
			}
			folded[strings.ToLower(f.JSON)] = true
			if f.Skip {
				continue
			}
			if rapid.IntRange(0, 4).Draw(t, "miss") == 0 {
				continue
			}
			out.Add(f.JSON, DocFor(t, rt.Field(f.Index).Type, depth-1))
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "extra"); i < n; i++ {
			k := Key().Draw(t, "k")
			if out.Get(k) == nil && !foldsInto(k, folded) {
				out.Add(k, JSON(1).Filter(Plain).Draw(t, "x"))
			}
		}
		if len(out.Keys) > 1 && rapid.Bool().Draw(t, "shuffle") {
			i := rapid.IntRange(1, len(out.Keys)-1).Draw(t, "i")
			out.Keys[0], out.Keys[i] = out.Keys[i], out.Keys[0]
			out.Vals[0], out.Vals[i] = out.Vals[i], out.Vals[0]
		}
		return out
	}
	return Null()
}

func foldsInto(k string, folded map[string]bool) bool {
	for f := range folded {
		if strings.EqualFold(f, k) {
			return true
		}
	}
	return false
}

// Plain documents have no repeated keys, which the two libraries merge differently
func Plain(j *J) bool {
	seen := map[string]bool{}
	for i, k := range j.Keys {
		if seen[k] || !Plain(j.Vals[i]) {
			return false
		}
		seen[k] = true
	}
	for _, x := range j.L {
		if !Plain(x) {
			return false
		}
	}
	return true
}
