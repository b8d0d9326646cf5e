package gen

import (
	"fmt"
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
)

// FiniteFloat draws floats of all magnitudes, never NaN or infinite.
func FiniteFloat() *rapid.Generator[float64] {
	return rapid.OneOf(
		rapid.Float64(),
		rapid.Custom(func(t *rapid.T) float64 {
			f := math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return 1.5
			}
			return f
		}),
		rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e20, 1e-7, 1e-6, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 1e300, -2.5}),
	).Filter(func(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) })
}

// NodeSpec pairs a data node with the model of its encoding.
type NodeSpec struct {
	Node enc.Node
	J    *J
}

// Node draws a data tree and the model of its JSON form.
func Node(depth int) *rapid.Generator[NodeSpec] {
	return rapid.Custom(func(t *rapid.T) NodeSpec {
		max := 12
		if depth <= 0 {
			max = 7
		}
		switch rapid.IntRange(0, max).Draw(t, "node") {
		case 0:
			s := Text().Draw(t, "s")
			return NodeSpec{enc.String(s), Str(s)}
		case 1:
			n := NumText().Draw(t, "digits")
			return NodeSpec{enc.Digits(n), Num(n)}
		case 2:
			i := rapid.Int64().Draw(t, "int")
			return NodeSpec{enc.Integer(i), Num(fmt.Sprint(i))}
		case 3:
			f := FiniteFloat().Draw(t, "float")
			return NodeSpec{enc.Float(f), Num(jsonFloat(f))}
		case 4:
			b := rapid.Bool().Draw(t, "bool")
			return NodeSpec{enc.Bool(b), Bool(b)}
		case 5:
			return NodeSpec{enc.Nil{}, Null()}
		case 6:
			tm := Time().Draw(t, "time")
			return NodeSpec{enc.Time(tm), Str(tm.Format(time.RFC3339Nano))}
		case 7:
			d := DurationGen().Draw(t, "dur")
			s := d.String()
			if d == 0 {
				s = ""
			}
			return NodeSpec{enc.Duration(d), Str(s)}
		case 8, 9:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			l, j := enc.List{}, List()
			for i := 0; i < n; i++ {
				e := Node(depth-1).Draw(t, "e")
				l = append(l, e.Node)
				j.L = append(j.L, e.J)
			}
			return NodeSpec{l, j}
		case 10:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			m, j := enc.Map{}, Obj()
			for i := 0; i < n; i++ {
				k := Key().Draw(t, "k")
				if _, dup := m[k]; dup {
					continue
				}
				e := Node(depth-1).Draw(t, "v")
				m[k] = e.Node
				j.Add(k, e.J)
			}
			return NodeSpec{m, j}
		default:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			p, j := enc.Pairs{}, Obj()
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				k := Key().Draw(t, "k")
				if seen[k] {
					continue
				}
				seen[k] = true
				e := Node(depth-1).Draw(t, "v")
				p = append(p, enc.Pair{Name: rapid.SampledFrom([]string{k, "Name", "F"}).Draw(t, "name"), JSON: k, Value: e.Node})
				j.Add(k, e.J)
			}
			return NodeSpec{p, j}
		}
	})
}

func jsonFloat(f float64) string {
	return strings.Replace(fmt.Sprintf("%.17g", f), "e+", "e", 1)
}

// Time draws an instant with nanoseconds and a whole-minute zone offset, years 0..9999.
func Time() *rapid.Generator[time.Time] {
	return rapid.Custom(func(t *rapid.T) time.Time {
		var sec int64
		if rapid.IntRange(0, 3).Draw(t, "era") == 0 {
			sec = rapid.Int64Range(-62167132800, 253402214400).Draw(t, "sec") // 0000-01-02 .. 9999-12-31
		} else {
			sec = rapid.Int64Range(-1e9, 4e9).Draw(t, "sec")
		}
		ns := rapid.OneOf(rapid.Int64Range(0, 999999999), rapid.SampledFrom([]int64{0, 1, 1000, 999999999, 500000000, 100})).Draw(t, "ns")
		loc := time.UTC
		switch rapid.IntRange(0, 2).Draw(t, "zone") {
		case 1:
			off := rapid.IntRange(-23*60-59, 23*60+59).Draw(t, "off")
			loc = time.FixedZone("", off*60)
		case 2:
			if sec > 0 { // old local times have offsets with seconds
				loc = time.Local
			}
		}
		return time.Unix(sec, ns).In(loc)
	})
}

// DurationGen draws durations over the whole range.
func DurationGen() *rapid.Generator[time.Duration] {
	return rapid.OneOf(
		rapid.Map(rapid.Int64(), func(i int64) time.Duration { return time.Duration(i) }),
		rapid.Map(rapid.Int64Range(-1e6, 1e6), func(i int64) time.Duration { return time.Duration(i) * time.Millisecond }),
		rapid.SampledFrom([]time.Duration{0, 1, -1, math.MaxInt64, math.MinInt64, time.Second, 90 * time.Minute, 1500 * time.Microsecond}),
	)
}

// ModelOf reads a data tree built by decoding (or by hand) into the model.
func ModelOf(n enc.Node) (*J, error) {
	switch n := n.(type) {
	case nil, enc.Nil:
		return Null(), nil
	case enc.String:
		return Str(string(n)), nil
	case enc.Digits:
		return Num(string(n)), nil
	case enc.Integer:
		return Num(n.String()), nil
	case enc.Float:
		return Num(jsonFloat(float64(n))), nil
	case enc.Bool:
		return Bool(bool(n)), nil
	case enc.Time:
		return Str(n.String()), nil
	case enc.Duration:
		if n == 0 {
			return Str(""), nil
		}
		return Str(n.String()), nil
	case enc.List:
		out := List()
		for _, e := range n {
			j, err := ModelOf(e)
			if err != nil {
				return nil, err
			}
			out.L = append(out.L, j)
		}
		return out, nil
	case enc.Map:
		out := Obj()
		for k, e := range n {
			j, err := ModelOf(e)
			if err != nil {
				return nil, err
			}
			out.Add(k, j)
		}
		return out, nil
	case enc.Pairs:
		out := Obj()
		for _, e := range n {
			j, err := ModelOf(e.Value)
			if err != nil {
				return nil, err
			}
			out.Add(e.JSON, j)
		}
		return out, nil
	}
	return nil, fmt.Errorf("unknown node %T", n)
}

// ToNode builds the decoded form of a model value.
func ToNode(j *J) enc.Node {
	switch j.K {
	case 'n':
		return enc.Nil{}
	case 'b':
		return enc.Bool(j.B)
	case 's':
		return enc.String(j.S)
	case 'd':
		return enc.Digits(j.S)
	case 'l':
		out := enc.List{}
		for _, e := range j.L {
			out = append(out, ToNode(e))
		}
		return out
	default:
		out := enc.Map{}
		for i, k := range j.Keys {
			out[k] = ToNode(j.Vals[i])
		}
		return out
	}
}

// Clean replaces invalid UTF-8 as the standard encoder does.
func Clean(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(r)
		i += n
	}
	return b.String()
}
