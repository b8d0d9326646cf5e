package e07

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E07", "instants over years 0..9999 with nanoseconds and zone offsets, durations over the whole range, and texts that are valid, mutated or arbitrary; non-trivial: not the zero time or duration, text not empty")
}

func c() ctx.C { return ctx.TODO() }

type (
	ownTime time.Time
	ownDur  time.Duration
)

type times struct {
	A enc.Time             `json:"a"`
	B time.Time            `json:"b"`
	C *enc.Time            `json:"c"`
	D *time.Time           `json:"d"`
	E []enc.Time           `json:"e"`
	F map[string]time.Time `json:"f"`
	G any                  `json:"g"`
	H enc.Node             `json:"h"`
}

func sameTime(t *rapid.T, how string, want, got time.Time) {
	_, wo := want.Zone()
	_, go_ := got.Zone()
	if !want.Equal(got) || wo != go_ {
		t.Fatalf("%s: %v became %v", how, want, got)
	}
}

func asTime(t *rapid.T, x any) time.Time {
	switch x := x.(type) {
	case enc.Time:
		return time.Time(x)
	case time.Time:
		return x
	case string:
		y, err := enc.String(x).AsTime()
		if err != nil {
			t.Fatalf("text %q: %v", x, err)
		}
		return time.Time(y)
	case enc.String:
		return time.Time(x.MustTime())
	}
	t.Fatalf("a time became %T %v", x, x)
	return time.Time{}
}

func TestTime(t *testing.T) {
	vh.Check(t, 30000, 1500000, func(t *rapid.T) {
		tm := gen.Time().Draw(t, "time")
		et := enc.Time(tm)
		vh.Case(!tm.IsZero(), tm.Format(time.RFC3339Nano), "time")
		if p := vh.Try(func() {
			s := et.String()
			var x enc.Time
			if err := x.Parse(s); err != nil {
				t.Fatalf("own text %q refused: %v", s, err)
			}
			sameTime(t, "text "+s, tm, time.Time(x))
			if y, err := time.Parse(time.RFC3339Nano, s); err != nil {
				t.Fatalf("text %q is not RFC 3339: %v", s, err)
			} else {
				sameTime(t, "std text "+s, tm, y)
			}
			j, err := et.MarshalJSON()
			if err != nil {
				t.Fatalf("%v", err)
			}
			x = enc.Time{}
			if err := x.UnmarshalJSON(j); err != nil {
				t.Fatalf("own JSON %s refused: %v", j, err)
			}
			sameTime(t, "JSON "+string(j), tm, time.Time(x))
			// whole documents, as tree and as text
			in := times{A: et, B: tm, C: &et, D: &tm, E: []enc.Time{et}, F: map[string]time.Time{"k": tm}, G: tm, H: et}
			n, err := enc.Marshal(c(), in)
			if err != nil {
				t.Fatalf("marshal: %v", err)
			}
			js := enc.JSON{}.Encode(c(), n)
			dec, err := enc.JSON{}.Decode(c(), js)
			if err != nil {
				t.Fatalf("decode %s: %v", js, err)
			}
			for how, tree := range map[string]enc.Node{"tree": n, "text": dec} {
				var out times
				if err := enc.Unmarshal(c(), tree, &out); err != nil {
					t.Fatalf("%s of %s: %v", how, js, err)
				}
				if out.C == nil || out.D == nil || len(out.E) != 1 {
					t.Fatalf("%s of %s lost something: %+v", how, js, out)
				}
				for i, y := range []any{out.A, out.B, *out.C, *out.D, out.E[0], out.F["k"], out.G, out.H} {
					sameTime(t, fmt.Sprintf("%s field %d", how, i), tm, asTime(t, y))
				}
			}
			// the node by itself into each kind of destination
			var own ownTime
			if err := enc.Unmarshal(c(), et, &own); err != nil {
				t.Fatalf("into a named time: %v", err)
			}
			sameTime(t, "named type", tm, time.Time(own))
			var owns struct{ L []*ownTime }
			if err := enc.Unmarshal(c(), enc.Map{"L": enc.List{et}}, &owns); err != nil {
				t.Fatalf("into a list of named times: %v", err)
			}
			sameTime(t, "list of named type", tm, time.Time(*owns.L[0]))
			for _, y := range []func() (any, error){
				func() (any, error) { var v enc.Time; err := enc.Unmarshal(c(), et, &v); return v, err },
				func() (any, error) { var v time.Time; err := enc.Unmarshal(c(), et, &v); return v, err },
				func() (any, error) { var v any; err := enc.Unmarshal(c(), et, &v); return v, err },
				func() (any, error) { var v enc.Time; err := enc.Unmarshal(c(), enc.String(s), &v); return v, err },
				func() (any, error) { var v time.Time; err := enc.Unmarshal(c(), enc.String(s), &v); return v, err },
				func() (any, error) { return enc.String(s).AsTime() },
				func() (any, error) { return enc.String(s), nil },
			} {
				v, err := y()
				if err != nil {
					t.Fatalf("%v", err)
				}
				sameTime(t, fmt.Sprintf("%T", v), tm, asTime(t, v))
			}
		}); p != "" {
			t.Fatalf("%v: %s", tm, p)
		}
	})
}

type durs struct {
	A enc.Duration            `json:"a"`
	B time.Duration           `json:"b"`
	C *enc.Duration           `json:"c"`
	D []enc.Duration          `json:"d"`
	E map[string]enc.Duration `json:"e"`
	F enc.Duration            `json:"f,omitempty"`
	G enc.Node                `json:"g"`
}

func TestDuration(t *testing.T) {
	vh.Check(t, 30000, 1500000, func(t *rapid.T) {
		d := gen.DurationGen().Draw(t, "duration")
		ed := enc.Duration(d)
		vh.Case(d != 0, d.String(), "duration")
		if p := vh.Try(func() {
			for _, s := range []string{ed.String(), d.String()} {
				var x enc.Duration
				if err := x.Parse(s); err != nil || x != ed {
					t.Fatalf("text %q of %v: %v %v", s, d, x, err)
				}
				if y, err := enc.String(s).AsDuration(); err != nil || y != ed {
					t.Fatalf("AsDuration %q of %v: %v %v", s, d, y, err)
				}
				if y := enc.String(s).MustDuration(); y != ed {
					t.Fatalf("MustDuration %q of %v: %v", s, d, y)
				}
			}
			j, err := ed.MarshalJSON()
			var s string
			if err != nil || json.Unmarshal(j, &s) != nil || (s == "") != (d == 0) {
				t.Fatalf("JSON text of %v is %s (%v)", d, j, err)
			}
			x := enc.Duration(17)
			if err := x.UnmarshalJSON(j); err != nil || x != ed {
				t.Fatalf("JSON text %s of %v: %v %v", j, d, x, err)
			}
			in := durs{A: ed, B: d, C: &ed, D: []enc.Duration{ed}, E: map[string]enc.Duration{"k": ed}, F: ed, G: ed}
			n, err := enc.Marshal(c(), in)
			if err != nil {
				t.Fatalf("marshal: %v", err)
			}
			js := enc.JSON{}.Encode(c(), n)
			dec, err := enc.JSON{}.Decode(c(), js)
			if err != nil {
				t.Fatalf("decode %s: %v", js, err)
			}
			for how, tree := range map[string]enc.Node{"tree": n, "text": dec} {
				var out durs
				if err := enc.Unmarshal(c(), tree, &out); err != nil {
					t.Fatalf("%s of %s: %v", how, js, err)
				}
				if out.C == nil || len(out.D) != 1 || out.A != ed || out.B != d || *out.C != ed || out.D[0] != ed || out.E["k"] != ed || out.F != ed {
					t.Fatalf("%s of %s: %+v", how, js, out)
				}
			}
			var o struct {
				A enc.Duration
				B time.Duration
				C ownDur
				D any
				E *time.Duration
				F []ownDur
			}
			if err := enc.Unmarshal(c(), enc.Map{"A": ed, "B": ed, "C": ed, "D": ed, "E": ed, "F": enc.List{ed}}, &o); err != nil {
				t.Fatalf("duration node %v: %v", d, err)
			}
			if o.A != ed || o.B != d || o.C != ownDur(d) || *o.E != d || o.F[0] != ownDur(d) || fmt.Sprint(o.D) != d.String() {
				t.Fatalf("duration node %v gave %+v", d, o)
			}
		}); p != "" {
			t.Fatalf("%v: %s", d, p)
		}
	})
}

func timeText() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var s string
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			s = gen.Text().Draw(t, "text")
		case 1:
			s = gen.DurationGen().Draw(t, "dur").String()
		case 2:
			s = rapid.SampledFrom([]string{"", "2023-01-02", "2023-01-02T03:04:05", "2023-02-30T00:00:00Z", "2023-01-02T24:00:00Z", "2023-01-02 03:04:05Z", "2023-01-02T03:04:60Z", "2023-01-02T03:04:05+24:00", "2023-01-02T03:04:05.Z",
				"1", "1x", "s", "1s2", "-", "1.5h", "9223372036854775808ns", "3000000h", "+1m", ".5s", "1µs", "1 s", "1s ", "null", "0"}).Draw(t, "odd")
		default:
			s = gen.Time().Draw(t, "time").Format(rapid.SampledFrom([]string{time.RFC3339Nano, time.RFC3339, time.RFC1123Z, time.DateTime}).Draw(t, "layout"))
		}
		if rapid.Bool().Draw(t, "mutate") {
			s = strings.ToValidUTF8(string(gen.Mutate(t, []byte(s))), "?")
		}
		return s
	})
}

// what is not a time or a duration is refused and leaves nothing behind
func TestText(t *testing.T) {
	keepT := time.Date(2001, 2, 3, 4, 5, 6, 7, time.UTC)
	const keepD = 123
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		s := timeText().Draw(t, "s")
		_, e1 := time.Parse(time.RFC3339Nano, s)
		var strict time.Time
		e2 := strict.UnmarshalText([]byte(s))
		label := "bad-time"
		if e2 == nil {
			label = "good-time"
		} else if e1 == nil {
			label = "lax-time"
		}
		d, e3 := time.ParseDuration(s)
		if s == "" {
			d, e3 = 0, nil
		}
		if e3 == nil {
			label += "-good-duration"
		}
		vh.Case(s != "", s, label)
		js, _ := json.Marshal(s)
		if p := vh.Try(func() {
			judgeTime := func(how string, err error, got, left time.Time) {
				if e1 != nil && err == nil {
					t.Fatalf("%s: %q accepted as time %v", how, s, got)
				}
				if e2 == nil && err != nil {
					t.Fatalf("%s: %q refused: %v", how, s, err)
				}
				if e2 == nil {
					sameTime(t, how+" "+s, strict, got)
				}
				if err != nil && !got.Equal(left) {
					t.Fatalf("%s: %q refused (%v) but left %v", how, s, err, got)
				}
			}
			x := enc.Time(keepT)
			err := x.Parse(s)
			judgeTime("Parse", err, time.Time(x), keepT)
			x = enc.Time(keepT)
			err = x.UnmarshalJSON(js)
			judgeTime("UnmarshalJSON", err, time.Time(x), keepT)
			x = enc.Time(keepT)
			err = enc.Unmarshal(c(), enc.String(s), &x)
			judgeTime("Unmarshal", err, time.Time(x), keepT)
			y := keepT
			err = enc.UnmarshalJSON(c(), js, &y)
			judgeTime("enc.UnmarshalJSON into time.Time", err, y, keepT)
			x, err = enc.String(s).AsTime()
			judgeTime("AsTime", err, time.Time(x), time.Time{})
			st := struct{ T enc.Time }{enc.Time(keepT)}
			err = enc.Unmarshal(c(), enc.Map{"T": enc.String(s)}, &st)
			judgeTime("field", err, time.Time(st.T), keepT)

			judgeDur := func(how string, err error, got, left time.Duration) {
				if (err == nil) != (e3 == nil) || err == nil && got != d || err != nil && got != left {
					t.Fatalf("%s: %q gave %v, %v; expected %v, %v", how, s, got, err, d, e3)
				}
			}
			z := enc.Duration(keepD)
			err = z.Parse(s)
			judgeDur("Parse", err, time.Duration(z), keepD)
			z = keepD
			err = z.UnmarshalJSON(js)
			judgeDur("UnmarshalJSON", err, time.Duration(z), keepD)
			z = keepD
			err = enc.Unmarshal(c(), enc.String(s), &z)
			judgeDur("Unmarshal", err, time.Duration(z), keepD)
			z, err = enc.String(s).AsDuration()
			judgeDur("AsDuration", err, time.Duration(z), 0)
		}); p != "" {
			t.Fatalf("%q: %s", s, p)
		}
	})
}

// nor is anything which is not text
func TestOther(t *testing.T) {
	vh.Check(t, 10000, 300000, func(t *rapid.T) {
		j := gen.JSON(2).Filter(func(j *gen.J) bool { return j.K != 's' && j.K != 'n' }).Draw(t, "j")
		vh.Case(true, j.String(), "other")
		for _, how := range []string{"json", "tree"} {
			x, z := enc.Time(time.Unix(5, 0)), enc.Duration(5)
			y := time.Unix(5, 0)
			var ex, ez, ey error
			if how == "json" {
				ex, ez, ey = enc.UnmarshalJSON(c(), []byte(j.String()), &x), enc.UnmarshalJSON(c(), []byte(j.String()), &z), enc.UnmarshalJSON(c(), []byte(j.String()), &y)
			} else {
				n := gen.ToNode(j)
				ex, ez, ey = enc.Unmarshal(c(), n, &x), enc.Unmarshal(c(), n, &z), enc.Unmarshal(c(), n, &y)
			}
			if ex == nil || ey == nil || ez == nil {
				t.Fatalf("%s %v accepted: time %v, std time %v, duration %v", how, j, ex, ey, ez)
			}
			if !time.Time(x).Equal(time.Unix(5, 0)) || !y.Equal(time.Unix(5, 0)) || z != 5 {
				t.Fatalf("%s %v left %v %v %v", how, j, x, y, z)
			}
		}
		var own ownTime
		var od ownDur
		if j.K != 'd' {
			if err := enc.Unmarshal(c(), gen.ToNode(j), &od); err == nil {
				t.Fatalf("%v accepted as %v", j, reflect.TypeOf(od))
			}
		}
		if j.K != 'o' {
			if err := enc.Unmarshal(c(), gen.ToNode(j), &own); err == nil {
				t.Fatalf("%v accepted as %v", j, reflect.TypeOf(own))
			}
		}
	})
}
