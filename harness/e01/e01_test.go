package e01

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E01", "documents drawn from a JSON grammar (random spelling of numbers, escapes, white space), byte mutations of them, and drawn node trees; non-trivial: a document or tree with at least one container, or a mutated input")
}

func c() ctx.C { return ctx.TODO() }

// a drawn document decodes to its model and encodes back to an equivalent document
func TestDecodeEncode(t *testing.T) {
	vh.Check(t, 16000, 400000, func(t *rapid.T) {
		j := gen.JSON(rapid.IntRange(0, 5).Draw(t, "depth")).Draw(t, "doc")
		text := j.Text(t)
		vh.Case(j.Depth() > 0, text, "decode-encode")
		in := []byte(text)
		n, err := enc.JSON{}.Decode(c(), in)
		if err != nil {
			t.Fatalf("decode of valid %s: %v", text, err)
		}
		if string(in) != text {
			t.Fatalf("decode changed its input: %q", in)
		}
		for i := range in {
			in[i] = '#' // the tree must not alias the input
		}
		got, err := gen.ModelOf(n)
		if err != nil {
			t.Fatal(err)
		}
		if d := (gen.Cmp{}).Diff(j, got); d != "" {
			t.Fatalf("decoded %s: %s", text, d)
		}
		for _, indent := range []bool{false, true} {
			out := enc.JSON{Indent: indent}.Encode(c(), n)
			back, err := gen.ParseJ(out)
			if err != nil {
				t.Fatalf("encode of %s gave %q: %v", text, out, err)
			}
			if d := (gen.Cmp{}).Diff(j, back); d != "" {
				t.Fatalf("%s re-encoded as %s: %s", text, out, d)
			}
		}
	})
}

// accepted exactly when it is one JSON value; never a panic
func TestReject(t *testing.T) {
	vh.Check(t, 16000, 400000, func(t *rapid.T) {
		var in []byte
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			in = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
		case 1: // two documents in a row
			a := gen.JSON(2).Draw(t, "a").Text(t)
			b := gen.JSON(1).Draw(t, "b").Text(t)
			in = []byte(a + rapid.SampledFrom([]string{"", " ", "\n", ","}).Draw(t, "sep") + b)
		default:
			in = gen.Mutate(t, []byte(gen.JSON(3).Draw(t, "doc").Text(t)))
		}
		valid := json.Valid(in)
		if valid {
			vh.Case(true, string(in), "mutated-valid")
		} else {
			vh.Case(true, string(in), "mutated-invalid")
		}
		n, err := enc.JSON{}.Decode(c(), in)
		switch {
		case len(in) == 0:
			if n != nil || err != nil {
				t.Fatalf("empty input: %v %v", n, err)
			}
		case valid && err != nil:
			t.Fatalf("valid input %q refused: %v", in, err)
		case !valid && err == nil:
			t.Fatalf("input %q is not one JSON value but decoded to %v", in, n)
		case valid:
			want, err := gen.ParseJ(in)
			if err != nil {
				return // numbers json.Valid takes but the tokenizer does not: none known
			}
			got, err := gen.ModelOf(n)
			if err != nil {
				t.Fatal(err)
			}
			if d := (gen.Cmp{}).Diff(want, got); d != "" {
				t.Fatalf("decoded %q: %s", in, d)
			}
		}
	})
}

// any tree encodes to one valid document, in order, and decodes back
func TestEncodeTree(t *testing.T) {
	vh.Check(t, 16000, 400000, func(t *rapid.T) {
		ns := gen.Node(rapid.IntRange(0, 5).Draw(t, "depth")).Draw(t, "tree")
		vh.Case(ns.J.Depth() > 0, ns.J.String(), "encode-tree")
		want := ns.J
		for _, indent := range []bool{false, true} {
			out := enc.JSON{Indent: indent}.Encode(c(), ns.Node)
			back, err := gen.ParseJ(out)
			if err != nil {
				t.Fatalf("encode gave %q: %v", out, err)
			}
			if d := (gen.Cmp{Num64: true}).Diff(want, back); d != "" {
				t.Fatalf("tree %v encoded as %s: %s", ns.Node, out, d)
			}
			if d := orderDiff(ns.Node, back); d != "" {
				t.Fatalf("encoded as %s: %s", out, d)
			}
			n2, err := enc.JSON{}.Decode(c(), out)
			if err != nil {
				t.Fatalf("decode of own output %s: %v", out, err)
			}
			got, err := gen.ModelOf(n2)
			if err != nil {
				t.Fatal(err)
			}
			if d := (gen.Cmp{}).Diff(back, got); d != "" {
				t.Fatalf("%s decoded: %s", out, d)
			}
		}
		// marshalling a tree is the identity
		j, err := enc.MarshalJSON(c(), ns.Node)
		if err != nil {
			t.Fatalf("marshal of a tree: %v", err)
		}
		back, err := gen.ParseJ(j)
		if err != nil {
			t.Fatalf("marshal gave %q: %v", j, err)
		}
		if d := (gen.Cmp{Num64: true}).Diff(want, back); d != "" {
			t.Fatalf("tree %v marshalled as %s: %s", ns.Node, j, d)
		}
		if d := orderDiff(ns.Node, back); d != "" {
			t.Fatalf("marshalled as %s: %s", j, d)
		}
	})
}

// ordered pairs must appear in their order; exact integers must be verbatim
func orderDiff(n enc.Node, j *gen.J) string {
	switch n := n.(type) {
	case enc.Integer, enc.Digits:
		want, _ := gen.ModelOf(n)
		return gen.Cmp{}.Diff(want, j)
	case enc.List:
		for i, e := range n {
			if d := orderDiff(e, j.L[i]); d != "" {
				return d
			}
		}
	case enc.Map:
		for k, e := range n {
			if d := orderDiff(e, j.Get(k)); d != "" {
				return d
			}
		}
	case enc.Pairs:
		for i, e := range n {
			if j.Keys[i] != e.JSON {
				return "entry " + e.JSON + " out of order"
			}
			if d := orderDiff(e.Value, j.Vals[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

// wide and deep documents: few different parts, repeated
func TestLarge(t *testing.T) {
	vh.Check(t, 400, 10000, func(t *rapid.T) {
		j := gen.JSON(2).Draw(t, "inner")
		for i := rapid.IntRange(1, 3).Draw(t, "layers"); i > 0; i-- {
			n := rapid.SampledFrom([]int{17, 40, 70, 130, 300, 1100, 2100}).Draw(t, "size")
			if i > 1 {
				n = rapid.SampledFrom([]int{2, 17, 40}).Draw(t, "size")
			}
			parts := []*gen.J{j}
			for k := rapid.IntRange(0, 3).Draw(t, "parts"); k > 0; k-- {
				parts = append(parts, gen.JSON(1).Draw(t, "part"))
			}
			every := rapid.IntRange(1, 9).Draw(t, "every")
			out := gen.List()
			switch rapid.IntRange(0, 3).Draw(t, "shape") {
			case 0:
				for k := 0; k < n; k++ {
					out.L = append(out.L, parts[k/every%len(parts)])
				}
			case 1:
				out = gen.Obj()
				for k := 0; k < n; k++ {
					out.Add(fmt.Sprintf("k%d", k*every), parts[k/every%len(parts)])
				}
			case 2: // deep
				out = j
				for k := 0; k < n; k++ {
					if k/every%2 == 0 {
						out = gen.List(out)
					} else {
						out = gen.Obj().Add("k", out)
					}
				}
			case 3: // a long text
				out = gen.List(j, gen.Str(strings.Repeat(gen.Text().Draw(t, "s"), n)), gen.Num("1"+strings.Repeat("0", n%400)+"7"))
			}
			j = out
		}
		text := j.Text(t)
		vh.Case(true, fmt.Sprintf("%.60s... (%d bytes)", text, len(text)), "large")
		n, err := enc.JSON{}.Decode(c(), []byte(text))
		if err != nil {
			t.Fatalf("decode of valid %s: %v", text, err)
		}
		got, err := gen.ModelOf(n)
		if err != nil {
			t.Fatal(err)
		}
		if d := (gen.Cmp{}).Diff(j, got); d != "" {
			t.Fatalf("decoded %s: %s", text, d)
		}
		out := enc.JSON{Indent: rapid.Bool().Draw(t, "indent")}.Encode(c(), n)
		back, err := gen.ParseJ(out)
		if err != nil {
			t.Fatalf("encode of %s gave %q: %v", text, out, err)
		}
		if d := (gen.Cmp{}).Diff(j, back); d != "" {
			t.Fatalf("%s re-encoded as %s: %s", text, out, d)
		}
	})
}

func TestZeroNumbers(t *testing.T) {
	// the zero value of every node type encodes to valid JSON
	for _, n := range []enc.Node{enc.Digits(""), enc.Integer(0), enc.Float(0), enc.String(""), enc.Bool(false), enc.Nil{}, enc.Map(nil), enc.Pairs(nil), enc.Time{}, enc.Duration(0), nil} {
		for _, indent := range []bool{false, true} {
			var out []byte
			if p := vh.Try(func() { out = enc.JSON{Indent: indent}.Encode(c(), n) }); p != "" {
				t.Fatalf("%T zero value: %s", n, p)
			}
			if !json.Valid(out) {
				t.Fatalf("%T zero value encodes to %q", n, out)
			}
		}
	}
}
