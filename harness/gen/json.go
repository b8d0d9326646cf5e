// Package gen holds the generators and reference models shared by the checks.
package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// J is the reference model of a JSON value.
type J struct {
	K    byte // 'n' null, 'b' bool, 'd' number, 's' string, 'l' list, 'o' object
	B    bool
	S    string // string text or number spelling
	L    []*J
	Keys []string // objects: in order of appearance, duplicates kept
	Vals []*J
}

func Null() *J        { return &J{K: 'n'} }
func Str(s string) *J { return &J{K: 's', S: s} }
func Num(s string) *J { return &J{K: 'd', S: s} }
func Bool(b bool) *J  { return &J{K: 'b', B: b} }
func List(l ...*J) *J { return &J{K: 'l', L: l} }
func Obj() *J         { return &J{K: 'o'} }
func (j *J) Add(k string, v *J) *J {
	j.Keys = append(j.Keys, k)
	j.Vals = append(j.Vals, v)
	return j
}

// Get gives the last value under a key.
func (j *J) Get(k string) *J {
	if j == nil {
		return nil
	}
	for i := len(j.Keys) - 1; i >= 0; i-- {
		if j.Keys[i] == k {
			return j.Vals[i]
		}
	}
	return nil
}

// Depth of nesting.
func (j *J) Depth() int {
	d := 0
	for _, x := range append(append([]*J{}, j.L...), j.Vals...) {
		if n := x.Depth(); n > d {
			d = n
		}
	}
	if j.K == 'l' || j.K == 'o' {
		d++
	}
	return d
}

// ParseJ reads exactly one JSON value with the standard tokenizer (numbers verbatim).
func ParseJ(data []byte) (*J, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	j, err := parseTok(dec)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	if !json.Valid(data) {
		return nil, fmt.Errorf("not valid JSON")
	}
	return j, nil
}

func parseTok(dec *json.Decoder) (*J, error) {
	tok, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch t := tok.(type) {
	case nil:
		return Null(), nil
	case bool:
		return Bool(t), nil
	case string:
		return Str(t), nil
	case json.Number:
		return Num(string(t)), nil
	case json.Delim:
		switch t {
		case '[':
			out := List()
			for dec.More() {
				e, err := parseTok(dec)
				if err != nil {
					return nil, err
				}
				out.L = append(out.L, e)
			}
			_, err := dec.Token()
			return out, err
		case '{':
			out := Obj()
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				v, err := parseTok(dec)
				if err != nil {
					return nil, err
				}
				out.Add(k.(string), v)
			}
			_, err := dec.Token()
			return out, err
		}
	}
	return nil, fmt.Errorf("unexpected token %v", tok)
}

// Cmp options.
type Cmp struct {
	Ordered  bool // object entries must match in order, duplicates included
	NumValue bool // numbers compare by exact value rather than by spelling
	Num64    bool // numbers compare by their float64 value
}

// Diff describes the first difference, or is empty.
func (c Cmp) Diff(a, b *J) string { return c.diff("$", a, b) }

func (c Cmp) diff(p string, a, b *J) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: %v vs %v", p, a, b)
	}
	if a.K != b.K {
		return fmt.Sprintf("%s: %v vs %v", p, a, b)
	}
	switch a.K {
	case 'b':
		if a.B != b.B {
			return fmt.Sprintf("%s: %v vs %v", p, a, b)
		}
	case 's':
		if a.S != b.S {
			return fmt.Sprintf("%s: %q vs %q", p, a.S, b.S)
		}
	case 'd':
		if !c.numEq(a.S, b.S) {
			return fmt.Sprintf("%s: number %s vs %s", p, a.S, b.S)
		}
	case 'l':
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("%s: %d vs %d elements", p, len(a.L), len(b.L))
		}
		for i := range a.L {
			if d := c.diff(fmt.Sprintf("%s[%d]", p, i), a.L[i], b.L[i]); d != "" {
				return d
			}
		}
	case 'o':
		if c.Ordered {
			if strings.Join(quoteAll(a.Keys), ",") != strings.Join(quoteAll(b.Keys), ",") {
				return fmt.Sprintf("%s: keys %q vs %q", p, a.Keys, b.Keys)
			}
			for i := range a.Keys {
				if d := c.diff(p+"."+a.Keys[i], a.Vals[i], b.Vals[i]); d != "" {
					return d
				}
			}
			return ""
		}
		ak, bk := a.keySet(), b.keySet()
		if strings.Join(quoteAll(ak), ",") != strings.Join(quoteAll(bk), ",") {
			return fmt.Sprintf("%s: keys %q vs %q", p, ak, bk)
		}
		for _, k := range ak {
			if d := c.diff(p+"."+k, a.Get(k), b.Get(k)); d != "" {
				return d
			}
		}
	}
	return ""
}

func quoteAll(in []string) []string {
	out := make([]string, len(in))
	for i, s := range in {
		out[i] = strconv.Quote(s)
	}
	return out
}

func (j *J) keySet() []string {
	m := map[string]bool{}
	for _, k := range j.Keys {
		m[k] = true
	}
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c Cmp) numEq(a, b string) bool {
	if a == b {
		return true
	}
	if c.Num64 {
		x, e1 := strconv.ParseFloat(a, 64)
		y, e2 := strconv.ParseFloat(b, 64)
		return e1 == nil && e2 == nil && x == y
	}
	if c.NumValue {
		x, ok1 := new(big.Rat).SetString(a)
		y, ok2 := new(big.Rat).SetString(b)
		return ok1 && ok2 && x.Cmp(y) == 0
	}
	return false
}

// GoString keeps failure reports readable.
func (j *J) GoString() string { return j.String() }

// String renders compact JSON.
func (j *J) String() string {
	var b strings.Builder
	j.render(&b, nil)
	return b.String()
}

func (j *J) render(b *strings.Builder, style func(kind string) string) {
	ws := func() {
		if style != nil {
			b.WriteString(style("ws"))
		}
	}
	ws()
	switch j.K {
	case 'n':
		b.WriteString("null")
	case 'b':
		fmt.Fprint(b, j.B)
	case 'd':
		b.WriteString(j.S)
	case 's':
		quote(b, j.S, style)
	case 'l':
		b.WriteByte('[')
		for i, x := range j.L {
			if i > 0 {
				b.WriteByte(',')
			}
			x.render(b, style)
		}
		ws()
		b.WriteByte(']')
	case 'o':
		b.WriteByte('{')
		for i, k := range j.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			quote(b, k, style)
			ws()
			b.WriteByte(':')
			j.Vals[i].render(b, style)
		}
		ws()
		b.WriteByte('}')
	}
	ws()
}

func quote(b *strings.Builder, s string, style func(string) string) {
	b.WriteByte('"')
	for _, r := range s {
		esc := ""
		if style != nil {
			esc = style("esc")
		}
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n' && esc != "u":
			b.WriteString(`\n`)
		case r == '\t' && esc != "u":
			b.WriteString(`\t`)
		case r == '\r' && esc != "u":
			b.WriteString(`\r`)
		case r == '\b' && esc != "u":
			b.WriteString(`\b`)
		case r == '\f' && esc != "u":
			b.WriteString(`\f`)
		case r == '/' && esc == "s":
			b.WriteString(`\/`)
		case r < 0x20 || esc == "u" || esc == "U":
			if r > 0xffff {
				x := r - 0x10000
				fmt.Fprintf(b, `\u%04x\u%04X`, 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			} else if esc == "U" {
				fmt.Fprintf(b, `\u%04X`, r)
			} else {
				fmt.Fprintf(b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

// Text renders the value with drawn white space and escapes.
func (j *J) Text(t *rapid.T) string {
	fancy := rapid.IntRange(0, 3).Draw(t, "style") == 0
	var style func(string) string
	if fancy {
		style = func(kind string) string {
			if kind == "ws" {
				return rapid.SampledFrom([]string{"", "", "", " ", "\n", "\t \r\n"}).Draw(t, "ws")
			}
			return rapid.SampledFrom([]string{"", "", "u", "U", "s"}).Draw(t, "esc")
		}
	}
	var b strings.Builder
	j.render(&b, style)
	return b.String()
}

// ---------------------------------------------------------------- generators

// Text is a string generator biased to awkward but valid UTF-8.
func Text() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_]{0,8}`),
		rapid.StringN(0, 8, 64),
		rapid.SampledFrom([]string{"", " ", "null", "true", "0", "-1", "1e5", "\x00", "\x1f\x7f", "<&>'\"\\/", "\u2028\u2029", "\ufeff", "\ufffd", "😀é", "a\nb\tc\r", "${}", "%s%d%!", "..", "a.b", "a,b", "-", "日本語", "1.5", "2020-01-02T03:04:05Z", "3s", "e\u0301"}),
	).Filter(utf8.ValidString)
}

// Key is an object key generator with repeats across draws.
func Key() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "A", "id", "", "-", "name", "x.y"}), Text())
}

// NumText is a generator of JSON number spellings.
func NumText() *rapid.Generator[string] {
	digits := func(lo, hi int) *rapid.Generator[string] {
		return rapid.StringMatching(fmt.Sprintf(`[0-9]{%d,%d}`, lo, hi))
	}
	intPart := rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 4).Draw(t, "zero") == 0 {
			return "0"
		}
		max := rapid.SampledFrom([]int{1, 3, 9, 18, 19, 25, 60}).Draw(t, "max")
		return rapid.SampledFrom([]string{"1", "2", "9", "5"}).Draw(t, "d") + digits(0, max).Draw(t, "ds")
	})
	general := rapid.Custom(func(t *rapid.T) string {
		s := ""
		if rapid.Bool().Draw(t, "neg") {
			s = "-"
		}
		s += intPart.Draw(t, "int")
		switch rapid.IntRange(0, 5).Draw(t, "form") {
		case 0, 1:
			s += "." + digits(1, 20).Draw(t, "frac")
		case 2:
			s += rapid.SampledFrom([]string{"e", "E", "e+", "e-", "E+", "E-"}).Draw(t, "e") + digits(1, 3).Draw(t, "exp")
		case 3:
			s += "." + digits(1, 5).Draw(t, "frac") + rapid.SampledFrom([]string{"e", "E", "e+", "e-"}).Draw(t, "e") + digits(1, 2).Draw(t, "exp")
		}
		return s
	})
	return rapid.OneOf(general, rapid.SampledFrom(BoundaryNums))
}

// BoundaryNums are spellings around every limit that matters.
var BoundaryNums = func() []string {
	out := []string{"0", "-0", "-0.0", "0.0", "0e0", "1e0", "1E+0", "1.0", "1.5", "-1.5", "0.9", "-0.9", "1e2", "12e-1", "125e-2", "1.5e3", "1.50e1",
		"3.4028234663852886e38", "3.4028235677973366e38", "3.5e38", "1e39", "-1e39", "1e308", "1.7976931348623157e308", "1e309", "-1e309", "1e400", "5e-324", "1e-400", "1e-45", "0.1", "0.30000000000000004",
		"16777217", "9007199254740993", "-9007199254740993", "9007199254740993.0", "100000000000000000000", "1e18", "1e19", "1.8446744073709551615e19", "9.223372036854775807e18", "9.223372036854775808e18", "9223372036854775807.5", "-9223372036854775808.5", "18446744073709551615.9"}
	for _, bits := range []uint{7, 8, 15, 16, 31, 32, 53, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), bits)
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(p, big.NewInt(d))
			out = append(out, x.String(), "-"+x.String())
		}
		out = append(out, p.String()+".0", p.String()+".9", "-"+p.String()+".5", "-"+p.String()+".0")
	}
	return out
}()

// JSON generates a model value with at most the given depth.
func JSON(depth int) *rapid.Generator[*J] {
	return rapid.Custom(func(t *rapid.T) *J {
		max := 5
		if depth <= 0 {
			max = 3
		}
		switch rapid.IntRange(0, max).Draw(t, "kind") {
		case 0:
			return Str(Text().Draw(t, "s"))
		case 1:
			return Num(NumText().Draw(t, "n"))
		case 2:
			return Bool(rapid.Bool().Draw(t, "b"))
		case 3:
			return Null()
		case 4:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			out := List()
			for i := 0; i < n; i++ {
				out.L = append(out.L, JSON(depth-1).Draw(t, "e"))
			}
			return out
		default:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			out := Obj()
			for i := 0; i < n; i++ {
				out.Add(Key().Draw(t, "k"), JSON(depth-1).Draw(t, "v"))
			}
			return out
		}
	})
}

// Mutate damages bytes.
func Mutate(t *rapid.T, in []byte) []byte {
	out := append([]byte{}, in...)
	n := rapid.IntRange(1, 4).Draw(t, "muts")
	frag := []string{"", "{", "}", "[", "]", ",", ":", "\"", "\\", "null", "nul", "true", "0", "-", "1e", "01", ".5", "\\u12", "\\ud800", "\x00", "\xff", " ", "\n", "//", "NaN", "'"}
	for i := 0; i < n; i++ {
		pos := rapid.IntRange(0, len(out)).Draw(t, "pos")
		end := pos + rapid.IntRange(0, 3).Draw(t, "del")
		if end > len(out) {
			end = len(out)
		}
		f := rapid.SampledFrom(frag).Draw(t, "ins")
		out = append(append(append([]byte{}, out[:pos]...), f...), out[end:]...)
	}
	return out
}
