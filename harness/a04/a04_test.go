package a04

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "A04", "one to four generated operations registered in one document, in two orders, each with really sent requests and responses checked against its schema; and operations with a type which can't be described; non-trivial: at least one input or output field")
}

func c() ctx.C { return ctx.TODO() }

func tof[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// ---- more types: same names, generics, recursion, own JSON

type Box[T any] struct {
	V T       `json:"v"`
	N *Box[T] `json:"n,omitempty"`
}

type Kids struct {
	Name string     `json:"name"`
	All  KidList    `json:"all"`
	By   KidMap     `json:"by,omitempty"`
	Raw  []Kids     `json:"-"`
	X    [1]*Kids   `json:"x"`
	Y    [][]KidMap `json:"y"`
}
type KidList []Kids
type KidMap map[string]*Kids

type A1 struct {
	B *B1 `json:"b"`
	N int `json:"n"`
}
type B1 struct {
	A []A1   `json:"a"`
	S string `json:"s"`
}

type Cold struct{ t int }

func (x Cold) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(x.t - 273)), nil }

// numbers by their first digit
type Lead1 uint8
type Lead2 uint8
type Lead3 uint8
type Lead4 uint8
type Lead5 uint8
type Lead6 uint8
type Lead7 uint8
type Lead8 uint8
type Lead9 uint8

func (x Lead1) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("1.%d", x)), nil }
func (x Lead2) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("2.%d", x)), nil }
func (x Lead3) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("3.%d", x)), nil }
func (x Lead4) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("4.%d", x)), nil }
func (x Lead5) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("5.%d", x)), nil }
func (x Lead6) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("6.%d", x)), nil }
func (x Lead7) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("7.%d", x)), nil }
func (x Lead8) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("8.%d", x)), nil }
func (x Lead9) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf("9.%d", x)), nil }

type Yes struct{ off bool }

func (x Yes) MarshalJSON() ([]byte, error) { return json.Marshal(!x.off) }

type Flag struct{ on bool }

func (x Flag) MarshalJSON() ([]byte, error) { return json.Marshal(x.on) }

type Ptr struct{ A, B int }

func (x *Ptr) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprint(x.A, "/", x.B)) }

type Tuple struct{ A, B int }

func (x Tuple) MarshalNode(c ctx.C) (enc.Node, error) {
	return enc.List{enc.Integer(x.A), enc.Integer(x.B)}, nil
}

type Dict []string

func (x Dict) MarshalJSON() ([]byte, error) {
	m := map[string]bool{}
	for _, k := range x {
		m[k] = true
	}
	return json.Marshal(m)
}

func local1() reflect.Type {
	type Local struct {
		A string `json:"a"`
	}
	return tof[Local]()
}
func local2() reflect.Type {
	type Local struct {
		A int             `json:"a"`
		B map[string]bool `json:"b"`
	}
	return tof[Local]()
}

func local3() reflect.Type {
	type Local struct {
		A []int `json:"a"`
	}
	return tof[Local]()
}
func local4() reflect.Type {
	type Local struct {
		A bool             `json:"a"`
		B map[string]*Kids `json:"b"`
	}
	return tof[Local]()
}
func local5() reflect.Type {
	type Local struct {
		A string `json:"b"`
	}
	return tof[Local]()
}
func local6() reflect.Type {
	type Local struct{}
	return tof[Local]()
}
func local7() reflect.Type {
	type Local struct {
		Next *Local `json:"next"`
	}
	return tof[Local]()
}

// types which can't be told apart by their names
var locals = []reflect.Type{local1(), local2(), local3(), local4(), local5(), local6(), local7(), tof[Box[*int]](), tof[Box[[0]int]](), tof[Box[[]string]](), tof[Box[*string]]()}

var more = []reflect.Type{local1(), local2(), tof[Box[int]](), tof[Box[string]](), tof[*Box[gen.Inner]](), tof[Box[[]Kids]](), tof[Kids](), tof[*Kids](), tof[KidList](), tof[KidMap](),
	tof[A1](), tof[B1](), tof[Cold](), tof[Yes](), tof[Lead1](), tof[Lead2](), tof[Lead3](), tof[Lead4](), tof[Lead5](), tof[Lead6](), tof[Lead7](), tof[Lead8](), tof[Lead9](), tof[*Lead1](), tof[*Cold](), tof[Flag](), tof[Ptr](), tof[*Ptr](), tof[Tuple](), tof[*Tuple](), tof[Dict](), tof[enc.Pairs](), tof[*big.Int](), tof[struct{ K Kids }](),
	tof[[]*gen.Tree](), tof[gen.Tree](), tof[gen.Inner](), tof[*gen.Inner](), tof[map[gen.MyStr]gen.Emb](), tof[error](), tof[fmt.Stringer]()}

func goodType() *rapid.Generator[reflect.Type] {
	g := gen.Type(3, gen.TypeOpts{})
	return rapid.Custom(func(t *rapid.T) reflect.Type {
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			rt := rapid.SampledFrom(more).Draw(t, "declared")
			if rapid.SampledFrom([]bool{false, false, true}).Draw(t, "alike") {
				rt = rapid.SampledFrom(locals).Draw(t, "local")
			}
			switch rapid.IntRange(0, 5).Draw(t, "wrap") {
			case 0:
				return reflect.SliceOf(rt)
			case 1:
				return reflect.MapOf(tof[string](), rt)
			case 2:
				return reflect.StructOf([]reflect.StructField{{Name: "In", Type: rt, Tag: `json:"in"`}})
			}
			return rt
		}
		return g.Draw(t, "generated")
	})
}

// document adds doc and example tags to some fields
func document(t *rapid.T, op *gen.Op) {
	var fs []reflect.StructField
	authIn := map[int]bool{}
	for i := range op.Fields {
		f := &op.Fields[i]
		if f.Auth && rapid.SampledFrom([]bool{false, false, true}).Draw(t, "auth in") {
			authIn[f.Index] = true
			f.In, f.Required = true, f.AuthReq
		}
	}
	for i := 0; i < op.Type.NumField(); i++ {
		f := op.Type.Field(i)
		if authIn[i] {
			f.Tag = reflect.StructTag(strings.Replace(string(f.Tag), `api:"auth`, `api:"in,auth`, 1))
		}
		if f.IsExported() {
			if rapid.IntRange(0, 3).Draw(t, "doc") == 0 {
				f.Tag += reflect.StructTag(fmt.Sprintf(` doc:%q`, gen.Text().Draw(t, "text")))
			}
			if rapid.IntRange(0, 2).Draw(t, "example") == 0 {
				ex := rapid.OneOf(rapid.SampledFrom([]string{"NaN", "Inf", "-inf", "1e999", "0x1p-2", "true", "[1,2]", `{"a":1}`, "{", "null", "-1", "99999999999999999999", "2023-11-10T23:00:00Z", " 1 ", `"x"`, "1 2"}),
					rapid.Custom(func(t *rapid.T) string { return gen.JSON(2).Draw(t, "json").String() }), gen.Text()).Draw(t, "value")
				f.Tag += reflect.StructTag(fmt.Sprintf(` example:%q`, ex))
			}
		}
		f.Offset, f.Index = 0, nil
		fs = append(fs, f)
	}
	op.Type = reflect.StructOf(fs)
}

// ---- the document

type doc struct {
	root *gen.J
	t    *rapid.T
}

func (d doc) resolve(s *gen.J) *gen.J {
	for i := 0; i < 100; i++ {
		if r := s.Get("$ref"); r != nil {
			name, ok := strings.CutPrefix(r.S, "#/components/schemas/")
			if !ok {
				d.t.Fatalf("reference %q", r.S)
			}
			s = d.root.Get("components").Get("schemas").Get(name)
			if s == nil || s.K != 'o' {
				d.t.Fatalf("reference %q leads nowhere", r.S)
			}
			continue
		}
		if a := s.Get("allOf"); a != nil {
			if a.K != 'l' || len(a.L) != 1 {
				d.t.Fatalf("allOf %v", a)
			}
			s = a.L[0]
			continue
		}
		return s
	}
	d.t.Fatalf("endless reference %v", s)
	return nil
}

func vals(o *gen.J) map[string]*gen.J {
	out := map[string]*gen.J{}
	if o != nil && o.K == 'o' {
		for _, k := range o.Keys {
			out[k] = o.Get(k)
		}
	}
	return out
}

var compName = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)

var keywords = map[string]bool{"type": true, "format": true, "required": true, "properties": true, "additionalProperties": true, "description": true, "example": true, "items": true, "default": true, "enum": true, "allOf": true, "$ref": true}

// walk visits a schema and checks its form
func (d doc) walk(where string, s *gen.J) {
	if s == nil || s.K != 'o' {
		d.t.Fatalf("%s: schema is %v", where, s)
	}
	for k := range vals(s) {
		if !keywords[k] {
			d.t.Fatalf("%s: unknown keyword %q", where, k)
		}
	}
	if s.Get("$ref") != nil || s.Get("allOf") != nil {
		d.resolve(s)
		return
	}
	if ty := s.Get("type"); ty != nil {
		switch ty.S {
		case "string", "number", "integer", "boolean", "object":
		case "array":
			if s.Get("items") == nil {
				d.t.Fatalf("%s: array without items", where)
			}
		default:
			d.t.Fatalf("%s: type %q", where, ty.S)
		}
	}
	if s.Get("items") != nil {
		d.walk(where+"[]", s.Get("items"))
	}
	if s.Get("additionalProperties") != nil {
		d.walk(where+"{}", s.Get("additionalProperties"))
	}
	for k, p := range vals(s.Get("properties")) {
		d.walk(where+"."+k, p)
	}
}

func parse(t *rapid.T, s *openapi.Service) doc {
	n, err := enc.Marshal(c(), s) // as served
	if err != nil {
		t.Fatalf("document: %v", err)
	}
	text := enc.JSON{}.Encode(c(), n)
	root, err := gen.ParseJ(text)
	if err != nil {
		t.Fatalf("document is not JSON: %v: %s", err, text)
	}
	d := doc{root, t}
	for k, s := range vals(root.Get("components").Get("schemas")) {
		if !compName.MatchString(k) {
			t.Fatalf("invalid component name %q", k)
		}
		d.walk(k, s)
	}
	return d
}

// same tells whether two schemas say the same, whatever the components are called
func same(p string, d1 doc, s1 *gen.J, d2 doc, s2 *gen.J, seen map[[2]*gen.J]bool) string {
	r1, r2 := d1.resolve(s1), d2.resolve(s2)
	if seen[[2]*gen.J{r1, r2}] {
		return ""
	}
	seen[[2]*gen.J{r1, r2}] = true
	for _, pair := range [][2]*gen.J{{s1, s2}, {r1, r2}} {
		for k := range keywords {
			a, b := pair[0].Get(k), pair[1].Get(k)
			if (a == nil) != (b == nil) {
				return fmt.Sprintf("%s: %s: %v vs %v", p, k, a, b)
			}
			switch k {
			case "$ref", "allOf", "properties", "items", "additionalProperties":
			default:
				if a != nil && a.String() != b.String() {
					return fmt.Sprintf("%s: %s: %v vs %v", p, k, a, b)
				}
			}
		}
	}
	for _, k := range []string{"items", "additionalProperties"} {
		if r1.Get(k) != nil {
			if e := same(p+"/"+k, d1, r1.Get(k), d2, r2.Get(k), seen); e != "" {
				return e
			}
		}
	}
	p1, p2 := vals(r1.Get("properties")), vals(r2.Get("properties"))
	if names(p1) != names(p2) {
		return fmt.Sprintf("%s: properties %s vs %s", p, names(p1), names(p2))
	}
	for k := range p1 {
		if e := same(p+"."+k, d1, p1[k], d2, p2[k], seen); e != "" {
			return e
		}
	}
	return ""
}

func names(m map[string]*gen.J) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

// any JSON is possible behind these
func free(rt reflect.Type) bool {
	return rt != nil && (rt.Kind() == reflect.Interface || rt == tof[json.RawMessage]())
}

// plain: the JSON follows from the Go type
func plain(rt reflect.Type) bool {
	switch reflect.New(rt).Interface().(type) {
	case json.Marshaler, enc.Marshaler, *time.Time, enc.Node:
		return false
	}
	return true
}

// valid checks a message against a schema
func (d doc) valid(p string, s *gen.J, n *gen.J, rt reflect.Type) string {
	s = d.resolve(s)
	ptr := false
	for rt != nil && rt.Kind() == reflect.Pointer {
		rt, ptr = rt.Elem(), true
	}
	if free(rt) || n.K == 'n' || len(vals(s)) == 0 {
		return ""
	}
	ty := ""
	if x := s.Get("type"); x != nil {
		ty = x.S
	}
	kinds := map[byte]string{'o': "object", 's': "string", 'l': "array", 'b': "boolean", 'd': "number"}
	if rt == tof[[]byte]() {
		// recorded as a finding
		if ty != "string" {
			return fmt.Sprintf("%s: bytes as %s", p, ty)
		}
		return ""
	}
	if kinds[n.K] != ty {
		return fmt.Sprintf("%s: %v does not match schema %v", p, n, s)
	}
	var keep reflect.Type
	if rt != nil && (plain(rt) || rt == tof[enc.Map]() || rt == tof[enc.List]()) && !(ptr && rt == tof[Ptr]()) {
		keep = rt
	}
	switch n.K {
	case 's':
		if f := s.Get("format"); f != nil && f.S == "date-time" {
			if _, err := time.Parse(time.RFC3339Nano, n.S); err != nil {
				return fmt.Sprintf("%s: %q is not a date-time", p, n.S)
			}
		}
	case 'l':
		var e reflect.Type
		if keep != nil {
			e = keep.Elem()
		}
		for i, x := range n.L {
			if err := d.valid(fmt.Sprintf("%s[%d]", p, i), s.Get("items"), x, e); err != "" {
				return err
			}
		}
	case 'o':
		props := vals(s.Get("properties"))
		if r := s.Get("required"); r != nil {
			for _, k := range r.L {
				if n.Get(k.S) == nil {
					return fmt.Sprintf("%s: required %q is missing", p, k.S)
				}
			}
		}
		extra := s.Get("additionalProperties")
		for _, k := range n.Keys {
			x := n.Get(k)
			ps, found := props[k]
			var e reflect.Type
			switch {
			case found && keep != nil:
				for _, f := range gen.Fields(keep) {
					if f.JSON == k && !f.Skip {
						e = keep.Field(f.Index).Type
					}
				}
			case found:
			case extra != nil:
				ps = extra
				if keep != nil {
					e = keep.Elem()
				}
			case keep != nil && keep.Kind() == reflect.Struct:
				return fmt.Sprintf("%s: %q is not described in %v", p, k, s)
			default:
				continue
			}
			if err := d.valid(p+"."+k, ps, x, e); err != "" {
				return err
			}
		}
		if keep != nil && keep.Kind() == reflect.Struct { // and nothing more
			want := map[string]*gen.J{}
			for _, f := range gen.Fields(keep) {
				if !f.Skip {
					want[f.JSON] = nil
				}
			}
			if names(want) != names(props) {
				return fmt.Sprintf("%s: %v has the fields %s, described are %s", p, keep, names(want), names(props))
			}
		}
	}
	return ""
}

type registered struct {
	op *gen.Op
	h  api.Handler[any]
}

func register(t *rapid.T, ops []registered, s *openapi.Service) []*openapi.PathItem {
	var out []*openapi.PathItem
	for _, o := range ops {
		var pi *openapi.PathItem
		var err error
		vh.Within("registration", func() {
			if p := vh.Try(func() { pi, err = o.h.UpdateOpenAPI(c(), s) }); p != "" {
				t.Fatalf("%v: %s", o.op, p)
			}
		})
		if err != nil {
			t.Fatalf("%v: %v", o.op, err)
		}
		out = append(out, pi)
	}
	return out
}

func item(t *rapid.T, pi *openapi.PathItem) *gen.J {
	j, err := enc.MarshalJSON(c(), pi)
	if err != nil {
		t.Fatal(err)
	}
	x, err := gen.ParseJ(j)
	if err != nil {
		t.Fatal(err)
	}
	return x
}

func reqSchema(pi *gen.J) *gen.J {
	return pi.Get("requestBody").Get("content").Get("application/json").Get("schema")
}
func resSchema(pi *gen.J) *gen.J {
	return pi.Get("responses").Get("200").Get("content").Get("application/json").Get("schema")
}

// wants checks properties and required of the top level schema
func wants(t *rapid.T, op *gen.Op, what string, s *gen.J, in bool) {
	props := map[string]*gen.J{}
	var req []string
	for _, f := range op.Fields {
		if in && f.In || !in && f.Out {
			props[f.Name] = nil
			if in && f.Required {
				req = append(req, f.Name)
			}
		}
	}
	if s.Get("type") == nil || s.Get("type").S != "object" {
		t.Fatalf("%v: %s is described as %v", op, what, s)
	}
	if names(props) != names(vals(s.Get("properties"))) {
		t.Fatalf("%v: %s properties %s, declared %s", op, what, names(vals(s.Get("properties"))), names(props))
	}
	var got []string
	if r := s.Get("required"); r != nil {
		for _, x := range r.L {
			got = append(got, x.S)
		}
	}
	sort.Strings(got)
	sort.Strings(req)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", req) {
		t.Fatalf("%v: %s required %q, declared %q", op, what, got, req)
	}
}

func TestDocument(t *testing.T) {
	types := goodType()
	vh.Check(t, 12000, 400000, func(t *rapid.T) {
		var ops []registered
		urls := map[string]bool{}
		fields := 0
		desc := ""
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "ops"); i < n; i++ {
			op := gen.OpType(t, types, true)
			if urls[op.URLs[0]] {
				continue
			}
			urls[op.URLs[0]] = true
			document(t, op)
			h, err := api.NewHandler[any](c(), reflect.New(op.Type).Interface())
			if err != nil {
				t.Fatalf("%v: %v", op, err)
			}
			for _, f := range op.Fields {
				if f.In || f.Out {
					fields++
				}
			}
			ops = append(ops, registered{op, h})
			var us []string
			for _, u := range h.URLs() {
				us = append(us, u.Path)
			}
			if !reflect.DeepEqual(us, op.URLs) || !reflect.DeepEqual(h.Paths(), op.URLs) {
				t.Fatalf("%v: urls %q, paths %q, declared %q", op, us, h.Paths(), op.URLs)
			}
			desc += fmt.Sprintf("%v; ", op)
		}
		vh.Case(fields > 0, desc, fmt.Sprintf("ops-%d", len(ops)))
		s := openapi.NewService("t")
		pis := register(t, ops, s)
		d := parse(t, s)
		var items []*gen.J
		for i, pi := range pis {
			op := ops[i].op
			it := item(t, pi)
			items = append(items, it)
			for _, u := range op.URLs {
				at := d.root.Get("paths").Get(u)
				if at == nil || at.Get("post") == nil {
					t.Fatalf("%v: not listed at %q", op, u)
				}
				if e := (gen.Cmp{}).Diff(at.Get("post"), it); e != "" {
					t.Fatalf("%v: %s", op, e)
				}
			}
			d.walk("request", reqSchema(it))
			d.walk("response", resSchema(it))
			wants(t, op, "request", reqSchema(it), true)
			wants(t, op, "response", resSchema(it), false)
			// who may call
			sec := "<nil>"
			if x := it.Get("security"); x != nil {
				sec = x.String()
			}
			want := "<nil>"
			if a := op.Auth(); a != nil {
				want = `[{"jwt":[]},{}]`
				if a.AuthReq {
					want = `[{"jwt":[]}]`
				}
			}
			if sec != want {
				t.Fatalf("%v: security %s, want %s", op, sec, want)
			}
			for _, f := range op.Fields {
				if !f.In && !f.Out {
					continue
				}
				for _, top := range []*gen.J{reqSchema(it), resSchema(it)} {
					ps := top.Get("properties").Get(f.Name)
					if ps == nil {
						continue
					}
					wantDoc := op.Type.Field(f.Index).Tag.Get("doc")
					got := ""
					if x := ps.Get("description"); x != nil {
						got = x.S
					}
					// an example is shown as its value, or else as it is written
					ex, shown := strings.TrimSpace(op.Type.Field(f.Index).Tag.Get("example")), ps.Get("example")
					switch {
					case ex == "" && shown != nil:
						t.Fatalf("%v: field %s has the example %v", op, f.Name, shown)
					case ex != "" && shown != nil:
						ok := shown.K == 's' && strings.TrimSpace(shown.S) == strings.TrimSpace(strings.ToValidUTF8(ex, "\ufffd"))
						if v, err := gen.ParseJ([]byte(ex)); err == nil && (gen.Cmp{}).Diff(v, shown) == "" {
							ok = true
						}
						if shown.K == 'd' {
							x, err1 := strconv.ParseFloat(ex, 64)
							y, err2 := strconv.ParseFloat(shown.String(), 64)
							ok = ok || err1 == nil && err2 == nil && x == y
						}
						if b, err := strconv.ParseBool(ex); err == nil && shown.K == 'b' {
							ok = shown.String() == strconv.FormatBool(b)
						}
						if !ok {
							t.Fatalf("%v: field %s has the example %v, written is %q", op, f.Name, shown, ex)
						}
						vh.Label("examples")
					case ex != "" && strings.TrimSpace(ex) != "null":
						vh.Label("examples left out")
					}
					if got != strings.ToValidUTF8(wantDoc, "\ufffd") {
						t.Fatalf("%v: field %s is described as %q, documented as %q", op, f.Name, got, wantDoc)
					}
				}
			}
		}
		// the messages
		for i, o := range ops {
			for k := 0; k < 2; k++ {
				v := reflect.New(o.op.Type)
				o.op.Fill(t, v.Elem(), 3)
				for _, in := range []bool{true, false} {
					msg := &api.JSON{}
					var err error
					sch := reqSchema(items[i])
					if in {
						err = o.h.Client().Send(c(), v.Interface(), msg)
					} else {
						err = o.h.Server().Send(c(), v.Interface(), msg)
						sch = resSchema(items[i])
					}
					if err != nil {
						vh.Label("no message")
						continue
					}
					if msg.Data == nil {
						continue
					}
					n, err := gen.ParseJ(enc.JSON{}.Encode(c(), msg.Data))
					if err != nil {
						t.Fatal(err)
					}
					for _, f := range o.op.Fields {
						ps := sch.Get("properties").Get(f.Name)
						x := n.Get(f.Name)
						if ps == nil || x == nil {
							continue
						}
						vh.Label("message fields")
						if e := d.valid(f.Name, ps, x, f.Type); e != "" {
							t.Fatalf("%v: %s", o.op, e)
						}
					}
					if e := d.valid("message", sch, n, nil); e != "" && !anyFree(o.op) {
						t.Fatalf("%v: %s", o.op, e)
					}
				}
			}
		}
		// another order, and alone
		perm := rapid.Permutation(ops).Draw(t, "order")
		s2 := openapi.NewService("t")
		pis2 := register(t, perm, s2)
		d2 := parse(t, s2)
		for i, o := range perm {
			for j := range ops {
				if ops[j].op != o.op {
					continue
				}
				it2 := item(t, pis2[i])
				if e := same("request", d, reqSchema(items[j]), d2, reqSchema(it2), map[[2]*gen.J]bool{}); e != "" {
					t.Fatalf("%s: %v depends on the order: %s", desc, o.op, e)
				}
				if e := same("response", d, resSchema(items[j]), d2, resSchema(it2), map[[2]*gen.J]bool{}); e != "" {
					t.Fatalf("%s: %v depends on the order: %s", desc, o.op, e)
				}
			}
		}
	})
}

func anyFree(op *gen.Op) bool {
	for _, f := range op.Fields {
		if hasFree(f.Type, 6) {
			return true
		}
	}
	return false
}

func hasFree(rt reflect.Type, depth int) bool {
	if depth == 0 || free(rt) || rt == tof[[]byte]() {
		return depth > 0
	}
	switch rt.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasFree(rt.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if hasFree(rt.Field(i).Type, depth-1) {
				return true
			}
		}
	}
	return false
}

// ---- what can't be described

type L []L
type M map[string]M
type P *P
type LS []struct{ Next LS }
type PM *map[string]PM
type Holder struct {
	A int
	L L
}
type Half struct {
	Ok  *Other `json:"ok"`
	Bad chan int
}
type Other struct {
	Back *Half `json:"back"`
	N    int
}

var bad = []reflect.Type{tof[chan int](), tof[func()](), tof[complex64](), tof[complex128](), tof[uintptr](), tof[L](), tof[M](), tof[P](), tof[LS](), tof[PM](), tof[Holder](), tof[Half](), tof[Other](), tof[map[complex64]int]()}

func TestRefused(t *testing.T) {
	types := goodType()
	vh.Check(t, 6000, 150000, func(t *rapid.T) {
		rt := rapid.SampledFrom(bad).Draw(t, "bad")
		name := fmt.Sprint(rt)
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "depth"); i < n; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "wrap") {
			case 0:
				rt = reflect.SliceOf(rt)
			case 1:
				rt = reflect.PointerTo(rt)
			case 2:
				rt = reflect.MapOf(tof[string](), rt)
			case 3:
				rt = reflect.ArrayOf(2, rt)
			case 4:
				rt = reflect.StructOf([]reflect.StructField{{Name: "S", Type: types.Draw(t, "sibling")}, {Name: "X", Type: rt}, {Name: "I", Type: tof[gen.Inner]()}})
			}
		}
		dir := rapid.SampledFrom([]string{"in", "out", "both", "in,required"}).Draw(t, "dir")
		rtOp := reflect.StructOf([]reflect.StructField{{Name: "R", Type: tof[api.Request](), Tag: `url:"/bad"`}, {Name: "F", Type: tof[gen.Tree](), Tag: `api:"in"`}, {Name: "X", Type: rt, Tag: reflect.StructTag(`api:"` + dir + `"`)}})
		desc := fmt.Sprintf("%v %v", dir, rt)
		vh.Case(true, desc, name)
		h, err := api.NewHandler[any](c(), reflect.New(rtOp).Interface())
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		good := gen.OpType(t, types, true)
		hg, err := api.NewHandler[any](c(), reflect.New(good.Type).Interface())
		if err != nil {
			t.Fatal(err)
		}
		s := openapi.NewService("t")
		first := rapid.Bool().Draw(t, "first")
		var gp *openapi.PathItem
		if first {
			gp = register(t, []registered{{good, hg}}, s)[0]
		}
		vh.Within(desc, func() {
			if p := vh.Try(func() { _, err = h.UpdateOpenAPI(c(), s) }); p != "" {
				t.Fatalf("%s: %s", desc, p)
			}
		})
		if err == nil {
			t.Fatalf("%s: described", desc)
		}
		if s.Paths["/bad"] != nil {
			t.Fatalf("%s: refused but listed", desc)
		}
		if !first {
			gp = register(t, []registered{{good, hg}}, s)[0]
		}
		// what was refused leaves nothing half done
		d := parse(t, s)
		s2 := openapi.NewService("t")
		gp2 := register(t, []registered{{good, hg}}, s2)[0]
		d2 := parse(t, s2)
		for _, f := range []func(*gen.J) *gen.J{reqSchema, resSchema} {
			if e := same("schema", d, f(item(t, gp)), d2, f(item(t, gp2)), map[[2]*gen.J]bool{}); e != "" {
				t.Fatalf("%s: changed %v: %s", desc, good, e)
			}
		}
	})
}

// ---- recorded findings

type bytesOp struct {
	R api.Request `url:"/b"`
	B []byte      `api:"both" json:"b"`
}

func TestBytes(t *testing.T) {
	vh.Known(t, "bytes", "[]byte is described as a base64 string, but sent as a list of numbers", func() error {
		h, err := api.NewHandler(c(), &bytesOp{})
		if err != nil {
			return err
		}
		s := openapi.NewService("t")
		pi, err := h.UpdateOpenAPI(c(), s)
		if err != nil {
			return err
		}
		msg := &api.JSON{}
		if err := h.Client().Send(c(), &bytesOp{B: []byte("x")}, msg); err != nil {
			return err
		}
		_, isStr := msg.Data["b"].(enc.String)
		if ty := pi.RequestBody.Content["application/json"].Schema.Properties["b"].Type; (ty == "string") != isStr {
			return fmt.Errorf("schema says %s, sent is %v", ty, msg.Data["b"])
		}
		return nil
	})
}
