package a01

import (
	"fmt"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "A01", "generated operation types (input, output, both, identity, undeclared and unexported fields of generated types), a filled template, and 1-4 requests with present, absent and smuggled keys on one handler, or over HTTP to declared operations over 12 types; non-trivial: the operation has an input or output field and the request a key")
}

func c() ctx.C { return ctx.TODO() }

func prop(t *rapid.T, types *rapid.Generator[reflect.Type]) {
	op := gen.OpType(t, types, rapid.Bool().Draw(t, "url"))
	tmpl := reflect.New(op.Type)
	filled := rapid.IntRange(0, 3).Draw(t, "template") > 0
	if filled {
		op.Fill(t, tmpl.Elem(), 2)
	}
	held := map[int]string{}
	for _, f := range op.Fields {
		held[f.Index] = gen.Show(tmpl.Elem().Field(f.Index))
	}
	init := tmpl.Interface()
	if !filled && rapid.Bool().Draw(t, "nil") {
		init = reflect.Zero(tmpl.Type()).Interface()
	}
	var srv api.Server[any]
	var err error
	if p := vh.Try(func() { srv, err = api.NewServer(c(), init) }); p != "" || err != nil {
		t.Fatalf("%v: %v %s", op, err, p)
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "requests"); i < n; i++ {
		round(t, op, tmpl, held, true, func(req *api.JSON, do func(obj any)) (enc.Map, error) {
			obj, err := srv.Recv(c(), req)
			if err != nil {
				return nil, err
			}
			do(obj)
			res := &api.JSON{}
			if err := srv.Send(c(), obj, res); err != nil {
				t.Fatalf("%v: response: %v", op, err)
			}
			return res.Data, nil
		})
	}
}

// round makes one request, locally or over HTTP; exchange has to call do with the object which runs, and returns the response or why the request is refused
func round(t *rapid.T, op *gen.Op, tmpl reflect.Value, held map[int]string, local bool, exchange func(req *api.JSON, do func(obj any)) (enc.Map, error)) {
	data := enc.Map{}
	sent := map[int]reflect.Value{}
	keys, smuggled := 0, 0
	missing := false
	for _, f := range op.Fields {
		if f.Hidden {
			if !named(op, op.Type.Field(f.Index).Name) && rapid.Bool().Draw(t, "smuggle") {
				data[op.Type.Field(f.Index).Name] = enc.Integer(66)
				smuggled++
			}
			continue
		}
		switch {
		case f.In:
			if rapid.IntRange(0, 3).Draw(t, "absent") == 0 {
				missing = missing || f.Required
				continue
			}
			v := gen.Value(t, f.Type, 2, false)
			n, err := enc.Marshal(c(), v.Interface())
			if err != nil {
				t.Fatalf("%v: %v", f, err)
			}
			back := reflect.New(f.Type)
			if err := enc.Unmarshal(c(), n, back.Interface()); err != nil {
				t.Fatalf("%v: %v", f, err)
			}
			missing = missing || f.Required && back.Elem().IsZero()
			data[f.Name] = n
			sent[f.Index] = v
			keys++
		default: // not an input, under either name
			if rapid.Bool().Draw(t, "smuggle") {
				n, err := enc.Marshal(c(), gen.Value(t, f.Type, 2, false).Interface())
				if err != nil {
					t.Fatal(err)
				}
				data[f.Name] = n
				smuggled++
			}
		}
	}
	for _, f := range op.Fields { // by the Go name, when the declared one is another
		name := op.Type.Field(f.Index).Name
		if _, ok := data[name]; !ok && !named(op, name) && rapid.IntRange(0, 3).Draw(t, "goname") == 0 {
			data[name] = enc.Integer(67)
			smuggled++
		}
	}
	for _, f := range op.Fields { // by the json name, when the enc one comes first
		name, _, _ := strings.Cut(op.Type.Field(f.Index).Tag.Get("json"), ",")
		if _, ok := data[name]; !ok && name != "" && !named(op, name) && rapid.Bool().Draw(t, "jsonname") {
			data[name] = enc.Integer(68)
			smuggled++
		}
	}
	req := &api.JSON{Data: data}
	if rapid.Bool().Draw(t, "text") {
		req = &api.JSON{}
		if err := req.ReadFrom(c(), strings.NewReader(text(t, data))); err != nil {
			t.Fatalf("%v: read: %v", data, err)
		}
	}
	authMissing := false
	var uid reflect.Value
	if a := op.Auth(); a != nil {
		if local && rapid.Bool().Draw(t, "identity") {
			uid = gen.Value(t, a.Type, 2, true)
			n, err := enc.Marshal(c(), uid.Interface())
			if err != nil {
				t.Fatal(err)
			}
			req.UID = n
		} else {
			authMissing = a.AuthReq
		}
	}
	desc := fmt.Sprintf("%v <- %v", op, data)
	vh.Case(len(op.Fields) > 0 && keys+smuggled > 0, desc, fmt.Sprintf("smuggled-%d", min(smuggled, 3)))
	var v reflect.Value
	ran := 0
	var res enc.Map
	var err error
	if p := vh.Try(func() {
		res, err = exchange(req, func(obj any) {
			ran++
			v = reflect.ValueOf(obj)
			checkObject(t, desc, op, tmpl, held, v, sent, uid)
			// the operation runs: it changes its own fields and nothing else
			for _, f := range op.Fields {
				if !f.Hidden && (f.Out || rapid.Bool().Draw(t, "touch")) {
					v.Elem().Field(f.Index).Set(gen.Value(t, f.Type, 2, false))
				}
			}
		})
	}); p != "" {
		t.Fatalf("%s: %s", desc, p)
	}
	if missing || authMissing {
		if err == nil || ran > 0 {
			t.Fatalf("%s: accepted without a required field", desc)
		}
		return
	}
	if err != nil {
		t.Fatalf("%s: refused: %v", desc, err)
	}
	if ran != 1 {
		t.Fatalf("%s: ran %d times", desc, ran)
	}
	v = v.Elem()
	var want, got []string
	for _, f := range op.Fields {
		if !f.Out {
			continue
		}
		want = append(want, f.Name)
		n, err := enc.Marshal(c(), v.Field(f.Index).Interface())
		if err != nil {
			t.Fatal(err)
		}
		if !local { // it was sent as text
			if n, err = (enc.JSON{}).Decode(c(), enc.JSON{}.Encode(c(), n)); err != nil {
				t.Fatal(err)
			}
		}
		a, e1 := gen.ModelOf(n)
		b, e2 := gen.ModelOf(res[f.Name])
		if e1 != nil || e2 != nil {
			t.Fatalf("%v %v", e1, e2)
		}
		if d := (gen.Cmp{}).Diff(a, b); d != "" {
			t.Fatalf("%s: output %s: %s", desc, f.Name, d)
		}
	}
	for k := range res {
		got = append(got, k)
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
		t.Fatalf("%s: response has %q, declared %q", desc, got, want)
	}
	for _, f := range op.Fields {
		if got := gen.Show(tmpl.Elem().Field(f.Index)); got != held[f.Index] {
			t.Fatalf("%s: the template changed from %s to %s", desc, held[f.Index], got)
		}
	}
}

// checkObject tells whether the object the operation runs on is made of the request and the template
func checkObject(t *rapid.T, desc string, op *gen.Op, tmpl reflect.Value, held map[int]string, v reflect.Value, sent map[int]reflect.Value, uid reflect.Value) {
	if v.Type() != tmpl.Type() || op.Type.Size() > 0 && v.Pointer() == tmpl.Pointer() {
		t.Fatalf("%s: got %v (template itself: %v)", desc, v.Type(), v.Pointer() == tmpl.Pointer())
	}
	v = v.Elem()
	for _, f := range op.Fields {
		fv := v.Field(f.Index)
		name := op.Type.Field(f.Index).Name
		switch {
		case f.In && sent[f.Index].IsValid():
			if d := gen.Same(sent[f.Index], fv); d != "" {
				t.Fatalf("%s: input %s: %s", desc, name, d)
			}
		case f.In || f.Out:
			if !fv.IsZero() {
				t.Fatalf("%s: %s is not in the request but holds %s", desc, name, gen.Show(fv))
			}
		case f.Auth && uid.IsValid():
			if d := gen.Same(uid, fv); d != "" {
				t.Fatalf("%s: identity %s: %s", desc, name, d)
			}
		default:
			if got := gen.Show(fv); got != held[f.Index] {
				t.Fatalf("%s: %s is %s, the template holds %s", desc, name, got, held[f.Index])
			}
		}
	}
}

// text is what is sent for the data: nothing at all stands for no inputs
func text(t *rapid.T, data enc.Map) string {
	if len(data) == 0 && rapid.Bool().Draw(t, "empty") {
		vh.Label("empty request")
		return ""
	}
	return string(enc.JSON{}.Encode(c(), data))
}

func named(op *gen.Op, name string) bool {
	for _, f := range op.Fields {
		if f.Name == name && f.In {
			return true
		}
	}
	return false
}

// ---- over HTTP

type runner struct{ do func(obj any) }

type Wide[T any] struct {
	R    api.Request  `url:"/w"`
	In   T            `api:"in" json:"in"`
	List []T          `api:"in" json:"list,omitempty"`
	R2   api.Request  `url:"/w/too"`
	Both T            `api:"both" json:"both"`
	Dict map[string]T `api:"in,out"`
	Out  T            `api:"out" json:"out"`
	Res  []T          `api:"out" json:"res,omitempty"`
	Uid  string       `api:"auth" json:"uid"`
	Held T            `json:"held"`
	priv int
	run  *runner
}

func (o *Wide[T]) Do(ctx.C) error { o.run.do(o); return nil }

// Narrow has no output, and something which is required
type Narrow[T any] struct {
	A    T           `api:"in,required" json:"a"`
	B    []T         `api:"in"`
	R    api.Request `url:"/n"`
	Held T
	run  *runner
}

func (o *Narrow[T]) Do(ctx.C) error { o.run.do(o); return nil }

// Source has no input
type Source[T any] struct {
	A    T   `api:"out" json:"a"`
	B    []T `api:"out"`
	Held map[string]T
	R    api.Request `url:"/s"`
	run  *runner
}

func (o *Source[T]) Do(ctx.C) error { o.run.do(o); return nil }

func ops[T any](r *runner) []fhttp.Doable {
	return []fhttp.Doable{&Wide[T]{run: r}, &Narrow[T]{run: r}, &Source[T]{run: r}}
}

// opOf describes a declared operation
func opOf(rt reflect.Type) *gen.Op {
	op := &gen.Op{Type: rt}
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		if u := f.Tag.Get("url"); u != "" {
			op.URLs = append(op.URLs, u)
			continue
		}
		if f.Name == "run" {
			continue
		}
		tag := "," + f.Tag.Get("api") + ","
		has := func(w string) bool { return strings.Contains(tag, ","+w+",") }
		x := gen.OpField{Index: i, Type: f.Type, Hidden: !f.IsExported(), In: has("in") || has("both"), Out: has("out") || has("both"), Auth: has("auth"), Required: has("required")}
		x.Name, _, _ = strings.Cut(f.Tag.Get("json"), ",")
		if x.Name == "" {
			x.Name = f.Name
		}
		op.Fields = append(op.Fields, x)
	}
	return op
}

func TestHTTP(t *testing.T) {
	sets := []func(*runner) []fhttp.Doable{ops[int], ops[string], ops[any], ops[gen.Inner], ops[*gen.Inner], ops[[]string], ops[map[string]int], ops[float64], ops[time.Time], ops[enc.Node], ops[*bool], ops[gen.Tree]}
	vh.Check(t, 4000, 200000, func(t *rapid.T) {
		s := fhttp.NewServer(c())
		r := &runner{}
		objs := rapid.SampledFrom(sets).Draw(t, "type")(r)
		var all []*gen.Op
		var tmpls []reflect.Value
		var helds []map[int]string
		for _, o := range objs {
			tmpl := reflect.ValueOf(o)
			op := opOf(tmpl.Type().Elem())
			if rapid.IntRange(0, 3).Draw(t, "template") > 0 {
				op.Fill(t, tmpl.Elem(), 2)
			}
			held := map[int]string{}
			for _, f := range op.Fields {
				held[f.Index] = gen.Show(tmpl.Elem().Field(f.Index))
			}
			if p := vh.Try(func() {
				if _, err := s.RegisterAPI(c(), o); err != nil {
					t.Fatalf("%v: %v", op, err)
				}
			}); p != "" {
				t.Fatalf("%v: %s", op, p)
			}
			all, tmpls, helds = append(all, op), append(tmpls, tmpl), append(helds, held)
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "requests"); i < n; i++ {
			k := rapid.IntRange(0, len(all)-1).Draw(t, "op")
			op := all[k]
			round(t, op, tmpls[k], helds[k], false, func(req *api.JSON, do func(obj any)) (enc.Map, error) {
				var failed any
				r.do = func(obj any) {
					defer func() {
						if failed = recover(); failed != nil {
							panic("stop")
						}
					}()
					do(obj)
				}
				w := httptest.NewRecorder()
				q := httptest.NewRequest("POST", rapid.SampledFrom(op.URLs).Draw(t, "url"), strings.NewReader(text(t, req.Data)))
				msg := vh.Try(func() { s.Mux().ServeHTTP(w, q) })
				if failed != nil { // a verdict, whatever became of it
					panic(failed)
				}
				if msg != "" {
					t.Fatalf("%v: %s", op, msg)
				}
				if w.Code != 200 {
					return nil, fmt.Errorf("%d %s", w.Code, w.Body)
				}
				if w.Body.String() == "null" || w.Body.Len() == 0 { // nothing to say
					return nil, nil
				}
				n, err := enc.JSON{}.Decode(c(), w.Body.Bytes())
				if err != nil {
					t.Fatalf("%v: response %q: %v", op, w.Body, err)
				}
				m, ok := n.(enc.Map)
				if !ok {
					t.Fatalf("%v: response %q", op, w.Body)
				}
				vh.Label("http")
				return m, nil
			})
		}
	})
}

func TestAny(t *testing.T) {
	vh.Check(t, 20000, 800000, func(t *rapid.T) { prop(t, gen.Type(2, gen.TypeOpts{})) })
}

func TestPlain(t *testing.T) {
	vh.Check(t, 20000, 800000, func(t *rapid.T) { prop(t, gen.Type(0, gen.TypeOpts{})) })
}
