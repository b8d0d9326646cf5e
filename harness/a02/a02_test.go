package a02

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "A02", "operations with required and optional input and identity fields; requests with each key absent, null, zero, good or of the wrong type, and identity absent, null, good or of the wrong type; non-trivial: the operation requires something or declares an identity")
}

func c() ctx.C { return ctx.TODO() }

var types = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf(uint8(0)), reflect.TypeOf(1.5), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf((*string)(nil)),
	reflect.TypeOf((*int)(nil)), reflect.TypeOf(gen.Inner{}), reflect.TypeOf(gen.MyStr("")), reflect.TypeOf([2]int{}), reflect.TypeOf(enc.Time{}), reflect.TypeOf(gen.Point{}), reflect.TypeOf((*any)(nil)).Elem()}

// wrong finds a node which does not fit the type, nil if everything does
func wrong(rt reflect.Type) enc.Node {
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	switch rt.Kind() {
	case reflect.Interface:
		return nil
	case reflect.String:
		return enc.List{enc.Integer(1)}
	case reflect.Slice, reflect.Array:
		return enc.String("x")
	default:
		return enc.List{enc.String("x"), enc.Bool(true), enc.Map{}}
	}
}

func TestRequired(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		op := gen.OpType(t, rapid.SampledFrom(types), rapid.Bool().Draw(t, "url"))
		tmpl := reflect.New(op.Type)
		if rapid.Bool().Draw(t, "filled") {
			op.Fill(t, tmpl.Elem(), 2)
		}
		srv, err := api.NewServer[any](c(), tmpl.Interface())
		if err != nil {
			t.Fatalf("%v: %v", op, err)
		}
		data := enc.Map{}
		refuse := ""
		demands := 0
		for _, f := range op.Fields {
			if !f.In {
				if !f.Hidden && rapid.Bool().Draw(t, "smuggle") {
					data[f.Name] = enc.MustMarshal(c(), gen.Value(t, f.Type, 1, true).Interface())
				}
				continue
			}
			if f.Required {
				demands++
			}
			switch rapid.IntRange(0, 7).Draw(t, "how") {
			case 0:
				if f.Required {
					refuse = f.Name + " is absent"
				}
			case 1:
				data[f.Name] = enc.Nil{}
				if f.Required {
					refuse = f.Name + " is null"
				} else if err := enc.Unmarshal(c(), enc.Nil{}, reflect.New(f.Type).Interface()); err != nil {
					refuse = f.Name + " does not take null"
				}
			case 2:
				data[f.Name] = enc.MustMarshal(c(), reflect.Zero(f.Type).Interface())
				if f.Required {
					refuse = f.Name + " is zero"
				}
			case 3:
				if w := wrong(f.Type); w != nil {
					data[f.Name] = w
					refuse = f.Name + " has the wrong type"
				} else if f.Required {
					refuse = f.Name + " is absent"
				}
			default:
				v := gen.Value(t, f.Type, 1, true)
				n := enc.MustMarshal(c(), v.Interface())
				data[f.Name] = n
				back := reflect.New(f.Type)
				if err := enc.Unmarshal(c(), n, back.Interface()); err != nil {
					t.Fatal(err)
				}
				if f.Required && back.Elem().IsZero() {
					refuse = f.Name + " is zero"
				}
			}
		}
		req := &api.JSON{Data: data}
		if rapid.Bool().Draw(t, "text") {
			req = &api.JSON{}
			if err := req.ReadFrom(c(), strings.NewReader(string(enc.JSON{}.Encode(c(), data)))); err != nil {
				t.Fatalf("%v: read: %v", data, err)
			}
		}
		a := op.Auth()
		var uid reflect.Value
		who := "none"
		switch rapid.IntRange(0, 4).Draw(t, "identity") {
		case 0:
		case 1:
			req.UID = enc.Nil{}
			who = "null"
		case 2:
			who = "wrong"
			req.UID = enc.List{enc.Bool(true)}
			if a != nil {
				req.UID = wrong(a.Type)
				if req.UID != nil {
					refuse = "the identity has the wrong type"
				}
			}
		default:
			who = "good"
			req.UID = enc.String("someone")
			if a != nil {
				uid = gen.Value(t, a.Type, 1, true)
				req.UID = enc.MustMarshal(c(), uid.Interface())
			}
		}
		if a != nil {
			if _, isNil := req.UID.(enc.Nil); (req.UID == nil || isNil) && a.AuthReq {
				refuse = "nobody is authenticated"
			}
		}
		if a != nil {
			demands++
		}
		desc := fmt.Sprintf("%v <- %v by %s %v", op, data, who, req.UID)
		label := "accept"
		if refuse != "" {
			label = "refuse"
		}
		vh.Case(demands > 0, desc, label, "identity-"+who)
		var obj any
		if p := vh.Try(func() { obj, err = srv.Recv(c(), req) }); p != "" {
			t.Fatalf("%s: %s", desc, p)
		}
		if refuse != "" {
			if err == nil {
				t.Fatalf("%s: accepted although %s", desc, refuse)
			}
			if obj != nil {
				t.Fatalf("%s: refused but gave %v", desc, obj)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: refused: %v", desc, err)
		}
		res := &api.JSON{}
		if err := srv.Send(c(), obj, res); err != nil {
			t.Fatalf("%s: response: %v", desc, err)
		}
		if a == nil {
			return
		}
		fv := reflect.ValueOf(obj).Elem().Field(a.Index)
		if uid.IsValid() {
			if d := gen.Same(uid, fv); d != "" {
				t.Fatalf("%s: identity: %s", desc, d)
			}
		} else if who != "wrong" && gen.Show(fv) != gen.Show(tmpl.Elem().Field(a.Index)) {
			t.Fatalf("%s: nobody is authenticated, but the identity is %s", desc, gen.Show(fv))
		}
		if n, found := res.Data[a.Name]; found {
			t.Fatalf("%s: the response tells the identity: %v", desc, n)
		}
	})
}

// ---- the identity, whatever else the field is declared for

type Org struct {
	Name string `json:"name,omitempty"`
	Plan string `json:"plan,omitempty"`
}

type Identity struct {
	ID    string            `json:"id"`
	Admin bool              `json:"admin,omitempty"`
	Roles []string          `json:"roles,omitempty"`
	Limit *int              `json:"limit,omitempty"`
	Attrs map[string]string `json:"attrs,omitempty"`
	Org   Org               `json:"org"`
	Boss  *Org              `json:"boss,omitempty"`
	inner int               // the template's
}

var identities = []reflect.Type{reflect.TypeOf(Identity{}), reflect.TypeOf(&Identity{}), reflect.TypeOf(Identity{}), reflect.TypeOf(""), reflect.TypeOf(map[string]string{}),
	reflect.TypeOf(map[string]Org{}), reflect.TypeOf([]string{}), reflect.TypeOf([]Org{}), reflect.TypeOf([1]Org{}), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(enc.Map{}), reflect.TypeOf((*string)(nil))}

// partial drops some of the keys, at any depth
func partial(t *rapid.T, n enc.Node) enc.Node {
	switch n := n.(type) {
	case enc.Map:
		out := enc.Map{}
		for _, k := range []string{"id", "admin", "roles", "limit", "attrs", "org", "boss", "name", "plan"} {
			if v, ok := n[k]; ok && rapid.IntRange(0, 2).Draw(t, "keep "+k) > 0 {
				out[k] = partial(t, v)
			}
		}
		return out
	case enc.List:
		out := enc.List{}
		for _, v := range n {
			out = append(out, partial(t, v))
		}
		return out
	}
	return n
}

func TestIdentity(t *testing.T) {
	vh.Check(t, 20000, 600000, func(t *rapid.T) {
		rt := rapid.SampledFrom(identities).Draw(t, "type")
		required := rapid.Bool().Draw(t, "required")
		tag := "auth"
		if required {
			tag = rapid.SampledFrom([]string{"auth,required", "required,auth"}).Draw(t, "order")
		}
		in := false
		if !required && rapid.IntRange(0, 2).Draw(t, "also in") == 0 || required && rapid.IntRange(0, 2).Draw(t, "also in") == 0 {
			in, tag = true, rapid.SampledFrom([]string{"in," + tag, tag + ",in"}).Draw(t, "combined")
		}
		fields := []reflect.StructField{
			{Name: "R", Type: reflect.TypeOf(api.Request{}), Tag: `url:"/who"`},
			{Name: "Who", Type: rt, Tag: reflect.StructTag(`api:"` + tag + `" json:"who"`)},
			{Name: "What", Type: reflect.TypeOf(0), Tag: `api:"in" json:"what"`},
		}
		if rapid.Bool().Draw(t, "swap") {
			fields[1], fields[2] = fields[2], fields[1]
		}
		op := reflect.StructOf(fields)
		tmpl := reflect.New(op)
		if rapid.IntRange(0, 3).Draw(t, "template") > 0 {
			tmpl.Elem().FieldByName("Who").Set(gen.Value(t, rt, 2, true))
		}
		before := gen.Show(tmpl.Elem())
		srv, err := api.NewServer[any](c(), tmpl.Interface())
		if err != nil {
			if in {
				vh.Case(false, tag, "combination refused")
				return
			}
			t.Fatalf("%v: %v", op, err)
		}
		value := func(name string) enc.Node {
			if rapid.IntRange(0, 3).Draw(t, name) == 0 {
				return nil
			}
			n := enc.MustMarshal(c(), gen.Value(t, rt, 2, true).Interface())
			if rt.Kind() != reflect.Interface && rt != reflect.TypeOf(enc.Map{}) {
				n = partial(t, n)
			}
			return n
		}
		req := &api.JSON{Data: enc.Map{"what": enc.Integer(1)}, UID: value("uid")}
		smuggled := value("smuggled")
		if smuggled != nil {
			req.Data["who"] = smuggled
		}
		if rapid.IntRange(0, 3).Draw(t, "by field name") == 0 {
			req.Data["Who"] = enc.MustMarshal(c(), gen.Value(t, rt, 1, true).Interface())
		}
		_, null := req.UID.(enc.Nil)
		nobody := req.UID == nil || null
		desc := fmt.Sprintf("%q %v template %s <- %v by %v", tag, rt, before, req.Data, req.UID)
		label := "somebody"
		if nobody {
			label = "nobody"
		}
		vh.Case(!nobody || smuggled != nil, desc, label, fmt.Sprintf("in=%v", in))
		var obj any
		if p := vh.Try(func() { obj, err = srv.Recv(c(), req) }); p != "" {
			t.Fatalf("%s: %s", desc, p)
		}
		if after := gen.Show(tmpl.Elem()); after != before {
			t.Fatalf("%s: the template is now %s", desc, after)
		}
		if nobody && required {
			if err == nil {
				t.Fatalf("%s: accepted, although nobody is authenticated", desc)
			}
			return
		}
		if err != nil {
			if in { // the request data might not fit
				return
			}
			t.Fatalf("%s: %v", desc, err)
		}
		got := gen.Show(reflect.ValueOf(obj).Elem().FieldByName("Who"))
		if nobody {
			if got != gen.Show(tmpl.Elem().FieldByName("Who")) && got != gen.Show(reflect.Zero(rt)) {
				t.Fatalf("%s: nobody is authenticated, but the identity is %s", desc, got)
			}
			return
		}
		want := reflect.New(rt)
		if err := enc.Unmarshal(c(), req.UID, want.Interface()); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if w := gen.Show(want.Elem()); got != w {
			t.Fatalf("%s: the identity is %s instead of %s", desc, got, w)
		}
	})
}
