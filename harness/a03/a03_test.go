package a03

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "A03", "generated operation types with filled client and server objects, exchanged as data tree or as JSON text, plus exchanges which can not work; non-trivial: at least one input and one output field")
}

func c() ctx.C { return ctx.TODO() }

// wire carries the message as it is or as text
func wire(t *rapid.T, j *api.JSON) *api.JSON {
	if j.Data == nil {
		j.Data = enc.Map{}
	}
	if rapid.Bool().Draw(t, "tree") {
		return &api.JSON{Data: j.Data}
	}
	out := &api.JSON{}
	if err := out.ReadFrom(c(), strings.NewReader(string(enc.JSON{Indent: rapid.Bool().Draw(t, "indent")}.Encode(c(), j.Data)))); err != nil {
		t.Fatalf("own message %v refused: %v", j.Data, err)
	}
	return out
}

func keys(m enc.Map) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return fmt.Sprintf("%q", out)
}

func prop(t *rapid.T, types *rapid.Generator[reflect.Type]) {
	op := gen.OpType(t, types, rapid.Bool().Draw(t, "url"))
	h, err := api.NewHandler[any](c(), reflect.New(op.Type).Interface())
	if err != nil {
		t.Fatalf("%v: %v", op, err)
	}
	client := reflect.New(op.Type)
	op.Fill(t, client.Elem(), 2)
	need := false
	var ins, outs []string
	for _, f := range op.Fields {
		if f.In {
			ins = append(ins, f.Name)
		}
		if f.Out {
			outs = append(outs, f.Name)
		}
	}
	sort.Strings(ins)
	sort.Strings(outs)
	desc := fmt.Sprintf("%v %s", op, gen.Show(client.Elem()))
	vh.Case(len(ins) > 0 && len(outs) > 0, desc, fmt.Sprintf("in-%d", min(3, len(ins))), fmt.Sprintf("out-%d", min(3, len(outs))))
	before := map[int]string{}
	for _, f := range op.Fields {
		before[f.Index] = gen.Show(client.Elem().Field(f.Index))
	}
	if p := vh.Try(func() {
		msg := &api.JSON{}
		if err := h.Client().Send(c(), client.Interface(), msg); err != nil {
			t.Fatalf("%s: send: %v", desc, err)
		}
		if keys(msg.Data) != fmt.Sprintf("%q", ins) && len(ins) > 0 {
			t.Fatalf("%s: request carries %s, declared %q", desc, keys(msg.Data), ins)
		}
		req := wire(t, msg)
		for _, f := range op.Fields {
			if f.Required {
				back := reflect.New(f.Type)
				if err := enc.Unmarshal(c(), req.Data[f.Name], back.Interface()); err != nil {
					t.Fatalf("%s: %s of %v: %v", desc, f.Name, req.Data, err)
				}
				need = need || back.Elem().IsZero()
			}
		}
		if a := op.Auth(); a != nil {
			req.UID = enc.MustMarshal(c(), gen.Value(t, a.Type, 1, true).Interface())
		}
		obj, err := h.Server().Recv(c(), req)
		if need {
			if err == nil {
				t.Fatalf("%s: required field missing, accepted", desc)
			}
			vh.Label("refused")
			return
		}
		if err != nil {
			t.Fatalf("%s: request %v refused: %v", desc, msg.Data, err)
		}
		sv := reflect.ValueOf(obj).Elem()
		for _, f := range op.Fields {
			if f.In {
				if d := gen.Same(client.Elem().Field(f.Index), sv.Field(f.Index)); d != "" {
					t.Fatalf("%s: input %s arrived as something else: %s", desc, f.Name, d)
				}
			}
			if !f.Hidden && !f.In && f.Out || f.In && f.Out && rapid.Bool().Draw(t, "change") {
				sv.Field(f.Index).Set(gen.Value(t, f.Type, 2, false))
			}
		}
		msg = &api.JSON{}
		if err := h.Server().Send(c(), obj, msg); err != nil {
			t.Fatalf("%s: reply: %v", desc, err)
		}
		if keys(msg.Data) != fmt.Sprintf("%q", outs) && len(outs) > 0 {
			t.Fatalf("%s: response carries %s, declared %q", desc, keys(msg.Data), outs)
		}
		res := wire(t, msg)
		for _, f := range op.Fields { // noise which is not part of the declared output
			if !f.Out && !f.Hidden && res.Data[f.Name] == nil && rapid.IntRange(0, 3).Draw(t, "noise") == 0 {
				res.Data[f.Name] = enc.MustMarshal(c(), gen.Value(t, f.Type, 1, true).Interface())
			}
		}
		if err := h.Client().Recv(c(), res, client.Interface()); err != nil {
			t.Fatalf("%s: response %v refused: %v", desc, msg.Data, err)
		}
		for _, f := range op.Fields {
			cv := client.Elem().Field(f.Index)
			if f.Out {
				if d := gen.Same(sv.Field(f.Index), cv); d != "" {
					t.Fatalf("%s: output %s of %v arrived as something else: %s", desc, f.Name, msg.Data, d)
				}
			} else if got := gen.Show(cv); got != before[f.Index] {
				t.Fatalf("%s: client field %s changed from %s to %s", desc, op.Type.Field(f.Index).Name, before[f.Index], got)
			}
		}
	}); p != "" {
		t.Fatalf("%s: %s", desc, p)
	}
}

func TestExchange(t *testing.T) {
	vh.Check(t, 20000, 800000, func(t *rapid.T) { prop(t, gen.Type(2, gen.TypeOpts{})) })
}

func TestPlain(t *testing.T) {
	vh.Check(t, 20000, 800000, func(t *rapid.T) { prop(t, gen.Type(0, gen.TypeOpts{})) })
}

// stubborn values do not travel
type stubborn struct{ S string }

var errStubborn = errors.New("stubborn")

func (s stubborn) MarshalNode(ctx.C) (enc.Node, error) {
	if s.S == "out" {
		return nil, errStubborn
	}
	return enc.String(s.S), nil
}
func (s *stubborn) UnmarshalNode(c ctx.C, n enc.Node) error {
	s.S = string(n.(enc.String))
	if s.S == "in" {
		return errStubborn
	}
	return nil
}

type stub struct {
	A int      `api:"in"`
	B stubborn `api:"in"`
	C int      `api:"out"`
	D stubborn `api:"out"`
}

// errors on either side are errors
func TestErrors(t *testing.T) {
	h, err := api.NewHandler(c(), &stub{})
	if err != nil {
		t.Fatal(err)
	}
	vh.Check(t, 4000, 50000, func(t *rapid.T) {
		word := rapid.SampledFrom([]string{"in", "out", "ok"})
		in, out := word.Draw(t, "request"), word.Draw(t, "response")
		bad := rapid.SampledFrom([]string{"", "", "A", "C"}).Draw(t, "bad")
		vh.Case(true, in+"/"+out+"/"+bad, "errors")
		obj := &stub{A: 1, B: stubborn{in}}
		msg := &api.JSON{}
		err := h.Client().Send(c(), obj, msg)
		if (err != nil) != (in == "out") || err != nil && !errors.Is(err, errStubborn) {
			t.Fatalf("send %q: %v", in, err)
		}
		if err != nil {
			return
		}
		req := wire(t, msg)
		if bad == "A" {
			req.Data["A"] = enc.String("x")
		}
		got, err := h.Server().Recv(c(), req)
		if (err != nil) != (in == "in" || bad == "A") {
			t.Fatalf("recv %q %s: %v", in, bad, err)
		}
		if err != nil {
			return
		}
		got.C, got.D.S = 7, out
		msg = &api.JSON{}
		err = h.Server().Send(c(), got, msg)
		if (err != nil) != (out == "out") || err != nil && !errors.Is(err, errStubborn) {
			t.Fatalf("reply %q: %v", out, err)
		}
		if err != nil {
			return
		}
		res := wire(t, msg)
		if bad == "C" {
			res.Data["C"] = enc.List{}
		}
		err = h.Client().Recv(c(), res, obj)
		if (err != nil) != (out == "in" || bad == "C") {
			t.Fatalf("response %q %s: %v", out, bad, err)
		}
		if err == nil && (obj.C != 7 || obj.D.S != out) {
			t.Fatalf("response lost: %+v", obj)
		}
	})
}

// helped is an operation run by the test helper, which is an exchange as any other
type helped struct {
	R    api.Request    `url:"/helped"`
	In   []string       `api:"in" json:"in"`
	Num  int64          `api:"in,required"`
	Both map[string]int `api:"both" json:"both"`
	Out  *int           `api:"out" json:"out"`
	Text string         `api:"out"`
	User string         `api:"auth"`
	Keep int
	priv string

	ran *[]string
}

func (h *helped) Do(ctx.C) error {
	*h.ran = append(*h.ran, fmt.Sprintf("%q %d %v %v %q %q %d %q", h.In, h.Num, h.Both, h.Out == nil, h.Text, h.User, h.Keep, h.priv))
	n := len(h.In)
	h.Out, h.Text = &n, strings.Join(h.In, "/")+h.priv
	h.In = append(h.In, "server")
	h.Num, h.User, h.priv = -1, "server", "server"
	if h.Both != nil {
		h.Both["server"] = n
	}
	if h.Keep == 3 {
		return errStubborn
	}
	h.Keep = -1
	return nil
}

func TestHelper(t *testing.T) {
	vh.Check(t, 400, 4000, func(r *rapid.T) {
		text := rapid.SampledFrom([]string{"", "a", "é\"<", "\n"})
		mayFail := rapid.Bool().Draw(r, "http.TestAPI")
		op := &helped{
			In:   rapid.SliceOfN(text, 1, 3).Draw(r, "in"),
			Num:  rapid.SampledFrom([]int64{1, -1, 1<<63 - 1, -1 << 63, 1<<53 + 1}).Draw(r, "num"),
			Both: rapid.MapOfN(text, rapid.Int(), 0, 2).Draw(r, "both"),
			Text: text.Draw(r, "text"), User: text.Draw(r, "user"), Keep: rapid.IntRange(0, 2).Draw(r, "keep"), priv: text.Draw(r, "priv"),
			ran: new([]string),
		}
		if rapid.Bool().Draw(r, "out") {
			op.Out = new(int)
		}
		// with api.Test nobody is authenticated: the identity is what the operation given holds
		user, fails, runs := op.User, "", 1
		var uid any
		if mayFail {
			switch rapid.IntRange(0, 5).Draw(r, "how") {
			case 0:
				op.Num, fails, runs = 0, "a required input is zero", 0
			case 1:
				op.Keep, fails = 3, "the operation fails"
			case 2:
				uid, fails, runs = []int{1}, "the identity has the wrong type", 0
			case 3, 4:
				user = "someone " + text.Draw(r, "uid")
				uid = user
			}
		}
		was, ran := *op, []string{}
		op.ran = &ran
		in, both, out, outs := fmt.Sprintf("%q", op.In), fmt.Sprint(op.Both), op.Out, op.Text
		desc := fmt.Sprintf("%s %d %s %v %q %q %d %q by %v, fails: %s", in, op.Num, both, op.Out != nil, op.Text, op.User, op.Keep, op.priv, uid, fails)
		vh.Case(true, desc, "test-helper")
		want := fmt.Sprintf("%s %d %s true \"\" %q %d %q", in, op.Num, both, user, op.Keep, op.priv)
		if mayFail {
			err := fhttp.TestAPI(c(), uid, op)
			if (err != nil) != (fails != "") || runs == 1 && err != nil && !errors.Is(err, errStubborn) {
				r.Fatalf("%s: %v", desc, err)
			}
		} else if got := api.Test(t, op); got != op {
			r.Fatalf("%s: the helper returns another object", desc)
		}
		if len(ran) != runs || runs == 1 && ran[0] != want {
			r.Fatalf("%s: ran %q instead of %s", desc, ran, want)
		}
		if fmt.Sprintf("%q", op.In) != in || op.Num != was.Num || op.User != was.User || op.Keep != was.Keep || op.priv != was.priv {
			r.Fatalf("%s: a field which is not an output changed: %+v", desc, op)
		}
		if fails != "" {
			if op.Out != out || op.Text != outs || fmt.Sprint(op.Both) != both {
				r.Fatalf("%s: failed, but the outputs changed: %+v", desc, op)
			}
			return
		}
		if op.Out == nil || *op.Out != len(op.In) || op.Text != strings.Join(op.In, "/")+op.priv {
			r.Fatalf("%s: wrong outputs: %+v", desc, op)
		}
		if n, ok := op.Both["server"]; !ok || n != len(op.In) || len(op.Both) != len(was.Both)+1 {
			r.Fatalf("%s: wrong output both: %+v", desc, op)
		}
	})
}
