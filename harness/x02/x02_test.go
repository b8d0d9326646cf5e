package x02

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "X02", "chains and trees of errors wrapped in any mix by this library, the standard one and foreign types, in different contexts and at different depths, compared with a model; stack captures; nested error gates; non-trivial: at least two layers, one of this library")
}

// ---- foreign errors

type codeErr struct{ Code int }

func (e codeErr) Error() string { return fmt.Sprintf("code %d", e.Code) }

type ptrErr struct{ Text string }

func (e *ptrErr) Error() string { return e.Text }

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return strings.Join(e, ",") }

type wrapErr struct {
	What string
	In   error
}

func (e *wrapErr) Error() string { return e.What + e.In.Error() }
func (e *wrapErr) Unwrap() error { return e.In }

type multiErr []error

func (e multiErr) Error() string {
	s := "multi"
	for _, x := range e {
		s += ";" + x.Error()
	}
	return s
}
func (e multiErr) Unwrap() []error { return e }

type likeErr struct{} // says it is another

func (likeErr) Error() string        { return "like" }
func (likeErr) Is(target error) bool { return target == os.ErrClosed }

// ---- the model

type model struct {
	err    error
	text   string
	desc   string
	kids   []*model // unwrapping finds those
	origin *origin  // this layer is ours
	self   error    // findable
}

type origin struct {
	stack []string
	tags  map[string]string
}

// the first of ours, as found by errors.As
func (m *model) ours() *origin {
	if m.origin != nil {
		return m.origin
	}
	for _, k := range m.kids {
		if o := k.ours(); o != nil {
			return o
		}
	}
	return nil
}

func (m *model) all(f func(*model)) {
	f(m)
	for _, k := range m.kids {
		k.all(f)
	}
}

// ---- places where errors are created, each of which tells what the stack is there

// frames returns the stack of the caller.
func frames() (l []string) {
	pc := make([]uintptr, 500)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		l = append(l, fmt.Sprintf("%s:%d", f.File, f.Line))
		if !more {
			return
		}
	}
}

func newAt(c ctx.C, f string, args ...any) (error, []string) {
	return ctx.NewErrorf(c, f, args...), frames()
}

func wrapAt(c ctx.C, err error) (error, []string) {
	return ctx.WrapError(c, err), frames()
}

func closureAt(c ctx.C, err error) (out error, l []string) {
	defer func() {
		func() {
			out, l = ctx.WrapError(c, err), frames()
		}()
	}()
	return nil, nil
}

type site struct{ c ctx.C }

func (s *site) newAt(f string, args ...any) (error, []string) {
	return ctx.NewErrorf(s.c, f, args...), frames()
}

func genericAt[T any](c ctx.C, err error, _ T) (error, []string) {
	return ctx.WrapError(c, err), frames()
}

func deep(n int, f func() (error, []string)) (error, []string) {
	if n == 0 {
		return f()
	}
	return deep(n-1, f)
}

func elsewhere(f func() (error, []string)) (error, []string) {
	type res struct {
		err error
		l   []string
	}
	ch := make(chan res)
	go func() {
		err, l := f()
		ch <- res{err, l}
	}()
	r := <-ch
	return r.err, r.l
}

// ---- generation

func genCtx(t *rapid.T) (c ctx.C, tags map[string]string, desc string) {
	c = ctx.TODO()
	tags = map[string]string{}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "layers"); i < n; i++ {
		switch k := rapid.IntRange(0, 7).Draw(t, "layer"); k {
		case 0, 1, 2:
			key := rapid.SampledFrom([]string{"a", "b", "error", "stack"}).Draw(t, "key")
			c = ctx.WithTag(c, key, i)
			tags[key] = fmt.Sprint(i)
			desc += key
		case 3:
			c = ctx.WithValue(c, "v", func() {})
		case 4:
			x, cf := ctx.WithCancel(c)
			if rapid.Bool().Draw(t, "cancelled") {
				cf(nil)
				desc += "!"
			}
			c = x
		case 5:
			c = ctx.Detach(c)
		case 6:
			c, _ = ctx.WithTimeout(c, rapid.SampledFrom([]time.Duration{time.Hour, -1}).Draw(t, "timeout"))
		case 7:
			c = ctx.WithTracking(c, "id")
			tags["tracking-id"] = `"id"`
			desc += "T"
		}
	}
	return c, tags, "{" + desc + "}"
}

func genBase(t *rapid.T) *model {
	e := []error{io.EOF, os.ErrClosed, context.Canceled, context.DeadlineExceeded, context.Canceled, errors.New("fresh"), codeErr{rapid.IntRange(0, 3).Draw(t, "code")}, &ptrErr{"ptr"}, sliceErr{"a", "b"}, likeErr{}, utils.EOD{}, errors.New(""), errors.New("%d %!s \x00ü\n")}[rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}).Draw(t, "base")]
	return &model{err: e, self: e, text: e.Error(), desc: fmt.Sprintf("%T", e)}
}

func lib(t *rapid.T, what string, make func(c ctx.C) (error, []string)) (error, *origin, string) {
	c, tags, desc := genCtx(t)
	d := rapid.SampledFrom([]int{0, 0, 0, 1, 5, 80, 130}).Draw(t, "deep")
	f := func() (error, []string) { return make(c) }
	g := f
	if d > 0 {
		g = func() (error, []string) { return deep(d, f) }
	}
	if rapid.IntRange(0, 9).Draw(t, "elsewhere") > 8 {
		h := g
		g = func() (error, []string) { return elsewhere(h) }
	}
	err, l := g()
	return err, &origin{l, tags}, what + desc
}

func genErr(t *rapid.T, depth int) *model {
	if depth == 0 {
		return genBase(t)
	}
	switch k := rapid.IntRange(0, 15).Draw(t, "layer"); k {
	case 0, 1, 2:
		in := genErr(t, depth-1)
		how := rapid.IntRange(0, 3).Draw(t, "how")
		err, o, desc := lib(t, "wrap", func(c ctx.C) (error, []string) {
			switch how {
			case 0:
				return closureAt(c, in.err)
			case 1:
				return genericAt(c, in.err, "x")
			}
			return wrapAt(c, in.err)
		})
		if in.ours() != nil { // nothing to add
			return &model{err: err, text: in.text, desc: "again(" + in.desc + ")", kids: []*model{in}}
		}
		return &model{err: err, text: in.text, desc: desc + "(" + in.desc + ")", kids: []*model{in}, origin: o}
	case 3, 4, 5:
		in := genErr(t, depth-1)
		m := rapid.Bool().Draw(t, "method")
		err, o, desc := lib(t, "new%w", func(c ctx.C) (error, []string) {
			if m {
				return (&site{c}).newAt("n %d: %w!", 3, in.err)
			}
			return newAt(c, "n %d: %w!", 3, in.err)
		})
		if in.ours() != nil {
			o = nil
		}
		return &model{err: err, text: "n 3: " + in.text + "!", desc: desc + "(" + in.desc + ")", kids: []*model{in}, origin: o}
	case 6:
		in := genErr(t, depth-1)
		err, o, desc := lib(t, "new%v", func(c ctx.C) (error, []string) { return newAt(c, "v: %v", in.err) })
		return &model{err: err, text: "v: " + in.text, desc: desc + "(" + in.desc + ")", origin: o}
	case 7:
		err, o, desc := lib(t, "new", func(c ctx.C) (error, []string) { return newAt(c, "plain 100%%") })
		return &model{err: err, text: "plain 100%", desc: desc, origin: o}
	case 8:
		a, b := genErr(t, depth-1), genErr(t, depth-1)
		err, o, desc := lib(t, "new%w%w", func(c ctx.C) (error, []string) { return newAt(c, "%w & %w", a.err, b.err) })
		if a.ours() != nil || b.ours() != nil {
			o = nil
		}
		return &model{err: err, text: a.text + " & " + b.text, desc: desc + "(" + a.desc + "," + b.desc + ")", kids: []*model{a, b}, origin: o}
	case 9:
		in := genErr(t, depth-1)
		return &model{err: fmt.Errorf("std %w", in.err), text: "std " + in.text, desc: "fmt(" + in.desc + ")", kids: []*model{in}}
	case 10:
		in := genErr(t, depth-1)
		return &model{err: fmt.Errorf("lost %v", in.err), text: "lost " + in.text, desc: "fmt%v(" + in.desc + ")"}
	case 11:
		a, b := genErr(t, depth-1), genErr(t, depth-1)
		return &model{err: errors.Join(a.err, nil, b.err), text: a.text + "\n" + b.text, desc: "join(" + a.desc + "," + b.desc + ")", kids: []*model{a, b}}
	case 12:
		a, b := genErr(t, depth-1), genErr(t, depth-1)
		return &model{err: fmt.Errorf("%w+%w", a.err, b.err), text: a.text + "+" + b.text, desc: "fmt2(" + a.desc + "," + b.desc + ")", kids: []*model{a, b}}
	case 13:
		in := genErr(t, depth-1)
		e := &wrapErr{"W:", in.err}
		return &model{err: e, self: e, text: "W:" + in.text, desc: "foreign(" + in.desc + ")", kids: []*model{in}}
	case 14:
		a, b := genErr(t, depth-1), genErr(t, depth-1)
		return &model{err: multiErr{a.err, b.err}, text: "multi;" + a.text + ";" + b.text, desc: "multi(" + a.desc + "," + b.desc + ")", kids: []*model{a, b}}
	}
	return genBase(t)
}

func (m *model) check() string {
	err := m.err
	if err.Error() != m.text {
		return fmt.Sprintf("text %q instead of %q", err.Error(), m.text)
	}
	msg := ""
	codes := map[int]bool{}
	found := map[string]bool{}
	m.all(func(x *model) {
		if x.err != nil && !errors.Is(err, x.err) && reflect.TypeOf(x.err).Comparable() && !strings.Contains(x.desc, "sliceErr") && !strings.Contains(x.desc, "multi(") {
			msg = fmt.Sprintf("%s is not found in it", x.desc)
		}
		switch e := x.self.(type) {
		case codeErr:
			codes[e.Code] = true
		case *ptrErr:
			found["ptr"] = true
		case sliceErr:
			found["slice"] = true
		case *wrapErr:
			found["wrap"] = true
		case likeErr:
			found["closed"] = true
			found["like"] = true
		case utils.EOD:
			found["eod"] = true
		}
		if x.self == io.EOF {
			found["eof"] = true
		}
		if x.self == os.ErrClosed {
			found["closed"] = true
		}
	})
	if msg != "" {
		return msg
	}
	for i := 0; i < 4; i++ {
		if errors.Is(err, codeErr{i}) != codes[i] {
			return fmt.Sprintf("is code %d: %v", i, !codes[i])
		}
	}
	var ce codeErr
	if errors.As(err, &ce) != (len(codes) > 0) || len(codes) > 0 && !codes[ce.Code] {
		return fmt.Sprintf("as code: %v of %v", ce, codes)
	}
	var pe *ptrErr
	var se sliceErr
	var we *wrapErr
	var le likeErr
	for _, x := range []struct {
		name string
		got  bool
	}{
		{"ptr", errors.As(err, &pe)}, {"slice", errors.As(err, &se)}, {"wrap", errors.As(err, &we)}, {"like", errors.As(err, &le)},
		{"eof", errors.Is(err, io.EOF)}, {"closed", errors.Is(err, os.ErrClosed)}, {"eod", errors.Is(err, utils.EOD{})},
	} {
		if x.got != found[x.name] {
			return fmt.Sprintf("%s is found: %v", x.name, x.got)
		}
	}
	if errors.Is(err, io.ErrNoProgress) || errors.Is(err, io.ErrShortWrite) {
		return "it is an error it has nothing to do with"
	}
	m.all(func(x *model) { // not found are those which contain it
		if x.err != nil && (errors.Is(err, fmt.Errorf("%w", x.err)) || errors.Is(err, &wrapErr{"", x.err}) || errors.Is(err, errors.Join(x.err))) {
			msg = "is an error which only wraps " + x.desc
		}
	})
	if msg != "" {
		return msg
	}
	// where it came from
	var ours ctx.Error
	o := m.ours()
	if errors.As(err, &ours) != (o != nil) || errors.Is(err, ctx.Error{}) != (o != nil) {
		return fmt.Sprintf("has a stack: %v", o == nil)
	}
	if o != nil {
		n := len(ours.Stack)
		if n == 0 || n > len(o.stack) || !reflect.DeepEqual(ours.Stack, o.stack[:n]) {
			return fmt.Sprintf("stack\n%s\ninstead of\n%s", strings.Join(ours.Stack, "\n"), strings.Join(o.stack, "\n"))
		}
		if n < len(o.stack) && n < 20 {
			return fmt.Sprintf("only %d frames of %d", n, len(o.stack))
		}
		tags := log.ExtractTags(ours.C)
		if len(tags) != len(o.tags) {
			return fmt.Sprintf("tags %v instead of %v", tags, o.tags)
		}
		for k, v := range o.tags {
			if string(tags[k]) != v {
				return fmt.Sprintf("tags %v instead of %v", tags, o.tags)
			}
		}
		// as JSON
		for _, v := range []any{ours, &ours, err} {
			j, e := json.Marshal(v)
			if e != nil {
				return fmt.Sprintf("no JSON form: %v", e)
			}
			var x struct {
				Stack []string `json:"stack"`
			}
			_, isOurs := v.(ctx.Error)
			if e := json.Unmarshal(j, &x); isOurs && (e != nil || !reflect.DeepEqual(x.Stack, ours.Stack)) {
				return fmt.Sprintf("JSON form %s (%v) of the stack %v", j, e, ours.Stack)
			}
		}
	}
	if j, e := enc.MarshalJSON(ctx.TODO(), err); e == nil && !json.Valid(j) {
		return fmt.Sprintf("encoded as %s", j)
	}
	return ""
}

func TestChains(t *testing.T) {
	vh.Check(t, 12000, 400000, func(t *rapid.T) {
		d := rapid.IntRange(0, 6).Draw(t, "depth")
		m := genErr(t, d)
		layers := 0
		m.all(func(*model) { layers++ })
		vh.Case(layers > 2 && m.ours() != nil, m.desc, fmt.Sprintf("depth-%d", d))
		before := m.check()
		if before != "" {
			t.Fatalf("%s: %s", m.desc, before)
		}
		// wrapping does not change what is wrapped
		c, _, _ := genCtx(t)
		var outer error
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "more"); i < n; i++ {
			x := m.err
			if outer != nil && rapid.Bool().Draw(t, "onto") {
				x = outer
			}
			if rapid.Bool().Draw(t, "new") {
				outer = ctx.NewErrorf(c, "more %w", x)
			} else {
				outer = ctx.WrapError(c, x)
			}
			if !strings.HasSuffix(outer.Error(), m.text) {
				t.Fatalf("%s: wrapped again it is %q", m.desc, outer)
			}
		}
		m.all(func(x *model) {
			if msg := x.check(); msg != "" {
				t.Fatalf("%s: within it %s: %s", m.desc, x.desc, msg)
			}
		})
		if err := ctx.WrapError(c, nil); err != nil {
			t.Fatalf("nothing wrapped is %v", err)
		}
		if o := m.ours(); o != nil {
			var a, b ctx.Error
			if !errors.As(outer, &a) || !errors.As(m.err, &b) || !reflect.DeepEqual(a.Stack, b.Stack) {
				t.Fatalf("%s: wrapped again the stack is %v", m.desc, a.Stack)
			}
		}
	})
}

// ---- stack captures

func capture(n, above, max int) (got []string, call utils.StackFrame, want []string, name string) {
	if n > 0 {
		return capture(n-1, above, max)
	}
	pc := make([]uintptr, 1000)
	got, call, want = utils.Stack(above, max), utils.Caller(above), frames()
	fr := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
	for i := 0; ; i++ {
		f, more := fr.Next()
		if i == above {
			name = f.Function
		}
		if !more {
			return
		}
	}
}

func TestStacks(t *testing.T) {
	vh.Check(t, 4000, 60000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{0, 1, 3, 20, 120}).Draw(t, "deep")
		above := rapid.SampledFrom([]int{0, 1, 2, 4, 60, 1000}).Draw(t, "above")
		max := rapid.SampledFrom([]int{0, 1, 2, 10, 100, 1000}).Draw(t, "max")
		got, call, want, name := capture(n, above, max)
		vh.Case(n > 0 && above > 0, fmt.Sprintf("%d deep, above %d, max %d", n, above, max), "stack")
		if above > len(want) {
			above = len(want)
			if call.File != "" || call.Line != 0 || call.Func != "" {
				t.Fatalf("caller beyond the end is %+v", call)
			}
		} else if call.FileLine() != want[above] || call.Func != name {
			t.Fatalf("%d deep, the caller %d above is %+v instead of %s %s", n, above, call, want[above], name)
		} else if short := name[strings.LastIndex(name, "/")+1:]; call.ShortFunc() != short || call.FuncName() != short[strings.LastIndex(short, ".")+1:] {
			t.Fatalf("%s is %q and %q", name, call.ShortFunc(), call.FuncName())
		}
		want = want[above:]
		if len(want) > max {
			want = want[:max]
		}
		if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
			t.Fatalf("%d deep, %d above, at most %d:\n%s\ninstead of\n%s", n, above, max, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	})
}

// ---- gates

type gate struct {
	Ret  int // at the end: 0 nothing, 1 the own signal, 2 that of the outer gate, 3 an error, 4 what the inner gate gave
	Wrap int
	In   *gate
}

func genGate(t *rapid.T, depth int) *gate {
	g := &gate{Ret: rapid.IntRange(0, 4).Draw(t, "return"), Wrap: rapid.IntRange(0, 4).Draw(t, "wrap")}
	if depth > 0 {
		g.In = genGate(t, depth-1)
	}
	return g
}

func (g *gate) String() string {
	if g == nil {
		return "-"
	}
	return fmt.Sprintf("(%d %d %v)", g.Ret, g.Wrap, g.In)
}

func (g *gate) run(signals []error, bad *string) error {
	return utils.ErrorGate(func(own error) error {
		var in error
		if g.In != nil {
			in = g.In.run(append(append([]error{}, signals...), own), bad)
			eof, signal := g.In.want(len(signals) + 1)
			if (in != nil) != (eof || signal >= 0) || eof && !errors.Is(in, io.EOF) || signal >= 0 && !errors.Is(in, append(signals, own)[signal]) {
				*bad = fmt.Sprintf("the gate %v within gave %v, want eof: %v, the signal of gate: %d", g.In, in, eof, signal)
			}
		}
		var err error
		switch g.Ret {
		case 1:
			err = own
		case 2:
			if len(signals) > 0 {
				err = signals[len(signals)-1]
			}
		case 3:
			err = io.EOF
		case 4:
			err = in
		}
		if err == nil {
			return nil
		}
		switch g.Wrap {
		case 1:
			err = fmt.Errorf("w %w", err)
		case 2:
			err = errors.Join(io.ErrNoProgress, err)
		case 3:
			err = ctx.WrapError(ctx.TODO(), err)
		}
		return err
	})
}

// what comes out: nothing, io.EOF or the number of the gate which takes it (from the outside)
func (g *gate) want(level int) (eof bool, signal int) {
	signal = -1
	var e bool
	s := -1
	if g.In != nil {
		e, s = g.In.want(level + 1)
	}
	switch g.Ret {
	case 2:
		signal = level - 1
	case 3:
		eof = true
	case 4:
		if s != level {
			eof, signal = e, s
		}
	}
	return
}

func TestGates(t *testing.T) {
	vh.Check(t, 4000, 60000, func(t *rapid.T) {
		d := rapid.IntRange(0, 4).Draw(t, "depth")
		g := genGate(t, d)
		vh.Case(d > 0, g.String(), "gate")
		eof, _ := g.want(0)
		bad := ""
		err := g.run(nil, &bad)
		if bad != "" {
			t.Fatalf("%v: %s", g, bad)
		}
		if (err != nil) != eof || eof && !errors.Is(err, io.EOF) {
			t.Fatalf("%v gave %v, want an end of file: %v", g, err, eof)
		}
	})
}
