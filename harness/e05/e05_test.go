package e05

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "E05", "pairs of generated destination type (with unexported, excluded and odd fields, filled beforehand) and data tree (aimed at it, retyped, with unknown and hostile keys, or unrelated); non-trivial: the data is a container or the destination a composite type")
}

func c() ctx.C { return ctx.TODO() }

var (
	tUnm  = reflect.TypeOf((*enc.Unmarshaler)(nil)).Elem()
	tJUnm = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
)

// opaque: the type takes the whole node and decides by itself
func opaque(rt reflect.Type) bool {
	p := reflect.PointerTo(rt)
	return p.Implements(tUnm) || p.Implements(tJUnm) || rt == reflect.TypeOf(json.RawMessage{}) || rt == reflect.TypeOf(time.Time{}) || rt.Kind() == reflect.Interface
}

func entries(n enc.Node) (map[string]enc.Node, bool) {
	switch n := n.(type) {
	case enc.Map:
		return n, true
	case enc.Pairs:
		out := map[string]enc.Node{}
		for _, p := range n {
			out[p.JSON] = p.Value
		}
		return out, true
	}
	return nil, false
}

type unknown struct {
	path []any
	node enc.Node
}

type mapVal string // position of a map value in a path

func with(p []any, x any) []any { return append(append([]any{}, p...), x) }

// reference walk: which entries have no destination
func walk(rt reflect.Type, n enc.Node, path []any, out *[]unknown) {
	if n == nil {
		return
	}
	if _, ok := n.(enc.Nil); ok {
		return
	}
	if rt.Kind() == reflect.Pointer {
		walk(rt.Elem(), n, path, out)
		return
	}
	if opaque(rt) {
		return
	}
	switch rt.Kind() {
	case reflect.Map:
		m, _ := entries(n)
		for k, x := range m {
			walk(rt.Elem(), x, with(path, mapVal(k)), out)
		}
	case reflect.Slice, reflect.Array:
		l, _ := n.(enc.List)
		for i, x := range l {
			walk(rt.Elem(), x, with(path, i), out)
		}
	case reflect.Struct:
		m, _ := entries(n)
		seen := map[string]bool{}
		for _, f := range gen.Fields(rt) {
			if f.Skip {
				continue
			}
			seen[f.JSON] = true
			if x, ok := m[f.JSON]; ok {
				walk(rt.Field(f.Index).Type, x, with(path, rt.Field(f.Index).Name), out)
			}
		}
		for k, x := range m {
			if !seen[k] {
				*out = append(*out, unknown{with(path, k), x})
			}
		}
	}
}

func (u unknown) matches(path []any, n enc.Node) bool {
	if len(path) != len(u.path) {
		return false
	}
	for i := range path {
		switch e := u.path[i].(type) {
		case mapVal:
			if path[i] != any("#val") && path[i] != any(string(e)) {
				return false
			}
		default:
			if path[i] != e {
				return false
			}
		}
	}
	return reflect.DeepEqual(n, u.node)
}

// protected lists everything which must survive: unexported, excluded and absent fields.
func protected(v reflect.Value, n enc.Node, path string, out map[string]string) {
	rt := v.Type()
	if rt.Kind() != reflect.Struct || opaque(rt) || rt.ConvertibleTo(reflect.TypeOf(time.Time{})) {
		return
	}
	m, ok := entries(n)
	if !ok {
		if _, isNil := n.(enc.Nil); n == nil || isNil {
			return
		}
	}
	for _, f := range gen.Fields(rt) {
		p := path + "." + rt.Field(f.Index).Name
		x, present := m[f.JSON]
		if f.Skip || !present {
			out[p] = gen.Show(v.Field(f.Index))
			continue
		}
		protected(v.Field(f.Index), x, p, out)
	}
}

// referred collects what the value refers to: maps, elements, pointers
func referred(v reflect.Value, path string, out map[string]reflect.Value) {
	rt := v.Type()
	if rt.Kind() == reflect.Interface && !v.IsNil() {
		referred(v.Elem(), path, out)
		return
	}
	if opaque(rt) {
		return
	}
	switch rt.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			out[path] = v.Elem()
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.New(rt).Elem() // not the field itself
			m.Set(v)
			out[path] = m
		}
	case reflect.Slice:
		if v.Len() > 0 {
			s := reflect.New(rt).Elem()
			s.Set(v)
			out[path] = s
		}
	case reflect.Struct:
		for _, f := range gen.Fields(rt) {
			if !f.Skip {
				referred(v.Field(f.Index), path+"."+rt.Field(f.Index).Name, out)
			}
		}
	}
}

// notReset finds a destination of a null which still holds something
func notReset(v reflect.Value, n enc.Node, path string, count *int) string {
	rt := v.Type()
	_, isNil := n.(enc.Nil)
	if n == nil || isNil {
		switch {
		case rt.Kind() == reflect.Interface:
			if !v.IsNil() && v.Elem().Type() != reflect.TypeOf(enc.Nil{}) {
				return fmt.Sprintf("%s is %s", path, gen.Show(v))
			}
		case rt.Kind() == reflect.Pointer || rt == reflect.TypeOf(time.Time{}) || !opaque(rt):
			if !v.IsZero() {
				return fmt.Sprintf("%s is %s", path, gen.Show(v))
			}
		default:
			return "" // its own business
		}
		*count++
		return ""
	}
	if rt.Kind() == reflect.Pointer {
		if v.IsNil() {
			return ""
		}
		return notReset(v.Elem(), n, path, count)
	}
	if opaque(rt) {
		return ""
	}
	switch rt.Kind() {
	case reflect.Struct:
		m, ok := entries(n)
		for _, f := range gen.Fields(rt) {
			if x, found := m[f.JSON]; ok && found && !f.Skip {
				if e := notReset(v.Field(f.Index), x, path+"."+rt.Field(f.Index).Name, count); e != "" {
					return e
				}
			}
		}
	case reflect.Slice, reflect.Array:
		l, _ := n.(enc.List)
		for i, x := range l {
			if i < v.Len() {
				if e := notReset(v.Index(i), x, fmt.Sprintf("%s[%d]", path, i), count); e != "" {
					return e
				}
			}
		}
	case reflect.Map:
		m, _ := entries(n)
		if rt.Key().Kind() == reflect.String {
			for k, x := range m {
				if y := v.MapIndex(reflect.ValueOf(k).Convert(rt.Key())); y.IsValid() {
					if e := notReset(y, x, fmt.Sprintf("%s[%q]", path, k), count); e != "" {
						return e
					}
				}
			}
		}
	}
	return ""
}

// fillHidden writes something into unexported fields along by-value nesting
func fillHidden(t *rapid.T, v reflect.Value) {
	if v.Kind() != reflect.Struct || opaque(v.Type()) {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).PkgPath == "" {
			fillHidden(t, f)
			continue
		}
		w := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch w.Kind() {
		case reflect.Int:
			w.SetInt(int64(rapid.IntRange(0, 9).Draw(t, "hidden")))
		case reflect.String:
			w.SetString("hidden")
		case reflect.Pointer, reflect.Slice:
			w.Set(gen.Value(t, w.Type(), 2, false))
		}
	}
}

// retype replaces nodes by others carrying the same thing, or nothing at all
func retype(t *rapid.T, n enc.Node, depth int) enc.Node {
	k := rapid.IntRange(0, 60).Draw(t, "retype")
	if k == 0 {
		return nil
	}
	if k == 1 {
		return gen.Node(1).Draw(t, "other").Node
	}
	switch x := n.(type) {
	case enc.Digits:
		if k < 20 {
			if i, err := x.Int64(); err == nil {
				return enc.Integer(i)
			}
		}
		if k < 40 {
			if f, err := x.Float64(); err == nil {
				return enc.Float(f)
			}
		}
	case enc.String:
		if tm, err := x.AsTime(); err == nil && k < 30 {
			return tm
		}
		if d, err := x.AsDuration(); err == nil && k < 30 {
			return d
		}
	case enc.List:
		out := enc.List{}
		for _, e := range x {
			out = append(out, retype(t, e, depth-1))
		}
		return out
	case enc.Map:
		keys := sorted(x)
		if k < 20 {
			out := enc.Pairs{}
			for _, key := range keys {
				out = append(out, enc.Pair{Name: rapid.SampledFrom([]string{key, "A", ""}).Draw(t, "name"), JSON: key, Value: retype(t, x[key], depth-1)})
			}
			return out
		}
		out := enc.Map{}
		for _, key := range keys {
			out[key] = retype(t, x[key], depth-1)
		}
		return out
	}
	return n
}

func sorted(m map[string]enc.Node) []string {
	o := gen.Obj()
	for k := range m {
		o.Add(k, gen.Null())
	}
	keys := o.Keys
	for i := range keys {
		for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	return keys
}

// hostile adds entries named after fields which must not be reachable
func hostile(t *rapid.T, rt reflect.Type, n enc.Node) {
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	if opaque(rt) {
		return
	}
	m, ok := n.(enc.Map)
	switch {
	case ok && rt.Kind() == reflect.Struct:
		seen := map[string]bool{}
		for _, f := range gen.Fields(rt) {
			if !f.Skip {
				seen[f.JSON] = true
			}
		}
		for _, f := range gen.Fields(rt) {
			ft := rt.Field(f.Index)
			if x, ok := m[f.JSON]; ok && !f.Skip {
				hostile(t, ft.Type, x)
				continue
			}
			if !f.Skip {
				continue
			}
			for _, k := range []string{ft.Name, f.JSON, "", "-", strings.ToUpper(ft.Name), "hid"} {
				if !seen[k] && rapid.Bool().Draw(t, "hostile") {
					m[k] = gen.ToNode(gen.DocFor(t, ft.Type, 1))
				}
			}
		}
	case ok && rt.Kind() == reflect.Map:
		for _, k := range sorted(m) {
			hostile(t, rt.Elem(), m[k])
		}
	case rt.Kind() == reflect.Slice || rt.Kind() == reflect.Array:
		if l, ok := n.(enc.List); ok {
			for _, x := range l {
				hostile(t, rt.Elem(), x)
			}
		}
	}
}

func drawCase(t *rapid.T, rt reflect.Type) enc.Node {
	if rapid.IntRange(0, 9).Draw(t, "unrelated") == 0 {
		return gen.Node(3).Draw(t, "node").Node
	}
	n := gen.ToNode(gen.DocFor(t, rt, 3))
	hostile(t, rt, n)
	if rapid.Bool().Draw(t, "typed") {
		n = retype(t, n, 3)
	}
	return n
}

func prop(t *rapid.T, rt reflect.Type) {
	n := drawCase(t, rt)
	dst := reflect.New(rt)
	if rapid.Bool().Draw(t, "filled") {
		dst.Elem().Set(gen.Value(t, rt, 2, false))
		fillHidden(t, dst.Elem())
	}
	before := map[string]string{}
	protected(dst.Elem(), n, "", before)
	old := map[string]reflect.Value{}
	oldShown := map[string]string{}
	referred(dst.Elem(), "", old)
	for p, v := range old {
		oldShown[p] = gen.Show(v)
	}
	errStop := rapid.SampledFrom(vh.Errs).Draw(t, "stop with")
	stopAt := rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2}).Draw(t, "stop")
	type call struct {
		path []any
		text string
		node enc.Node
	}
	var calls []call
	stopped, late, wrapStop := false, false, rapid.Bool().Draw(t, "wrapped")
	h := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
		late = late || stopped
		calls = append(calls, call{path, fmt.Sprintf("%v", path), n})
		if len(calls)-1 == stopAt {
			stopped = true
			if wrapStop {
				return fmt.Errorf("wrapped: %w", errStop)
			}
			return errStop
		}
		return nil
	}}
	shown := fmt.Sprintf("%v <- %#v", rt, n)
	if rapid.IntRange(0, 9).Draw(t, "debug") == 9 {
		h.Debugf = func(c ctx.C, f string, args ...any) { _ = fmt.Sprintf(f, args...) }
		shown += " (debug)"
	}
	var err error
	if p := vh.Try(func() { err = h.Unmarshal(c(), n, dst.Interface()) }); p != "" {
		t.Fatalf("%s: %s", shown, p)
	}
	_, isList := n.(enc.List)
	_, isMap := entries(n)
	label := "ok"
	if err != nil {
		label = "refused"
	}
	vh.Case(isList || isMap || rt.Kind() > reflect.Complex128 && rt.Kind() != reflect.String, shown, label, fmt.Sprintf("unknown-%d", min(len(calls), 4)))
	after := map[string]string{}
	protected(dst.Elem(), n, "", after)
	for p, s := range before {
		if after[p] != s {
			t.Fatalf("%s: %s changed from %s to %s", shown, p, s, after[p])
		}
	}
	for p, v := range old { // what it was made of may well be used elsewhere
		if s := gen.Show(v); s != oldShown[p] {
			t.Fatalf("%s: what %s referred to changed from %s to %s", shown, p, oldShown[p], s)
		}
	}
	var want []unknown
	walk(rt, n, []any{rt}, &want)
	used := make([]bool, len(want))
	for _, cl := range calls {
		if got := fmt.Sprintf("%v", cl.path); got != cl.text {
			t.Fatalf("%s: path reported as %s became %s", shown, cl.text, got)
		}
		found := false
		for i, w := range want {
			if !used[i] && w.matches(cl.path, cl.node) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			t.Fatalf("%s: reported %s (%v), which is not an unknown field (or reported twice); expected %v", shown, cl.text, cl.node, want)
		}
	}
	if late {
		t.Fatalf("%s: hook called again after its error", shown)
	}
	if stopped {
		if !errors.Is(err, errStop) {
			t.Fatalf("%s: the hook's error is lost: %v", shown, err)
		}
		vh.Label("aborted")
		return
	}
	if err == nil && len(calls) != len(want) {
		t.Fatalf("%s: reported %d unknown fields of %d: %v, expected %v", shown, len(calls), len(want), calls, want)
	}
	if err == nil {
		nulls := 0
		if e := notReset(dst.Elem(), n, "", &nulls); e != "" {
			t.Fatalf("%s: null for %s", shown, e)
		}
		if nulls > 0 {
			vh.Label("with nulls")
		}
		dst2 := reflect.New(rt)
		if err := enc.Unmarshal(c(), n, dst2.Interface()); err != nil {
			t.Fatalf("%s: fails without the hook: %v", shown, err)
		}
	}
}

func TestAny(t *testing.T) {
	vh.Check(t, 30000, 1200000, func(t *rapid.T) {
		prop(t, gen.Type(rapid.IntRange(0, 4).Draw(t, "depth"), gen.TypeOpts{Wide: true}).Draw(t, "type"))
	})
}

func TestStructs(t *testing.T) {
	vh.Check(t, 40000, 1500000, func(t *rapid.T) {
		prop(t, gen.Struct(rapid.IntRange(1, 4).Draw(t, "depth"), gen.TypeOpts{Wide: rapid.IntRange(0, 3).Draw(t, "wide") == 0}).Draw(t, "type"))
	})
}

func TestZoo(t *testing.T) {
	zoo := []reflect.Type{reflect.TypeOf(gen.Tree{}), reflect.TypeOf(gen.Emb{}), reflect.TypeOf([]gen.Tree{}), reflect.TypeOf(map[gen.MyStr]*gen.Inner{}), reflect.TypeOf([2]gen.Inner{})}
	vh.Check(t, 20000, 600000, func(t *rapid.T) { prop(t, rapid.SampledFrom(zoo).Draw(t, "type")) })
}

// raw numbers never hold anything but a number; factories build what they are asked for
func TestOdd(t *testing.T) {
	vh.Check(t, 6000, 200000, func(t *rapid.T) {
		n := rapid.OneOf(rapid.Map(gen.Node(1), func(s gen.NodeSpec) enc.Node { return s.Node }),
			rapid.Map(rapid.OneOf(gen.Text(), gen.NumText(), rapid.SampledFrom([]string{"", "null", "1 ", "0x1", "NaN", "+1", "1.", "\"1\""})), func(s string) enc.Node { return enc.String(s) })).Draw(t, "n")
		var dst struct {
			N enc.Digits
			L []enc.Digits
		}
		err := enc.Unmarshal(c(), enc.Map{"N": n, "L": enc.List{n}}, &dst)
		vh.Case(true, fmt.Sprintf("Digits <- %#v", n), "digits")
		if err == nil {
			var js []byte
			if p := vh.Try(func() { js, err = enc.MarshalJSON(c(), dst) }); p != "" || err != nil || !json.Valid(js) {
				t.Fatalf("%#v accepted into enc.Digits, which can not be encoded anymore: %v %s", n, err, p)
			}
		}
		var odd struct { // options which only the standard library knows
			S struct {
				A int `json:",string"`
			}
			O []struct {
				A int `json:"N,omitempty,omitzero"`
			}
		}
		if p := vh.Try(func() { _ = enc.Unmarshal(c(), enc.Map{"S": enc.Map{"A": n}, "O": enc.List{enc.Map{"N": n}}}, &odd) }); p != "" {
			t.Fatalf("%#v into unknown tag options: %s", n, p)
		}
		errStop := rapid.SampledFrom(vh.Errs).Draw(t, "factory error")
		h := enc.Handler{Factory: map[reflect.Type]func(c ctx.C, n enc.Node) (any, error){
			reflect.TypeOf(gen.Inner{}):  func(c ctx.C, n enc.Node) (any, error) { return gen.Inner{A: 42}, nil },
			reflect.TypeOf(gen.MyInt(0)): func(c ctx.C, n enc.Node) (any, error) { return 43, nil },
			reflect.TypeOf(""):           func(c ctx.C, n enc.Node) (any, error) { return nil, errStop },
			reflect.TypeOf(false):        func(c ctx.C, n enc.Node) (any, error) { return nil, nil },
		}}
		var f struct {
			I gen.Inner
			P *gen.Inner
			M []gen.MyInt
			S string
			B bool
		}
		key := rapid.SampledFrom([]string{"I", "P", "M", "S", "B"}).Draw(t, "key")
		x := enc.Node(enc.Integer(1))
		if key == "M" {
			x = enc.List{x}
		}
		if p := vh.Try(func() { err = h.Unmarshal(c(), enc.Map{key: x}, &f) }); p != "" {
			t.Fatalf("factory for %s: %s", key, p)
		}
		ok := false
		switch key {
		case "I":
			ok = err == nil && f.I.A == 42
		case "P":
			ok = err == nil && f.P != nil && f.P.A == 42
		case "M":
			ok = err == nil && len(f.M) == 1 && f.M[0] == 43
		case "S":
			ok = errors.Is(err, errStop)
		case "B":
			ok = err != nil
		}
		if !ok {
			t.Fatalf("factory for %s gave %+v, %v", key, f, err)
		}
	})
}
