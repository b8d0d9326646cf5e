package t01

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

// one call per helper, in a small file since each call parses it
type args struct {
	a, b any
	s, p string
	err  error
	cond bool
	ints *[]int
	anys *[]any
	got  any
}

var calls = map[string]func(t *testing.T, c ctx.C, x *args){
	"Assert":          func(t *testing.T, c ctx.C, x *args) { test.Assert(t, x.cond) },
	"Empty":           func(t *testing.T, c ctx.C, x *args) { test.Empty(t, x.a) },
	"NotEmpty":        func(t *testing.T, c ctx.C, x *args) { test.NotEmpty(t, x.a) },
	"Nil":             func(t *testing.T, c ctx.C, x *args) { test.Nil(t, x.a) },
	"NotNil":          func(t *testing.T, c ctx.C, x *args) { test.NotNil(t, x.a) },
	"NoError":         func(t *testing.T, c ctx.C, x *args) { test.NoError(t, x.err) },
	"Error":           func(t *testing.T, c ctx.C, x *args) { test.Error(t, x.err) },
	"EqualsType":      func(t *testing.T, c ctx.C, x *args) { test.EqualsType(t, x.a, x.b) },
	"EqualsStr":       func(t *testing.T, c ctx.C, x *args) { test.EqualsStr(t, x.s, x.p) },
	"NotEqualsStr":    func(t *testing.T, c ctx.C, x *args) { test.NotEqualsStr(t, x.s, x.p) },
	"EqualsGo":        func(t *testing.T, c ctx.C, x *args) { test.EqualsGo(t, x.a, x.b) },
	"NotEqualsGo":     func(t *testing.T, c ctx.C, x *args) { test.NotEqualsGo(t, x.a, x.b) },
	"EqualsJSON":      func(t *testing.T, c ctx.C, x *args) { test.EqualsJSON(c, x.a, x.b) },
	"NotEqualsJSON":   func(t *testing.T, c ctx.C, x *args) { test.NotEqualsJSON(c, x.a, x.b) },
	"Contains":        func(t *testing.T, c ctx.C, x *args) { test.Contains(t, x.s, x.p) },
	"NotContains":     func(t *testing.T, c ctx.C, x *args) { test.NotContains(t, x.s, x.p) },
	"ContainsGo":      func(t *testing.T, c ctx.C, x *args) { test.ContainsGo(t, x.a, x.p) },
	"ContainsJSON":    func(t *testing.T, c ctx.C, x *args) { test.ContainsJSON(c, x.a, x.p) },
	"NotContainsJSON": func(t *testing.T, c ctx.C, x *args) { test.NotContainsJSON(c, x.a, x.p) },
	"Shift":           func(t *testing.T, c ctx.C, x *args) { x.got = test.Shift(t, x.ints) },
	"ShiftAny":        func(t *testing.T, c ctx.C, x *args) { x.got = test.Shift(t, x.anys) },
	"Pop":             func(t *testing.T, c ctx.C, x *args) { x.got = test.Pop(t, x.ints) },
	"PopAny":          func(t *testing.T, c ctx.C, x *args) { x.got = test.Pop(t, x.anys) },
	"OK":              func(t *testing.T, c ctx.C, x *args) { test.OK(t, x.s, x.a) },
	"Fail":            func(t *testing.T, c ctx.C, x *args) { test.Fail(t, x.s, x.a) },
}
