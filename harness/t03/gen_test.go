package t03

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// site is one generated test function with what it must report
type site struct {
	id    int
	kind  string
	decl  string // package-level code; \x01 stands before the name of the called function
	desc  string
	args  [][]string // acceptable excerpts of each argument; nil: only no crash
	loose bool       // the call cannot be located: an excerpt may be missing
	asg   []want     // probes of assignments
	logs  []string   // texts the assertion's log must hold, in order
	fails bool       // the assertion fails
	line  bool       // check the position of the log
}

type want struct {
	id   int
	must string // exact assignment, or ""
}

// ------------------------------------------------------------ expressions

func lit(t *rapid.T) string {
	return rapid.SampledFrom([]string{"1", "-3", "1.5e3", "0x1F", `"plain"`, `"a,b)("`, `"quote \" \\"`, "`raw ) , (`", "`two\nlines`", `'\''`, `'('`, `"日本語 é"`, "'é'", "true", "any(nil)", `"// no comment"`, `"/*"`, `""`}).Draw(t, "lit")
}

func glue(t *rapid.T, inner bool) string { // white space allowed inside brackets after an opening or a comma
	k := rapid.IntRange(0, 11).Draw(t, "glue")
	switch k {
	case 8:
		return " "
	case 9:
		return "\n\t\t"
	case 10:
		return rapid.SampledFrom([]string{"/* x */", "/* , ) ( */ ", "/* \" */"}).Draw(t, "comment")
	case 11:
		return rapid.SampledFrom([]string{" // x\n\t", "// , ) ( \"\n", "\n\n"}).Draw(t, "comment")
	}
	return ""
}

func list(t *rapid.T, items []string, open, close string, mustTrail bool) string {
	var b strings.Builder
	b.WriteString(open)
	for i, x := range items {
		if i > 0 {
			b.WriteString(",")
			if g := glue(t, true); g != "" {
				b.WriteString(g)
			} else {
				b.WriteString(" ")
			}
		} else {
			b.WriteString(glue(t, true))
		}
		b.WriteString(x)
	}
	switch rapid.IntRange(0, 5).Draw(t, "trail") {
	case 4:
		if len(items) > 0 {
			b.WriteString(",")
		}
		b.WriteString("\n\t")
	case 5:
		if len(items) > 0 {
			b.WriteString(", ")
		}
	}
	b.WriteString(close)
	return b.String()
}

// an expression of any type, and the excerpts which are right for it
func expr(t *rapid.T, depth int) (string, []string) {
	max := 12
	if depth == 0 {
		max = 2
	}
	one := func(s string) (string, []string) { return s, []string{s} }
	sub := func() string { s, _ := expr(t, depth-1); return s }
	subs := func(lo int) []string {
		var out []string
		for i := rapid.IntRange(lo, 3).Draw(t, "n"); i > 0; i-- {
			out = append(out, sub())
		}
		return out
	}
	switch rapid.IntRange(0, max).Draw(t, "expr") {
	default:
		return one(lit(t))
	case 1:
		return one(rapid.SampledFrom([]string{"i1", "arr[1]", "arr[:2]", "*p1", "&i1", "!yes()", "-i1", "i1 == 4/i1", "(i1)", "st.F", "st.G.F", "any(3).(int)", "<-ch()", "len(arr)", "i1+i1<<2", "func() int { return 1 }()", "m1[\"k\"]", "[]int(nil)", "(*int)(nil)", "id[int](4)", "struct{ A int }{1}"}).Draw(t, "simple"))
	case 3, 4:
		return one("id" + list(t, []string{sub()}, "(", ")", false))
	case 5, 6:
		return one("join" + list(t, subs(0), "(", ")", false))
	case 7:
		return one("[]any" + list(t, subs(0), "{", "}", false))
	case 8:
		var kv []string
		for i, s := range subs(0) {
			kv = append(kv, fmt.Sprintf("%q: %s", fmt.Sprint("k", i), s))
		}
		return one("map[string]any" + list(t, kv, "{", "}", false))
	case 9: // a decoy with the name of the functions under test
		return one("dec." + rapid.SampledFrom([]string{"One", "NoError", "Error", "Nil", "Many", "Gen", "EqualsGo", "one"}).Draw(t, "decoy") + list(t, subs(0), "(", ")", false))
	case 10:
		body := rapid.SampledFrom([]string{"return", "i1 := 1; _ = i1", "\n\t\t_ = arr\n\t\t_ = p1\n\t", "if yes() { return }", "_ = func() { _ = `}` }", "_ = 1 // done\n"}).Draw(t, "body")
		s := "func() { " + body + " }"
		b := strings.TrimSpace(body)
		if i := strings.Index(b, " // "); i > 0 {
			return s, []string{s, b, b[:i]}
		}
		return s, []string{s, b}
	case 11:
		s := rapid.SampledFrom([]string{"func() {}", "func(a, b int) {\n\t\t// nothing\n\t}", "func() { /* } */ }"}).Draw(t, "empty")
		return s, []string{s, ""}
	case 12:
		return one("st.Self()" + rapid.SampledFrom([]string{".F", ".\n\t\tF", ".G.F", ".Self().Self().F"}).Draw(t, "chain"))
	}
}

// ------------------------------------------------------------ calls

var callees = []struct {
	text    string
	n       int // arguments after t and the id
	returns bool
	method  bool
}{
	{"probe.\x01One", 1, false, false},
	{"pr.\x01One", 1, false, false},
	{"\x01one", 1, false, false},
	{"\x01Dotted", 1, false, false},
	{"probe.\x01Many", -1, false, false},
	{"probe.\x01Gen", 1, true, false},
	{"probe.\x01Gen[any]", 1, true, false},
	{"probe.\x01Gen2[any, string]", 1, true, false},
	{"obj.\x01Meth", 1, true, true},
	{"obj.Self().\x01Meth", 1, true, true},
	{"obj.\n\t\t\x01Meth", 1, true, true},
	{"obj.\n\tSelf().\n\t\t\x01Meth", 1, true, true},
	{"probe.\n\t\t\x01One", 1, false, false},
	{"(&obj).\x01PMeth", 1, true, true},
	{"emb.\x01Meth", 1, true, true},
	{"objs[0].\x01Meth", 1, true, true},
	{"mkObj().\x01Meth", 1, true, true},
	{"probe . \x01One", 1, false, false},
	{"probe./* here */\x01One", 1, false, false},
	{"gobj.\x01GMeth", 1, true, true},
}

func probeSite(t *rapid.T, s *site, nextID func() int) {
	c := callees[rapid.IntRange(0, len(callees)-1).Draw(t, "callee")]
	n := c.n
	if n < 0 {
		n = rapid.IntRange(0, 3).Draw(t, "variadic")
	}
	srcs := []string{"t", fmt.Sprint(s.id)}
	s.args = [][]string{{"t"}, {fmt.Sprint(s.id)}}
	for i := 0; i < n; i++ {
		e, ok := expr(t, 2)
		srcs = append(srcs, e)
		s.args = append(s.args, ok)
	}
	call := c.text + list(t, srcs, "(", ")", false)
	if !c.returns && !c.method {
		switch rapid.IntRange(0, 19).Draw(t, "odd") {
		case 19: // by value of a function
			call = "f := " + strings.Replace(c.text, "\x01", "", 1) + "\n\tf" + list(t, srcs, "(\x01", ")", false)
			s.loose, s.kind = true, "value"
		case 18:
			call = "defer " + call
			s.loose, s.kind = true, "defer"
		case 17:
			call = "(" + c.text + ")" + list(t, srcs, "(", ")", false)
			s.loose, s.kind = true, "paren"
		case 16:
			if n == 1 {
				call = c.text + fmt.Sprintf("(three(t, %d, %s))", s.id, srcs[2])
				s.loose, s.kind = true, "spread"
				s.args = nil
			}
		case 15:
			if c.n < 0 {
				call = c.text + fmt.Sprintf("(t, %d, arrAny...)", s.id)
				s.args = [][]string{{"t"}, {fmt.Sprint(s.id)}, {"arrAny", "arrAny..."}}
			}
		}
	}
	if s.loose && strings.Contains(call, "dec.") {
		s.args = nil // another call of the same name on the line of one which has none
	}
	if s.kind == "" {
		s.kind = "call"
	}
	s.wrap(t, call, c.returns)
}

// wrap puts the call somewhere in a function
func (s *site) wrap(t *rapid.T, call string, returns bool) {
	max := 12
	if returns && s.kind == "call" {
		max = 19
	}
	name := fmt.Sprintf("TestS%d", s.id)
	fn := func(body string) string { return fmt.Sprintf("func %s(t *testing.T) {\n\t%s\n}\n", name, body) }
	k := rapid.IntRange(0, max).Draw(t, "where")
	s.desc = fmt.Sprintf("%s@%d %s", s.kind, k, strings.ReplaceAll(call, "\x01", ""))
	switch k {
	default:
		s.decl = fn(call)
	case 3:
		s.decl = fn("if x := yes(); x {\n\t\t" + call + "\n\t}")
	case 4:
		s.decl = fn("func() {\n\t\t" + call + "\n\t}()")
	case 5:
		s.decl = fn("defer func() {\n\t\t" + call + "\n\t}()")
	case 6:
		s.decl = fn("t.Run(\"sub\", func(t *testing.T) {\n\t\t" + call + "\n\t})")
	case 7:
		s.decl = fn("done := make(chan int)\n\tgo func() {\n\t\tdefer close(done)\n\t\t" + call + "\n\t}()\n\t<-done")
	case 8:
		s.decl = fn("switch {\n\tcase no():\n\tdefault:\n\t\t" + call + "\n\t}")
	case 9:
		s.decl = fmt.Sprintf("var v%d = func(t *testing.T) {\n\t%s\n}\n", s.id, call) + fn(fmt.Sprintf("v%d(t)", s.id))
	case 10:
		s.decl = fmt.Sprintf("func g%d[T any](t *testing.T) {\n\t%s\n}\n", s.id, call) + fn(fmt.Sprintf("g%d[int](t)", s.id))
	case 11:
		s.decl = fmt.Sprintf("func (d decoy) M%d(t *testing.T) {\n\t%s\n}\n", s.id, call) + fn(fmt.Sprintf("dec.M%d(t)", s.id))
	case 12:
		s.decl = fn("for i := 0; i < 1; i++ {\n\t\t" + call + "\n\t}")
	case 13:
		s.decl = fn("_ = " + call)
	case 14:
		s.decl = fn("use(" + call + ")")
	case 15:
		s.decl = fn("_ = []any{\n\t\t1,\n\t\t" + call + ",\n\t}")
	case 16:
		s.decl = fn("if x := " + call + "; yes() {\n\t\t_ = x\n\t}")
	case 17:
		s.decl = fn("use(1,\n\t\t" + call + ", 2)")
	case 18:
		s.decl = fn("switch any(" + call + ").(type) {\n\t}")
	case 19:
		s.decl = fn("func() any { return " + call + " }()")
	}
}

// ------------------------------------------------------------ assertions

// an expression whose source is recognised, of a drawn value
func marked(t *rapid.T, n int, val string) string {
	switch rapid.IntRange(0, 3).Draw(t, "marked") {
	case 0:
		return fmt.Sprintf("mark(%d, %s)", n, val)
	case 1:
		return fmt.Sprintf("mark(%d,\n\t\t%s)", n, val)
	case 2:
		return fmt.Sprintf("mark(%d, /* , ) */ %s,\n\t)", n, val)
	default:
		return fmt.Sprintf("id(mark(%d, %s))", n, val)
	}
}

func assertSite(t *rapid.T, s *site, found bool) {
	m1, m2 := s.id*10+1, s.id*10+2
	k1, k2 := fmt.Sprintf("mark(%d,", m1), fmt.Sprintf("mark(%d,", m2)
	var name string
	var srcs []string
	call := func(n string, a ...string) { name, srcs = n, a }
	yes := rapid.Bool().Draw(t, "pass")
	s.fails = !yes
	pick := func(a, b string) string {
		if yes {
			return a
		}
		return b
	}
	e := func(n int, v string) string { return marked(t, n, v) }
	ctx := "test.Context(t)"
	assigned := rapid.Bool().Draw(t, "assigned")
	direct := false // excerpts are of the arguments, whatever was assigned
	pre := ""
	h := rapid.IntRange(0, 13).Draw(t, "helper")
	byValue := rapid.IntRange(0, 9).Draw(t, "value") == 9 && h != 13
	if argCrash && (!found || byValue) && h >= 3 && h <= 6 {
		h = 0 // a recorded finding
	}
	switch h {
	case 0:
		call("Assert", "t", e(m1, pick("true", "false")))
		s.logs = []string{k1}
	case 1:
		call("NoError", "t", e(m1, "error(nil)"))
		s.fails = false
		s.logs = []string{k1}
	case 2:
		call("Error", "t", e(m1, "error(nil)"))
		s.fails = true
		s.logs = []string{k1}
	case 3:
		call("Nil", "t", e(m1, pick("(*int)(nil)", "p1")))
		s.logs, direct = []string{k1}, true
	case 4:
		call("NotNil", "t", e(m1, pick("p1", "(*int)(nil)")))
		s.logs, direct = []string{k1}, true
	case 5:
		call("Empty", "t", e(m1, pick(`""`, `"x"`)))
		s.logs, direct = []string{k1}, true
	case 6:
		call("NotEmpty", "t", e(m1, pick(`"x"`, `""`)))
		s.logs, direct = []string{k1}, true
	case 7:
		call("EqualsGo", "t", e(m1, "1"), e(m2, pick("1", "2")))
		s.logs = []string{k1, k2}
	case 8:
		call("NotEqualsGo", "t", e(m1, "1"), e(m2, pick("2", "1")))
		s.logs = []string{k1, k2}
	case 9:
		call("EqualsStr", "t", e(m1, `"a"`), e(m2, pick(`"a"`, `"b"`)))
		s.logs = []string{k1, k2}
	case 10:
		call("EqualsType", "t", e(m1, "1"), e(m2, pick("1", `"x"`)))
		s.logs = []string{k1, k2}
	case 11:
		call("EqualsJSON", ctx, e(m1, "1"), e(m2, pick("1", "2")))
		s.logs = []string{k1, k2}
	case 12:
		call("NotEqualsJSON", ctx, e(m1, "1"), e(m2, pick("2", "1")))
		s.logs = []string{k1, k2}
	case 13:
		name = rapid.SampledFrom([]string{"Shift", "Pop", "Shift[int]", "Pop[int]"}).Draw(t, "list")
		l := pick("[]int{1, 2}", "[]int{}")
		srcs = []string{"t", fmt.Sprintf("ref(mark(%d, %s))", m1, l)}
		s.logs, direct = []string{fmt.Sprintf("ref(mark(%d,", m1)}, true
	}
	if assigned && !direct {
		for i := 1; i < len(srcs); i++ {
			pre += fmt.Sprintf("x%d := %s\n\t", i, srcs[i])
			srcs[i] = fmt.Sprintf("x%d", i)
		}
	}
	q := rapid.SampledFrom([]string{"test.\x01", "tst.\x01", "test.\n\t\t\x01", "\x01"}).Draw(t, "how")
	if byValue {
		pre += "f := " + strings.Replace(q, "\x01", "", 1) + name + "\n\t"
		q, name = "\x01", "f"
		s.logs = nil
	}
	s.kind = "assert"
	s.line = true
	body := pre + q + name + list(t, srcs, "(", ")", false)
	s.wrap(t, body, false)
}

// ------------------------------------------------------------ assignments

// assigns is a body of statements over a few variables, with probes of them
type assigns struct {
	t    *rapid.T
	b    strings.Builder
	next func() int
	s    *site
	src  map[int]string // what produced each value
	vars []string
	ind  int
	n    int
}

func (a *assigns) line(f string, args ...any) {
	a.b.WriteString(strings.Repeat("\t", a.ind))
	fmt.Fprintf(&a.b, f, args...)
	a.b.WriteString("\n")
}

// value is a new expression of an error, recognised by its number
func (a *assigns) value() string {
	n := a.next()
	var s string
	switch rapid.IntRange(0, 4).Draw(a.t, "value") {
	default:
		s = fmt.Sprintf("mk(%d)", n)
	case 3:
		s = fmt.Sprintf("wrap(mk(%d), /* , */ \"x\")", n)
	case 4:
		s = fmt.Sprintf("func() error { return mk(%d) }()", n)
	}
	a.src[n] = s
	return s
}

func (a *assigns) v() string {
	return rapid.SampledFrom(a.vars).Draw(a.t, "var")
}

func (a *assigns) probe(v, must string) {
	id := a.next()
	a.s.asg = append(a.s.asg, want{id, must})
	a.line("probe.\x01Err(t, %d, %s)", id, v)
}

func (a *assigns) block(f func()) {
	a.ind++
	f()
	a.ind--
}

func (a *assigns) stmts(depth int) {
	for i := rapid.IntRange(1, 4).Draw(a.t, "stmts"); i > 0; i-- {
		a.stmt(depth)
	}
}

// between a label and its goto nothing may be declared
func (a *assigns) stmtsNoDecl() {
	a.line("{")
	a.block(func() { a.stmts(0) })
	a.line("}")
}

func (a *assigns) stmt(depth int) {
	t := a.t
	max := 24
	if depth == 0 {
		max = 6
	}
	v := a.v()
	cond := func() string { return rapid.SampledFrom([]string{"yes()", "no()"}).Draw(t, "cond") }
	switch rapid.IntRange(0, max).Draw(t, "stmt") {
	default:
		e := a.value()
		a.line("%s = %s", v, e)
		if rapid.Bool().Draw(t, "probe") {
			a.probe(v, e)
		}
	case 2, 3:
		a.probe(v, "")
	case 4:
		e1, e2 := a.value(), a.value()
		w := a.v()
		if w == v {
			a.line("%s, _ = %s, %s", v, e1, e2)
		} else {
			a.line("%s, %s = %s, %s", v, w, e1, e2)
		}
		a.probe(v, "")
	case 5:
		n := a.next()
		e := fmt.Sprintf("two(%d)", n)
		a.src[n] = e
		a.line("_, %s = %s", v, e)
		a.probe(v, e)
	case 6:
		e := a.value()
		a.line("set(&%s, %s)", v, e)
	case 7:
		a.line("{")
		a.block(func() {
			e := a.value()
			a.line("%s := %s", v, e)
			a.probe(v, e)
			a.stmts(depth - 1)
		})
		a.line("}")
		a.probe(v, "")
	case 8:
		a.line("if %s {", cond())
		a.block(func() { a.stmts(depth - 1) })
		if rapid.Bool().Draw(t, "else") {
			a.line("} else {")
			a.block(func() { a.stmts(depth - 1) })
		}
		a.line("}")
		a.probe(v, "")
	case 9:
		e := a.value()
		a.line("if %s := %s; %s {", v, e, cond())
		a.block(func() { a.stmts(depth - 1) })
		a.line("} else {")
		a.block(func() { a.probe(v, "") })
		a.line("}")
		a.probe(v, "")
	case 10:
		a.line("for i := 0; i < 2; i++ {")
		a.block(func() { a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 11:
		a.line("for _, %s := range []error{%s, %s} {", v, a.value(), a.value())
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 12:
		a.line("for _, %s = range []error{%s, %s} {", v, a.value(), a.value())
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 13:
		a.line("func(%s error) {", v)
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("}(%s)", a.value())
		a.probe(v, "")
	case 14:
		a.n++
		f := fmt.Sprintf("f%d", a.n)
		a.line("%s := func() {", f)
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("}")
		a.stmt(depth - 1)
		a.line("%s()", f)
		a.probe(v, "")
		if rapid.Bool().Draw(t, "again") {
			a.stmt(depth - 1)
			a.line("%s()", f)
		}
	case 15:
		a.line("{")
		a.block(func() {
			a.line("var %s error = %s", v, a.value())
			a.probe(v, "")
			a.stmts(depth - 1)
		})
		a.line("}")
		a.probe(v, "")
	case 16:
		a.line("switch %s = %s; {", v, a.value())
		a.line("case %s:", cond())
		a.block(func() { a.stmts(depth - 1) })
		a.line("case %s:", cond())
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("default:")
		a.block(func() { a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 17:
		a.line("select {")
		a.line("case %s = <-never:", v)
		a.line("case %s = <-now(%s):", v, a.value())
		a.block(func() { a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 18:
		a.line("func() {")
		a.block(func() {
			a.line("defer func() {")
			a.block(func() { a.probe(v, "") })
			a.line("}()")
			a.stmts(depth - 1)
		})
		a.line("}()")
		a.probe(v, "")
	case 20: // back to a label
		a.n++
		a.line("n%d := 0; _ = n%d", a.n, a.n)
		l := fmt.Sprintf("L%d", a.n)
		n := a.n
		a.line("%s:", l)
		a.probe(v, "")
		a.stmtsNoDecl()
		a.line("if n%d == 0 {", n)
		a.block(func() { a.line("n%d++", n); a.line("goto %s", l) })
		a.line("}")
		a.probe(v, "")
	case 21: // a labelled loop
		a.n++
		l := fmt.Sprintf("L%d", a.n)
		a.line("%s:", l)
		a.line("for i := 0; i < 3; i++ {")
		a.block(func() {
			a.probe(v, "")
			a.line("if i == 1 {")
			a.block(func() { a.stmts(depth - 1); a.line("continue %s", l) })
			a.line("}")
			a.stmts(depth - 1)
		})
		a.line("}")
		a.probe(v, "")
	case 22:
		n := a.next()
		a.src[n] = fmt.Sprintf("any(mk(%d)).(type)", n)
		a.line("switch %s := %s {", v, a.src[n])
		a.line("case error:")
		a.block(func() { a.line("_ = %s", v); a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 24: // set by a closure, and by nothing else
		a.n++
		f := fmt.Sprintf("f%d", a.n)
		if rapid.Bool().Draw(t, "parameter") {
			a.line("func(%s error) {", v)
			defer a.line("}(%s)", a.value())
		} else {
			a.line("{")
			a.line("var %s error", v)
			defer a.line("}")
		}
		a.block(func() {
			a.line("%s := func() { %s = %s }", f, v, a.value())
			e := a.value()
			a.line("%s = %s", v, e)
			a.probe(v, "")
			a.line("%s()", f)
			a.probe(v, "")
		})
	case 23:
		a.line("switch {")
		a.line("case yes():")
		a.block(func() { a.stmts(depth - 1); a.line("fallthrough") })
		a.line("case no():")
		a.block(func() { a.probe(v, ""); a.stmts(depth - 1) })
		a.line("}")
		a.probe(v, "")
	case 19:
		e := a.value()
		w := rapid.SampledFrom([]string{"st", "arrErr"}).Draw(t, "other")
		if w == "st" {
			a.line("local.E, %s = %s, %s", v, a.value(), e)
		} else {
			a.line("arrErr[0], %s = %s, %s", v, a.value(), e)
		}
		a.probe(v, "")
	}
}

func assignSite(t *rapid.T, s *site, next func() int) map[int]string {
	a := &assigns{t: t, next: next, s: s, src: map[int]string{}, vars: []string{"err", "e2", "pkgErr"}}
	s.kind = "assign"
	a.ind = 1
	a.b.WriteString(fmt.Sprintf("func TestS%d(t *testing.T) {\n", s.id))
	switch rapid.IntRange(0, 3).Draw(t, "declared") {
	case 0:
		a.line("var err error")
	case 1:
		a.line("var err, _ = error(nil), 0")
		a.line("err = %s", a.value())
	default:
		a.line("err := %s", a.value())
	}
	a.probe("err", "")
	a.line("e2 := %s", a.value())
	a.line("pkgErr = %s", a.value())
	a.line("var local struct{ E error }; arrErr := []error{nil}; _, _ = local, arrErr")
	a.stmts(2)
	a.probe("err", "")
	a.probe("e2", "")
	a.b.WriteString("}\n")
	s.decl = a.b.String()
	s.desc = strings.ReplaceAll(s.decl, "\x01", "")
	return a.src
}
