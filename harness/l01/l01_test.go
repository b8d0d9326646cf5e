package l01

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math"
	"net/url"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	if vh.InChild() == "stdout" {
		child()
		os.Exit(0)
	}
	vh.Main(m, "L01", "trees of contexts with tags, loggers, log functions and helpers, every log call on any of them with generated levels, formats and arguments (errors, loggables, redacted, broken); bursts of concurrent calls; non-trivial: a call with an error, a loggable or a redacted argument, or a tree of at least three contexts")
}

// ---- sinks: where lines end up

type call struct {
	c     ctx.C
	level slog.Level
	src   string
	f     string
	args  []any
}

type sink struct {
	buf    *bytes.Buffer // for a slog logger
	calls  []call        // for a function
	std    bool          // a logger of ours (all levels, slog's own names)
	viaFmt bool
}

// ---- arguments

type loggable struct {
	val any
	set map[string]ctx.JSON
	del []string
}

func (l loggable) LogAs(tags *log.Tags) any {
	for _, k := range l.del {
		delete(*tags, k)
	}
	for k, v := range l.set {
		(*tags)[k] = v
	}
	return l.val
}

type ptrLoggable struct{ s string }

func (p *ptrLoggable) LogAs(*log.Tags) any { return "as:" + p.s }

type nilErr struct{ s string }

func (e *nilErr) Error() string { return e.s }

type badErr struct{}

func (badErr) Error() string { panic("no text") }

type badUnwrap struct{}

func (badUnwrap) Error() string { return "outer" }
func (badUnwrap) Unwrap() error { panic("nothing inside") }

type loggableErr struct{ s string }

func (l loggableErr) Error() string       { return "err:" + l.s }
func (l loggableErr) LogAs(*log.Tags) any { return "shown" }

type plain struct {
	A int
	B string
}

type arg struct {
	v      any
	kind   string
	shown  any // what goes to the formatter
	err    error
	text   string // of the error
	set    map[string]ctx.JSON
	del    []string
	secret string
	loose  bool // the text of the message is not specified
}

var secretN int

func drawArg(t *rapid.T, errC ctx.C, errTags map[string]string) arg {
	same := func(kind string, v any) arg { return arg{v: v, kind: kind, shown: v} }
	switch rapid.IntRange(0, 22).Draw(t, "arg") {
	case 0:
		return same("int", rapid.Int().Draw(t, "int"))
	case 1:
		return same("string", rapid.String().Draw(t, "str"))
	case 2:
		return same("nil", nil)
	case 3:
		return same("float", rapid.SampledFrom([]float64{0, 1.5, math.NaN(), math.Inf(1), -1e300}).Draw(t, "float"))
	case 4:
		return same("bytes", rapid.SliceOf(rapid.Byte()).Draw(t, "bytes"))
	case 5:
		return same("struct", plain{rapid.Int().Draw(t, "a"), rapid.String().Draw(t, "b")})
	case 6:
		return same("odd string", rapid.SampledFrom([]string{"\n", "\"", "\x00\xff", "{\"a\":1}\n{\"b\":2}", "\u2028", "\xed\xa0\x80", "%d", "<&>", strings.Repeat("long ", 5000)}).Draw(t, "odd"))
	case 7:
		return same("map", map[string]int{"b": 1, "a": 2})
	case 8:
		return same("tags", log.Tags{"a": ctx.JSON(`1`)})
	case 9, 10:
		e := errors.New(rapid.StringN(0, 8, -1).Draw(t, "err"))
		if rapid.Bool().Draw(t, "well known") {
			e = rapid.SampledFrom(vh.Errs).Draw(t, "error")
		}
		return arg{v: e, kind: "error", shown: e, err: e, text: e.Error()}
	case 11, 12:
		e := ctx.NewErrorf(errC, "x %s", rapid.StringN(0, 8, -1).Draw(t, "err"))
		return arg{v: e, kind: "ctx error", shown: e, err: e, text: e.Error()}
	case 13:
		e := fmt.Errorf("outer: %w", ctx.WrapError(errC, io.EOF))
		return arg{v: e, kind: "wrapped ctx error", shown: e, err: e, text: e.Error()}
	case 14:
		e := errors.Join(io.EOF, ctx.NewErrorf(errC, "joined\nline"))
		return arg{v: e, kind: "joined error", shown: e, err: e, text: e.Error()}
	case 15, 16:
		secretN++
		s := fmt.Sprintf("S3cr3t%d%s", secretN, rapid.StringMatching(`[a-zA-Z0-9]{6}`).Draw(t, "secret"))
		a := arg{v: log.RedactedString(s), kind: "redacted", shown: "***", secret: s}
		if rapid.IntRange(0, 3).Draw(t, "pointer") == 3 {
			r := log.RedactedString(s)
			a.v, a.kind = &r, "redacted pointer"
		}
		return a
	case 17, 18:
		a := arg{kind: "loggable", set: map[string]ctx.JSON{}}
		l := loggable{val: rapid.SampledFrom([]any{"as", 12, nil, io.EOF, []int{1}}).Draw(t, "as")}
		for n := rapid.IntRange(0, 2).Draw(t, "sets"); n > 0; n-- {
			j := gen.JSON(2).Draw(t, "tag").String()
			a.set[drawKey(t)] = ctx.JSON(j)
		}
		if rapid.IntRange(0, 4).Draw(t, "dels") == 4 {
			l.del = append(l.del, drawKey(t))
		}
		l.set = a.set
		a.v, a.shown, a.del = l, l.val, l.del
		return a
	case 19:
		return arg{v: &ptrLoggable{"p"}, kind: "loggable", shown: "as:p"}
	case 20:
		return arg{v: loggableErr{"x"}, kind: "loggable error", shown: "shown"}
	case 21:
		return rapid.SampledFrom([]func() arg{
			func() arg { e := (*nilErr)(nil); return arg{v: e, kind: "nil error", shown: e, err: e, text: "?"} },
			func() arg { e := (*url.Error)(nil); return arg{v: e, kind: "nil wrapper", shown: e, err: e, text: "?"} },
			func() arg {
				e := (*ctx.Error)(nil)
				return arg{v: e, kind: "nil ctx error", shown: e, err: e, text: "?"}
			},
			func() arg { e := badUnwrap{}; return arg{v: e, kind: "bad unwrap", shown: e, err: e, text: "outer"} },
			func() arg { return arg{v: badErr{}, kind: "bad error", shown: badErr{}, err: badErr{}, text: "?"} },
			func() arg { return arg{v: (*ptrLoggable)(nil), kind: "nil loggable", loose: true} },
			func() arg { return arg{v: (*log.RedactedString)(nil), kind: "nil redacted", loose: true} },
		}).Draw(t, "broken")()
	default:
		return same("chan", make(chan int))
	}
}

var keys = []string{"level", "msg", "message", "time", "src", "source", "tags", "error", "a", "b", "", "a.b", "ü\n\"", "!BADKEY", "test"}

func drawKey(t *rapid.T) string {
	if rapid.IntRange(0, 5).Draw(t, "own key") == 5 {
		return gen.Clean(rapid.String().Draw(t, "key"))
	}
	return rapid.SampledFrom(keys).Draw(t, "key")
}

// a tag's value and its JSON ("" when any text will do)
func drawTag(t *rapid.T) (any, string) {
	switch rapid.IntRange(0, 6).Draw(t, "tag kind") {
	case 0:
		s := gen.Clean(rapid.String().Draw(t, "s"))
		j, _ := json.Marshal(s)
		return s, string(j)
	case 1:
		n := rapid.Int().Draw(t, "n")
		return n, fmt.Sprint(n)
	case 2:
		j := gen.JSON(2).Draw(t, "json").String()
		return ctx.JSON(j), j
	case 3:
		j := gen.JSON(2).Draw(t, "json").String()
		return json.RawMessage(j), j
	case 4:
		return plain{1, "<b>\n"}, `{"A":1,"B":"<b>\n"}`
	case 5:
		return nil, `null`
	default:
		return func() {}, ""
	}
}

// ---- contexts

type node struct {
	c       ctx.C
	parent  int
	tags    map[string]string // JSON, "" for any
	sink    *sink
	helper  *int
	helpers int
}

func (n *node) child(c ctx.C) *node {
	m := &node{c: c, tags: map[string]string{}, sink: n.sink, helper: n.helper}
	for k, v := range n.tags {
		m.tags[k] = v
	}
	return m
}

type line struct {
	raw  string
	m    map[string]json.RawMessage
	tags map[string]json.RawMessage
}

// kept as it is, and the buffer is then used for something else
func keepTags(s string) (log.Tags, string) {
	buf := []byte(s)
	var l struct {
		Tags log.Tags `json:"tags"`
	}
	if err := json.Unmarshal(buf, &l); err != nil {
		return nil, err.Error()
	}
	before := fmt.Sprint(l.Tags)
	for i := range buf {
		buf[i] = '#'
	}
	if after := fmt.Sprint(l.Tags); before != after {
		return nil, fmt.Sprintf("tags %.200s became %.200s with the buffer they were read from", before, after)
	}
	return l.Tags, ""
}

func parseLine(s string) (*line, error) {
	if !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("no end of line: %.300q", s)
	}
	if strings.Count(s, "\n") != 1 {
		return nil, fmt.Errorf("%d lines: %.300q", strings.Count(s, "\n"), s)
	}
	if j, err := gen.ParseJ([]byte(s)); err != nil {
		return nil, fmt.Errorf("%v in %.300q", err, s)
	} else if j.K != 'o' {
		return nil, fmt.Errorf("not an object: %.300q", s)
	}
	l := &line{raw: s}
	if err := json.Unmarshal([]byte(s), &l.m); err != nil {
		return nil, err
	}
	if _, msg := keepTags(s); msg != "" {
		return nil, errors.New(msg)
	}
	if t, ok := l.m["tags"]; ok {
		if err := json.Unmarshal(t, &l.tags); err != nil {
			return nil, fmt.Errorf("tags: %v in %.300q", err, s)
		}
	}
	return l, nil
}

func str(j json.RawMessage) string {
	var s string
	if json.Unmarshal(j, &s) != nil {
		return "not a string: " + string(j)
	}
	return s
}

func eqJSON(a, b string) bool {
	dec := func(s string) (v any, ok bool) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		ok = d.Decode(&v) == nil
		return v, ok
	}
	x, ok1 := dec(a)
	y, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(x, y)
}

// every way to call
var levels = []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}

func emit(k int, c ctx.C, level slog.Level, src, f string, args []any) string {
	file, ln := "", 0
	switch k {
	case 0:
		_, file, ln, _ = runtime.Caller(0)
		log.Debugf(c, f, args...)
	case 1:
		_, file, ln, _ = runtime.Caller(0)
		log.Infof(c, f, args...)
	case 2:
		_, file, ln, _ = runtime.Caller(0)
		log.Warnf(c, f, args...)
	case 3:
		_, file, ln, _ = runtime.Caller(0)
		log.Errorf(c, f, args...)
	case 4:
		log.Customf(c, level, src, f, args...)
		return src
	case 5: // from a closure, by value
		func(log func(ctx.C, string, ...any)) {
			_, file, ln, _ = runtime.Caller(0)
			log(c, f, args...)
		}(log.Infof)
	}
	return fmt.Sprintf("%s:%d", file, ln+1)
}

func levelOf(k int, level slog.Level) slog.Level {
	switch k {
	case 4:
		return level
	case 5:
		return slog.LevelInfo
	}
	return levels[k]
}

func TestLines(t *testing.T) {
	vh.Check(t, 4000, 120000, func(t *rapid.T) {
		base, cf := ctx.Background()
		defer cf(nil)
		sinks := []*sink{{buf: &bytes.Buffer{}}}
		root := &node{c: log.WithSlogLogger(base, log.NewDefaultSlogLogger(sinks[0].buf)), parent: -1, tags: map[string]string{}, sink: sinks[0]}
		// tags the base might come with are not ours to specify
		for k, v := range log.ExtractTags(root.c) {
			root.tags[k] = string(v)
		}
		nodes := []*node{root}
		min := slog.LevelDebug
		log.SetDefaultLoggerLevel(min)
		nontrivial := false
		var labels []string
		steps := rapid.IntRange(1, 12).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			n := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "on")]
			switch rapid.IntRange(0, 11).Draw(t, "op") {
			case 0, 1, 2:
				k := drawKey(t)
				v, j := drawTag(t)
				m := n.child(ctx.WithTag(n.c, k, v))
				m.tags[k] = j
				nodes = append(nodes, m)
			case 3:
				s := &sink{buf: &bytes.Buffer{}}
				sinks = append(sinks, s)
				var l *slog.Logger
				if rapid.Bool().Draw(t, "default logger") {
					l = log.NewDefaultSlogLogger(s.buf)
					log.SetDefaultLoggerLevel(min)
				} else {
					s.std = true
					l = slog.New(slog.NewJSONHandler(s.buf, &slog.HandlerOptions{Level: slog.Level(-1000)}))
				}
				m := n.child(log.WithSlogLogger(n.c, l))
				m.sink = s
				nodes = append(nodes, m)
			case 4:
				s := &sink{}
				sinks = append(sinks, s)
				m := n.child(log.WithLogFunc(n.c, func(c ctx.C, level slog.Level, src, f string, args ...any) {
					s.calls = append(s.calls, call{c, level, src, f, args})
				}))
				m.sink = s
				nodes = append(nodes, m)
			case 5:
				cnt := new(int)
				m := n.child(log.WithHelper(n.c, func() { *cnt++ }))
				m.helper = cnt
				nodes = append(nodes, m)
			case 6:
				c, _ := ctx.Span(n.c, "s")
				m := n.child(c)
				for k, v := range log.ExtractTags(c) {
					if _, ok := m.tags[k]; !ok || k == "tracking-id" {
						m.tags[k] = string(v)
					}
				}
				nodes = append(nodes, m)
			case 7:
				if rapid.Bool().Draw(t, "set level") {
					min = slog.Level(rapid.SampledFrom([]int{-8, -4, -1, 0, 3, 4, 8, 9}).Draw(t, "min"))
					log.SetDefaultLoggerLevel(min)
					labels = append(labels, "level changed")
				}
			default:
				l, nt := logCall(t, n, nodes, sinks, min)
				labels = append(labels, l...)
				nontrivial = nontrivial || nt
			}
		}
		// whatever was built on the way, each context still has its own
		for _, n := range nodes {
			l, nt := logCall(t, n, nodes, sinks, min)
			labels = append(labels, l...)
			nontrivial = nontrivial || nt
		}
		vh.Case(nontrivial || len(nodes) > 2, fmt.Sprintf("%d contexts, %d sinks, %d steps: %s", len(nodes), len(sinks), steps, strings.Join(labels, " ")), labels...)
	})
}

func logCall(t *rapid.T, n *node, nodes []*node, sinks []*sink, min slog.Level) (labels []string, nontrivial bool) {
	k := rapid.IntRange(0, 5).Draw(t, "call")
	level := slog.Level(rapid.SampledFrom([]int{0, -4, 4, 8, 50, 1, -7, 2, 11}).Draw(t, "level"))
	src := rapid.SampledFrom([]string{"", "here:1", "odd \"src\"\n"}).Draw(t, "src")
	level = levelOf(k, level)

	errC := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "error's context")].c
	if rapid.SampledFrom([]bool{false, false, true}).Draw(t, "error of a cancelled context") {
		x, cf := ctx.WithCancel(errC)
		cf(rapid.SampledFrom([]error{nil, io.EOF}).Draw(t, "cause"))
		errC = x
	}
	var as []arg
	nargs := rapid.IntRange(0, 4).Draw(t, "args")
	for i := 0; i < nargs; i++ {
		as = append(as, drawArg(t, errC, nil))
	}
	f := ""
	nverbs := nargs
	if rapid.IntRange(0, 5).Draw(t, "mismatch") == 5 {
		nverbs = rapid.IntRange(0, 5).Draw(t, "verbs")
	}
	for i := 0; i < nverbs; i++ {
		f += rapid.SampledFrom([]string{" ", "a=", "\n", "\"", "\xff", "%%", ""}).Draw(t, "text") +
			rapid.SampledFrom([]string{"%v", "%s", "%+v", "%d", "%q", "%#v", "%x", "%w", "%T", "%[1]v", "%*d", "%!"}).Draw(t, "verb")
	}
	if nverbs == 0 {
		f = rapid.String().Draw(t, "format")
	}

	args := make([]any, 0, nargs+2)
	var shown []any
	loose := false
	for _, a := range as {
		args = append(args, a.v)
		shown = append(shown, a.shown)
		loose = loose || a.loose
		if a.err != nil || a.kind == "loggable" || a.secret != "" {
			nontrivial = true
		}
		labels = append(labels, "argument: "+a.kind)
	}
	before := append([]any{}, args...)
	lens := make([]int, len(sinks))
	for i, s := range sinks {
		lens[i] = len(s.calls)
		if s.buf != nil {
			lens[i] = s.buf.Len()
		}
	}
	helped := 0
	if n.helper != nil {
		helped = *n.helper
	}

	start := time.Now()
	var wantSrc string
	if msg := vh.Try(func() { wantSrc = emit(k, n.c, level, src, f, args) }); msg != "" {
		t.Fatalf("logging %q with %s: %s", f, kinds(as), msg)
	}
	end := time.Now()

	if !reflect.DeepEqual(types(before), types(args)) || !same(before, args) {
		t.Fatalf("the arguments of the caller were changed: %v, then %v", types(before), types(args))
	}
	if n.helper != nil && *n.helper == helped {
		t.Fatalf("the helper was not called")
	}
	for i, s := range sinks {
		now := len(s.calls)
		if s.buf != nil {
			now = s.buf.Len()
		}
		if s != n.sink && now != lens[i] {
			t.Fatalf("something was written to the logger of another context")
		}
	}

	s := n.sink
	if s.buf == nil {
		if len(s.calls) != lens[index(sinks, s)]+1 {
			t.Fatalf("%d calls of the log function for one", len(s.calls)-lens[index(sinks, s)])
		}
		got := s.calls[len(s.calls)-1]
		if !reflect.DeepEqual(log.ExtractTags(got.c), log.ExtractTags(n.c)) || got.level != level || got.src != wantSrc || got.f != f || len(got.args) != len(args) {
			t.Fatalf("got %v %q %q %d args, want %v %q %q %d args", got.level, got.src, got.f, len(got.args), level, wantSrc, f, len(args))
		}
		if !same(got.args, before) {
			t.Fatalf("arguments of the log function: %v, want %v", types(got.args), types(before))
		}
		return append(labels, "log function"), nontrivial
	}

	raw := s.buf.String()[lens[index(sinks, s)]:]
	if !s.std && level < min {
		if raw != "" {
			t.Fatalf("level %v is below %v but gives %.300q", level, min, raw)
		}
		return append(labels, "below the level"), nontrivial
	}
	l, err := parseLine(raw)
	if err != nil {
		t.Fatalf("%v\nlogging %q with %s", err, f, kinds(as))
	}
	wantLevel, msgKey := strings.ToLower(level.String()), "message"
	if s.std {
		wantLevel, msgKey = level.String(), "msg"
	}
	if got := str(l.m["level"]); got != wantLevel {
		t.Fatalf("level %q, want %q", got, wantLevel)
	}
	if !loose {
		if got, want := str(l.m[msgKey]), string([]rune(fmt.Sprintf(f, shown...))); got != want {
			t.Fatalf("message %q, want %q\nlogging %q with %s", got, want, f, kinds(as))
		}
	}
	if got, ok := l.m["src"]; ok != (wantSrc != "") || ok && str(got) != wantSrc {
		t.Fatalf("src %s, want %q", got, wantSrc)
	}
	if ts, err := time.Parse(time.RFC3339Nano, str(l.m["time"])); err != nil || ts.Before(start.Add(-time.Second)) || ts.After(end.Add(time.Second)) {
		t.Fatalf("time %s (%v), want %v - %v", l.m["time"], err, start, end)
	}
	for k := range l.m {
		switch k {
		case "level", "time", "src", "tags", msgKey:
		default:
			t.Fatalf("unexpected %q in %.300q", k, raw)
		}
	}
	for _, a := range as {
		if a.secret != "" && (strings.Contains(raw, a.secret) || strings.Contains(raw, fmt.Sprintf("%x", a.secret))) {
			t.Fatalf("%q in clear: %.500q", a.secret, raw)
		}
	}

	want := map[string]string{}
	for k, v := range n.tags {
		want[k] = v
	}
	var errs []arg
	for _, a := range as {
		for _, k := range a.del {
			delete(want, k)
		}
		for k, v := range a.set {
			want[k] = string(v)
		}
		if a.err != nil {
			errs = append(errs, a)
		}
	}
	if len(errs) > 0 {
		if err := checkErrs(l.tags["error"], errs); err != nil {
			t.Fatalf("%v\n%.500q", err, raw)
		}
		labels = append(labels, "errors")
		delete(want, "error")
		delete(l.tags, "error")
	}
	for k, w := range want {
		got, ok := l.tags[k]
		if !ok {
			t.Fatalf("tag %q is missing: %.500q", k, raw)
		}
		if w == "" { // some explanation
			if s := str(got); strings.HasPrefix(s, "not a string") {
				t.Fatalf("tag %q: %s", k, got)
			}
		} else if !eqJSON(string(got), w) {
			t.Fatalf("tag %q is %.300s, want %.300s", k, got, w)
		}
	}
	if len(l.tags) != len(want) {
		t.Fatalf("%d tags, want %d: %.500q", len(l.tags), len(want), raw)
	}
	if len(want) > 0 {
		labels = append(labels, "tags")
	}
	return labels, nontrivial
}

func checkErrs(tag json.RawMessage, errs []arg) error {
	var got []struct {
		Error string
		Stack []string
		Tags  map[string]json.RawMessage
	}
	if err := json.Unmarshal(tag, &got); err != nil {
		return fmt.Errorf("error tag %.300s: %v", tag, err)
	}
	if len(got) != len(errs) {
		return fmt.Errorf("%d errors in the tag, want %d", len(got), len(errs))
	}
	for i, a := range errs {
		if a.text == "?" {
			continue
		}
		if got[i].Error != string([]rune(a.text)) {
			return fmt.Errorf("error %d is %q, want %q", i, got[i].Error, a.text)
		}
		var ce ctx.Error
		if a.kind == "bad unwrap" || !errors.As(a.err, &ce) {
			if len(got[i].Stack) > 0 {
				return fmt.Errorf("a stack for %q", a.text)
			}
			continue
		}
		if !reflect.DeepEqual(got[i].Stack, ce.Stack) {
			return fmt.Errorf("stack of %q is %q, want %q", a.text, got[i].Stack, ce.Stack)
		}
		want := log.ExtractTags(ce.C)
		if len(want) != len(got[i].Tags) {
			return fmt.Errorf("tags of %q are %s, want %s", a.text, got[i].Tags, want)
		}
		for k, v := range want {
			if !eqJSON(string(got[i].Tags[k]), string(v)) {
				return fmt.Errorf("tag %q of %q is %s, want %s", k, a.text, got[i].Tags[k], v)
			}
		}
	}
	return nil
}

func index(l []*sink, s *sink) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

func types(l []any) (out []string) {
	for _, v := range l {
		out = append(out, fmt.Sprintf("%T", v))
	}
	return out
}

func same(a, b []any) bool {
	for i := range a {
		x, y := reflect.ValueOf(a[i]), reflect.ValueOf(b[i])
		if !x.IsValid() || !y.IsValid() {
			if x.IsValid() != y.IsValid() {
				return false
			}
			continue
		}
		if x.Kind() == reflect.Float64 { // not a number
			continue
		}
		if x.Type() != y.Type() || !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func kinds(l []arg) string {
	var s []string
	for _, a := range l {
		s = append(s, a.kind)
	}
	return strings.Join(s, ", ")
}

// ---- many goroutines on the same contexts, loggers and argument lists

type yieldBuf struct {
	n   int
	buf []byte
}

func (y *yieldBuf) Write(p []byte) (int, error) { // in pieces, so that two at once would mix
	y.n++
	for i := 0; i < len(p); {
		j := i + 40
		if j > len(p) {
			j = len(p)
		}
		y.buf = append(y.buf, p[i:j]...)
		i = j
		if y.n%8 == 0 {
			runtime.Gosched()
		}
	}
	return len(p), nil
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 300, 8000, func(t *rapid.T) {
		base, cf := ctx.Background()
		defer cf(nil)
		out := &yieldBuf{}
		root := log.WithSlogLogger(base, log.NewDefaultSlogLogger(out))
		log.SetDefaultLoggerLevel(slog.LevelDebug)
		ng := rapid.IntRange(1, 6).Draw(t, "goroutines")
		shared := rapid.Bool().Draw(t, "shared arguments")
		per := rapid.IntRange(1, 12).Draw(t, "each")
		cs := []ctx.C{root, ctx.WithTag(root, "a", 1), ctx.WithTag(ctx.WithTag(root, "a", 2), "b", []string{"x"})}
		tags := []string{`{}`, `{"a":1}`, `{"a":2,"b":["x"]}`}
		secret := log.RedactedString("S3cr3tShared")
		list := []any{ctx.NewErrorf(cs[2], "an error"), secret, loggable{val: "as", set: map[string]ctx.JSON{"l": ctx.JSON(`7`)}}, "tail"}
		strange := rapid.Bool().Draw(t, "big")
		fill := ""
		if strange {
			fill = strings.Repeat("x", 3000)
		}
		plan := make([][]int, ng)
		for g := range plan {
			for i := 0; i < per; i++ {
				plan[g] = append(plan[g], rapid.IntRange(0, 2).Draw(t, "context")*8+rapid.IntRange(0, 3).Draw(t, "call"))
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range plan {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				c := cs[0]
				_ = c
				for i, p := range plan[g] {
					c := cs[p/8]
					args := list
					if !shared {
						args = append([]any{}, list...)
					}
					emit(p%8, c, 0, "", fmt.Sprintf("%d/%d %s ", g, i, fill)+"%v %v %v %v", args)
				}
			}()
		}
		close(start)
		vh.Within("logging", wg.Wait)
		if list[1] != any(secret) {
			t.Fatalf("the shared arguments were changed to %v", list)
		}
		seen := map[string]bool{}
		lines := strings.SplitAfter(string(out.buf), "\n")
		lines = lines[:len(lines)-1]
		for _, raw := range lines {
			l, err := parseLine(raw)
			if err != nil {
				t.Fatal(err)
			}
			var g, i int
			msg := str(l.m["message"])
			if _, err := fmt.Sscanf(msg, "%d/%d", &g, &i); err != nil || g >= ng || i >= per || seen[fmt.Sprint(g, i)] {
				t.Fatalf("unexpected line (%v): %.300q", err, raw)
			}
			seen[fmt.Sprint(g, i)] = true
			p := plan[g][i]
			if want := fmt.Sprintf("%d/%d %s an error *** as tail", g, i, fill); want != msg {
				t.Fatalf("message %.300q, want %.300q", msg, want)
			}
			if want := strings.ToLower(levels[p%8].String()); str(l.m["level"]) != want {
				t.Fatalf("level %s, want %s", l.m["level"], want)
			}
			if strings.Contains(raw, "S3cr3t") {
				t.Fatalf("in clear: %.300q", raw)
			}
			if err := checkErrs(l.tags["error"], []arg{{err: list[0].(error), text: "an error"}}); err != nil {
				t.Fatal(err)
			}
			delete(l.tags, "error")
			if !eqJSON(string(l.tags["l"]), "7") {
				t.Fatalf("the loggable's tag is %s", l.tags["l"])
			}
			delete(l.tags, "l")
			got, _ := json.Marshal(l.tags)
			if !eqJSON(string(got), tags[p/8]) {
				t.Fatalf("tags %s, want %s", got, tags[p/8])
			}
		}
		if len(lines) != ng*per {
			t.Fatalf("%d lines for %d calls", len(lines), ng*per)
		}
		l := []string{"concurrent"}
		if shared {
			l = append(l, "shared arguments")
		}
		vh.Case(ng > 1, fmt.Sprintf("%d goroutines, %d calls each", ng, per), l...)
	})
}

// ---- the default logger writes to stdout

func child() {
	base, _ := ctx.Background()
	// before any configuration: everything from debug on
	emit(0, base, 0, "", "first %d", []any{1})
	emit(0, nil, 0, "", "none %d", []any{2})
	log.SetDefaultLoggerLevel(slog.LevelWarn)
	emit(1, base, 0, "", "hidden %d", []any{3})
	emit(3, ctx.WithTag(base, "k", "v"), 0, "", "shown %d", []any{4})
	log.SetDefaultLoggerLevel(slog.LevelDebug)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				emit(i%4, ctx.WithTag(base, "g", g), 0, "", "burst %d %d", []any{g, i})
			}
		}()
	}
	vh.Within("the burst", wg.Wait)
}

func TestStdout(t *testing.T) {
	if vh.Shard != 0 {
		t.Skip()
	}
	c := vh.Spawn("stdout")
	defer c.Kill()
	if code, ok := c.WaitExit(60 * time.Second); !ok || code != 0 {
		vh.Violation("logging to stdout: exit %d %v\n%s", code, ok, c.Stderr())
	}
	var msgs []string
	seen := map[string]bool{}
	for _, raw := range strings.SplitAfter(c.Stderr(), "\n") {
		if raw == "" {
			continue
		}
		l, err := parseLine(raw)
		if err != nil {
			vh.Violation("on stdout: %v", err)
		}
		msg := str(l.m["message"])
		if strings.HasPrefix(msg, "burst") {
			var g, i int
			fmt.Sscanf(msg, "burst %d %d", &g, &i)
			if seen[msg] || str(l.m["level"]) != strings.ToLower(levels[i%4].String()) || string(l.tags["g"]) != fmt.Sprint(g) {
				vh.Violation("on stdout: %s", raw)
			}
			seen[msg] = true
			continue
		}
		msgs = append(msgs, msg)
	}
	if want := []string{"first 1", "none 2", "shown 4"}; !reflect.DeepEqual(msgs, want) || len(seen) != 400 {
		vh.Violation("on stdout: %q and %d of 400, want %q", msgs, len(seen), want)
	}
	vh.Case(true, "the default logger on stdout", "stdout")
}
