package x01

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "X01", "trees of contexts derived in any order from any member by tags, values, cancellations, deadlines, spans, tracking, loggers and detachment (also by the standard library), with cancellations and changes of given data in between, the whole tree compared with a model after every step; crowds deriving and reading at once; non-trivial: at least three derivations, one of which is not a leaf's, and a tag or a cancellation")
}

// ---- the model

type tag struct {
	key  string
	want any // as parsed
	fail bool
}

type node struct {
	id     int
	desc   string
	c      ctx.C
	parent *node
	kids   []*node

	tag        *tag
	key, val   any // WithValue
	tracking   *string
	anyTrack   bool // a fresh id
	detach     bool
	cancel     func(error)
	plain      bool // cancel without a cause
	hasDl      bool
	dlLo       time.Time
	dlHi       time.Time
	dlPast     bool
	dlSoon     bool
	logName    *string // who logs
	helper     *string
	cancelled  bool // known to be
	err, cause error
}

type structKey struct{ n int }
type strKey string

var keys = []any{"a", "b", "level", "tracking-id", strKey("a"), structKey{1}, structKey{2}, 3, 3.5, [1]int{1}}

func (n *node) up() *node { // cancels come from there
	if n.detach {
		return nil
	}
	return n.parent
}

// tags, ancestors first
func (n *node) tags() (l []tag) {
	if n == nil {
		return nil
	}
	l = n.parent.tags()
	if n.tag != nil {
		l = append(l, *n.tag)
	}
	return l
}

// the value for the key: a plain value, a tag or nothing
func (n *node) value(k any) (v any, t *tag) {
	for ; n != nil; n = n.parent {
		if n.key != nil && n.key == k {
			return n.val, nil
		}
		if s, ok := k.(string); ok && n.tag != nil && n.tag.key == s {
			return nil, n.tag
		}
	}
	return nil, nil
}

func (n *node) track() (id string) {
	for ; n != nil; n = n.parent {
		if n.tracking != nil {
			return *n.tracking
		}
	}
	return ""
}

func (n *node) logger() string {
	for ; n != nil; n = n.parent {
		if n.logName != nil {
			return *n.logName
		}
	}
	return ""
}

func (n *node) help() string {
	for ; n != nil; n = n.parent {
		if n.helper != nil {
			return *n.helper
		}
	}
	return ""
}

func (n *node) cancelNow(err, cause error) {
	if n.cancelled {
		return
	}
	n.cancelled, n.err, n.cause = true, err, cause
	for _, k := range n.kids {
		if !k.detach {
			k.cancelNow(err, cause)
		}
	}
}

func (n *node) deadline() (lo, hi time.Time, ok bool) {
	for ; n != nil; n = n.up() {
		if n.hasDl {
			if !ok {
				lo, hi, ok = n.dlLo, n.dlHi, true
				continue
			}
			if n.dlLo.Before(lo) {
				lo = n.dlLo
			}
			if n.dlHi.Before(hi) {
				hi = n.dlHi
			}
		}
	}
	return
}

func (n *node) soon() bool { // may be cancelled by itself at any time
	for ; n != nil; n = n.up() {
		if n.dlSoon {
			return true
		}
	}
	return false
}

// ---- the tree

type tree struct {
	nodes  []*node
	said   []string // who logged
	helped []string
	change []func()
	steps  []string
	ct     int
	deep   bool
	used   bool
}

func (t *tree) add(n *node) *node {
	n.id = len(t.nodes)
	t.nodes = append(t.nodes, n)
	if n.parent != nil {
		if len(n.parent.kids) > 0 {
			t.deep = true
		}
		n.parent.kids = append(n.parent.kids, n)
		if n.parent.cancelled && !n.detach {
			n.cancelled, n.err, n.cause = true, n.parent.err, n.parent.cause
		}
	}
	t.steps = append(t.steps, n.desc)
	return n
}

var causes = []error{nil, nil, io.EOF, errors.New("x"), fmt.Errorf("w: %w", io.EOF), context.DeadlineExceeded}

// a value for a tag, what it must look like, and how to spoil it afterwards
// its error has anything in it
type refusing string

func (r refusing) MarshalJSON() ([]byte, error) {
	return nil, errors.New("no \"" + string(r) + "\"\n\\x")
}

func genTag(t *rapid.T) (v any, want any, fail bool, spoil func()) {
	spoil = func() {}
	flip := func(b []byte) func() {
		return func() {
			for i := range b {
				b[i] = '7'
			}
		}
	}
	text := rapid.SampledFrom([]string{`{"a":[1,"x",null]}`, `"plain"`, `12`, ` [ 1 , 2 ] `, `null`, `"ü\u0000<&>"`, `true`}).Draw(t, "json")
	switch rapid.IntRange(0, 15).Draw(t, "kind") {
	case 0:
		v = rapid.SampledFrom([]string{"", "one", "zwölf", "a\nb", "\"", "<x>"}).Draw(t, "text")
	case 1:
		v = rapid.IntRange(-5, 1<<40).Draw(t, "int")
	case 2:
		v = rapid.Bool().Draw(t, "bool")
	case 3:
		v = nil
	case 4:
		m := map[string]any{"k": 1, "l": []any{"x"}}
		v, spoil = m, func() { m["k"] = 2; delete(m, "l"); m["new"] = true }
	case 5:
		l := []string{"x", "y"}
		v, spoil = l, func() { l[0], l[1] = "?", "!" }
	case 6:
		x := &struct {
			A int
			B []int `json:"b,omitempty"`
		}{1, []int{2}}
		v, spoil = x, func() { x.A = 9; x.B[0] = 9 }
	case 7:
		return make(chan int), nil, true, spoil
	case 8:
		return map[string]any{"f": func() {}}, nil, true, spoil
	case 9, 10:
		b := []byte(text)
		_ = json.Unmarshal(b, &want)
		return b, want, false, flip(b)
	case 11:
		b := []byte(rapid.SampledFrom([]string{"not json \x00\xff", `{"a":`, `[1`, `{"a":1}}`, ``, `"a`, `nul`, `1 2`}).Draw(t, "invalid"))
		if rapid.IntRange(0, 3).Draw(t, "long") == 3 { // broken only at its end
			b = append(append(append([]byte(`{"long":"`), bytes.Repeat([]byte("x"), rapid.SampledFrom([]int{100, 1000, 5000, 70000}).Draw(t, "size"))...), `","broken":`...), b...)
			if json.Valid(b) {
				b = append(b, ']')
			}
		}
		spoil = flip(b)
		switch rapid.IntRange(0, 3).Draw(t, "as") {
		case 3:
			return json.RawMessage(b), nil, true, spoil
		case 2:
			return ctx.JSON(b), nil, true, spoil
		case 1:
			return refusing(b), nil, true, spoil
		}
		v = b
	case 12, 13:
		b := json.RawMessage(text)
		_ = json.Unmarshal(b, &want)
		return b, want, false, flip(b)
	case 14, 15:
		b := ctx.JSON(text)
		_ = json.Unmarshal(b, &want)
		return b, want, false, flip(b)
	}
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	_ = json.Unmarshal(j, &want)
	return v, want, false, spoil
}

func (t *tree) logFunc(name string) log.LogFunc {
	return func(c ctx.C, level slog.Level, src, f string, args ...any) { t.said = append(t.said, name) }
}

type named struct {
	t    *tree
	name string
}

func (w named) Write(p []byte) (int, error) {
	w.t.said = append(w.t.said, w.name)
	return len(p), nil
}

func (tr *tree) derive(t *rapid.T) {
	p := tr.nodes[rapid.IntRange(0, len(tr.nodes)-1).Draw(t, "from")]
	n := &node{parent: p}
	c := p.c
	late := context.DeadlineExceeded
	name := fmt.Sprint(len(tr.nodes))
	switch k := rapid.SampledFrom([]string{"tag", "tag", "tag", "value", "value", "cancel", "cancel", "detach", "span", "tracking", "timeout", "deadline", "logfunc", "slog", "helper", "std-cancel", "std-value", "std-without", "std-cause", "std-late"}).Draw(t, "op"); k {
	case "tag":
		tr.used = true
		key := rapid.SampledFrom([]string{"a", "b", "c", "level", "", "tracking-id", "ü"}).Draw(t, "key")
		v, want, fail, spoil := genTag(t)
		n.desc = fmt.Sprintf("tag(%d,%q,%T %.30v)", p.id, key, v, v)
		n.c = ctx.WithTag(c, key, v)
		n.tag = &tag{key: key, want: want, fail: fail}
		tr.change = append(tr.change, spoil)
	case "value", "std-value":
		n.key = rapid.SampledFrom(keys).Draw(t, "key")
		n.val = rapid.SampledFrom([]any{nil, 1, "x", &n, errors.New("v")}).Draw(t, "val")
		n.desc = fmt.Sprintf("value(%d,%v,%T)", p.id, n.key, n.val)
		if k == "value" {
			n.c = ctx.WithValue(c, n.key, n.val)
		} else {
			n.c = context.WithValue(c, n.key, n.val)
		}
	case "cancel":
		tr.used = true
		x, cf := ctx.WithCancel(c)
		n.c, n.cancel, n.desc = x, func(err error) {
			if err == nil {
				cf.Exit()
			} else {
				cf(err)
			}
		}, fmt.Sprintf("cancel(%d)", p.id)
	case "std-cancel":
		x, cf := context.WithCancel(c)
		n.c, n.cancel, n.plain, n.desc = x, func(error) { cf() }, true, fmt.Sprintf("std-cancel(%d)", p.id)
	case "std-cause":
		x, cf := context.WithCancelCause(c)
		n.c, n.cancel, n.desc = x, func(err error) { cf(err) }, fmt.Sprintf("std-cause(%d)", p.id)
	case "std-late": // with a cause of its own
		late = fmt.Errorf("late %d", len(tr.nodes))
		n.hasDl, n.dlPast, n.desc = true, true, fmt.Sprintf("std-late(%d)", p.id)
		n.dlLo = time.Now().Add(-time.Second)
		n.dlHi = n.dlLo
		var cf func()
		n.c, cf = context.WithDeadlineCause(c, n.dlLo, late)
		n.cancel, n.plain = func(error) { cf() }, true
	case "detach":
		n.c, n.detach, n.desc = ctx.Detach(c), true, fmt.Sprintf("detach(%d)", p.id)
	case "std-without":
		n.c, n.detach, n.desc = context.WithoutCancel(c), true, fmt.Sprintf("without(%d)", p.id)
	case "span":
		x, cf := ctx.Span(c, "span")
		id := ctx.GetTracking(x)
		if up := p.track(); up == "" && len(id) < 16 || up != "" && (!strings.HasPrefix(id, up) || id == up) {
			t.Fatalf("%v: span of %d (%q) has the id %q", tr.steps, p.id, up, id)
		}
		n.c, n.cancel, n.tracking, n.desc = x, cf, &id, fmt.Sprintf("span(%d)", p.id)
		n.tag = &tag{key: "tracking-id", want: id}
	case "tracking":
		s := rapid.SampledFrom([]string{"", "x", "abc-123", "ü\""}).Draw(t, "id")
		x := ctx.WithTracking(c, s)
		id := ctx.GetTracking(x)
		if s != "" && id != s || len(id) == 0 {
			t.Fatalf("tracking %q instead of %q", id, s)
		}
		n.c, n.tracking, n.desc = x, &id, fmt.Sprintf("tracking(%d,%q)", p.id, s)
		n.tag = &tag{key: "tracking-id", want: id}
	case "timeout", "deadline":
		d := rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Hour, 3 * time.Hour, -time.Second, 0, 300 * time.Microsecond}).Draw(t, "in")
		n.hasDl, n.desc = true, fmt.Sprintf("%s(%d,%v)", k, p.id, d)
		var cf func()
		n.dlLo = time.Now().Add(d)
		if k == "timeout" {
			n.c, cf = ctx.WithTimeout(c, d)
			n.dlHi = time.Now().Add(d)
		} else {
			n.c, cf = ctx.WithDeadline(c, n.dlLo)
			n.dlHi = n.dlLo
		}
		n.dlPast, n.dlSoon = d <= 0, d > 0 && d < time.Second
		n.cancel, n.plain = func(error) { cf() }, true
	case "logfunc":
		n.c, n.logName, n.desc = log.WithLogFunc(c, tr.logFunc(name)), &name, fmt.Sprintf("logfunc(%d)", p.id)
	case "slog":
		l := slog.New(slog.NewTextHandler(named{tr, name}, &slog.HandlerOptions{Level: slog.Level(-10)}))
		n.c, n.logName, n.desc = log.WithSlogLogger(c, l), &name, fmt.Sprintf("slog(%d)", p.id)
	case "helper":
		n.c, n.helper, n.desc = log.WithHelper(c, func() { tr.helped = append(tr.helped, name) }), &name, fmt.Sprintf("helper(%d)", p.id)
	}
	tr.add(n)
	if n.dlPast {
		n.cancelNow(context.DeadlineExceeded, late)
	}
}

// in which way the node is not what the model says
func (tr *tree) differs(n *node) string {
	c := n.c
	// tags
	want := n.tags()
	i := 0
	msg := ""
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		if msg != "" {
			return nil
		}
		if i >= len(want) {
			msg = fmt.Sprintf("one tag too many: %s=%s", k, j)
		} else if m := want[i].differs(k, j); m != "" {
			msg = fmt.Sprintf("tag %d: %s", i, m)
		}
		i++
		return nil
	})
	if msg != "" || err != nil || i != len(want) {
		return fmt.Sprintf("%s (%d of %d tags, error %v)", msg, i, len(want), err)
	}
	if len(want) > 0 { // stops when told
		at := len(want) / 2
		seen := 0
		err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
			if seen == at {
				seen++
				return io.ErrNoProgress
			}
			seen++
			return nil
		})
		if err != io.ErrNoProgress || seen != at+1 {
			return fmt.Sprintf("range over tags did not stop at %d: %d, %v", at, seen, err)
		}
	}
	// values
	for _, k := range append([]any{"c", "nope", ""}, keys...) {
		v, tg := n.value(k)
		got := c.Value(k)
		if tg != nil {
			j, ok := got.(ctx.JSON)
			if !ok {
				return fmt.Sprintf("value of %v is %T instead of a tag", k, got)
			}
			if m := tg.differs(tg.key, j); m != "" {
				return fmt.Sprintf("value of %v: %s", k, m)
			}
		} else if got != v {
			return fmt.Sprintf("value of %v is %v instead of %v", k, got, v)
		}
	}
	if a, b := ctx.GetTracking(c), n.track(); a != b {
		return fmt.Sprintf("tracking %q instead of %q", a, b)
	}
	// cancellation
	lo, hi, ok := n.deadline()
	dl, has := c.Deadline()
	if has != ok || ok && (dl.Before(lo.Add(-time.Microsecond)) || dl.After(hi.Add(time.Microsecond))) {
		return fmt.Sprintf("deadline %v %v instead of %v", dl, has, lo)
	}
	if !n.soon() {
		if n.cancelled {
			vh.Eventually("cancellation "+fmt.Sprint(tr.steps), func() bool { return c.Err() != nil })
			select {
			case <-c.Done():
			case <-time.After(vh.HangLimit()):
				return "it is cancelled but not done"
			}
		} else if done := c.Done(); done != nil {
			select {
			case <-done:
				return "it is done but not cancelled"
			default:
			}
		}
		if c.Err() != n.err {
			return fmt.Sprintf("err %v instead of %v", c.Err(), n.err)
		}
		if a := ctx.Cause(c); a != n.cause {
			return fmt.Sprintf("cause %v instead of %v", a, n.cause)
		}
	}
	// who logs
	tr.said, tr.helped = nil, nil
	if n.logger() != "" {
		log.Infof(c, "x")
		if len(tr.said) != 1 || tr.said[0] != n.logger() {
			return fmt.Sprintf("logged by %v instead of %s", tr.said, n.logger())
		}
		for _, h := range tr.helped {
			if h != n.help() {
				return fmt.Sprintf("helpers %v instead of %q", tr.helped, n.help())
			}
		}
		if (len(tr.helped) > 0) != (n.help() != "") {
			return fmt.Sprintf("helpers %v instead of %q", tr.helped, n.help())
		}
	}
	return ""
}

func (t tag) differs(k string, j ctx.JSON) string {
	var got any
	if err := json.Unmarshal(j, &got); err != nil {
		return fmt.Sprintf("%q=%q: %v", k, j, err)
	}
	if k != t.key {
		return fmt.Sprintf("%q=%s instead of %q", k, j, t.key)
	}
	if t.fail { // valid, as above
		if s, ok := got.(string); !ok || s == "" {
			return fmt.Sprintf("%q=%s instead of an explanation", k, j)
		}
		return ""
	}
	if !reflect.DeepEqual(got, t.want) {
		return fmt.Sprintf("%q=%s instead of %v", k, j, t.want)
	}
	return ""
}

func (tr *tree) check(t *rapid.T) {
	for _, n := range tr.nodes {
		if msg := tr.differs(n); msg != "" {
			t.Fatalf("%v: context %d (%s): %s", tr.steps, n.id, n.desc, msg)
		}
	}
}

func newTree(t *rapid.T) *tree {
	tr := &tree{}
	if rapid.Bool().Draw(t, "background") {
		c, cf := ctx.Background()
		tr.add(&node{c: c, cancel: cf, desc: "background"})
	} else {
		tr.add(&node{c: ctx.TODO(), desc: "todo"})
	}
	return tr
}

func (tr *tree) cancelOne(t *rapid.T) {
	var l []*node
	for _, n := range tr.nodes {
		if n.cancel != nil {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return
	}
	n := l[rapid.IntRange(0, len(l)-1).Draw(t, "which")]
	cause := rapid.SampledFrom(causes).Draw(t, "cause")
	tr.steps = append(tr.steps, fmt.Sprintf("CANCEL(%d,%v)", n.id, cause))
	n.cancel(cause)
	if cause == nil || n.plain {
		cause = context.Canceled
	}
	n.cancelNow(context.Canceled, cause)
}

func TestTrees(t *testing.T) {
	log.SetDefaultLoggerLevel(100)
	vh.Check(t, 6000, 250000, func(t *rapid.T) {
		tr := newTree(t)
		for i, n := 0, rapid.IntRange(2, 24).Draw(t, "steps"); i < n; i++ {
			switch k := rapid.IntRange(0, 9).Draw(t, "step"); {
			case k < 8:
				tr.derive(t)
			case k < 9:
				tr.cancelOne(t)
			default:
				tr.steps = append(tr.steps, "CHANGE")
				for _, f := range tr.change {
					f()
				}
			}
			tr.check(t)
		}
		for _, n := range tr.nodes {
			if n.dlSoon {
				vh.Eventually("deadline", func() bool { return n.c.Err() != nil })
			}
		}
		tr.check(t)
		vh.Case(len(tr.nodes) > 3 && tr.deep && tr.used, fmt.Sprint(tr.steps), "tree")
		for _, n := range tr.nodes {
			if n.cancel != nil {
				n.cancel(nil)
			}
		}
	})
}

// ---- many at once on the same contexts

func TestCrowd(t *testing.T) {
	log.SetDefaultLoggerLevel(100)
	vh.Check(t, 600, 20000, func(t *rapid.T) {
		tr := newTree(t)
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "shared"); i < n; i++ {
			tr.derive(t)
		}
		for _, f := range tr.change { // no longer ours to change
			f()
		}
		var plans [][]int
		for i, n := 0, rapid.IntRange(2, 5).Draw(t, "goroutines"); i < n; i++ {
			plans = append(plans, rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 12).Draw(t, "plan"))
		}
		vh.Case(len(tr.nodes) > 3, fmt.Sprint(tr.steps, plans), "crowd")
		// each goroutine derives its own leaves from the shared ones and reads everything
		var wg sync.WaitGroup
		errs := make([]string, len(plans))
		for g, plan := range plans {
			wg.Add(1)
			go func(g int, plan []int) {
				defer wg.Done()
				for k, x := range plan {
					p := tr.nodes[x%len(tr.nodes)]
					me := fmt.Sprintf("%d.%d", g, k)
					var buf bytes.Buffer
					c := p.c
					helped := 0
					switch x / 7 % 5 {
					case 0:
						c = log.WithHelper(log.WithLogFunc(c, func(c ctx.C, level slog.Level, src, f string, args ...any) { fmt.Fprintf(&buf, f, args...) }), func() { helped++ })
					case 1:
						c = log.WithLogFunc(log.WithHelper(c, func() { helped++ }), func(c ctx.C, level slog.Level, src, f string, args ...any) { fmt.Fprintf(&buf, f, args...) })
					case 2:
						c = log.WithSlogLogger(log.WithHelper(c, func() { helped++ }), slog.New(slog.NewTextHandler(&buf, nil)))
					case 3:
						c, _ = ctx.Span(c, me)
						if !strings.HasPrefix(ctx.GetTracking(c), p.track()) {
							errs[g] = "span " + ctx.GetTracking(c)
						}
						c = log.WithLogFunc(log.WithHelper(c, func() { helped++ }), func(c ctx.C, level slog.Level, src, f string, args ...any) { fmt.Fprintf(&buf, f, args...) })
					case 4:
						d, cf := ctx.WithCancel(ctx.Detach(c))
						if d.Err() != nil || ctx.Cause(d) != nil {
							errs[g] = fmt.Sprintf("detached from %d: %v %v", p.id, d.Err(), ctx.Cause(d))
						}
						cf(io.EOF)
						if ctx.Cause(d) != io.EOF {
							errs[g] = fmt.Sprintf("detached from %d: cause %v", p.id, ctx.Cause(d))
						}
						c = log.WithLogFunc(log.WithHelper(d, func() { helped++ }), func(c ctx.C, level slog.Level, src, f string, args ...any) { fmt.Fprintf(&buf, f, args...) })
					}
					c = ctx.WithTag(c, "me", me)
					var last string
					n := 0
					_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
						last = k + "=" + string(j)
						n++
						return nil
					})
					if last != fmt.Sprintf("me=%q", me) {
						errs[g] = fmt.Sprintf("last tag %s of %s", last, me)
					}
					log.Infof(c, "hello %s", me)
					if !strings.Contains(buf.String(), "hello "+me) || helped == 0 {
						errs[g] = fmt.Sprintf("logged %q by %s, helped %d", buf.String(), me, helped)
					}
				}
			}(g, plan)
		}
		vh.Within("the goroutines", wg.Wait)
		for g, e := range errs {
			if e != "" {
				t.Fatalf("%v: goroutine %d %v: %s", tr.steps, g, plans[g], e)
			}
		}
		tr.check(t)
	})
}
