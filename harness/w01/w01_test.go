package w01

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"pgregory.net/rapid"
	"verif/vh"
	"verif/wsc"
)

func TestMain(m *testing.M) {
	vh.Main(m, "W01", "conversations of several parallel connections with one handler: channels opened, called, closed and opened again, unknown channels, paths and operations, wrong data, messages in pieces, dropped connections; non-trivial: at least two calls on an open channel")
}

// ---- the objects

type recorder struct{ ran atomic.Int64 }

type Counter struct {
	Rec    *recorder
	Step   int
	Label  string
	Ct     int
	Tags   []string
	hidden int
}

func (o *Counter) Init(c ws.C, n int) error {
	o.Rec.ran.Add(1)
	if n < 0 {
		return fmt.Errorf("negative %d", n)
	}
	o.Ct += n
	return nil
}

func (o *Counter) Inc(c ws.C, n int) error {
	o.Rec.ran.Add(1)
	if n == 0 {
		return ctx.NewErrorf(c, "nothing to %s", "add")
	}
	o.Ct += n * o.Step
	return nil
}

func (o Counter) Get(c ws.C) error {
	o.Rec.ran.Add(1)
	return c.Reply("ct", map[string]any{"ct": o.Ct, "label": o.Label, "hidden": o.hidden, "tags": o.Tags})
}

func (o *Counter) Name(c ws.C, s string) error {
	o.Rec.ran.Add(1)
	o.Label = s
	return c.Reply("named", s)
}

func (o *Counter) Many(c ws.C, n int) error {
	o.Rec.ran.Add(1)
	for i := 0; i < n; i++ {
		if err := c.Reply("many", []int{i, o.Ct}); err != nil {
			return err
		}
	}
	return errors.New("enough of " + o.Label)
}

// errors of all kinds, also those which can not be sent as data
type chanError struct{ C chan int }

func (e chanError) Error() string { return "chan error" }

type ptrError struct {
	Code int    `json:"code"`
	Text string `json:"text"`
	Next error  `json:"next"`
}

func (e *ptrError) Error() string { return fmt.Sprintf("ptr error %d %s", e.Code, e.Text) }

func failure(c ctx.C, n int) error {
	switch n {
	case 0:
		return nil
	case 1:
		_, err := os.Open("/nonexistent/file")
		return err
	case 2:
		return syscall.ECONNRESET
	case 3:
		return chanError{make(chan int)}
	case 4:
		return fmt.Errorf("wrapped %w", chanError{})
	case 5:
		return ctx.WrapError(c, &os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT})
	case 6:
		return &ptrError{3, "<t>", io.EOF}
	case 7:
		return &ptrError{4, "n", syscall.EPIPE}
	case 8:
		return errors.Join(io.EOF, chanError{})
	case 9:
		return &net.OpError{Op: "dial", Net: "tcp", Addr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if n >= 20 && n < 20+len(vh.Errs) {
		return vh.Errs[n-20]
	}
	return ctx.NewErrorf(c, "failure %d: %w", n, syscall.EINVAL)
}

func (o *Counter) Fail(c ws.C, n int) error {
	o.Rec.ran.Add(1)
	return failure(c, n)
}

func (o *Counter) Boom(c ws.C) error {
	o.Rec.ran.Add(1)
	panic("boom")
}

func (o *Counter) Quit(c ws.C) error {
	o.Rec.ran.Add(1)
	return c.Close()
}

// not operations
func (o *Counter) Foo(n int)              { panic("foo") }
func (o *Counter) Bar(c ctx.C) error      { panic("bar") }
func (o *Counter) Three(c ws.C, a, b int) { panic("three") }
func (o *Counter) unexported(c ws.C)      { panic("unexported") }

// no Init, registered by value
type Note struct {
	Rec  *recorder
	Text string
	Map  map[string]int
}

func (o *Note) Set(c ws.C, in struct {
	Text string  `json:"text"`
	N    *int    `json:"n,omitempty"`
	Any  any     `json:"any"`
	F    float64 `json:"f"`
}) error {
	o.Rec.ran.Add(1)
	o.Text = in.Text
	n := -1
	if in.N != nil {
		n = *in.N
	}
	return c.Reply("set", []any{in.Text, n, in.Any, in.F})
}

func (o *Note) Get(c ws.C) error {
	o.Rec.ran.Add(1)
	return c.Reply("text", o.Text)
}

// not ASCII
type Österreich struct{ Land }

// embedded, with an operation of its own
type Land struct {
	Rec  *recorder
	Size uint8
}

func (o *Österreich) Init(c ws.C) error {
	o.Rec.ran.Add(1)
	o.Size++
	return c.Reply("init", o.Size)
}

func (o *Land) Ärger(c ws.C, n []uint8) error {
	o.Rec.ran.Add(1)
	for _, x := range n {
		o.Size += x
	}
	return c.Reply("ärger", o.Size)
}

// nothing to copy from the template, and results of all shapes
type Tally struct{ n int }

func (o *Tally) Add(c ws.C, n int) {
	o.n += n
	_ = c.Reply("add", o.n)
}

func (o *Tally) Pair(c ws.C, n int) (int, error) {
	o.n += n
	if n%2 == 1 {
		return o.n, fmt.Errorf("odd %d", n)
	}
	return o.n, c.Reply("pair", o.n)
}

func (o *Tally) Two(c ws.C) (first, second error) {
	o.n++
	if o.n%2 == 1 {
		return nil, errors.New("second")
	}
	return nil, c.Reply("two", o.n)
}

// ---- the server

var (
	handlers sync.Map
	nextPath atomic.Int64
	address  = sync.OnceValue(func() string {
		c, _ := ctx.Background()
		s := fhttp.NewServer(c)
		s.HandleFunc("/ws/", func(w http.ResponseWriter, r *http.Request) {
			h, ok := handlers.Load(r.URL.Path)
			if !ok {
				w.WriteHeader(404)
				return
			}
			h.(http.Handler).ServeHTTP(w, r)
		})
		a, err := s.Listen(c, "127.0.0.1:0")
		if err != nil {
			vh.Inconclusive("listen: %v", err)
		}
		return a.String()
	})
)

type templates struct {
	rec     *recorder
	counter Counter
	note    Note
	size    uint8
}

func (tm *templates) register(c ctx.C, h *ws.RpcHandler) (check func() string, err error) {
	x := tm.counter
	tags := append([]string(nil), x.Tags...)
	if err := h.Register(c, &x); err != nil {
		return nil, err
	}
	if err := h.Register(c, tm.note); err != nil {
		return nil, err
	}
	if err := h.Register(c, &Österreich{Land{tm.rec, tm.size}}); err != nil {
		return nil, err
	}
	if err := h.Register(c, &Tally{}); err != nil {
		return nil, err
	}
	for _, bad := range []any{nil, 3, "x", new(int), (*Counter)(nil), []Counter{{}}, map[string]int{}, func() {}} {
		if err := h.Register(c, bad); err == nil {
			return nil, fmt.Errorf("%T registered", bad)
		}
	}
	return func() string {
		want := tm.counter
		want.Tags = tags
		if !reflect.DeepEqual(x, want) {
			return fmt.Sprintf("the template changed: %+v", x)
		}
		return ""
	}, nil
}

func genTemplates(t *rapid.T) *templates {
	tm := &templates{rec: &recorder{}}
	tm.counter = Counter{
		Rec: tm.rec, Step: rapid.IntRange(0, 3).Draw(t, "step"), Label: rapid.SampledFrom([]string{"", "tmpl"}).Draw(t, "label"),
		Ct: rapid.IntRange(0, 9).Draw(t, "ct"), hidden: rapid.IntRange(0, 2).Draw(t, "hidden"),
	}
	if rapid.Bool().Draw(t, "tags") {
		tm.counter.Tags = []string{"a", "b"}
	}
	tm.note = Note{Rec: tm.rec, Text: rapid.SampledFrom([]string{"", "hello"}).Draw(t, "text")}
	tm.size = uint8(rapid.IntRange(0, 3).Draw(t, "size"))
	return tm
}

// ---- the model

// what a frame from the server must look like
type want struct {
	Channel, Path, Type string
	Data                any  // exact, if given
	HasData             bool // some
	Contains            string
}

type obj struct {
	kind  string
	ct    int
	label string
	text  string
	size  uint8
	prev  string // the kind of the object which had the channel before
}

type model struct {
	was   map[string]string
	tm    *templates
	chans map[string]*obj
	out   []want
	ran   int
	dead  bool
	ended bool // by a close, after which what was sent already may run or not
}

type in struct {
	Channel string `json:"channel,omitempty"`
	Path    string `json:"path,omitempty"`
	Type    string `json:"type,omitempty"`
	Data    any    `json:"data,omitempty"`
}

func (m *model) fatal() {
	m.out = append(m.out, want{Type: "disconnect"})
	m.dead = true
}

func (m *model) reply(ch, path string, data any) {
	m.out = append(m.out, want{Channel: ch, Path: path, Data: data})
}

func (m *model) done(ch, path, err string) {
	if err == "" {
		m.out = append(m.out, want{Channel: ch, Path: path, Type: "return"})
		return
	}
	m.out = append(m.out, want{Channel: ch, Path: path, Type: "return", HasData: true}, want{Channel: ch, Type: "error", HasData: true, Contains: err})
}

// the data as an int; an int parameter takes numbers only, nothing and null are 0
func asInt(d any) (int, bool) {
	switch d := d.(type) {
	case nil:
		return 0, true
	case int:
		return d, true
	}
	return 0, false
}

func asString(d any) (string, bool) {
	switch d := d.(type) {
	case nil:
		return "", true
	case string:
		return d, true
	case int:
		return fmt.Sprint(d), true // a number keeps its digits
	}
	return "", false
}

func (m *model) step(f in) {
	if m.dead {
		return
	}
	switch f.Type {
	case "new", "open":
		var o *obj
		switch f.Path {
		case "counter":
			o = &obj{kind: f.Path, ct: m.tm.counter.Ct, label: m.tm.counter.Label}
			n, ok := asInt(f.Data)
			if ok {
				m.ran++
			}
			if !ok || n < 0 {
				w := want{Channel: f.Channel, Path: f.Path, Type: "error", HasData: true}
				if ok {
					w.Contains = "negative"
				}
				m.out = append(m.out, w)
				delete(m.chans, f.Channel)
				return
			}
			o.ct += n
		case "note":
			o = &obj{kind: f.Path, text: m.tm.note.Text}
		case "tally":
			o = &obj{kind: f.Path}
		case "österreich":
			m.ran++
			o = &obj{kind: f.Path, size: m.tm.size + 1}
			m.reply(f.Channel, "init", o.size)
		default:
			m.fatal()
			return
		}
		o.prev, m.was[f.Channel] = m.was[f.Channel], f.Path
		m.chans[f.Channel] = o
	case "close":
		if _, ok := m.chans[f.Channel]; ok {
			delete(m.chans, f.Channel)
			m.out = append(m.out, want{Channel: f.Channel, Type: "close"})
		} else if f.Channel == "" {
			m.dead, m.ended = true, true // all of it
		}
	default:
		o := m.chans[f.Channel]
		if o == nil {
			m.fatal()
			return
		}
		m.call(o, f)
	}
}

func (m *model) call(o *obj, f in) {
	bad := func() { m.done(f.Channel, f.Path, "argument") }
	switch o.kind + "." + f.Path {
	case "counter.inc":
		n, ok := asInt(f.Data)
		if !ok {
			bad()
			return
		}
		m.ran++
		if n == 0 {
			m.done(f.Channel, f.Path, "nothing to add")
			return
		}
		o.ct += n * m.tm.counter.Step
	case "counter.get":
		m.ran++
		var tags any
		if m.tm.counter.Tags != nil {
			tags = m.tm.counter.Tags
		}
		m.reply(f.Channel, "ct", map[string]any{"ct": o.ct, "label": o.label, "hidden": 0, "tags": tags})
	case "counter.name":
		s, ok := asString(f.Data)
		if !ok {
			bad()
			return
		}
		m.ran++
		o.label = s
		m.reply(f.Channel, "named", s)
	case "counter.many":
		n, ok := asInt(f.Data)
		if !ok {
			bad()
			return
		}
		m.ran++
		for i := 0; i < n; i++ {
			m.reply(f.Channel, "many", []int{i, o.ct})
		}
		m.done(f.Channel, f.Path, "enough of "+o.label)
		return
	case "counter.fail":
		n, ok := asInt(f.Data)
		if !ok {
			bad()
			return
		}
		m.ran++
		if err := failure(context.Background(), n); err != nil {
			m.done(f.Channel, f.Path, err.Error())
			return
		}
	case "counter.boom":
		m.ran++
		m.fatal()
		return
	case "counter.quit":
		m.ran++
		m.dead, m.ended = true, true
		return
	case "note.set":
		d, ok := f.Data.(map[string]any)
		if !ok && f.Data != nil {
			bad()
			return
		}
		if s, isS := asString(d["text"]); isS {
			m.ran++
			o.text = s
		} else {
			bad()
			return
		}
		n, fl := any(-1), any(0)
		if x, ok := d["n"]; ok && x != nil {
			n = x
		}
		if x, ok := d["f"]; ok {
			fl = x
		}
		m.reply(f.Channel, "set", []any{o.text, n, d["any"], fl})
	case "note.get":
		m.ran++
		m.reply(f.Channel, "text", o.text)
	case "tally.add", "tally.pair":
		n, ok := asInt(f.Data)
		if !ok {
			bad()
			return
		}
		o.ct += n
		if f.Path == "pair" && n%2 == 1 {
			m.done(f.Channel, f.Path, fmt.Sprintf("odd %d", n))
			return
		}
		m.reply(f.Channel, f.Path, o.ct)
	case "tally.two":
		if o.ct++; o.ct%2 == 1 {
			m.done(f.Channel, f.Path, "second")
			return
		}
		m.reply(f.Channel, "two", o.ct)
	case "österreich.ärger":
		if l, ok := f.Data.([]int); ok || f.Data == nil {
			m.ran++
			for _, x := range l {
				o.size += uint8(x)
			}
			m.reply(f.Channel, "ärger", o.size)
		} else {
			bad()
			return
		}
	default:
		m.fatal()
		return
	}
	m.done(f.Channel, f.Path, "")
}

func canon(v any) string {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x any
	if err := json.Unmarshal(j, &x); err != nil {
		panic(err)
	}
	j, _ = json.Marshal(x)
	return string(j)
}

// does the frame look as wanted?
func (w want) check(p []byte) string {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(p, &m); err != nil {
		return fmt.Sprintf("not a JSON object: %v", err)
	}
	get := func(k string) (s string) {
		if m[k] != nil {
			_ = json.Unmarshal(m[k], &s)
		}
		return s
	}
	if get("channel") != w.Channel || get("path") != w.Path || get("type") != w.Type {
		return fmt.Sprintf("want channel %q path %q type %q", w.Channel, w.Path, w.Type)
	}
	data := m["data"]
	switch {
	case w.Type == "disconnect":
	case w.HasData:
		if data == nil || string(data) == "null" {
			return "no error in it"
		}
		text := string(data)
		_ = json.Unmarshal(data, &text)
		if !strings.Contains(text, w.Contains) {
			return fmt.Sprintf("want %q in it", w.Contains)
		}
	case w.Data != nil:
		if data == nil || canon(data) != canon(w.Data) {
			return fmt.Sprintf("want data %s", canon(w.Data))
		}
	default:
		if data != nil && string(data) != "null" {
			return "want no data"
		}
	}
	return ""
}

// ---- conversations

var anyData = []any{nil, 0, 1, 3, 7, -2, "x", "", true, []int{}, []int{1, 2, 250}, []string{"a"}, map[string]any{},
	map[string]any{"text": "t", "n": 3, "any": []any{1, "z", nil}, "f": 2.5}, map[string]any{"text": "u", "n": nil, "more": 1}, map[string]any{"text": 7}}

var ops = map[string][]string{
	"counter":    {"inc", "inc", "inc", "get", "get", "name", "many", "fail", "boom", "quit"},
	"note":       {"set", "set", "get"},
	"österreich": {"ärger"},
	"tally":      {"add", "pair", "two"},
}

var rarely = []bool{5: true}

// the operations no other object has
var only = map[string][]string{"counter": {"inc", "name", "many", "fail"}, "note": {"set"}, "österreich": {"ärger"}, "tally": {"add", "pair", "two"}}

func genFrame(t *rapid.T, m *model, end bool) in {
	ids := []string{"a", "b", "c", "ünï", ""}
	f := in{Channel: rapid.SampledFrom(ids).Draw(t, "channel")}
	fits := func(data ...any) any {
		if rapid.IntRange(0, 19).Draw(t, "odd") > 16 {
			return rapid.SampledFrom(anyData).Draw(t, "data")
		}
		return rapid.SampledFrom(data).Draw(t, "data")
	}
	ints := []any{0, 1, 2, 3, 7, nil, -1}
	open := func() {
		f.Type = rapid.SampledFrom([]string{"open", "new"}).Draw(t, "type")
		f.Path = rapid.SampledFrom([]string{"counter", "counter", "note", "österreich", "tally"}).Draw(t, "path")
		f.Data = fits(ints...)
	}
	kind := rapid.IntRange(0, 99).Draw(t, "kind")
	o := m.chans[f.Channel]
	switch {
	case end && o != nil && o.prev != "" && o.prev != o.kind && rapid.SampledFrom(rarely).Draw(t, "stale op"): // what was there before
		f.Path = rapid.SampledFrom(only[o.prev]).Draw(t, "stale")
		f.Data = 1
		if f.Path == "set" {
			f.Data = map[string]any{"text": "stale"}
		}
	case end && kind > 95: // the end of the connection
		switch kind {
		case 99:
			f.Type, f.Path = "open", rapid.SampledFrom([]string{"nothing", "Counter", "", "Österreich", "recorder"}).Draw(t, "path")
		case 98:
			f.Channel, f.Path = "none", "get"
			// never opened, failed to open, or closed
			if id := rapid.SampledFrom(ids).Draw(t, "unknown"); m.chans[id] == nil {
				f.Channel = id
			}
		case 97:
			f.Path = rapid.SampledFrom([]string{"init", "foo", "bar", "three", "unexported", "Inc", "", "rec", "close"}).Draw(t, "path")
		default:
			f.Channel, f.Type = "", "close"
		}
	case o == nil && f.Channel != "" && kind > 92:
		f.Type = "close" // again, or never opened
	case o == nil || kind > 88:
		open()
	case kind > 80:
		f.Type = "close"
		if f.Channel == "" && !end && m.chans[""] == nil {
			f.Channel = "a"
		}
	default:
		l := ops[o.kind]
		f.Path = rapid.SampledFrom(l).Draw(t, "op")
		if !end && (f.Path == "boom" || f.Path == "quit") {
			f.Path = "get"
		}
		if rapid.IntRange(0, 9).Draw(t, "typed") > 7 {
			f.Type = "data"
		}
		switch f.Path {
		case "inc", "many", "add", "pair":
			f.Data = fits(ints...)
		case "fail":
			f.Data = fits(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 20+rapid.IntRange(0, len(vh.Errs)-1).Draw(t, "well known"), 21, 22)
		case "name":
			f.Data = fits("bob", "ünï\n\"", "")
		case "set":
			f.Data = fits(anyData[12], anyData[13], anyData[14], anyData[15])
		case "ärger":
			f.Data = fits(anyData[9], anyData[10], nil)
		default:
			f.Data = fits(nil)
		}
	}
	return f
}

// one message, maybe in pieces with pings in between
type message struct {
	text  []byte
	op    byte
	cuts  []int
	pings int // which pieces a ping follows
	sync  bool
}

type conv struct {
	msgs  []message
	out   []want
	ran   int
	dead  bool
	drop  bool
	after bool // there is more after the end of it
	desc  string
}

func genConv(t *rapid.T, tm *templates) *conv {
	m := &model{tm: tm, chans: map[string]*obj{}, was: map[string]string{}}
	cv := &conv{}
	var d strings.Builder
	for i, n := 0, rapid.IntRange(2, 25).Draw(t, "frames"); i < n; i++ {
		var f in
		wasDead := m.dead
		if m.dead {
			f = in{Channel: "a", Path: "inc", Data: 1}
		} else {
			f = genFrame(t, m, true)
			m.step(f)
		}
		j, _ := json.Marshal(f)
		if rapid.IntRange(0, 9).Draw(t, "extra") > 8 {
			j = append([]byte(`{"extra":[1,{}],`), j[1:]...)
			if len(j) == 17 {
				j = []byte(`{"extra":1}`)
			}
		}
		msg := message{text: j, op: wsc.Text}
		if rapid.IntRange(0, 9).Draw(t, "binary") > 7 {
			msg.op = wsc.Binary
		}
		if rapid.IntRange(0, 9).Draw(t, "split") > 6 {
			msg.cuts = rapid.SliceOfN(rapid.IntRange(0, len(j)), 1, 3).Draw(t, "cuts")
			msg.pings = rapid.IntRange(0, 15).Draw(t, "pings")
		}
		msg.sync = rapid.IntRange(0, 9).Draw(t, "sync") > 6
		cv.after = cv.after || wasDead || m.dead && msg.pings != 0
		cv.msgs = append(cv.msgs, msg)
		fmt.Fprintf(&d, "%s%v ", j, msg.cuts)
		if m.ended || m.dead && rapid.IntRange(0, 9).Draw(t, "more") < 8 {
			break
		}
	}
	if !m.dead && rapid.IntRange(0, 9).Draw(t, "drop") > 7 {
		cv.drop = true
	}
	cv.out, cv.ran, cv.dead, cv.desc = m.out, m.ran, m.dead, d.String()
	return cv
}

// run the conversation
func (cv *conv) run(path string) error {
	conn, err := wsc.Dial(address(), path)
	if err != nil {
		return err
	}
	defer conn.Close()
	var pieces []wsc.Frame
	var pings []string
	wrote := make(chan error, 1)
	for _, m := range cv.msgs {
		text, op := m.text, m.op
		cuts := append([]int{}, m.cuts...)
		for i := range cuts {
			for k := range cuts[:i] {
				if cuts[i] < cuts[k] {
					cuts[i], cuts[k] = cuts[k], cuts[i]
				}
			}
		}
		last := 0
		for i, k := range append(cuts, len(text)) {
			pieces = append(pieces, wsc.Frame{Fin: i == len(cuts), Op: op, Payload: text[last:k]})
			op, last = wsc.Cont, k
			if m.pings>>i&1 == 1 {
				p := fmt.Sprintf("ping %d", len(pings))
				pings = append(pings, p)
				pieces = append(pieces, wsc.Frame{Fin: true, Op: wsc.Ping, Payload: []byte(p)})
			}
		}
	}
	if !cv.dead { // at last
		j, _ := json.Marshal(in{Channel: "", Type: "open", Path: "note"})
		pieces = append(pieces, wsc.Frame{Fin: true, Op: wsc.Text, Payload: j})
		j, _ = json.Marshal(in{Channel: "", Path: "get"})
		pieces = append(pieces, wsc.Frame{Fin: true, Op: wsc.Text, Payload: j})
	}
	go func() {
		for _, f := range pieces {
			if _, err := conn.Write(wsc.Encode(f.Fin, 0, f.Op, f.Payload, wsc.Mask)); err != nil {
				wrote <- err
				return
			}
		}
		wrote <- nil
	}()
	if cv.drop {
		<-wrote
		return nil
	}
	pongs := 0
	next := func() (wsc.Frame, error) {
		for {
			f, err := conn.Read(1 << 20)
			if err != nil || f.Op != wsc.Pong {
				return f, err
			}
			if pongs >= len(pings) || string(f.Payload) != pings[pongs] {
				return f, fmt.Errorf("pong %d is %q", pongs, f.Payload)
			}
			pongs++
		}
	}
	for i, w := range cv.out {
		f, err := next()
		if err != nil && cv.after {
			conn.Close()
			werr := <-wrote // which might be told about the reset instead
			if errors.Is(err, syscall.ECONNRESET) || werr != nil && !errors.Is(werr, net.ErrClosed) {
				return nil // with messages left unread at the end, what was on the way might be lost
			}
		}
		if err != nil {
			return fmt.Errorf("frame %d: want %+v: %v", i, w, err)
		}
		if f.Op != wsc.Text || !f.Fin {
			return fmt.Errorf("frame %d: want %+v, got %v", i, w, f)
		}
		if msg := w.check(f.Payload); msg != "" {
			return fmt.Errorf("frame %d: got %s: %s", i, f.Payload, msg)
		}
	}
	if cv.dead {
		for {
			f, err := next()
			if err != nil {
				if wsc.Hung(err) {
					return errors.New("the connection is not closed")
				}
				return nil
			}
			if f.Op != wsc.Close {
				return fmt.Errorf("more than wanted: %v", f)
			}
		}
	}
	// nothing more than the answer to the last one
	for _, w := range []want{{Path: "text", Data: cv.text()}, {Path: "get", Type: "return"}} {
		f, err := next()
		if err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
		if f.Op != wsc.Text {
			return fmt.Errorf("at the end: %v", f)
		}
		if msg := w.check(f.Payload); msg != "" {
			return fmt.Errorf("at the end: got %s: %s", f.Payload, msg)
		}
	}
	if pongs != len(pings) {
		if f, err := next(); err == nil || pongs != len(pings) {
			return fmt.Errorf("%d pings, %d pongs: %v %v", len(pings), pongs, f, err)
		}
	}
	return nil
}

var noteText sync.Map // by conversation

func (cv *conv) text() string { s, _ := noteText.Load(cv); return s.(string) }

func TestConversations(t *testing.T) {
	vh.Check(t, 1600, 40000, func(t *rapid.T) {
		c, _ := ctx.Background()
		tm := genTemplates(t)
		h := &ws.RpcHandler{}
		var check func() string
		vh.Within("register", func() {
			var err error
			if check, err = tm.register(c, h); err != nil {
				t.Fatalf("register: %v", err)
			}
		})
		path := fmt.Sprintf("/ws/%d", nextPath.Add(1))
		handlers.Store(path, http.Handler(h.Server()))
		defer handlers.Delete(path)
		n := rapid.IntRange(1, 4).Draw(t, "connections")
		var convs []*conv
		var desc []string
		lo, hi, calls, drops := 0, 0, 0, 0
		for i := 0; i < n; i++ {
			cv := genConv(t, tm)
			noteText.Store(cv, tm.note.Text)
			defer noteText.Delete(cv)
			convs = append(convs, cv)
			desc = append(desc, cv.desc)
			calls += cv.ran
			hi += cv.ran
			if cv.drop {
				drops++
				hi++
			} else {
				lo += cv.ran
				if !cv.dead {
					lo++
					hi++
				}
			}
		}
		vh.Case(calls > 1, strings.Join(desc, " | "), fmt.Sprintf("connections-%d", n), fmt.Sprintf("drops-%d", drops))
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i, cv := range convs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = cv.run(path)
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("connection %d: %s: %v", i, convs[i].desc, err)
			}
		}
		if r := int(tm.rec.ran.Load()); r < lo || r > hi {
			t.Fatalf("%d operations ran instead of %d..%d: %v", r, lo, hi, desc)
		}
		if msg := check(); msg != "" {
			t.Fatalf("%v: %s", desc, msg)
		}
	})
}

// ---- the test client, which has no wire

func TestClient(t *testing.T) {
	vh.Check(t, 800, 20000, func(t *rapid.T) {
		c, cf := ctx.WithCancel(ctx.TODO())
		defer cf(io.EOF)
		tm := genTemplates(t)
		h := &ws.RpcHandler{}
		if _, err := tm.register(c, h); err != nil {
			t.Fatalf("register: %v", err)
		}
		n := rapid.IntRange(1, 4).Draw(t, "channels")
		type call struct {
			f    in
			outs []want
		}
		plans := make([][]call, n)
		opens := make([]in, n)
		openOuts := make([][]want, n)
		var desc []string
		ran := 0
		for i := range plans {
			m := &model{tm: tm, chans: map[string]*obj{}, was: map[string]string{}}
			for len(m.chans) == 0 { // until it opens
				m.out, m.ran = nil, 0
				opens[i] = in{Type: "open", Path: rapid.SampledFrom([]string{"counter", "note", "österreich", "tally"}).Draw(t, "path"), Data: rapid.IntRange(0, 5).Draw(t, "data")}
				m.step(opens[i])
			}
			openOuts[i] = m.out
			for k, steps := 0, rapid.IntRange(1, 10).Draw(t, "calls"); k < steps; k++ {
				f := in{Path: rapid.SampledFrom(ops[m.chans[""].kind]).Draw(t, "op"), Data: rapid.SampledFrom(anyData).Draw(t, "data")}
				if f.Path == "boom" || f.Path == "quit" {
					continue
				}
				m.out = nil
				m.step(f)
				plans[i] = append(plans[i], call{f, m.out})
				desc = append(desc, fmt.Sprintf("%d:%s(%v)", i, f.Path, f.Data))
			}
			ran += m.ran
		}
		vh.Case(len(desc) > 1, fmt.Sprint(opens, desc), "test-client")
		cli := h.NewTest(c)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = func() error {
					var mu sync.Mutex
					var got []ws.Frame
					send, err := cli.Open(c, opens[i].Path, opens[i].Data, func(c ctx.C, f ws.Frame) error {
						mu.Lock()
						defer mu.Unlock()
						got = append(got, f)
						return nil
					})
					if err != nil {
						return fmt.Errorf("open: %v", err)
					}
					outs := openOuts[i]
					for _, cl := range plans[i] {
						fail := false
						for _, w := range cl.outs {
							if w.Type == "error" {
								fail = true
							}
						}
						var err error
						ch := make(chan error, 1)
						go func() { ch <- send(c, cl.f.Path, cl.f.Data) }()
						vh.Eventually("end of the call", func() bool {
							select {
							case err = <-ch:
								return true
							default:
								return false
							}
						})
						if (err != nil) != fail {
							return fmt.Errorf("call %+v: error %v, want one: %v", cl.f, err, fail)
						}
						outs = append(outs, cl.outs...)
						// the replies are there already
						mu.Lock()
						replies := 0
						for _, f := range got {
							if f.Type == "" {
								replies++
							}
						}
						mu.Unlock()
						wantReplies := 0
						for _, w := range outs {
							if w.Type == "" {
								wantReplies++
							}
						}
						if replies != wantReplies {
							return fmt.Errorf("call %+v: %d replies instead of %d", cl.f, replies, wantReplies)
						}
					}
					vh.Eventually("the frames", func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= len(outs) })
					mu.Lock()
					defer mu.Unlock()
					if len(got) != len(outs) {
						return fmt.Errorf("%d frames instead of %d", len(got), len(outs))
					}
					id := got2id(got)
					for k, w := range outs {
						f := got[k]
						if f.Channel != id {
							return fmt.Errorf("frame of another channel: %+v", f)
						}
						f.Channel = ""
						if msg := w.check(enc.MustMarshalJSON(c, f)); msg != "" {
							return fmt.Errorf("frame %d: got %+v: %s", k, f, msg)
						}
					}
					return nil
				}()
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("channel %d: %v %v: %v", i, opens[i], desc, err)
			}
		}
		vh.Eventually("run of all operations", func() bool { return int(tm.rec.ran.Load()) >= ran })
		if r := int(tm.rec.ran.Load()); r != ran {
			t.Fatalf("%d operations ran instead of %d: %v", r, ran, desc)
		}
		// replies without an operation, until it is closed
		wc, box := cli.NewContext(c, 10)
		other, box2 := cli.NewContext(c, 10)
		k := rapid.IntRange(0, 4).Draw(t, "replies")
		for i := 0; i < k; i++ {
			if err := wc.Reply("p", i); err != nil {
				t.Fatalf("reply %d: %v", i, err)
			}
		}
		if err := cli.Close(c); err != nil {
			t.Fatalf("close: %v", err)
		}
		if err := wc.Reply("late", 1); err == nil {
			t.Fatal("reply after the close: no error")
		}
		if err := other.Reply("late", 1); err == nil {
			t.Fatal("reply after the close: no error")
		}
		if len(box) != k || len(box2) != 0 {
			t.Fatalf("%d and %d replies instead of %d and none", len(box), len(box2), k)
		}
		id := ""
		for i := 0; i < k; i++ {
			f := <-box
			id = f.Channel
			if f.Channel == "" || f.Channel != id || f.Path != "p" || string(enc.MustMarshalJSON(c, f.Data)) != fmt.Sprint(i) {
				t.Fatalf("reply %d is %+v", i, f)
			}
		}
	})
}

func got2id(l []ws.Frame) string {
	if len(l) == 0 {
		return ""
	}
	return l[0].Channel
}

// ---- objects which work on their own, and are called meanwhile

type Busy struct {
	Rec  *recorder
	Seen []string // of the template
	mu   sync.Mutex
	m    map[string]int
	log  []string
	done int
}

func (o *Busy) Init(c ws.C, n int) error {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.m = map[string]int{"init": n}
	go func() {
		for i := 0; i < n; i++ {
			o.mu.Lock()
			o.m[fmt.Sprint("k", i%50)]++
			o.log = append(o.log, "tick")
			o.done++
			o.mu.Unlock()
			_ = c.Reply("tick", i)
		}
	}()
	return nil
}

func (o *Busy) Add(c ws.C, n int) error {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.m["add"] += n
	return c.Reply("sum", o.m["add"])
}

func TestBusy(t *testing.T) {
	vh.Check(t, 60, 4000, func(t *rapid.T) {
		c, _ := ctx.Background()
		h := &ws.RpcHandler{}
		h.MustRegister(c, &Busy{Seen: []string{"x"}})
		path := fmt.Sprintf("/ws/%d", nextPath.Add(1))
		handlers.Store(path, h.Server())
		defer handlers.Delete(path)
		type chn struct{ ticks, calls, gotTicks, gotSums, gotReturns int }
		chans := make([]chn, rapid.IntRange(1, 6).Draw(t, "channels"))
		total := 0
		for i := range chans {
			chans[i] = chn{ticks: rapid.SampledFrom([]int{0, 1, 5, 60, 300}).Draw(t, "ticks"), calls: rapid.IntRange(0, 6).Draw(t, "calls")}
			total += chans[i].ticks + 2*chans[i].calls
		}
		vh.Case(len(chans) > 1 && total > 5, fmt.Sprintf("busy %v", chans), "busy")
		conn, err := wsc.Dial(address(), path)
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer conn.Close()
		plan := append([]chn(nil), chans...)
		go func() {
			for i, x := range plan {
				_ = conn.Send(wsc.Text, []byte(fmt.Sprintf(`{"type":"open","path":"busy","channel":"%d","data":%d}`, i, x.ticks)))
			}
			for more, k := true, 0; more; k++ {
				more = false
				for i, x := range plan {
					if k < x.calls {
						more = true
						_ = conn.Send(wsc.Text, []byte(fmt.Sprintf(`{"path":"add","channel":"%d","data":%d}`, i, k+1)))
					}
				}
			}
		}()
		for ; total > 0; total-- {
			f, err := conn.Read(1 << 20)
			if err != nil {
				t.Fatalf("%v: %d frames missing: %v", chans, total, err)
			}
			var fr struct {
				Channel int    `json:",string"`
				Path    string `json:"path"`
				Type    string `json:"type"`
				Data    *int   `json:"data"`
			}
			if err := json.Unmarshal(f.Payload, &fr); err != nil || fr.Channel < 0 || fr.Channel >= len(chans) {
				t.Fatalf("%v: got %v: %v", chans, f, err)
			}
			x := &chans[fr.Channel]
			ok := false
			switch {
			case fr.Path == "tick" && fr.Type == "" && fr.Data != nil:
				ok = *fr.Data == x.gotTicks
				x.gotTicks++
			case fr.Path == "sum" && fr.Type == "" && fr.Data != nil:
				x.gotSums++
				ok = *fr.Data == x.gotSums*(x.gotSums+1)/2 && x.gotReturns == x.gotSums-1
			case fr.Path == "add" && fr.Type == "return" && fr.Data == nil:
				x.gotReturns++
				ok = x.gotReturns == x.gotSums
			}
			if !ok {
				t.Fatalf("%v: got %v", chans, f)
			}
		}
	})
}
