package h01

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/vh"
)

func TestMain(m *testing.M) {
	http.DefaultTransport.(*http.Transport).IdleConnTimeout = vh.IdleLimit
	vh.Main(m, "H01", "batches of 1 to 8 requests (documents aimed at the operation, malformed text, any transfer encoding) sent at once to operations over 12 value types on live servers, each compared with the same operation run directly; non-trivial: at least one request of the batch is accepted")
}

func c() ctx.C { return ctx.TODO() }

// barrier keeps the operations of a batch running until all of it is inside or done
type barrier struct {
	sync.Mutex
	need int
	ch   chan struct{}
}

func (b *barrier) arrive() {
	b.Lock()
	b.need--
	if b.need == 0 {
		close(b.ch)
	}
	b.Unlock()
}

type seen struct {
	tracking, path, ua string
	prefix             string
	addr               any
}

type hook struct {
	sync.Mutex
	batch *barrier
	seen  map[int]seen // by request
}

func (h *hook) enter(req int, s seen) {
	h.Lock()
	b := h.batch
	if h.seen == nil {
		h.seen = map[int]seen{}
	}
	if b != nil {
		h.seen[req] = s
	}
	h.Unlock()
	if b != nil {
		b.arrive()
		<-b.ch
	}
}

type Fail struct {
	Code int    `json:"code"`
	Text string `json:"text"`
}

type Op[T any] struct {
	R    api.Request `url:"/op"`
	In   T           `api:"in" json:"in"`
	Opt  *T          `api:"in" json:"opt"`
	Both T           `api:"both" json:"both"`
	Req  int         `api:"in,required" json:"req"`
	Fail *Fail       `api:"in" json:"fail"`

	Out  T              `api:"out" json:"out"`
	List []T            `api:"out"`
	By   map[string]any `api:"out" json:"by"`
	N    int            `api:"out" json:"n"`
	Say  string         `api:"out" json:"say"`
	Bad  *bad           `api:"out" json:"bad"`

	Prefix string
	count  int
	hook   *hook
}

// bad can't be sent
type bad struct{}

func (bad) MarshalNode(ctx.C) (enc.Node, error) { return nil, fmt.Errorf("bad as asked") }

func (o *Op[T]) Do(c ctx.C) error {
	if o.hook != nil {
		tag := func(k string) (out string) {
			_ = ctx.RangeTag(c, func(k2 string, j ctx.JSON) error {
				if k == k2 {
					_ = json.Unmarshal(j, &out)
				}
				return nil
			})
			return
		}
		o.hook.enter(o.Req, seen{ctx.GetTracking(c), tag("path"), tag("ua"), o.Prefix, o})
	}
	if o.Fail != nil {
		switch {
		case o.Fail.Code == 1:
			o.Bad = &bad{}
		case o.Fail.Code == 0:
			return ctx.NewErrorf(c, "failed %s", o.Fail.Text)
		default:
			return fhttp.NewErrorf(c, o.Fail.Code, "failed %s", o.Fail.Text)
		}
	}
	o.count++
	o.N = o.Req + o.count
	o.Say = fmt.Sprintf("%s/%d", o.Prefix, o.count)
	o.Prefix += "!" // the template must not see it
	o.Out = o.In
	o.List = append(o.List, o.Both, o.In)
	if o.Opt != nil {
		o.List = append(o.List, *o.Opt)
	}
	if o.Req%2 == 0 {
		o.Both = o.In
	}
	if o.By == nil {
		o.By = map[string]any{}
	}
	o.By[fmt.Sprint(o.Req)] = o.Say
	return nil
}

type target struct {
	name   string
	url    string
	typ    reflect.Type
	direct func(c ctx.C, body []byte) (stage string, out []byte, err error)
	cli    func(t *rapid.T, c ctx.C, cli fhttp.Client) (string, string, error)
	hook   *hook
}

var srvc, _ = ctx.Background()

func serve(s *fhttp.Server) string {
	addr, err := s.Listen(srvc, "127.0.0.1:0")
	if err != nil {
		vh.Inconclusive("can't listen: %v", err)
	}
	return "http://" + addr.String()
}

func setup[T any]() *target {
	t := &target{typ: reflect.TypeOf(Op[T]{}), hook: &hook{}}
	t.name = reflect.TypeOf((*T)(nil)).Elem().String()
	tmpl := func(h *hook) *Op[T] { return &Op[T]{Prefix: "tmpl " + t.name, count: 3, hook: h} }
	s := fhttp.NewServer(srvc)
	s.MustRegisterAPI(srvc, tmpl(t.hook))
	t.url = serve(s)
	t.direct = func(c ctx.C, body []byte) (string, []byte, error) {
		h, err := api.NewServer(c, tmpl(nil))
		if err != nil {
			vh.Violation("NewServer: %v", err)
		}
		j := &api.JSON{}
		if err := j.ReadFrom(c, bytes.NewReader(body)); err != nil {
			return "read", nil, err
		}
		obj, err := h.Recv(c, j)
		if err != nil {
			return "recv", nil, err
		}
		if err := obj.Do(c); err != nil {
			return "do", nil, err
		}
		res := &api.JSON{}
		if err := h.Send(c, obj, res); err != nil {
			return "send", nil, err
		}
		return "", enc.JSON{}.Encode(c, res.Data), nil
	}
	var exchange func(c ctx.C, cli fhttp.Client, op *Op[T]) (string, error)
	t.cli = func(rt *rapid.T, c ctx.C, cli fhttp.Client) (desc string, what string, err error) {
		op := &Op[T]{Prefix: "client", N: 7, Say: "before"}
		val := func(name string) T {
			return gen.Value(rt, reflect.TypeOf((*T)(nil)).Elem(), 2, false).Interface().(T)
		}
		if reflect.TypeOf((*T)(nil)).Elem().Kind() == reflect.Interface {
			val = func(name string) (out T) {
				if v := gen.Value(rt, reflect.TypeOf((*T)(nil)).Elem(), 2, false); !v.IsNil() {
					out = v.Interface().(T)
				}
				return
			}
		}
		op.In, op.Both, op.Out = val("in"), val("both"), val("out")
		if rapid.Bool().Draw(rt, "opt") {
			x := val("opt")
			op.Opt = &x
		}
		if rapid.IntRange(0, 5).Draw(rt, "req") > 0 {
			op.Req = rapid.IntRange(-5, 1000).Draw(rt, "reqv")
		}
		if rapid.IntRange(0, 5).Draw(rt, "fail") == 0 {
			op.Fail = &Fail{rapid.SampledFrom([]int{0, 1, 400, 404, 500}).Draw(rt, "code"), "x"}
		}
		desc = gen.Show(reflect.ValueOf(op).Elem())
		what, err = exchange(c, cli, op)
		return
	}
	exchange = func(c ctx.C, cli fhttp.Client, op *Op[T]) (string, error) {
		in := *op
		show := func(o Op[T]) string {
			o.Out, o.Both, o.List, o.By, o.N, o.Say, o.Bad = in.Out, in.Both, nil, nil, 0, "", nil
			return gen.Show(reflect.ValueOf(&o).Elem())
		}
		before, untouched := gen.Show(reflect.ValueOf(op).Elem()), show(in)
		err := cli.API(c, op)
		// what the same op gives when run here
		want := in
		h, herr := api.NewServer(c, tmpl(nil))
		if herr != nil {
			return "", herr
		}
		if err != nil {
			if d := gen.Show(reflect.ValueOf(op).Elem()); d != before {
				return "", fmt.Errorf("a failed call changed the object: %s", d)
			}
			if want.Req != 0 && want.Fail == nil {
				return "", fmt.Errorf("refused: %v", err)
			}
			return "refused", nil
		}
		if want.Req == 0 || want.Fail != nil {
			return "", fmt.Errorf("accepted without the required field or in spite of the error")
		}
		ch, herr := api.NewClient(c, op)
		if herr != nil {
			return "", herr
		}
		j := &api.JSON{}
		if err := ch.Send(c, &in, j); err != nil {
			return "", err
		}
		obj, err := h.Recv(c, &api.JSON{Data: j.Data})
		if err != nil {
			return "", err
		}
		if err := obj.Do(c); err != nil {
			return "", err
		}
		if d := show(*op); d != untouched {
			return "", fmt.Errorf("changed beyond the output fields: %s", d)
		}
		for i, x := range [][2]any{{obj.Out, op.Out}, {obj.Both, op.Both}, {obj.List, op.List}, {obj.By, op.By}, {obj.N, op.N}, {obj.Say, op.Say}, {obj.Bad, op.Bad}} {
			if d := gen.Same(reflect.ValueOf(&x[0]).Elem(), reflect.ValueOf(&x[1]).Elem()); d != "" {
				return "", fmt.Errorf("output %d differs from the direct run: %s", i, d)
			}
		}
		return "ok", nil
	}
	return t
}

var targets []*target
var once sync.Once

func all() []*target {
	once.Do(func() {
		targets = []*target{
			setup[int](), setup[string](), setup[gen.Inner](), setup[*gen.Inner](), setup[[]gen.Inner](), setup[map[string]int64](),
			setup[float64](), setup[any](), setup[gen.Tree](), setup[gen.Point](), setup[map[int]*gen.Inner](), setup[[3]uint8](),
		}
	})
	return targets
}

type request struct {
	t      *target
	id     int
	body   []byte
	chunks bool
	method string
	ua     string

	stage string // of the direct run
	want  []byte
	code  int

	gotCode int
	got     []byte
	ctype   string
	err     error
}

func (r *request) String() string {
	b := r.body
	if len(b) > 400 {
		b = append(append([]byte{}, b[:400]...), "..."...)
	}
	return fmt.Sprintf("%s /op Op[%s] %q", r.method, r.t.name, b)
}

// trickle hides the length of the body, which is then sent in chunks
type trickle struct {
	b []byte
	n int
}

func (t *trickle) Read(p []byte) (int, error) {
	if len(t.b) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), t.n, len(t.b))
	copy(p, t.b[:n])
	t.b = t.b[n:]
	return n, nil
}

var client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16, IdleConnTimeout: vh.IdleLimit}, Timeout: 60 * time.Second}

func (r *request) send() {
	var body io.Reader = bytes.NewReader(r.body)
	if r.chunks {
		body = &trickle{r.body, 1 + len(r.body)/5}
	}
	q, err := http.NewRequest(r.method, r.t.url+"/op", body)
	if err != nil {
		r.err = err
		return
	}
	q.Header.Set("User-Agent", r.ua)
	res, err := client.Do(q)
	if err != nil {
		r.err = err
		return
	}
	defer res.Body.Close()
	r.gotCode = res.StatusCode
	r.ctype = res.Header.Get("Content-Type")
	r.got, r.err = io.ReadAll(res.Body)
}

var ids atomic.Int64

func drawRequest(t *rapid.T, tg *target) *request {
	if tg == nil {
		tg = rapid.SampledFrom(all()).Draw(t, "op")
	}
	r := &request{t: tg, id: int(ids.Add(1))}
	r.ua = fmt.Sprintf("ua-%d", r.id)
	r.method = rapid.SampledFrom([]string{"POST", "POST", "POST", "PUT", "GET"}).Draw(t, "method")
	r.chunks = rapid.Bool().Draw(t, "chunks")
	doc := gen.DocFor(t, r.t.typ, 3)
	if doc.K != 'o' {
		doc = gen.Obj()
	}
	set := func(k string, v *gen.J) {
		for i, k2 := range doc.Keys {
			if k == k2 {
				doc.Vals[i] = v
				return
			}
		}
		doc.Add(k, v)
	}
	switch rapid.IntRange(0, 11).Draw(t, "req") {
	case 0:
		set("req", gen.Null())
	case 1:
	case 2:
		set("req", gen.Num("0"))
	default:
		set("req", gen.Num(fmt.Sprint(r.id)))
	}
	switch rapid.IntRange(0, 5).Draw(t, "fail") {
	case 0:
		code := rapid.SampledFrom([]int{0, 1, 400, 401, 404, 418, 429, 499, 500, 503, 599}).Draw(t, "code")
		set("fail", gen.Obj().Add("code", gen.Num(fmt.Sprint(code))).Add("text", gen.Str(gen.Text().Draw(t, "text"))))
	default:
		set("fail", gen.Null())
	}
	for _, k := range []string{"R", "hook", "Prefix", "count", "Say", "tracking", "UID"} {
		if doc.Get(k) == nil && rapid.IntRange(0, 5).Draw(t, "smuggle") == 0 {
			doc.Add(k, gen.JSON(1).Filter(gen.Plain).Draw(t, "x"))
		}
	}
	r.body = []byte(doc.Text(t))
	if rapid.IntRange(0, 99).Draw(t, "large") == 77 && r.body[0] == '{' && len(doc.Keys) > 0 {
		pad := strings.Repeat("x", rapid.SampledFrom([]int{40 << 10, 70 << 10, 300 << 10, 1<<20 - 9, 1<<20 + 1, 5 << 20, 11 << 20}).Draw(t, "pad"))
		r.body = append([]byte(`{"pad":"`+pad+`",`), r.body[1:]...)
		vh.Label("large request")
	}
	switch rapid.IntRange(0, 19).Draw(t, "text") {
	case 11:
		r.body = gen.Mutate(t, r.body)
	case 13:
		r.body = []byte(rapid.SampledFrom([]string{"", "null", "[]", "1", `"x"`, "{", "{}{}", "{}", " ", "{} x"}).Draw(t, "other"))
	}
	return r
}

func (r *request) model() {
	stage, out, err := r.t.direct(c(), r.body)
	r.stage, r.want = stage, out
	switch stage {
	case "":
		r.code = 200
	case "read", "recv":
		r.code = 400
	case "send":
		r.code = 500
	case "do":
		r.code = fhttp.ErrorCode(err, 500)
	}
}

func (r *request) check() string {
	if r.err != nil {
		return fmt.Sprintf("no response: %v", r.err)
	}
	if r.gotCode != r.code && !(r.code == 400 && r.gotCode >= 400 && r.gotCode < 500) {
		return fmt.Sprintf("status %d (%q), the direct run gives %d (fails at %q, gives %s)", r.gotCode, r.got, r.code, r.stage, r.want)
	}
	if r.code != 200 {
		return ""
	}
	a, err := gen.ParseJ(r.got)
	if err != nil {
		return fmt.Sprintf("response %q: %v", r.got, err)
	}
	b, err := gen.ParseJ(r.want)
	if err != nil {
		return fmt.Sprintf("direct response %q: %v", r.want, err)
	}
	if d := (gen.Cmp{}).Diff(a, b); d != "" {
		return fmt.Sprintf("response %s, the direct run gives %s: %s", r.got, r.want, d)
	}
	if !strings.HasPrefix(r.ctype, "application/json") {
		return fmt.Sprintf("response of type %q", r.ctype)
	}
	return ""
}

var trackings = map[string]int{}

func batch(t *rapid.T, max int) {
	n := 1
	if max > 1 {
		n = rapid.IntRange(2, max).Draw(t, "n")
	}
	var rs []*request
	inside := 0
	var tg *target
	if n > 1 && rapid.Bool().Draw(t, "same") { // all to the same operation
		tg = rapid.SampledFrom(all()).Draw(t, "op")
	}
	for i := 0; i < n; i++ {
		r := drawRequest(t, tg)
		r.model()
		if r.stage != "read" && r.stage != "recv" {
			inside++
		}
		rs = append(rs, r)
	}
	b := &barrier{need: inside, ch: make(chan struct{})}
	if inside == 0 {
		close(b.ch)
	}
	for _, r := range rs {
		r.t.hook.Lock()
		r.t.hook.batch, r.t.hook.seen = b, nil
		r.t.hook.Unlock()
	}
	var desc []string
	for _, r := range rs {
		desc = append(desc, r.String())
	}
	vh.Case(inside > 0, strings.Join(desc, "; "), fmt.Sprintf("batch-%d", n))
	for _, r := range rs {
		vh.Label("fails-at-" + r.stage)
	}
	var wg sync.WaitGroup
	var done atomic.Int32
	for _, r := range rs {
		wg.Add(1)
		go func(r *request) {
			defer wg.Done()
			defer done.Add(1)
			r.send()
			if r.stage != "read" && r.stage != "recv" && (r.err != nil || r.gotCode >= 400) {
				// refused, maybe without reaching the operation: the others must not wait for it
				r.t.hook.Lock()
				_, in := r.t.hook.seen[r.id]
				r.t.hook.Unlock()
				if !in {
					b.Lock()
					select {
					case <-b.ch:
					default:
						close(b.ch)
					}
					b.need = 1 << 30
					b.Unlock()
				}
			}
		}(r)
	}
	wg.Wait()
	for _, r := range rs {
		if d := r.check(); d != "" {
			t.Fatalf("%v (in a batch of %d): %s", r, n, d)
		}
	}
	objs := map[any]bool{}
	for _, r := range rs {
		r.t.hook.Lock()
		s, ok := r.t.hook.seen[r.id]
		r.t.hook.Unlock()
		if !ok {
			if r.stage != "read" && r.stage != "recv" && bytes.Contains(r.want, []byte(fmt.Sprintf(`"%d":`, r.id))) {
				t.Fatalf("%v: answered without running the operation", r)
			}
			continue
		}
		if r.stage == "read" || r.stage == "recv" {
			t.Fatalf("%v: refused when run directly (%s), yet the operation ran", r, r.stage)
		}
		if s.path != "/op" || s.ua != r.ua {
			t.Fatalf("%v: the operation sees path %q and user agent %q, sent /op and %q", r, s.path, s.ua, r.ua)
		}
		if s.prefix != "tmpl "+r.t.name {
			t.Fatalf("%v: template field is %q when the operation runs", r, s.prefix)
		}
		if objs[s.addr] {
			t.Fatalf("%v: object shared with another request", r)
		}
		objs[s.addr] = true
		if s.tracking == "" {
			t.Fatalf("%v: no tracking id", r)
		}
		if o, ok := trackings[s.tracking]; ok {
			t.Fatalf("%v: tracking id %q already given to request %d", r, s.tracking, o)
		}
		trackings[s.tracking] = r.id
	}
}

func TestOne(t *testing.T) {
	vh.Check(t, 4000, 100000, func(t *rapid.T) { batch(t, 1) })
}

func TestBatch(t *testing.T) {
	vh.Check(t, 2000, 60000, func(t *rapid.T) { batch(t, 8) })
}

// the client half of the library instead of raw requests
func TestClient(t *testing.T) {
	vh.Check(t, 2000, 50000, func(t *rapid.T) {
		tg := rapid.SampledFrom(all()).Draw(t, "op")
		tg.hook.Lock()
		tg.hook.batch = nil
		tg.hook.Unlock()
		u, err := url.Parse(tg.url + rapid.SampledFrom([]string{"", "/", "/base/"}).Draw(t, "base"))
		if err != nil {
			vh.Inconclusive("%v", err)
		}
		desc, what, err := tg.cli(t, c(), fhttp.Client{BaseUrl: u})
		vh.Case(what == "ok", "client "+desc, "client-"+what)
		if err != nil {
			t.Fatalf("client %s: %v", desc, err)
		}
	})
}

type AuthOp struct {
	R   api.Request `url:"/auth"`
	UID string      `api:"auth" json:"uid"`
	A   int         `api:"in" json:"a"`
	Got string      `api:"out" json:"got"`
	Ran int         `api:"out" json:"ran"`
}

func (o *AuthOp) Do(ctx.C) error {
	o.Got, o.Ran = o.UID, o.A+1
	return nil
}

var ran atomic.Int32

type ReqAuthOp struct {
	R   api.Request `url:"/reqauth"`
	UID string      `api:"auth,required" json:"uid"`
	A   int         `api:"in" json:"a"`
	Got string      `api:"out" json:"got"`
}

func (o *ReqAuthOp) Do(ctx.C) error {
	ran.Add(1)
	o.Got = o.UID
	return nil
}

// no identity can be smuggled in
func TestAuth(t *testing.T) {
	s := fhttp.NewServer(srvc)
	s.MustRegisterAPI(srvc, &AuthOp{})
	s.MustRegisterAPI(srvc, &ReqAuthOp{})
	base := serve(s)
	vh.Check(t, 1500, 20000, func(t *rapid.T) {
		doc := gen.Obj().Add("a", gen.Num("5"))
		who := rapid.StringMatching(`[a-z]{1,9}`).Draw(t, "who")
		for _, k := range []string{"uid", "UID", "auth", "Uid", "got", "user"} {
			if rapid.Bool().Draw(t, k) {
				doc.Add(k, gen.Str(who))
			}
		}
		path := rapid.SampledFrom([]string{"/auth", "/reqauth"}).Draw(t, "path")
		q, _ := http.NewRequest("POST", base+path+rapid.SampledFrom([]string{"", "?uid=" + who}).Draw(t, "query"), strings.NewReader(doc.Text(t)))
		for _, h := range []string{"Authorization", "Uid", "X-Uid", "Cookie"} {
			if rapid.Bool().Draw(t, h) {
				q.Header.Set(h, rapid.SampledFrom([]string{"Bearer ", "", "uid="}).Draw(t, "kind")+who)
			}
		}
		vh.Case(true, fmt.Sprintf("%s %v %v", path, doc, q.Header), "auth")
		res, err := client.Do(q)
		if err != nil {
			t.Fatalf("%v", err)
		}
		body, _ := io.ReadAll(res.Body)
		res.Body.Close()
		if path == "/reqauth" {
			if res.StatusCode < 400 || res.StatusCode >= 500 || ran.Load() != 0 {
				t.Fatalf("%v %v: unauthenticated, got %d %s (ran %d times)", doc, q.Header, res.StatusCode, body, ran.Load())
			}
			return
		}
		if res.StatusCode != 200 {
			t.Fatalf("%v %v: %d %s", doc, q.Header, res.StatusCode, body)
		}
		j, err := gen.ParseJ(body)
		if err != nil || len(j.Keys) != 2 || j.Get("got") == nil || j.Get("got").S != "" || j.Get("ran").S != "6" {
			t.Fatalf("%v %v: got %s", doc, q.Header, body)
		}
	})
}
