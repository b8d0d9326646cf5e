package t03

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Aize-Public/forego/test"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Property = "T03"
	argCrash = vh.Listed("argument-crash")
	vh.Main(m, "T03", "batches of generated test functions, compiled and run: calls in drawn formatting, positions and forms whose excerpts must be the argument's source, assertions whose log must name their arguments and line, and bodies of assignments with shadowing, branches, loops and closures where the reported assignment must have produced the value at hand; with the sources in place, trimmed paths, CRLF, missing, damaged or edited; non-trivial: the call is not a bare one-line call of plain literals")
}

const probeSrc = `package probe

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/Aize-Public/forego/utils/ast"
)

type Rec struct {
	ID    int
	Val   string
	Args  []ast.Arg
	Asg   []string
	FL    string
	Err   string
	Panic string
}

// called by what is called by the site
func report(t *testing.T, id int, n int, val string) { reportAt(3, t, id, n, val) }

func reportAt(above int, t *testing.T, id int, n int, val string) {
	r := Rec{ID: id, Val: val}
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Panic = fmt.Sprint(p)
			}
		}()
		call, fl, err := ast.Caller(above)
		r.FL = fl
		if err != nil {
			r.Err = err.Error()
		}
		if call != nil {
			r.Args = call.Args
		}
		for i := 0; i < n; i++ {
			r.Asg = append(r.Asg, ast.Assignment(above, i))
		}
	}()
	j, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	fmt.Printf("\nREC %s\n", j)
}

func One(t *testing.T, id int, x any)                  { report(t, id, 3, "") }
func Many(t *testing.T, id int, xs ...any)             { report(t, id, 2+len(xs), "") }
func Gen[T any](t *testing.T, id int, x T) any         { report(t, id, 3, ""); return nil }
func Gen2[T any, U any](t *testing.T, id int, x T) any { report(t, id, 3, ""); return nil }
func Err(t *testing.T, id int, err error) {
	val := ""
	if err != nil {
		val = err.Error()
	}
	report(t, id, 3, val)
}

type Obj struct{ n int }

func (o Obj) Self() Obj                             { return o }
func (o Obj) Meth(t *testing.T, id int, x any) any   { report(t, id, 3, ""); return o }
func (o *Obj) PMeth(t *testing.T, id int, x any) any { report(t, id, 3, ""); return o }

type GObj[T any] struct{ X T }

func (o GObj[T]) GMeth(t *testing.T, id int, x any) any { report(t, id, 3, ""); return o }

func Report(t *testing.T, id int, n int) { reportAt(3, t, id, n, "") }
`

const dotSrc = `package dotted

import (
	"testing"

	"sites.test/probe"
)

func Dotted(t *testing.T, id int, x any) { probe.Report(t, id, 3) }
`

const helpSrc = `package sub

import (
	"fmt"
	"testing"

	"sites.test/probe"
)

type decoy struct{}

func (decoy) One(...any) any      { return 0 }
func (decoy) one(...any) any      { return 0 }
func (decoy) Many(...any) any     { return 0 }
func (decoy) Gen(...any) any      { return 0 }
func (decoy) Nil(...any) any      { return 0 }
func (decoy) Error(...any) any    { return 0 }
func (decoy) NoError(...any) any  { return 0 }
func (decoy) EqualsGo(...any) any { return 0 }

type chain struct {
	F int
	G struct{ F int }
}

func (c chain) Self() chain { return c }

var (
	i1     = 4
	p1     = &i1
	arr    = []int{1, 2, 3}
	arrAny = []any{1, 2}
	m1     = map[string]int{"k": 1}
	st     chain
	dec    decoy
	obj    probe.Obj
	objs   = []probe.Obj{{}}
	emb    struct{ probe.Obj }
	gobj   probe.GObj[int]
	pkgErr error
	never  chan error
)

func mkObj() probe.Obj                                 { return obj }
func yes() bool                                        { return true }
func no() bool                                         { return false }
func ch() chan int                                     { c := make(chan int, 1); c <- 1; return c }
func id[T any](x T) T                                  { return x }
func ref[T any](x T) *T                                { return &x }
func mark[T any](n int, x T) T                         { return x }
func join(x ...any) any                                { return len(x) }
func use(x ...any)                                     {}
func three(t *testing.T, n int, x any) (*testing.T, int, any) { return t, n, x }
func one(t *testing.T, id int, x any)                  { probe.Report(t, id, 3) }
func mk(n int) error                                   { return fmt.Errorf("#%d", n) }
func wrap(err error, x string) error                   { return err }
func two(n int) (int, error)                           { return n, mk(n) }
func set(p *error, err error)                          { *p = err }
func now(err error) chan error                         { c := make(chan error, 1); c <- err; return c }
`

const sitesHead = `package sub

import (
	"testing"

	"sites.test/probe"
	pr "sites.test/probe"
	. "sites.test/dotted"

	. "github.com/Aize-Public/forego/test"
	"github.com/Aize-Public/forego/test"
	tst "github.com/Aize-Public/forego/test"
)

var (
	_ = probe.One
	_ = pr.One
	_ = Dotted
	_ = test.OK
	_ = tst.OK
	_ = OK
)

`

type rec struct {
	ID    int
	Val   string
	Args  []struct{ Src, Assignment string }
	Asg   []string
	FL    string
	Err   string
	Panic string
}

// a recorded finding: the searches keep clear of it
var argCrash bool

func located(mode string) bool { return mode == "plain" || mode == "trimpath" || mode == "crlf" }

func TestKnown(t *testing.T) {
	if vh.Shard != 0 {
		return
	}
	vh.Known(t, "argument-crash", "Nil, NotNil, Empty and NotEmpty panic when their call is not found in the source", func() (err error) {
		testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "TestValue", F: func(t *testing.T) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			for _, f := range []func(t *testing.T, x any){test.Nil, test.Empty} {
				f(t, nil)
			}
			for _, f := range []func(t *testing.T, x any){test.NotNil, test.NotEmpty} {
				f(t, "x")
			}
		}}})
		return err
	})
}

func setup(t *testing.T) string {
	root, err := os.MkdirTemp("", "t03-")
	if err != nil {
		vh.Inconclusive("%v", err)
	}
	must := func(err error) {
		if err != nil {
			vh.Inconclusive("setup: %v", err)
		}
	}
	h := os.Getenv("VH_HARNESS")
	if h == "" {
		h = ".."
	}
	gm, err := os.ReadFile(filepath.Join(h, "go.mod"))
	must(err)
	gs, err := os.ReadFile(filepath.Join(h, "go.sum"))
	must(err)
	gm = bytes.Replace(gm, []byte("module verif"), []byte("module sites.test"), 1)
	must(os.MkdirAll(filepath.Join(root, "probe"), 0o755))
	must(os.MkdirAll(filepath.Join(root, "dotted"), 0o755))
	must(os.MkdirAll(filepath.Join(root, "sub"), 0o755))
	for f, s := range map[string]string{"go.mod": string(gm), "go.sum": string(gs), "probe/probe.go": probeSrc, "dotted/dotted.go": dotSrc, "sub/help_test.go": helpSrc} {
		must(os.WriteFile(filepath.Join(root, f), []byte(s), 0o644))
	}
	t.Cleanup(func() { _ = os.RemoveAll(root) })
	return root
}

func command(dir string, limit time.Duration, name string, args ...string) (string, error, bool) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		vh.Inconclusive("%v", err)
	}
	tm := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	err := cmd.Wait()
	timedOut := !tm.Stop()
	return out.String(), err, timedOut
}

func TestSites(t *testing.T) {
	root := setup(t)
	src := filepath.Join(root, "sub", "sites_test.go")
	bin := filepath.Join(root, "sites.bin")
	vh.Check(t, 32, 800, func(t *rapid.T) {
		mode := rapid.SampledFrom([]string{"plain", "plain", "plain", "trimpath", "crlf", "missing", "garbage", "edited"}).Draw(t, "mode")
		id := 0
		next := func() int { id++; return id }
		produced := map[int]string{}
		sites := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) *site {
			s := &site{id: next()}
			switch k := rapid.IntRange(0, 9).Draw(t, "site"); {
			case k < 5:
				probeSite(t, s, next)
			case k < 7:
				assertSite(t, s, located(mode))
			default:
				for n, x := range assignSite(t, s, next) {
					produced[n] = x
				}
			}
			return s
		}), 40, 60).Draw(t, "sites")
		text := sitesHead
		lines := map[int]int{}
		for _, s := range sites {
			d := s.decl
			// announce the site at the start of its function
			head := fmt.Sprintf("func TestS%d(t *testing.T) {\n", s.id)
			d = strings.Replace(d, head, head+fmt.Sprintf("\tprintln(\"SITE %d\")\n", s.id), 1)
			if i := strings.IndexByte(d, 1); i >= 0 {
				lines[s.id] = 1 + strings.Count(text+d[:i], "\n")
			}
			text += strings.ReplaceAll(d, "\x01", "") + "\n"
		}
		if mode == "crlf" {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		if err := os.WriteFile(src, []byte(text), 0o644); err != nil {
			vh.Inconclusive("%v", err)
		}
		args := []string{"test", "-c", "-vet=off", "-o", bin}
		if mode == "trimpath" {
			args = append(args, "-trimpath")
		}
		if out, err, _ := command(root, 5*time.Minute, "go", append(args, "./sub")...); err != nil {
			vh.Inconclusive("the generated sites do not compile: %v\n%s\n%s", err, out, text)
		}
		switch mode {
		case "missing":
			_ = os.Remove(src)
		case "garbage":
			_ = os.WriteFile(src, []byte(rapid.SampledFrom([]string{"", "package", "not go at all {{{", "\x00\xff", "package sub\n\nfunc ("}).Draw(t, "garbage")), 0o644)
		case "edited":
			_ = os.WriteFile(src, []byte(rapid.SampledFrom([]string{"// one more line\n", "\n\n\n", "package sub\n\nfunc f() {\n" + strings.Repeat("Err(t);One();Nil();probe.One(t)\n", 200) + "}\n//"}).Draw(t, "edit")+text), 0o644)
		}
		out, err, late := command(filepath.Join(root, "sub"), 4*time.Minute, bin, "-test.v=true", "-test.timeout=200s")
		if late {
			vh.Inconclusive("the sites did not end\n%s", tail(out))
		}
		_ = err // assertions fail on purpose
		judge(t, mode, sites, produced, lines, strings.ReplaceAll(out, "\r\n", "\n"))
	})
}

func tail(s string) string {
	if len(s) > 4000 {
		s = s[len(s)-4000:]
	}
	return s
}

var siteRE = regexp.MustCompile(`(?m)^SITE (\d+)$`)
var logRE = regexp.MustCompile(`(?m)^ +([^ :]+):(\d+): (.*(?:\n        .*)*)`)

func judge(t *rapid.T, mode string, sites []*site, produced map[int]string, lines map[int]int, out string) {
	if i := strings.Index(out, "panic:"); i >= 0 && strings.Contains(out, "goroutine ") {
		m := siteRE.FindAllStringSubmatch(out[:i], -1)
		d := ""
		if len(m) > 0 {
			for _, s := range sites {
				if fmt.Sprint(s.id) == m[len(m)-1][1] {
					d = s.desc
				}
			}
		}
		t.Fatalf("%s: a call crashes: %s\n%s", mode, d, out[i:min(len(out), i+3000)])
	}
	recs := map[int][]rec{}
	parts := map[int]string{}
	cur := 0
	for _, l := range strings.SplitAfter(out, "\n") {
		if m := siteRE.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			cur, _ = strconv.Atoi(m[1])
			continue
		}
		if strings.HasPrefix(l, "REC ") {
			var r rec
			if err := json.Unmarshal([]byte(l[4:]), &r); err != nil {
				vh.Inconclusive("%v: %s", err, l)
			}
			recs[r.ID] = append(recs[r.ID], r)
			continue
		}
		if strings.HasPrefix(l, "=== RUN") || strings.HasPrefix(strings.TrimSpace(l), "--- ") {
			if strings.HasPrefix(strings.TrimSpace(l), "--- ") {
				parts[cur] += strings.TrimSpace(l) + "\n"
			}
			continue
		}
		parts[cur] += l
	}
	found := located(mode)
	fit := func(s string) string { // CRLF sources have their line ends in the excerpts
		return strings.TrimSuffix(strings.ReplaceAll(s, "\r\n", "\n"), "\r")
	}
	for _, s := range sites {
		switch s.kind {
		case "assign":
			for _, w := range s.asg {
				for _, r := range recs[w.id] {
					if r.Panic != "" {
						t.Fatalf("%s: probe %d crashes: %s\n%s", mode, w.id, r.Panic, s.desc)
					}
					if !found {
						continue
					}
					if len(r.Args) != 3 {
						t.Fatalf("%s: probe %d finds %+v\n%s", mode, w.id, r, s.desc)
					}
					got := fit(r.Args[2].Assignment)
					if w.must != "" && got != w.must {
						t.Fatalf("%s: probe %d reports the assignment %q, not %q\n%s", mode, w.id, got, w.must, s.desc)
					}
					if got != "" {
						n, _ := strconv.Atoi(strings.TrimPrefix(r.Val, "#"))
						if !strings.Contains(got, fmt.Sprintf("mk(%d)", n)) && !strings.Contains(got, fmt.Sprintf("two(%d)", n)) || r.Val == "" {
							t.Fatalf("%s: probe %d reports the assignment %q, but the value came from %q\n%s", mode, w.id, got, produced[n], s.desc)
						}
						if len(r.Asg) == 3 && fit(r.Asg[2]) != strings.Split(got, "\n")[0] {
							t.Fatalf("%s: probe %d: Assignment() gives %q, the argument %q\n%s", mode, w.id, r.Asg[2], got, s.desc)
						}
					}
					vh.Label("probed")
				}
			}
			vh.Case(found, mode+" "+s.desc, "assign", "mode-"+mode)
		case "assert":
			p := parts[s.id]
			m := logRE.FindStringSubmatch(p)
			ended := regexp.MustCompile(`--- (PASS|FAIL): TestS\d+`).FindStringSubmatch(p)
			if ended == nil {
				t.Fatalf("%s: the test did not end: %s\n%s", mode, s.desc, p)
			}
			if (ended[1] == "FAIL") != s.fails {
				t.Fatalf("%s: gives %s: %s\n%s", mode, ended[1], s.desc, p)
			}
			if m == nil {
				t.Fatalf("%s: no log: %s\n%s", mode, s.desc, p)
			}
			if found && len(s.logs) > 0 {
				if m[1] != "sites_test.go" || m[2] != fmt.Sprint(lines[s.id]) {
					t.Fatalf("%s: logged at %s:%s instead of line %d: %s\n%s", mode, m[1], m[2], lines[s.id], s.desc, p)
				}
				rest := m[3]
				for _, w := range s.logs {
					i := strings.Index(rest, w)
					if i < 0 {
						t.Fatalf("%s: the log does not show %q: %s\n%s", mode, w, s.desc, p)
					}
					rest = rest[i+len(w):]
				}
			}
			vh.Case(found, mode+" "+s.desc, "assert", "mode-"+mode)
		default:
			rs := recs[s.id]
			if len(rs) != 1 {
				t.Fatalf("%s: %d reports: %s\n%s", mode, len(rs), s.desc, parts[s.id])
			}
			r := rs[0]
			if r.Panic != "" {
				t.Fatalf("%s: crashes: %s\n%s", mode, r.Panic, s.desc)
			}
			vh.Case(found && strings.ContainsAny(s.desc, "\n{") || s.loose, mode+" "+s.desc, "call", "mode-"+mode, "form-"+s.kind)
			if !found {
				continue
			}
			if r.Err == "" && len(r.Args) == 0 && !s.loose {
				t.Fatalf("%s: nothing found: %s\n%+v", mode, s.desc, r)
			}
			if r.Err != "" {
				if !s.loose {
					t.Fatalf("%s: not found: %s\n%+v", mode, s.desc, r)
				}
				continue
			}
			if s.args == nil {
				continue
			}
			if len(r.Args) != len(s.args) {
				t.Fatalf("%s: %d arguments instead of %d: %s\n%+v", mode, len(r.Args), len(s.args), s.desc, r)
			}
			for i, ok := range s.args {
				hit := false
				for _, w := range ok {
					hit = hit || fit(r.Args[i].Src) == w
				}
				if !hit {
					t.Fatalf("%s: argument %d is %q instead of %q: %s", mode, i, r.Args[i].Src, ok, s.desc)
				}
				if i < len(r.Asg) && r.Args[i].Assignment == "" && fit(r.Asg[i]) != strings.Split(fit(r.Args[i].Src), "\n")[0] {
					t.Fatalf("%s: argument %d is %q, Assignment() gives %q: %s", mode, i, r.Args[i].Src, r.Asg[i], s.desc)
				}
			}
		}
	}
	vh.Label("batch")
}
