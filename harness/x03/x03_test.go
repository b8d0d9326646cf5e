package x03

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "X03", "span trees built by several goroutines below shared and own members, through tags, values, cancels and detachments in between, with given and fresh tracking ids; non-trivial: at least two goroutines which make spans below one parent")
}

type span struct {
	c      ctx.C
	id     string
	parent *span // nil for a root
	cf     ctx.CancelFunc
}

type step struct {
	Parent int // of the shared ones, or (from 100) of the own ones
	Via    int
	Pause  bool
}

// what stands between a span and its parent
func via(c ctx.C, k int) ctx.C {
	switch k {
	case 1:
		return ctx.WithTag(c, "tracking", "other")
	case 2:
		return context.WithValue(c, "tracking-id", "value")
	case 3:
		return ctx.Detach(c)
	case 4:
		c, _ := context.WithCancel(c)
		return c
	case 5:
		return ctx.WithTag(ctx.Detach(ctx.WithTag(c, "x", 1)), "tracking-id", "fake")
	}
	return c
}

func tagOf(c ctx.C) (s string) {
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		if k == "tracking-id" {
			s = ""
			_ = json.Unmarshal(j, &s)
		}
		return nil
	})
	return s
}

func TestSpans(t *testing.T) {
	vh.Check(t, 4000, 150000, func(t *rapid.T) {
		given := rapid.SampledFrom([]string{"", "root", "a.1", "1", "ü x", strings.Repeat("long", 50), "?"}).Draw(t, "given")
		base, _ := ctx.Background()
		base = via(base, rapid.IntRange(0, 5).Draw(t, "base"))
		root := &span{}
		if given == "?" { // a span without any tracking
			root.c, root.cf = ctx.Span(base, "first")
		} else {
			root.c = ctx.WithTracking(base, given)
		}
		root.id = ctx.GetTracking(root.c)
		if given != "" && given != "?" && root.id != given {
			t.Fatalf("given %q, got %q", given, root.id)
		}
		if root.id == "" || tagOf(root.c) != root.id {
			t.Fatalf("given %q, got %q with the tag %q", given, root.id, tagOf(root.c))
		}
		shared := []*span{root}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "shared"); i < n; i++ {
			p := shared[rapid.IntRange(0, len(shared)-1).Draw(t, "parent")]
			x := &span{parent: p}
			x.c, x.cf = ctx.Span(p.c, "shared")
			x.id = ctx.GetTracking(x.c)
			shared = append(shared, x)
		}
		var plans [][]step
		touched := map[int]int{}
		for g, n := 0, rapid.IntRange(1, 6).Draw(t, "goroutines"); g < n; g++ {
			var plan []step
			seen := map[int]bool{}
			for k, m := 0, rapid.SampledFrom([]int{1, 3, 10, 20, 40}).Draw(t, "spans"); k < m; k++ {
				s := step{Parent: rapid.IntRange(0, len(shared)-1).Draw(t, "parent"), Via: rapid.IntRange(0, 8).Draw(t, "via")}
				if k > 0 && rapid.IntRange(0, 9).Draw(t, "own") > 5 {
					s.Parent = 100 + rapid.IntRange(0, k-1).Draw(t, "mine")
				} else if !seen[s.Parent] {
					seen[s.Parent] = true
					touched[s.Parent]++
				}
				s.Pause = rapid.IntRange(0, 9).Draw(t, "pause") > 6
				plan = append(plan, s)
			}
			plans = append(plans, plan)
		}
		rival := false
		for _, n := range touched {
			rival = rival || n > 1
		}
		vh.Case(rival, fmt.Sprintf("%.20q %d shared %v", given, len(shared), plans), fmt.Sprintf("goroutines-%d", len(plans)))
		out := make([][]*span, len(plans))
		var wg sync.WaitGroup
		start := make(chan bool)
		for g, plan := range plans {
			wg.Add(1)
			go func(g int, plan []step) {
				defer wg.Done()
				<-start
				for _, s := range plan {
					if s.Pause {
						runtime.Gosched()
					}
					var p *span
					if s.Parent >= 100 {
						p = out[g][s.Parent-100]
					} else {
						p = shared[s.Parent]
					}
					x := &span{parent: p}
					x.c, x.cf = ctx.Span(via(p.c, s.Via), "name")
					x.id = ctx.GetTracking(x.c)
					out[g] = append(out[g], x)
				}
			}(g, plan)
		}
		close(start)
		vh.Within("the spans", wg.Wait)
		all := append([]*span{}, shared...)
		for _, l := range out {
			all = append(all, l...)
		}
		ids := map[string]bool{}
		for _, x := range all {
			if ids[x.id] {
				t.Fatalf("the id %q was given twice", x.id)
			}
			ids[x.id] = true
			if x.parent != nil && (!strings.HasPrefix(x.id, x.parent.id) || x.id == x.parent.id) {
				t.Fatalf("span %q below %q", x.id, x.parent.id)
			}
			// it is still the one it was given
			if id := ctx.GetTracking(via(x.c, 5)); id != x.id {
				t.Fatalf("span %q became %q", x.id, id)
			}
			if tg := tagOf(x.c); tg != x.id {
				t.Fatalf("span %q has the tag %q", x.id, tg)
			}
		}
		// a fresh id is like no other, and one given again is kept
		if id := ctx.GetTracking(ctx.WithTracking(all[len(all)-1].c, "")); id == "" || ids[id] {
			t.Fatalf("fresh id %q", id)
		}
		if id := ctx.GetTracking(ctx.WithTracking(all[len(all)-1].c, "again")); id != "again" {
			t.Fatalf("given id %q", id)
		}
		if id := ctx.GetTracking(base); id != "" {
			t.Fatalf("the base context has got the id %q", id)
		}
		// the end of a span is the end of those below it, only
		i := rapid.IntRange(0, len(all)-1).Draw(t, "end")
		if all[i].cf == nil {
			return
		}
		all[i].cf(io.EOF)
		for _, x := range all {
			under := false
			for p := x; p != nil; p = p.parent {
				under = under || p == all[i]
			}
			if !under && x.c.Err() != nil {
				t.Fatalf("the end of %q ended %q", all[i].id, x.id)
			}
		}
		if ctx.Cause(all[i].c) != io.EOF {
			t.Fatalf("the span %q ended with %v", all[i].id, ctx.Cause(all[i].c))
		}
	})
}

// very many below one
func TestMany(t *testing.T) {
	vh.Check(t, 12, 300, func(t *rapid.T) {
		n := rapid.IntRange(1000, 8000).Draw(t, "spans")
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		vh.Case(true, fmt.Sprintf("%d spans by each of %d", n, g), "many")
		c := ctx.WithTracking(ctx.TODO(), "r")
		out := make([][]string, g)
		var wg sync.WaitGroup
		for k := range out {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				for i := 0; i < n; i++ {
					s, cf := ctx.Span(c, "s")
					out[k] = append(out[k], ctx.GetTracking(s))
					cf(nil)
				}
			}(k)
		}
		vh.Within("the spans", wg.Wait)
		seen := map[string]bool{}
		for _, l := range out {
			for _, id := range l {
				if seen[id] {
					t.Fatalf("the id %q was given twice", id)
				}
				if !strings.HasPrefix(id, "r") || len(id) < 2 {
					t.Fatalf("the id %q", id)
				}
				seen[id] = true
			}
		}
	})
}
