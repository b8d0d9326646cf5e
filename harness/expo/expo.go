// Package expo is a strict parser of the Prometheus text exposition format.
package expo

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Sample struct {
	Name   string
	Labels map[string]string
	Value  float64
	Text   string // of the value
}

type Family struct {
	Name, Type, Help string
	HasHelp          bool
	Samples          []Sample
}

var (
	metricName = regexp.MustCompile(`^[a-zA-Z_:][a-zA-Z0-9_:]*`)
	labelName  = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*`)
	number     = regexp.MustCompile(`^([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?|[+-]?Inf|NaN)$`)
)

func unescape(s string, quote bool) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", fmt.Errorf("dangling backslash in %q", s)
		}
		switch {
		case s[i] == '\\':
			b.WriteByte('\\')
		case s[i] == 'n':
			b.WriteByte('\n')
		case s[i] == '"' && quote:
			b.WriteByte('"')
		default:
			return "", fmt.Errorf("invalid escape \\%c in %q", s[i], s)
		}
	}
	return b.String(), nil
}

// Key identifies a series
func Key(name string, labels map[string]string) string {
	var ks []string
	for k := range labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := name
	for _, k := range ks {
		out += fmt.Sprintf("|%s=%q", k, labels[k])
	}
	return out
}

// Parse reads an exposition; every deviation from the format is an error.
func Parse(text string) (map[string]*Family, error) {
	fams := map[string]*Family{}
	if text != "" && !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("last line is not terminated")
	}
	if !utf8.ValidString(text) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	var last *Family
	closed := map[string]bool{}
	seen := map[string]bool{}
	get := func(name string) (*Family, error) {
		if last != nil && last.Name == name {
			return last, nil
		}
		if last != nil {
			closed[last.Name] = true
		}
		if closed[name] {
			return nil, fmt.Errorf("lines of %s are not together", name)
		}
		f := fams[name]
		if f == nil {
			f = &Family{Name: name}
			fams[name] = f
		}
		last = f
		return f, nil
	}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		fail := func(f string, args ...any) (map[string]*Family, error) {
			return nil, fmt.Errorf("line %q: "+f, append([]any{l}, args...)...)
		}
		if l == "" {
			continue
		}
		if l[0] == '#' {
			p := strings.SplitN(l, " ", 4)
			if len(p) < 3 || p[0] != "#" || p[1] != "HELP" && p[1] != "TYPE" {
				continue // a comment
			}
			if metricName.FindString(p[2]) != p[2] || p[2] == "" {
				return fail("bad name %q", p[2])
			}
			f, err := get(p[2])
			if err != nil {
				return fail("%v", err)
			}
			if len(f.Samples) > 0 {
				return fail("after the samples")
			}
			rest := ""
			if len(p) == 4 {
				rest = p[3]
			}
			if p[1] == "HELP" {
				if f.HasHelp {
					return fail("twice")
				}
				f.HasHelp = true
				if f.Help, err = unescape(rest, false); err != nil {
					return fail("%v", err)
				}
			} else {
				if f.Type != "" {
					return fail("twice")
				}
				switch rest {
				case "counter", "gauge", "histogram", "summary", "untyped":
				default:
					return fail("bad type %q", rest)
				}
				f.Type = rest
			}
			continue
		}
		name := metricName.FindString(l)
		if name == "" {
			return fail("bad name")
		}
		s := Sample{Name: name, Labels: map[string]string{}}
		rest := l[len(name):]
		if strings.HasPrefix(rest, "{") {
			rest = rest[1:]
			for !strings.HasPrefix(rest, "}") {
				k := labelName.FindString(rest)
				if k == "" || !strings.HasPrefix(rest[len(k):], `="`) {
					return fail("bad label at %q", rest)
				}
				rest = rest[len(k)+2:]
				i := 0
				for i < len(rest) && rest[i] != '"' {
					if rest[i] == '\\' {
						i++
					}
					i++
				}
				if i >= len(rest) {
					return fail("label %s not terminated", k)
				}
				v, err := unescape(rest[:i], true)
				if err != nil {
					return fail("%v", err)
				}
				if _, ok := s.Labels[k]; ok {
					return fail("label %s twice", k)
				}
				s.Labels[k] = v
				rest = rest[i+1:]
				if strings.HasPrefix(rest, ",") {
					rest = rest[1:]
				} else if !strings.HasPrefix(rest, "}") {
					return fail("junk after label %s", k)
				}
			}
			rest = rest[1:]
		}
		p := strings.Fields(rest)
		if !strings.HasPrefix(rest, " ") || len(p) < 1 || len(p) > 2 || !number.MatchString(p[0]) {
			return fail("bad value %q", rest)
		}
		if len(p) == 2 {
			if _, err := strconv.ParseInt(p[1], 10, 64); err != nil {
				return fail("bad timestamp")
			}
		}
		v, err := strconv.ParseFloat(p[0], 64)
		if err != nil && !math.IsInf(v, 0) {
			return fail("%v", err)
		}
		s.Value, s.Text = v, p[0]
		k := Key(s.Name, s.Labels)
		if seen[k] {
			return fail("series twice")
		}
		seen[k] = true
		fam := name
		for _, suf := range []string{"_bucket", "_sum", "_count"} {
			if b := strings.TrimSuffix(name, suf); b != name && fams[b] != nil && (fams[b].Type == "histogram" || fams[b].Type == "summary") {
				fam = b
			}
		}
		f, err := get(fam)
		if err != nil {
			return fail("%v", err)
		}
		f.Samples = append(f.Samples, s)
	}
	return fams, nil
}

// Hist is one series of a histogram.
type Hist struct {
	Labels map[string]string
	Le     map[string]float64 // cumulative count by text of the bound
	Inf    float64
	Count  float64
	Sum    float64
	has    [3]bool
}

// Hists collects and validates the series of a histogram family.
func (f *Family) Hists() (map[string]*Hist, error) {
	if f == nil {
		return map[string]*Hist{}, nil
	}
	if f.Type != "histogram" {
		return nil, fmt.Errorf("%s is of type %q", f.Name, f.Type)
	}
	out := map[string]*Hist{}
	bounds := map[string][]float64{}
	for _, s := range f.Samples {
		labels := map[string]string{}
		for k, v := range s.Labels {
			if k != "le" || s.Name != f.Name+"_bucket" {
				labels[k] = v
			}
		}
		k := Key("", labels)
		h := out[k]
		if h == nil {
			h = &Hist{Labels: labels, Le: map[string]float64{}}
			out[k] = h
		}
		switch s.Name {
		case f.Name + "_bucket":
			le, ok := s.Labels["le"]
			b, err := strconv.ParseFloat(le, 64)
			if !ok || err != nil {
				return nil, fmt.Errorf("bucket without a bound: %v", s)
			}
			if math.IsInf(b, 1) {
				h.Inf, h.has[0] = s.Value, true
			} else {
				h.Le[le] = s.Value
			}
			bounds[k] = append(bounds[k], b, s.Value)
		case f.Name + "_sum":
			h.Sum, h.has[1] = s.Value, true
		case f.Name + "_count":
			h.Count, h.has[2] = s.Value, true
		default:
			return nil, fmt.Errorf("unexpected sample %v", s)
		}
	}
	for k, h := range out {
		if h.has != [3]bool{true, true, true} {
			return nil, fmt.Errorf("%s{%s}: incomplete histogram", f.Name, k)
		}
		if h.Inf != h.Count {
			return nil, fmt.Errorf("%s{%s}: +Inf bucket %v, count %v", f.Name, k, h.Inf, h.Count)
		}
		b := bounds[k]
		for i := 2; i < len(b); i += 2 {
			if b[i] <= b[i-2] || b[i+1] < b[i-1] {
				return nil, fmt.Errorf("%s{%s}: buckets not cumulative: %v", f.Name, k, b)
			}
		}
	}
	return out, nil
}
