package gen

import (
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"github.com/Aize-Public/forego/api"
	"pgregory.net/rapid"
)

// OpField is one field of a generated operation.
type OpField struct {
	Index    int
	Name     string // as declared for the API
	In, Out  bool
	Required bool
	Auth     bool
	AuthReq  bool
	Hidden   bool
	Type     reflect.Type
}

// Op is a generated operation type.
type Op struct {
	Type   reflect.Type
	Fields []OpField
	URLs   []string
}

func (o *Op) Auth() *OpField {
	for i := range o.Fields {
		if o.Fields[i].Auth {
			return &o.Fields[i]
		}
	}
	return nil
}

// OpType draws an operation; fieldType draws the types of its fields.
func OpType(t *rapid.T, fieldType *rapid.Generator[reflect.Type], urls bool) *Op {
	op := &Op{}
	var fs []reflect.StructField
	names := map[string]bool{}
	apis := map[string]bool{}
	if urls {
		u := "/api/" + rapid.StringMatching(`[a-z]{1,6}`).Draw(t, "url") + "/v1"
		op.URLs = append(op.URLs, u)
		names["R"] = true
		fs = append(fs, reflect.StructField{Name: "R", Type: tof[api.Request](), Tag: reflect.StructTag(`url:"` + u + `"`)})
	}
	var more []reflect.StructField // the same operation under further urls
	if urls && rapid.IntRange(0, 4).Draw(t, "more urls") == 3 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			u := fmt.Sprintf("%s/%d", op.URLs[0], i+2)
			op.URLs = append(op.URLs, u)
			more = append(more, reflect.StructField{Name: fmt.Sprintf("URL%d", i), Type: tof[api.Request](), Tag: reflect.StructTag(`url:"` + u + `"`)})
		}
	}
	auth := false
	for i, n := 0, rapid.IntRange(1, 7).Draw(t, "fields"); i < n; i++ {
		f := OpField{}
		if len(more) > 0 && rapid.Bool().Draw(t, "url here") {
			fs = append(fs, more[0])
			more = more[1:]
		}
		if rapid.IntRange(0, 7).Draw(t, "hidden") == 0 {
			name := rapid.SampledFrom(hiddenNames[:2]).Draw(t, "hname")
			if names[name] {
				continue
			}
			names[name] = true
			f.Hidden, f.Type, f.Index = true, rapid.SampledFrom([]reflect.Type{tof[int](), tof[string](), tof[[]int]()}).Draw(t, "htype"), len(fs)
			fs = append(fs, reflect.StructField{Name: name, PkgPath: "verif/gen", Type: f.Type})
			op.Fields = append(op.Fields, f)
			continue
		}
		name := rapid.SampledFrom(fieldNames).Draw(t, "name")
		if names[name] {
			continue
		}
		var tags []string
		switch rapid.IntRange(0, 8).Draw(t, "dir") {
		case 0, 1, 2:
			f.In = true
			tags = append(tags, "in")
		case 3, 4:
			f.Out = true
			tags = append(tags, "out")
		case 5:
			f.In, f.Out = true, true
			tags = append(tags, rapid.SampledFrom([]string{"both", "in,out", "out,in"}).Draw(t, "both"))
		case 6:
			if !auth {
				auth, f.Auth = true, true
				tags = append(tags, "auth")
			}
		}
		if (f.In || f.Auth) && rapid.IntRange(0, 2).Draw(t, "req") == 0 {
			f.Required, f.AuthReq = f.In, f.Auth
			tags = append(tags, "required")
		}
		json := rapid.SampledFrom(jsonNames).Draw(t, "json")
		f.Name = json
		if f.Name == "" {
			f.Name = name
		}
		if apis[strings.ToLower(f.Name)] {
			continue
		}
		apis[strings.ToLower(f.Name)] = true
		names[name] = true
		tag := ""
		if len(tags) > 0 {
			tag = `api:"` + strings.Join(tags, ",") + `"`
		}
		if e := rapid.SampledFrom(encNames).Draw(t, "enc"); e != "" && !apis[strings.ToLower(e)] { // comes first
			apis[strings.ToLower(e)] = true
			f.Name = e
			tag += ` enc:"` + e + rapid.SampledFrom([]string{"", ",omitempty"}).Draw(t, "enc opt") + `"`
		}
		if json != "" {
			tag += ` json:"` + json + rapid.SampledFrom([]string{"", ",omitempty"}).Draw(t, "opt") + `"`
		}
		f.Type = fieldType.Draw(t, "type")
		if f.Auth {
			f.Type = rapid.SampledFrom([]reflect.Type{tof[string](), tof[MyStr](), tof[int](), tof[*string](), tof[Inner](), tof[any](), tof[map[string]string](), tof[[]string](), tof[*Inner]()}).Draw(t, "auth type")
		}
		f.Index = len(fs)
		fs = append(fs, reflect.StructField{Name: name, Type: f.Type, Tag: reflect.StructTag(tag)})
		op.Fields = append(op.Fields, f)
	}
	op.Type = reflect.StructOf(append(fs, more...))
	return op
}

var encNames = []string{"", "", "", "", "", "", "e", "e_2", "E3"}

// Fill sets all fields (also unexported ones) of an operation.
func (o *Op) Fill(t *rapid.T, v reflect.Value, depth int) {
	for _, f := range o.Fields {
		if rapid.IntRange(0, 4).Draw(t, "zero") == 0 {
			continue
		}
		w := v.Field(f.Index)
		if f.Hidden {
			w = reflect.NewAt(f.Type, unsafe.Pointer(w.UnsafeAddr())).Elem()
		}
		w.Set(Value(t, f.Type, depth, false))
	}
}

func (o *Op) String() string {
	return strings.ReplaceAll(fmt.Sprint(o.Type), "struct { ", "op{")
}
