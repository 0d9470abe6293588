package h

import (
	"net/http"
	"reflect"
	"strconv"
	"strings"

	jsonschema "github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// rview is a version independent view of a documented response.
type rview struct {
	desc    string
	content []bview
	headers map[string]string // name to type
	ref     string
	inline  bool
}

func (d *doc) rviews(op any) map[string]rview {
	out := map[string]rview{}
	switch o := op.(type) {
	case openapi3.Operation:
		add := func(k string, r openapi3.ResponseOrRef) {
			v := rview{headers: map[string]string{}}
			if r.ResponseReference != nil {
				v.ref = r.ResponseReference.Ref
			}
			if r.Response != nil {
				v.inline = true
				v.desc = r.Response.Description
				for ct, mt := range r.Response.Content {
					b := d.schema3(mt.Schema, 0)
					b.ct = ct
					v.content = append(v.content, b)
				}
				for n, h := range r.Response.Headers {
					v.headers[n] = d.schema3(h.Header.Schema, 0).typ
				}
			}
			out[k] = v
		}
		for k, r := range o.Responses.MapOfResponseOrRefValues {
			add(k, r)
		}
		if o.Responses.Default != nil {
			add("default", *o.Responses.Default)
		}
	case openapi31.Operation:
		add := func(k string, r openapi31.ResponseOrReference) {
			v := rview{headers: map[string]string{}}
			if r.Reference != nil {
				v.ref = r.Reference.Ref
			}
			if r.Response != nil {
				v.inline = true
				v.desc = r.Response.Description
				for ct, mt := range r.Response.Content {
					b := d.schema31(mt.Schema, 0)
					b.ct = ct
					v.content = append(v.content, b)
				}
				for n, h := range r.Response.Headers {
					v.headers[n] = d.schema31(h.Header.Schema, 0).typ
				}
			}
			out[k] = v
		}
		if o.Responses == nil {
			return out
		}
		for k, r := range o.Responses.MapOfResponseOrReferenceValues {
			add(k, r)
		}
		if o.Responses.Default != nil {
			add("default", *o.Responses.Default)
		}
	}
	return out
}

// runit is a declared response structure.
type runit struct {
	v         any
	json, hdr string // documented names, if any
	raw       string // contentType tag
	ct        string
	format    string
	status    int
	isDefault bool
	desc      string
}

func (u runit) key() string {
	switch {
	case u.isDefault:
		return "default"
	case u.status == 0:
		return "200"
	case u.status >= 1 && u.status <= 5:
		return strconv.Itoa(u.status) + "XX"
	}
	return strconv.Itoa(u.status)
}

func (u runit) text() string {
	if u.desc != "" {
		return u.desc
	}
	if u.status == 0 && !u.isDefault {
		return http.StatusText(200)
	}
	return http.StatusText(u.status)
}

// mime is the media type of the unit without parameters.
func (u runit) mime() string {
	if i := strings.IndexByte(u.ct, ';'); i >= 0 {
		return strings.TrimRight(u.ct[:i], " ")
	}
	return u.ct
}

// media lists documented media types: type name or "string" for plain content.
func (u runit) media(head bool) map[string]string {
	m := map[string]string{}
	if head {
		return m
	}
	if u.raw != "" {
		m[u.raw] = "string"
	}
	if u.ct != "" {
		m[u.mime()] = "string"
	}
	if u.json != "" {
		ct := u.mime()
		if ct == "" {
			ct = ctJSON
		}
		m[ct] = "object"
	}
	return m
}

func (u *runit) build(i int) {
	id := string(rune('0' + i))
	var sf []reflect.StructField
	str := reflect.TypeOf("")
	if u.json != "" {
		sf = append(sf, reflect.StructField{Name: "J" + id, Type: str, Tag: reflect.StructTag(`json:"` + u.json + `"`)})
	}
	if u.hdr != "" {
		sf = append(sf, reflect.StructField{Name: "H" + id, Type: str, Tag: reflect.StructTag(`json:"-" header:"` + u.hdr + `"`)})
	}
	if u.raw != "" {
		sf = append(sf, reflect.StructField{Name: "R" + id, Type: str, Tag: reflect.StructTag(`contentType:"` + u.raw + `"`)})
	}
	if len(sf) > 0 {
		u.v = reflect.New(reflect.StructOf(sf)).Interface()
	}
}

func anyRespUnit(i int) runit {
	u := runit{}
	id := string(rune('0' + i))
	switch sym.Choice("structure", 6) {
	case 0: // nil
	case 1:
		u.json = "j" + sym.Str("name", 1, "a-z") + id
	case 2:
		u.hdr = "X-" + sym.Str("name", 1, "a-z") + id
	case 3:
		u.json, u.hdr = "j"+sym.Str("name", 1, "a-z")+id, "X-"+sym.Str("name", 1, "a-z")+id
	case 4:
		u.raw = "image/" + sym.Str("type", 1, "a-zA-Z") + id
	case 5:
		u.json, u.raw = "j"+sym.Str("name", 1, "a-z")+id, "image/"+sym.Str("type", 1, "a-z")+id
	}
	u.build(i)
	return u
}

func addResponses(ver int, method string, us []runit) (*doc, any) {
	return addBodies(ver, method, func(oc openapi.OperationContext) {
		for _, u := range us {
			u := u
			oc.AddRespStructure(u.v, func(cu *openapi.ContentUnit) {
				cu.HTTPStatus, cu.IsDefault, cu.ContentType, cu.Format, cu.Description = u.status, u.isDefault, u.ct, u.format, u.desc
			})
		}
	})
}

func checkRespUnits(d *doc, op any, us []runit, head bool) {
	got := d.rviews(op)
	type want struct {
		key, desc string
		media     map[string]string
		format    map[string]string
		headers   []string
		json      map[string]string
	}
	var ws []*want
	for _, u := range us {
		var w *want
		for _, x := range ws {
			if x.key == u.key() {
				w = x
			}
		}
		if w == nil {
			w = &want{key: u.key(), media: map[string]string{}, json: map[string]string{}, format: map[string]string{}}
			ws = append(ws, w)
		} else {
			sym.Cover("merged")
		}
		for ct, t := range u.media(head) {
			_, exists := w.media[ct]
			if t == "object" {
				w.media[ct] = t
				w.json[ct] = u.json
			} else if !exists {
				w.media[ct] = t
				if ct != u.raw {
					w.format[ct] = u.format
				}
			} else {
				sym.Cover("collision")
			}
		}
		if u.hdr != "" {
			w.headers = append(w.headers, u.hdr)
		}
		if u.desc != "" || w.desc == "" {
			w.desc = u.text()
		}
	}
	sym.Assert(len(got) == len(ws), "number of documented responses")
	for _, w := range ws {
		g, ok := got[w.key]
		sym.Assert(ok && g.inline, "response is documented under its status")
		sym.Assert(g.desc == w.desc, "description of response")
		sym.Assert(len(g.content) == len(w.media), "number of documented media types")
		for ct, t := range w.media {
			n := 0
			for _, b := range g.content {
				if b.ct == ct {
					n++
					sym.Assert(b.ok && (b.ref == "" || b.found), "media type has a schema")
					sym.Assert(b.typ == t, "schema of media type")
					if t == "object" {
						_, ok := b.props[w.json[ct]]
						sym.Assert(ok && len(b.props) == 1, "JSON fields of response")
						sym.Cover("json")
					} else {
						sym.Assert(b.format == w.format[ct], "format of plain content")
						sym.Cover("plain")
					}
				}
			}
			sym.Assert(n == 1, "media type of response is documented")
		}
		sym.Assert(len(g.headers) == len(w.headers), "number of documented headers")
		for _, h := range w.headers {
			t, ok := g.headers[h]
			sym.Assert(ok && t == "string", "header of response is documented")
			sym.Cover("header")
		}
	}
}

// C15_Status files one response of every status, flag, method and content.
func C15_Status() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := httpMethods[sym.Choice("method", 8)]
	u := anyRespUnit(0)
	u.status = []int{0, 1, 2, 3, 4, 5, 100, 200, 201, 204, 302, 404, 418, 500, 599}[sym.Choice("status", 15)]
	u.isDefault = sym.Choice("default", 2) == 1
	switch sym.Choice("contentType", 3) {
	case 1:
		u.ct = "text/" + sym.Str("type", 1, "a-zA-Z")
		u.format = sym.Str("format", 1, "a-z")
	case 2:
		u.ct = "application/" + sym.Str("type", 1, "a-zA-Z") + []string{";charset=utf-8", "; charset=utf-8", " ; a=b; c=d"}[sym.Choice("parameter", 3)]
	}
	if sym.Tier() == 0 {
		sym.Assume(method == "get" || method == "head" || u.status == 0)
	}
	if sym.Choice("described", 2) == 1 {
		u.desc = sym.Str("description", 1, "a-z")
	}
	us := []runit{u}
	d, op := addResponses(ver, method, us)
	checkRespUnits(d, op, us, method == "head")
}

// C15_Merge files several responses with equal and different statuses.
func C15_Merge() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	method := []string{"get", "head"}[sym.Choice("method", 2)]
	n := 2
	if sym.Tier() > 0 {
		n += sym.Choice("more", 2)
	}
	first := sym.Choice("status", 4)
	var us []runit
	for i := 0; i < n; i++ {
		u := anyRespUnit(i)
		s := first
		if i > 0 && sym.Choice("same", 2) == 0 {
			s = first + 1
		}
		switch s % 4 {
		case 0:
			u.status = []int{200, 0}[sym.Choice("implicit", 2)]
		case 1:
			u.status = 4
		case 2:
			u.isDefault = true
		case 3:
			u.status = 404
		}
		switch sym.Choice("contentType", 2) {
		case 1:
			u.ct = "text/" + sym.Str("type", 1, "a-zA-Z")
		}
		if i == 0 && sym.Choice("described", 2) == 1 {
			u.desc = sym.Str("description", 1, "a-z")
		}
		for _, q := range us {
			if q.key() != u.key() {
				continue
			}
			for ct := range q.media(false) {
				_, dup := u.media(false)[ct]
				sym.Assume(!dup)
			}
		}
		us = append(us, u)
	}
	d, op := addResponses(ver, method, us)
	checkRespUnits(d, op, us, method == "head")
}

// C15_Collision files plain content under a media type that is documented already.
func C15_Collision() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	var us []runit
	cts := []string{ctJSON, "text/" + sym.Str("type", 1, "a-z")}
	for i, n := 0, 1+sym.Choice("units", 2); i < n; i++ {
		u := runit{status: []int{200, 5}[sym.Choice("status", 2)]}
		if sym.Choice("json", 2) == 1 {
			u.json = "j" + string(rune('0'+i))
		}
		switch sym.Choice("raw", 3) {
		case 1:
			u.raw = cts[0]
		case 2:
			u.raw = cts[1]
		}
		if i > 0 {
			for _, q := range us {
				sym.Assume(u.json == "" || q.json == "" || q.key() != u.key())
			}
		}
		switch sym.Choice("contentType", 3) {
		case 1:
			u.ct, u.format = cts[0]+";a=b", "f"+string(rune('0'+i))
		case 2:
			u.ct, u.format = cts[1], "f"+string(rune('0'+i))
		}
		u.build(i)
		sym.Assume(u.raw == "" || u.raw != u.mime())
		us = append(us, u)
	}
	d, op := addResponses(ver, "get", us)
	checkRespUnits(d, op, us, false)
}

type describedJSON struct {
	A string `json:"a"`
	H string `json:"-" header:"X-H"`
}

func (describedJSON) Description() string { return "own" }

// C15_Customize describes, references and customizes responses.
func C15_Customize() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	u := runit{v: describedJSON{}, json: "a", hdr: "X-H"}
	u.status = []int{0, 2, 404}[sym.Choice("status", 3)]
	u.isDefault = sym.Choice("default", 2) == 1
	u.desc = sym.Str("description", sym.Choice("described", 2), "a-z")
	ref := "#/components/responses/" + sym.Str("ref", 2, "a-z")
	action := sym.Choice("customize", 3)
	called := 0
	d, op := addBodies(ver, "get", func(oc openapi.OperationContext) {
		oc.AddRespStructure(runit{}.v, openapi.WithHTTPStatus(501))
		oc.AddRespStructure(u.v, func(cu *openapi.ContentUnit) {
			cu.HTTPStatus, cu.IsDefault, cu.Description = u.status, u.isDefault, u.desc
			switch action {
			case 1:
				openapi.WithReference(ref)(cu)
			case 2:
				cu.Customize = func(cor openapi.ContentOrReference) {
					called++
					switch r := cor.(type) {
					case *openapi3.ResponseOrRef:
						r.Response.Description += "+" + ref
					case *openapi31.ResponseOrReference:
						r.Response.Description += "+" + ref
					}
				}
			}
		})
	})
	got := d.rviews(op)
	sym.Assert(len(got) == 2, "number of documented responses")
	g := got[u.key()]
	if action == 1 {
		sym.Assert(g.ref == ref && !g.inline, "response is documented as the reference")
		sym.Cover("reference")
		return
	}
	want := u.desc
	if want == "" {
		want = "own"
	}
	if action == 2 {
		sym.Assert(called == 1, "customized once")
		want += "+" + ref
	}
	sym.Assert(g.inline && g.desc == want, "description of response")
	sym.Assert(len(g.content) == 1 && len(g.headers) == 1, "content and headers of response")
	sym.Cover("inline")
}

// C15_Again uses one structure with different units.
func C15_Again() { again([]string{"responses"}, 3) }

// bareSays tells which texts bare structures have.
var bareSays int

func bareTexts(s *jsonschema.Schema) error {
	s.Title, s.Description = nil, nil
	for i, f := range []func(){
		func() { s.WithTitle("title") },
		func() { s.WithDescription("own") },
		func() { s.WithComment("comment") },
		func() { s.WithID("http://id") },
		func() { s.WithExamples(map[string]interface{}{}, 1) },
		func() { s.WithExtraPropertiesItem("x-ext", []int{1}) },
	} {
		if bareSays == i || bareSays == 6 {
			f()
		}
	}
	return nil
}

type bareStruct struct{}

func (bareStruct) PrepareJSONSchema(s *jsonschema.Schema) error { return bareTexts(s) }

type bareHeader struct {
	H string `header:"X-H" json:"-"`
}

func (bareHeader) PrepareJSONSchema(s *jsonschema.Schema) error { return bareTexts(s) }

type bareAny struct{ H string }

func (bareAny) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	err := bareTexts(&s)
	return s, err
}

// C15_Bare has responses without JSON whose types only have texts.
func C15_Bare() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	bareSays = sym.Choice("says", 8)
	which := sym.Choice("struct", 3)
	v := []any{bareStruct{}, bareHeader{}, bareAny{}}[which]
	if sym.Choice("pointer", 2) == 1 {
		v = []any{&bareStruct{}, &bareHeader{}, &bareAny{}}[which]
	}
	status := sym.Choice("status", 2) * 204
	d, op := addBodies(ver, "post", func(oc openapi.OperationContext) {
		oc.AddRespStructure(v, openapi.WithHTTPStatus(status))
	})
	got := d.rviews(op)
	sym.Assert(len(got) == 1, "number of documented responses")
	for _, g := range got {
		sym.Assert(g.inline && len(g.content) == 0, "texts of a structure are no content")
		sym.Assert(len(g.headers) == which%2, "headers of response")
		if bareSays == 1 || bareSays == 6 {
			sym.Assert(g.desc == "own", "response is described by its structure")
		} else {
			sym.Assert(g.desc == []string{"OK", "No Content"}[status/204], "response is described by its status")
		}
	}
	sym.Cover("bare")
}
