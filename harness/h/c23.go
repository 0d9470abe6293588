package h

import (
	"errors"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"

	"verif/harness/sym"
)

// stage is what an interceptor learns about the part of an operation.
type stage struct {
	resp bool
	in   string
}

// ifield is a field with the stages it is reflected at.
type ifield struct {
	name   string
	tag    string
	stages []stage
	resp   bool
	inner  string // property of a parameter encoded as JSON
}

// anyIField is a field of a structure for a method that allows a body, or not.
func anyIField(i int, resp, body, rich bool) ifield {
	id := string(rune('0' + i))
	f := ifield{name: sym.Str("name", 1, "a-z") + id, resp: resp}
	add := func(tag string, s ...string) {
		f.tag += tag + `:"` + f.name + `" `
		for _, in := range s {
			f.stages = append(f.stages, stage{resp, in})
		}
	}
	if resp {
		f.name = "q" + f.name
		k := 0
		if rich {
			k = sym.Choice("kind", 3)
		}
		switch k {
		case 0:
			add("json", "body")
			add("header", "header")
		case 1:
			f.tag = `json:"-" `
			add("header", "header")
		case 2:
			add("json", "body")
		}
		return f
	}
	one := func(k int) {
		switch k {
		case 0, 1, 2, 3:
			l := []string{"query", "header", "cookie", "path"}[k]
			add(l, l)
		case 4:
			if body {
				add("formData", "body")
			} else {
				add("formData")
			}
		case 5:
			if body {
				add("form", "query", "body")
			} else {
				add("form", "query")
			}
		case 6:
			if body {
				add("json", "body")
			} else {
				add("json")
			}
		}
	}
	kinds := 7
	if i == 0 && rich {
		kinds = 8
	}
	k := sym.Choice("kind", kinds)
	if k == 7 {
		one(sym.Choice("location", 4))
		f.inner = f.name + "j"
		if sym.Choice("collectionFormat", 2) == 1 {
			f.tag += `collectionFormat:"json" `
		}
		sym.Cover("JSON parameter")
		return f
	}
	one(k)
	if i == 0 && rich && sym.Choice("also", 2) == 1 {
		l := sym.Choice("kind", 7)
		sym.Assume(l < k && !(k == 5 && (l == 0 || l == 4))) // form stands for both
		one(l)
	}
	return f
}

func buildFields(fs []ifield) any {
	var sf []reflect.StructField
	for i, f := range fs {
		t := reflect.TypeOf("")
		if f.inner != "" {
			t = reflect.StructOf([]reflect.StructField{{Name: "J", Type: t, Tag: reflect.StructTag(`json:"` + f.inner + `"`)}})
		}
		sf = append(sf, reflect.StructField{Name: "F" + string(rune('0'+i)), Type: t, Tag: reflect.StructTag(f.tag)})
	}
	return reflect.New(reflect.StructOf(sf)).Interface()
}

// masksJSON drops stages of JSON fields that are not documented because of form fields.
func masksJSON(fs []ifield) {
	form := false
	for _, f := range fs {
		form = form || strings.Contains(f.tag, "form")
	}
	if !form {
		return
	}
	for i, f := range fs {
		if strings.Contains(f.tag, "form") {
			continue
		}
		var ss []stage
		for _, s := range f.stages {
			if s.in != "body" {
				ss = append(ss, s)
			}
		}
		fs[i].stages = ss
	}
}

// iop is an operation under reflection.
type iop struct {
	method, path string
	req, resp    []ifield
	in, out      any
}

func anyIOp(i int) iop {
	o := iop{method: []string{"post", "get"}[sym.Choice("method", 2)], path: "/p" + string(rune('0'+i))}
	n := 1
	if i == 0 {
		n += sym.Choice("fields", 2)
	}
	rich := n == 1 && i == 0 || sym.Tier() > 0
	for k := 0; k < n; k++ {
		o.req = append(o.req, anyIField(k, false, o.method == "post", rich))
	}
	masksJSON(o.req)
	for _, f := range o.req {
		if strings.Contains(f.tag, "path") {
			o.path += "/{" + f.name + "}"
		}
	}
	o.in = buildFields(o.req)
	o.resp = []ifield{anyIField(7, true, true, rich)}
	o.out = buildFields(o.resp)
	return o
}

// record checks and counts interceptions of properties.
type record struct {
	ops  []iop
	cur  int
	seen map[string]int
}

// told compares the deprecated context with the first units of the operation.
func told(oc openapi.OperationContext, dc openapi3.OperationContext) {
	if len(oc.Request()) > 0 {
		cu := oc.Request()[0]
		for _, m := range []struct {
			in  openapi.In
			got map[string]string
		}{{openapi.InQuery, dc.ReqQueryMapping}, {openapi.InPath, dc.ReqPathMapping}, {openapi.InHeader, dc.ReqHeaderMapping}, {openapi.InCookie, dc.ReqCookieMapping}, {openapi.InFormData, dc.ReqFormDataMapping}} {
			sym.Assert(sameStrings(m.got, cu.FieldMapping(m.in)), "deprecated context has the field mapping of the location")
		}
	}
	if len(oc.Response()) > 0 {
		cu := oc.Response()[0]
		sym.Assert(sameStrings(dc.RespHeaderMapping, cu.FieldMapping(openapi.InHeader)), "deprecated context has the header mapping")
		sym.Assert(dc.RespContentType == cu.ContentType && dc.HTTPStatus == cu.HTTPStatus, "deprecated context has media type and status")
	}
}

func sameStrings(a, b map[string]string) bool {
	ok := len(a) == len(b)
	for k, v := range a {
		w, has := b[k]
		ok = ok && has && v == w
	}
	return ok
}

func stageKey(op int, name string, s stage) string {
	k := string(rune('0'+op)) + name + "@" + s.in
	if s.resp {
		k += " resp"
	}
	return k
}

func (r *record) intercept(p jsonschema.InterceptPropParams, ver int) (stage, bool) {
	oc, ok := openapi.OperationCtx(p.Context)
	if !ok {
		return stage{}, false
	}
	o := r.ops[r.cur]
	sym.Assert(oc.Method() == o.method && oc.PathPattern() == o.path, "interceptor learns the operation that is reflected")
	s := stage{oc.IsProcessingResponse(), string(oc.ProcessingIn())}
	if ver == 3 {
		dc, ok := openapi3.OperationCtx(p.Context)
		sym.Assert(ok && dc.HTTPMethod == o.method && dc.ProcessingResponse == s.resp && dc.ProcessingIn == s.in, "deprecated context tells the same")
		sym.Assert(dc.Input == o.in && dc.Output == o.out, "deprecated context has the structures")
	}
	if len(p.Path) == 1 && p.Processed {
		fs := o.req
		if s.resp {
			fs = o.resp
		}
		declared := false
		for _, f := range fs {
			if f.name != p.Name && (f.inner == "" || f.inner != p.Name) {
				continue
			}
			for _, e := range f.stages {
				declared = declared || e == s
			}
		}
		sym.Assert(declared, "property is reflected at the stage told to the interceptor")
		r.seen[stageKey(r.cur, p.Name, s)]++
	}
	return s, true
}

func (r *record) complete(i int) {
	n := 0
	for _, f := range append(append([]ifield{}, r.ops[i].req...), r.ops[i].resp...) {
		for _, s := range f.stages {
			n++
			sym.Assert(r.seen[stageKey(i, f.name, s)] > 0, "interceptor sees every property at every stage")
			if f.inner != "" {
				sym.Assert(r.seen[stageKey(i, f.inner, s)] > 0, "interceptor sees properties of JSON parameters at the stage of the parameter")
			}
		}
	}
	if n > 2 {
		sym.Cover("many stages")
	}
}

func (o iop) add(d *doc) (openapi.OperationContext, error) {
	oc, err := d.refl().NewOperationContext(o.method, o.path)
	sym.Assert(err == nil, "new operation context")
	oc.AddReqStructure(o.in)
	oc.AddRespStructure(o.out)
	return oc, d.refl().AddOperation(oc)
}

// C23_Stages: interceptors of properties learn operation and stage.
func C23_Stages() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	r := &record{seen: map[string]int{}}
	js := d.refl().JSONSchemaReflector()
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		r.intercept(p, ver)
		return nil
	}))
	r.ops = append(r.ops, anyIOp(0))
	if len(r.ops[0].req) == 1 || sym.Tier() > 0 {
		r.ops = append(r.ops, anyIOp(1))
	}
	for i, o := range r.ops {
		r.cur = i
		oc, err := o.add(d)
		sym.Assert(err == nil, "operation is added")
		sym.Assert(oc.Method() == o.method, "context of the operation is kept")
		r.complete(i)
	}
}

// C23_Skip: a property skipped at one stage is documented at the others.
func C23_Skip() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	r := &record{seen: map[string]int{}, ops: []iop{anyIOp(0)}}
	o := r.ops[0]
	skip := []stage{{false, "query"}, {false, "header"}, {false, "cookie"}, {false, "path"}, {false, "body"}, {true, "body"}, {true, "header"}}[sym.Choice("skip", 7)]
	fail := sym.Choice("fail", 2) == 1
	js := d.refl().JSONSchemaReflector()
	errFail := errors.New("failed on purpose")
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		s, ok := r.intercept(p, ver)
		if ok && s == skip && (fail && p.Processed && len(p.Path) == 1 || !fail && !p.Processed && len(p.Path) == 2) {
			if fail {
				return errFail
			}
			for _, f := range append(append([]ifield{}, o.req...), o.resp...) {
				for _, e := range f.stages {
					if e == skip && f.resp == s.resp && strings.Contains(f.tag, `:"`+p.Name+`"`) {
						return jsonschema.ErrSkipProperty
					}
				}
			}
		}
		return nil
	}))
	hit := false
	for _, f := range append(append([]ifield{}, o.req...), o.resp...) {
		for _, e := range f.stages {
			hit = hit || e == skip
		}
	}
	sym.Assume(hit)
	_, err := o.add(d)
	if fail {
		sym.Assert(err != nil && strings.Contains(err.Error(), "failed on purpose"), "error of an interceptor is reported")
		sym.Assert(len(d.ops()) == 0, "operation is not stored if an interceptor fails")
		sym.Cover("failed")
		return
	}
	if skip.in == "path" {
		sym.Assert(err != nil && len(d.ops()) == 0, "skipped path parameter does not match the path")
		return
	}
	sym.Assert(err == nil, "operation is added")
	op, ok := d.get(o.method, o.path)
	sym.Assert(ok, "operation is found")
	params := map[string]bool{}
	for _, p := range pviews(op) {
		params[p.in+":"+p.name] = true
	}
	reqProps := map[string]bool{}
	bs, _ := d.bodies(op)
	for _, b := range bs {
		for k := range b.props {
			reqProps[k] = true
		}
	}
	respProps, headers := map[string]bool{}, map[string]bool{}
	rv := d.rviews(op)["200"]
	for _, b := range rv.content {
		for k := range b.props {
			respProps[k] = true
		}
	}
	for k := range rv.headers {
		headers[k] = true
	}
	for _, f := range append(append([]ifield{}, o.req...), o.resp...) {
		for _, s := range f.stages {
			there := false
			switch {
			case s.resp && s.in == "body":
				there = respProps[f.name]
			case s.resp:
				there = headers[f.name]
			case s.in == "body":
				there = reqProps[f.name]
			default:
				there = params[s.in+":"+f.name]
			}
			sym.Assert(there == (s != skip), "property is documented at all stages but the skipped one")
		}
	}
	sym.Cover("skipped")
}

// C23_Walk: interceptors learn the stage when schemas are walked.
func C23_Walk() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	r := &record{seen: map[string]int{}}
	o := anyIOp(0)
	o.path = "/"
	js := d.refl().JSONSchemaReflector()
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		if oc, ok := openapi.OperationCtx(p.Context); ok && len(p.Path) == 1 && p.Processed {
			s := stage{oc.IsProcessingResponse(), string(oc.ProcessingIn())}
			if !s.resp {
				sym.Assert(oc.Method() == o.method, "interceptor learns the method that is walked")
			}
			r.seen[stageKey(0, p.Name, s)]++
		}
		return nil
	}))
	r.ops = []iop{o}
	done := 0
	last := func(oc openapi.OperationContext) { done++ }
	cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error { return nil }
	sym.Assert(d.refl().WalkRequestJSONSchemas(o.method, openapi.ContentUnit{Structure: o.in}, cb, last) == nil, "request is walked")
	sym.Assert(d.refl().WalkResponseJSONSchemas(openapi.ContentUnit{Structure: o.out}, cb, last) == nil, "response is walked")
	sym.Assert(done == 2, "walks are completed")
	r.complete(0)
	keys := map[string]bool{}
	for _, f := range append(append([]ifield{}, o.req...), o.resp...) {
		for _, s := range f.stages {
			keys[stageKey(0, f.name, s)] = true
			if f.inner != "" {
				keys[stageKey(0, f.inner, s)] = true
			}
		}
	}
	sym.Assert(len(r.seen) == len(keys), "no property is seen at another stage")
}

type failReq struct {
	Q string `query:"q"`
	P string `path:"p"`
	C string `cookie:"c"`
	H string `header:"h"`
	B string `json:"b"`
}

type failForm struct {
	Q string `query:"q"`
	P string `path:"p"`
	C string `cookie:"c"`
	H string `header:"h"`
	B string `formData:"b"`
}

type failResp struct {
	B string `json:"rb"`
	H string `header:"rh"`
}

// C23_Fail: interceptors fail at any stages.
func C23_Fail() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	fails := map[string]bool{}
	for _, n := range []string{"q", "p", "c", "h", "b", "rb", "rh"} {
		if sym.Choice("fail", 2) == 1 {
			fails[n] = true
		}
	}
	early := sym.Choice("early", 2) == 1
	js := d.refl().JSONSchemaReflector()
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		if oc, ok := openapi.OperationCtx(p.Context); ok && (oc.Method() == "put" || oc.IsProcessingResponse()) && fails[p.Name] && p.Processed != early {
			return errors.New("failed at " + p.Name)
		}
		return nil
	}))
	walk := sym.Choice("walk", 2) == 1
	req := []any{failReq{}, failForm{}}[sym.Choice("form", 2)]
	var errs []error
	if walk {
		cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error { return nil }
		errs = append(errs, d.refl().WalkRequestJSONSchemas("put", openapi.ContentUnit{Structure: req}, cb, nil))
		err := d.refl().WalkResponseJSONSchemas(openapi.ContentUnit{Structure: failResp{}}, cb, nil)
		sym.Assert((err != nil) == (fails["rb"] || fails["rh"]), "walk of a response fails exactly if an interceptor does")
		sym.Assert(err == nil || strings.Contains(err.Error(), "failed at "), "error of an interceptor is told")
	} else {
		oc, err := d.refl().NewOperationContext("put", "/{p}")
		sym.Assert(err == nil, "new operation context")
		oc.AddReqStructure(req)
		oc.AddRespStructure(failResp{})
		errs = append(errs, d.refl().AddOperation(oc))
	}
	req1 := fails["q"] || fails["p"] || fails["c"] || fails["h"] || fails["b"]
	bad := req1 || !walk && (fails["rb"] || fails["rh"])
	err := errs[0]
	sym.Assert((err != nil) == bad, "operation fails exactly if an interceptor does")
	sym.Assert(err == nil || strings.Contains(err.Error(), "failed at "), "error of an interceptor is told")
	sym.Assert(walk || (len(d.ops()) == 0) == bad, "operation is not stored if an interceptor fails")
	sym.Cover("decided")
}

type toldReq struct {
	A string `query:"a"`
	B string `json:"b"`
	C string
	D string
}

type toldResp struct {
	H string `header:"h" json:"-"`
	B string `json:"rb"`
	E string
}

// C23_Told: contexts told to interceptors have mappings, statuses and media types of the units.
func C23_Told() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	o := iop{method: "post", path: "/p", in: new(toldReq), out: new(toldResp)}
	in := mapLocs[sym.Choice("location", len(mapLocs))]
	in2 := mapLocs[sym.Choice("location", len(mapLocs))]
	sym.Assume(in != in2)
	name := func() string { return "m" + sym.Str("name", 1, "a-z") }
	reqUnit := openapi.ContentUnit{Structure: o.in}
	reqUnit.SetFieldMapping(in, map[string]string{"C": name()})
	reqUnit.SetFieldMapping(in2, map[string]string{"D": name()})
	respUnit := openapi.ContentUnit{Structure: o.out, HTTPStatus: []int{0, 200, 404, 5}[sym.Choice("status", 4)]}
	respUnit.IsDefault = sym.Choice("default", 2) == 1
	if sym.Choice("content type", 2) == 1 {
		respUnit.ContentType = "text/" + name()
	}
	if sym.Choice("header mapping", 2) == 1 {
		respUnit.SetFieldMapping(openapi.InHeader, map[string]string{"E": name()})
	}
	if in == openapi.InPath {
		o.path += "/{" + reqUnit.FieldMapping(in)["C"] + "}"
	}
	if in2 == openapi.InPath {
		o.path += "/{" + reqUnit.FieldMapping(in2)["D"] + "}"
	}
	calls := 0
	js := d.refl().JSONSchemaReflector()
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		oc, ok := openapi.OperationCtx(p.Context)
		if !ok {
			return nil
		}
		calls++
		sym.Assert(oc.Method() == o.method && oc.PathPattern() == o.path, "interceptor learns the operation that is reflected")
		units(oc.Request(), []openapi.ContentUnit{reqUnit}, "told request")
		units(oc.Response(), []openapi.ContentUnit{respUnit}, "told response")
		dc, ok := openapi3.OperationCtx(p.Context)
		sym.Assert(ok && dc.Input == o.in && dc.Output == o.out && dc.HTTPMethod == o.method, "deprecated context has the structures")
		told(oc, dc)
		return nil
	}))
	oc, err := d.refl().NewOperationContext(o.method, o.path)
	sym.Assert(err == nil, "new operation context")
	oc.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = reqUnit })
	oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { *cu = respUnit })
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	sym.Assert(calls > 0, "interceptor is called")
	sym.Cover("told")
}

// C23_Outside: schemas that are not reflected for an operation have no operation context, before and after there were some.
func C23_Outside() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	js := d.refl().JSONSchemaReflector()
	outside, n := true, 0
	var seen []string
	js.DefaultOptions = append(js.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		oc, ok := openapi.OperationCtx(p.Context)
		dc, dok := openapi3.OperationCtx(p.Context)
		sym.Assert(ok == dok, "contexts of both kinds are there together")
		sym.Assert(!outside || (!ok && oc == nil && dc.Operation == nil && dc.HTTPMethod == "" && dc.Input == nil), "no operation context outside of operations")
		if !outside && ok { // Probing a response for JSON is outside.
			sym.Assert(oc.Method() == dc.HTTPMethod && oc.Method() == "post" && string(oc.ProcessingIn()) == dc.ProcessingIn && oc.IsProcessingResponse() == dc.ProcessingResponse, "operation context")
			seen = append(seen, dc.ProcessingIn)
		}
		n++
		return nil
	}))
	name := "n" + sym.Str("name", 1, "a-z")
	v := reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag([]string{"json", "query"}[sym.Choice("tag", 2)] + `:"` + name + `"`)},
		{Name: "B", Type: reflect.TypeOf(jsonTagged{}), Tag: `json:"b"`},
	})).Interface()
	reflectOutside := func() {
		outside, n = true, 0
		_, err := js.Reflect(v)
		sym.Assert(err == nil && n > 0, "structure is reflected")
		outside = false
	}
	reflectOutside()
	oc, err := d.refl().NewOperationContext("post", "/p")
	sym.Assert(err == nil, "new operation context")
	switch sym.Choice("use", 3) {
	case 0:
		oc.AddReqStructure(v)
	case 1:
		oc.AddRespStructure(v)
	case 2:
		oc.AddReqStructure(v)
		oc.AddRespStructure(v, openapi.WithHTTPStatus(404))
	}
	sym.Assert(d.refl().AddOperation(oc) == nil && len(seen) > 0, "operation is added")
	reflectOutside()
	sym.Cover("outside")
}
