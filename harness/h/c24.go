package h

import (
	"reflect"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"

	"verif/harness/sym"
)

// dpair is a document built with the operation context and one built with the deprecated methods.
type dpair struct{ a, b *openapi3.Reflector }

func newDpair() dpair { return dpair{openapi3.NewReflector(), openapi3.NewReflector()} }

func (p dpair) same(errA, errB error) {
	sym.Assert((errA == nil) == (errB == nil), "deprecated methods accept and reject alike")
	if errA != nil {
		sym.Assert(len(p.b.Spec.Paths.MapOfPathItemValues) == 0, "nothing is stored when rejected")
		sym.Cover("rejected")
		return
	}
	sym.Assert(snap(p.a.Spec) == snap(p.b.Spec), "deprecated methods give the same document")
	sym.Cover("accepted")
}

// dfield is a field that is tagged or mapped.
func dfield(i int, kinds int, m map[openapi.In]map[string]string) (reflect.StructField, string, bool) {
	id := string(rune('0' + i))
	f := reflect.StructField{Name: "F" + id, Type: reflect.TypeOf("")}
	k := sym.Choice("kind", kinds)
	name := sym.Str("name", 1, "a-c")
	in := []string{"query", "header", "cookie", "path", "formData", "json"}[k]
	if k < 5 && sym.Choice("mapped", 2) == 1 {
		if m[openapi.In(in)] == nil {
			m[openapi.In(in)] = map[string]string{}
		}
		m[openapi.In(in)][f.Name] = name
	} else {
		f.Tag = reflect.StructTag(in + `:"` + name + `"`)
	}
	if k == 4 && sym.Choice("file", 2) == 1 {
		f.Type = fileTypes[0]
	}
	return f, name, k == 3
}

func applyMapping(m map[openapi.In]map[string]string) openapi.ContentOption {
	return func(cu *openapi.ContentUnit) {
		for in, l := range m {
			cu.SetFieldMapping(in, l)
		}
	}
}

// C24_Request: SetRequest and SetupRequest do what an operation context does.
func C24_Request() {
	p := newDpair()
	m := map[openapi.In]map[string]string{}
	n := 1 + sym.Choice("fields", 2+sym.Tier())
	methods := []string{"post", "get", "HEAD", "Put", "delete", "patch", "options", "trace", "brew"}
	method := methods[sym.Choice("method", few(n, 9, 2))]
	path := "/p"
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		f, name, inPath := dfield(i, 6, m)
		if inPath && sym.Choice("placeholder", 2) == 1 {
			path += "/{" + name + "}"
		}
		sf = append(sf, f)
	}
	v := reflect.New(reflect.StructOf(sf)).Interface()
	s := sym.Str("summary", 1, "a-z")
	oc, errA := p.a.NewOperationContext(method, path)
	if errA == nil {
		oc.SetSummary(s)
		oc.AddReqStructure(v, applyMapping(m))
		errA = p.a.AddOperation(oc)
	}
	op := openapi3.Operation{}
	op.WithSummary(s)
	var errB error
	if len(m) == 0 && sym.Choice("short", 2) == 1 {
		errB = p.b.SetRequest(&op, v, method)
		sym.Cover("SetRequest")
	} else {
		errB = p.b.SetupRequest(openapi3.OperationContext{
			Operation: &op, Input: v, HTTPMethod: method,
			ReqQueryMapping: m[openapi.InQuery], ReqHeaderMapping: m[openapi.InHeader], ReqCookieMapping: m[openapi.InCookie],
			ReqPathMapping: m[openapi.InPath], ReqFormDataMapping: m[openapi.InFormData],
		})
		sym.Cover("SetupRequest")
	}
	if errB == nil {
		errB = p.b.Spec.AddOperation(method, path, op)
	}
	p.same(errA, errB)
}

// C24_Response: SetJSONResponse, SetStringResponse and SetupResponse do what an operation context does.
func C24_Response() {
	p := newDpair()
	statuses := []int{0, 200, 404, 5, 204, 599, 1000}
	n := 1 + sym.Choice("responses", 2)
	method := []string{"get", "HEAD", "post"}[sym.Choice("method", few(n, 3, 1))]
	op := openapi3.Operation{}
	oc, err := p.a.NewOperationContext(method, "/p")
	sym.Assert(err == nil, "new operation context")
	for i := 0; i < n; i++ {
		status := statuses[sym.Choice("status", few(n, 7, 3))]
		m := map[openapi.In]map[string]string{}
		var v any
		ct := ""
		switch sym.Choice("structure", 3) {
		case 1:
			var sf []reflect.StructField
			for k := 0; k < 1+sym.Choice("fields", few(n, 2, 1)); k++ {
				f := reflect.StructField{Name: "F" + string(rune('0'+k)), Type: reflect.TypeOf("")}
				name := sym.Str("name", 1, "a-z")
				switch sym.Choice("field", 4) {
				case 0:
					f.Tag = reflect.StructTag(`json:"` + name + `"`)
				case 1:
					f.Tag = reflect.StructTag(`header:"` + name + `" json:"-"`)
				case 2:
					m[openapi.InHeader] = map[string]string{f.Name: name}
				case 3:
					f.Tag = reflect.StructTag(`contentType:"text/` + name + `"`)
				}
				sf = append(sf, f)
			}
			v = reflect.New(reflect.StructOf(sf)).Interface()
		case 2:
			v = []any{new(jsonBoth), []plainJSON{}, map[string]int{}, 1, describedJSON{}}[sym.Choice("type", few(n, 5, 1))]
		}
		if sym.Choice("contentType", 2) == 1 {
			ct = "text/" + sym.Str("type", 1, "a-z")
		}
		oc.AddRespStructure(v, openapi.WithHTTPStatus(status), openapi.WithContentType(ct), applyMapping(m))
		way := 0
		if len(m) == 0 && method != "HEAD" {
			way = sym.Choice("way", 2)
		}
		switch {
		case way == 1 && ct == "":
			err = p.b.SetJSONResponse(&op, v, status)
			sym.Cover("SetJSONResponse")
		case way == 1 && v == nil:
			err = p.b.SetStringResponse(&op, status, ct)
			sym.Cover("SetStringResponse")
		default:
			err = p.b.SetupResponse(openapi3.OperationContext{
				Operation: &op, Output: v, HTTPStatus: status, RespContentType: ct, RespHeaderMapping: m[openapi.InHeader], HTTPMethod: method,
			})
			sym.Cover("SetupResponse")
		}
		sym.Assert(err == nil, "response is set up")
	}
	errA := p.a.AddOperation(oc)
	errB := p.b.Spec.AddOperation(method, "/p", op)
	p.same(errA, errB)
}

// C24_Both: request and response of one operation, structures of any kind.
func C24_Both() {
	p := newDpair()
	vs := []any{nil, forcedJSON{}, &forcedForm{}, forcedBoth{}, jsonBoth{}, jsonFile{}, allBoth{}, &ptrForced{}, rawFields{}, []plainJSON{}, map[string]plainJSON{}, describedJSON{}, "", 1, new(shadowParams), jsonURL{}, new(jsonOne)}
	method := httpMethods[sym.Choice("method", 8)]
	in := vs[sym.Choice("input", len(vs))]
	out := vs[sym.Choice("output", 5+sym.Tier()*(len(vs)-5))]
	oc, err := p.a.NewOperationContext(method, "/p")
	sym.Assert(err == nil, "new operation context")
	oc.AddReqStructure(in)
	oc.AddRespStructure(out)
	errA := p.a.AddOperation(oc)
	op := openapi3.Operation{}
	dc := openapi3.OperationContext{Operation: &op, Input: in, Output: out, HTTPMethod: method}
	errB := p.b.SetupRequest(dc)
	if errB == nil {
		errB = p.b.SetupResponse(dc)
	}
	if errB == nil {
		errB = p.b.Spec.AddOperation(method, "/p", op)
	}
	p.same(errA, errB)
}
