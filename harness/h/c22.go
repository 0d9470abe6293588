package h

import (
	"encoding/json"

	jsonschema "github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	m1 "verif/harness/h/p1/model"
	m2 "verif/harness/h/p2/model"

	"verif/harness/sym"
)

type (
	ordParams struct {
		A string `query:"a" header:"a" cookie:"a" json:"a"`
		B int    `query:"b" header:"b" cookie:"b" json:"b"`
		C bool   `query:"c" header:"c" cookie:"c" json:"c"`
	}
	ordBody struct {
		A refB     `json:"a"`
		R refRec   `json:"r"`
		I m1.Item  `json:"i"`
		J *m2.Item `json:"j"`
		G m1.Sub   `json:"g"`
	}
	ordSmall struct {
		J *m2.Item `json:"j"`
		G m1.Sub   `json:"g"`
		X string   `json:"x"`
	}
	ordForm struct {
		F refFormN `formData:"f"`
		A m1.Item  `formData:"a"`
		B refJ     `formData:"b"`
		U string   `formData:"u" required:"true"`
	}
	ordFormSmall struct {
		A m1.Item `formData:"a"`
		U string  `formData:"u" required:"true"`
	}
	ordRespSmall struct {
		X string   `header:"x-a" json:"-"`
		B m1.Sub   `json:"b"`
		L *m1.Item `json:"l"`
	}
	ordResp struct {
		X string   `header:"x-a" json:"-"`
		Y int      `header:"x-b" json:"-"`
		Z string   `header:"X-C" json:"-"`
		B refMut1  `json:"b"`
		L []refJ   `json:"l"`
		M refMap   `json:"m"`
		I m2.Item  `json:"i"`
		K *m1.Item `json:"k"`
	}
	ordDesc struct {
		X string `header:"x-a" json:"-" description:"x"`
		Y string `header:"x-b" json:"-" description:"y"`
	}
	ordPath struct {
		A string `path:"a"`
		B string `path:"b"`
		C string `path:"c"`
	}
)

// ordOp declares one operation of a scenario.
type ordOp struct {
	method, path string
	f            func(oc openapi.OperationContext)
}

func mapping(in openapi.In, m map[string]string) openapi.ContentOption {
	return func(cu *openapi.ContentUnit) { cu.SetFieldMapping(in, m) }
}

// ordScenarios are operations whose reflection iterates over maps.
func ordScenarios(name string) [][]ordOp {
	req := func(v any, opts ...openapi.ContentOption) func(oc openapi.OperationContext) {
		return func(oc openapi.OperationContext) { oc.AddReqStructure(v, opts...) }
	}
	resp := func(v any, opts ...openapi.ContentOption) func(oc openapi.OperationContext) {
		return func(oc openapi.OperationContext) { oc.AddRespStructure(v, opts...) }
	}
	if sym.Tier() == 0 {
		return [][]ordOp{
			{{"get", "/a", req(ordParams{}, mapping(openapi.InQuery, map[string]string{"A": name, "B": name + "b", "C": name + "c"}))}},
			{{"get", "/a", req(ordParams{}, mapping(openapi.InQuery, map[string]string{"A": name, "B": name}))}},
			{{"put", "/b", req(ordSmall{})}, {"put", "/a", req(ordFormSmall{}, mapping(openapi.InFormData, map[string]string{"A": name, "U": name + "u"}))}},
			{{"get", "/a", resp(ordRespSmall{}, mapping(openapi.InHeader, map[string]string{"B": "x-" + name, "L": "x-l"}))}},
			{{"get", "/a", func(oc openapi.OperationContext) {
				oc.AddRespStructure(ordRespSmall{}, openapi.WithContentType("text/a"))
				oc.AddRespStructure(ordRespSmall{}, openapi.WithContentType("text/b"))
				oc.AddRespStructure(m1.Sub{}, openapi.WithHTTPStatus(5))
			}}},
			{{"get", "/a", func(oc openapi.OperationContext) {
				oc.AddRespStructure(ordDesc{}, openapi.WithHTTPStatus(499))
				oc.AddReqStructure(ordDesc{})
			}}},
			{{"get", "/{a}/{b}/{c}", req(ordPath{})}, {"post", "/{a}/{b}/{d}", req(ordPath{})}},
		}
	}
	return [][]ordOp{
		{{"get", "/a", req(ordParams{}, mapping(openapi.InQuery, map[string]string{"A": name, "B": name + "b", "C": name + "c"}))}},
		{{"post", "/a", req(ordParams{}, mapping(openapi.InFormData, map[string]string{"A": name, "B": name + "b", "C": name + "c"}))}},
		{{"get", "/a", req(ordParams{}, mapping(openapi.InQuery, map[string]string{"A": name, "B": name}))}},
		{{"post", "/a", req(ordBody{})}},
		{{"put", "/a", req(ordForm{})}, {"put", "/b", req(ordBody{})}},
		{{"put", "/b", req(ordBody{})}, {"put", "/a", req(ordForm{})}},
		{{"get", "/a", resp(ordResp{}, mapping(openapi.InHeader, map[string]string{"B": "x-" + name, "L": "x-l"}))}},
		{{"get", "/a", func(oc openapi.OperationContext) {
			oc.AddRespStructure(ordResp{}, openapi.WithContentType("text/a"))
			oc.AddRespStructure(ordResp{}, openapi.WithContentType("text/b"))
			oc.AddRespStructure(m2.Item{}, openapi.WithHTTPStatus(404))
			oc.AddRespStructure(m1.Item{}, openapi.WithHTTPStatus(5))
		}}},
		{{"get", "/{a}/{b}/{c}", req(ordPath{})}, {"get", "/{a}/{b}", req(ordPath{})}, {"post", "/{a}/{b}/{d}", req(ordPath{})}},
		{{"get", "/a", req(ordParams{})}, {"post", "/a", req(ordParams{})}, {"put", "/a", resp(ordResp{})}, {"put", "/a", resp(ordBody{})}},
	}
}

// build runs a scenario.
func build(ver int, ops []ordOp) (d *doc, decisions string) {
	d = newDoc(ver)
	for _, o := range ops {
		oc, err := d.refl().NewOperationContext(o.method, o.path)
		if err == nil {
			o.f(oc)
			err = d.refl().AddOperation(oc)
		}
		if err != nil {
			decisions += "r"
		} else {
			decisions += "a"
		}
	}
	return d, decisions
}

func (d *doc) text() string {
	if d.ver == 3 {
		return snap(d.r3.Spec)
	}
	return snap(d.r31.Spec)
}

// C22_Reflect adds the same operations under different iteration orders.
func C22_Reflect() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	ss := ordScenarios(sym.Str("name", 1, "a-z"))
	ops := ss[sym.Choice("scenario", len(ss))]
	d, dec := build(ver, ops)
	want := d.text()
	sym.MapOrder(1 + sym.Tier())
	d, got := build(ver, ops)
	sym.MapOrder(0)
	sym.Assert(got == dec, "operations are accepted alike in every iteration order")
	sym.Assert(d.text() == want, "the document is the same in every iteration order")
	sym.Observe("document", want)
}

const ordDoc3 = `{"openapi":"3.0.3","info":{"title":"t","version":"v","x-b":1,"x-a":{"x":1,"y":[2]}},"tags":[{"name":"t"}],
"paths":{"/a":{"summary":"s","get":{"parameters":[{"name":"q","in":"query","schema":{"type":"string","x-c":3},"examples":{"e":{"value":1},"f":{"value":2}}}],"responses":{"200":{"description":"d","headers":{"X-A":{"schema":{"type":"string"}},"X-B":{"$ref":"#/h"}},"content":{"text/a":{"schema":{"properties":{"a":{"type":"integer"},"b":{"$ref":"#/components/schemas/B"}}}},"text/b":{}},"links":{"l":{"operationId":"o"},"m":{"$ref":"#/l"}}},"4XX":{"$ref":"#/r"},"default":{"description":"e"}},"callbacks":{"c":{"u":{"get":{"responses":{"204":{"description":"n"}}}}}},"x-op":true},"put":{"responses":{"201":{"description":"c"}}},"x-path":null},"/b":{},"x-paths":1},
"components":{"schemas":{"A":{"type":"object","additionalProperties":false,"required":["b","a"]},"B":{"allOf":[{"$ref":"#/components/schemas/A"},{"type":"object"}]}},"securitySchemes":{"s":{"type":"http","scheme":"bearer"},"k":{"type":"apiKey","name":"n","in":"header"},"o":{"type":"oauth2","flows":{"implicit":{"authorizationUrl":"u","scopes":{"a":"b","c":"d"}},"password":{"tokenUrl":"t","scopes":{}}}}},"responses":{"R":{"description":"r"}}},"x-root":[1],"x-other":"o"}`

const ordDoc31 = `{"openapi":"3.1.0","info":{"title":"t","version":"v","summary":"s","license":{"name":"l","identifier":"i"},"x-b":1,"x-a":{"x":1,"y":[2]}},"tags":[{"name":"t"}],"webhooks":{"w":{"post":{"responses":{"200":{"description":"d"}}}},"v":{"$ref":"#/w"}},
"paths":{"/a":{"summary":"s","get":{"parameters":[{"name":"q","in":"query","schema":{"type":"string","x-c":3},"examples":{"e":{"value":1},"f":{"value":2}}}],"responses":{"200":{"description":"d","headers":{"X-A":{"schema":{"type":"string"}},"X-B":{"$ref":"#/h"}},"content":{"text/a":{"schema":{"properties":{"a":{"type":"integer"},"b":{"$ref":"#/components/schemas/B"}}}},"text/b":{}},"links":{"l":{"operationId":"o"},"m":{"$ref":"#/l"}}},"4XX":{"$ref":"#/r"},"default":{"description":"e"}},"callbacks":{"c":{"u":{"get":{"responses":{"204":{"description":"n"}}}}}},"x-op":true},"put":{"responses":{"201":{"description":"c"}}},"x-path":null},"/b":{},"x-paths":1},
"components":{"schemas":{"A":{"type":"object","additionalProperties":false,"required":["b","a"]},"B":{"allOf":[{"$ref":"#/components/schemas/A"},{"type":"object"}]}},"securitySchemes":{"s":{"type":"http","scheme":"bearer"},"k":{"type":"apiKey","name":"n","in":"header"},"o":{"type":"oauth2","flows":{"implicit":{"authorizationUrl":"u","scopes":{"a":"b","c":"d"}},"password":{"tokenUrl":"t","scopes":{}}}}},"responses":{"R":{"description":"r"}}},"x-root":[1],"x-other":"o"}`

// C22_Codec decodes and encodes a document under different iteration orders.
func C22_Codec() {
	way := sym.Choice("way", 3)
	if sym.Choice("version", 2) == 0 {
		run := func() (string, *openapi3.Spec, error) {
			var s openapi3.Spec
			if err := s.UnmarshalJSON([]byte(ordDoc3)); err != nil {
				return "", nil, err
			}
			return codec(way, s.MarshalJSON, s.MarshalYAML), &s, nil
		}
		want, ws, err := run()
		sym.Assert(err == nil, "document is decoded")
		sym.MapOrder(1)
		got, gs, err := run()
		sym.MapOrder(0)
		sym.Assert(err == nil, "document is decoded in every iteration order")
		sym.Assert(got == want, "document is encoded the same in every iteration order")
		sym.Assert(snap(gs) == snap(ws), "decoded document is the same in every iteration order")
		return
	}
	run := func() (string, *openapi31.Spec, error) {
		var s openapi31.Spec
		if err := s.UnmarshalJSON([]byte(ordDoc31)); err != nil {
			return "", nil, err
		}
		return codec(way, s.MarshalJSON, s.MarshalYAML), &s, nil
	}
	want, ws, err := run()
	sym.Assert(err == nil, "document is decoded")
	sym.MapOrder(1)
	got, gs, err := run()
	sym.MapOrder(0)
	sym.Assert(err == nil, "document is decoded in every iteration order")
	sym.Assert(got == want, "document is encoded the same in every iteration order")
	sym.Assert(snap(gs) == snap(ws), "decoded document is the same in every iteration order")
}

func codec(way int, toJSON, toYAML func() ([]byte, error)) string {
	var b []byte
	var err error
	switch way {
	case 0:
		return ""
	case 1:
		b, err = toJSON()
	case 2:
		b, err = toYAML()
	}
	if err != nil {
		return "error"
	}
	return string(b)
}

// C22_Schemas converts schemas under different iteration orders.
func C22_Schemas() {
	const comps = `{"schemas":{"A":{"type":"object","properties":{"b":{"$ref":"#/components/schemas/B"},"c":{"$ref":"#/components/schemas/C"},"d":{"type":"string","x-z":1,"x-y":2}},"required":["c","b"]},"B":{"allOf":[{"$ref":"#/components/schemas/A"},{"type":"object","properties":{"x":{"type":"string"},"y":{"type":"integer"},"z":{"$ref":"#/components/schemas/C"}}}]},"C":{"additionalProperties":{"$ref":"#/components/schemas/D"}},"D":{"type":"string","x-p":1,"x-q":2},"E":{"type":"integer"}}}`
	root := "#/components/schemas/" + []string{"A", "B", "C", "D"}[sym.Choice("root", 4)]
	var run func() string
	if sym.Choice("version", 2) == 0 {
		var spec openapi3.Spec
		sym.Assume(json.Unmarshal([]byte(comps), spec.ComponentsEns()) == nil)
		run = func() string {
			s := openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: root}}
			js := s.ToJSONSchema(&spec)
			var back openapi3.SchemaOrRef
			back.FromJSONSchema(js)
			return snap(js) + snap(back)
		}
	} else {
		var spec openapi31.Spec
		sym.Assume(json.Unmarshal([]byte(comps), spec.ComponentsEns()) == nil)
		run = func() string {
			return snap(openapi31.ToJSONSchema(map[string]interface{}{"$ref": root}, &spec))
		}
	}
	want := run()
	sym.MapOrder(1 + sym.Tier())
	got := run()
	sym.MapOrder(0)
	sym.Assert(got == want, "schemas are the same in every iteration order")
}

// C22_Walk visits the same parts under different iteration orders.
func C22_Walk() {
	vs := []any{ordParams{}, ordSmall{}, ordFormSmall{}, ordRespSmall{}, walkNamed{}}
	if sym.Tier() > 0 {
		vs = append(vs, ordBody{}, ordForm{}, ordResp{})
	}
	v := vs[sym.Choice("structure", len(vs))]
	resp := sym.Choice("response", 2) == 1
	ver := sym.Choice("version", 2)
	run := func() (string, error) {
		var w openapi.JSONSchemaWalker = openapi3.NewReflector()
		if ver == 1 {
			w = openapi31.NewReflector()
		}
		visits := map[string]string{}
		cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
			visits[string(in)+" "+name] += snap(s) + string("ft"[b2i(required)])
			return nil
		}
		var err error
		if resp {
			err = w.WalkResponseJSONSchemas(openapi.ContentUnit{Structure: v}, cb, nil)
		} else {
			err = w.WalkRequestJSONSchemas("POST", openapi.ContentUnit{Structure: v}, cb, nil)
		}
		return snap(visits), err
	}
	want, werr := run()
	sym.MapOrder(1 + sym.Tier())
	got, err := run()
	sym.MapOrder(0)
	sym.Assert((err == nil) == (werr == nil), "walks succeed alike in every iteration order")
	sym.Assert(got == want, "the same parts are visited in every iteration order")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C22_Placeholders adds operations with some of the placeholders of a path declared.
func C22_Placeholders() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	names := []string{sym.Str("a", 1, "a-m"), sym.Str("b", 1, "n-z"), "C"}[:1+sym.Choice("names", 3)]
	path := ""
	for _, n := range names {
		path += "/{" + n + "}"
	}
	var ps []string
	ok := true
	for _, n := range append(names, "X") {
		if sym.Choice("declared", 2) == 1 {
			ps = append(ps, n)
			ok = ok && n != "X"
		} else {
			ok = ok && n == "X"
		}
	}
	sym.MapOrder(1 + sym.Tier())
	err := d.addWith("get", path, ps)
	sym.MapOrder(0)
	sym.Assert((err == nil) == ok, "operations are accepted in every iteration order if their path parameters are declared")
	sym.Cover("added")
}

// addWith adds an operation with path parameters.
func (d *doc) addWith(method, path string, params []string) error {
	if d.ver == 3 {
		op := openapi3.Operation{}
		for _, n := range params {
			op.Parameters = append(op.Parameters, openapi3.ParameterOrRef{Parameter: &openapi3.Parameter{Name: n, In: openapi3.ParameterInPath}})
		}
		return d.r3.Spec.AddOperation(method, path, op)
	}
	op := openapi31.Operation{}
	for _, n := range params {
		op.Parameters = append(op.Parameters, openapi31.ParameterOrReference{Parameter: &openapi31.Parameter{Name: n, In: openapi31.ParameterInPath}})
	}
	return d.r31.Spec.AddOperation(method, path, op)
}
