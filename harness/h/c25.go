package h

import (
	"encoding/json"
	"reflect"
	"strconv"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

type loadParams struct {
	_ struct{}          `query:"_" additionalProperties:"false"`
	Q string            `query:"q" required:"true" description:"d"`
	H []int             `header:"X-H" collectionFormat:"csv"`
	C jsonBoth          `cookie:"c" collectionFormat:"json"`
	D map[string]string `query:"d"`
}

type loadForm struct {
	A refRec `formData:"a"`
	B string `form:"b" required:"true"`
}

type loadResp struct {
	H string          `header:"X-R" json:"-"`
	A refB            `json:"a"`
	L []*refRec       `json:"l"`
	M map[string]refJ `json:"m"`
}

// lop is an operation of a document that is saved and loaded.
type lop struct {
	method, path string
	kind         int
	name         string
	summary      string
}

const nLops = 9

func anyLop(i int) lop {
	return lop{
		method:  "post",
		path:    "/p",
		kind:    sym.Choice("kind", nLops),
		name:    "f" + sym.Str("name", 1, "a-m"),
		summary: sym.Str("summary", 1, "a-m"),
	}
}

func (o lop) add(d *doc) error {
	oc, err := d.refl().NewOperationContext(o.method, o.path)
	if err != nil {
		return err
	}
	oc.SetSummary(o.summary)
	wrap := func(t reflect.Type, tag string) any {
		return reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: reflect.StructTag(tag + `:"` + o.name + `"`)}})).Interface()
	}
	rec, str := reflect.TypeOf(refRec{}), reflect.TypeOf("")
	switch o.kind {
	case 0:
	case 1:
		oc.AddReqStructure(new(loadParams))
		oc.AddReqStructure(wrap(str, "header"))
	case 2:
		oc.AddReqStructure(wrap(rec, "json"))
	case 3:
		oc.AddReqStructure(new(loadForm), func(cu *openapi.ContentUnit) { cu.Description = o.summary })
		oc.AddReqStructure(wrap(str, "formData"), openapi.WithContentType("text/plain"))
	case 4:
		oc.AddRespStructure(new(loadResp), func(cu *openapi.ContentUnit) { cu.IsDefault = true })
		oc.AddRespStructure(wrap(rec, "json"), openapi.WithHTTPStatus(4))
		oc.AddRespStructure(nil, openapi.WithContentType("text/"+o.name))
	case 5:
		oc.SetTags("t", o.summary)
		oc.AddSecurity("s")
		oc.AddSecurity(o.name, o.summary, "x")
		oc.SetIsDeprecated(true)
		oc.SetID(o.name)
		oc.SetDescription(o.summary)
	case 6:
		oc.AddReqStructure(nil, openapi.WithReference("#/components/requestBodies/"+o.name), openapi.WithContentType("text/plain"))
		oc.AddRespStructure(nil, openapi.WithReference("#/components/responses/"+o.name))
	case 7:
		oc.AddReqStructure(wrap(fileTypes[0], "formData"))
		oc.AddRespStructure(wrap(str, "header"), openapi.WithHTTPStatus(204))
	case 8:
		oc.AddReqStructure(wrap(rec, "query"))
		oc.AddReqStructure(wrap(str, "path"))
	}
	return d.refl().AddOperation(oc)
}

// save and load the document in a new reflector.
func (d *doc) reload(yaml bool) *doc {
	n := newDoc(d.ver)
	var b []byte
	var err error
	if d.ver == 3 {
		if yaml {
			b, err = d.r3.Spec.MarshalYAML()
			sym.Assert(err == nil, "document is encoded to YAML")
			err = n.r3.Spec.UnmarshalYAML(b)
		} else {
			b, err = json.Marshal(d.r3.Spec)
			sym.Assert(err == nil, "document is encoded to JSON")
			err = json.Unmarshal(b, n.r3.Spec)
		}
	} else {
		if yaml {
			b, err = d.r31.Spec.MarshalYAML()
			sym.Assert(err == nil, "document is encoded to YAML")
			err = n.r31.Spec.UnmarshalYAML(b)
		} else {
			b, err = json.Marshal(d.r31.Spec)
			sym.Assert(err == nil, "document is encoded to JSON")
			err = json.Unmarshal(b, n.r31.Spec)
		}
	}
	sym.Assert(err == nil, "reflected document is decoded")
	return n
}

// data is the content of the document. The default style of header and cookie parameters is left out:
// it is made explicit once a document is decoded.
func (d *doc) data() any {
	if d.ver != 3 {
		return generic(d.r31.Spec)
	}
	v := generic(d.r3.Spec)
	m, _ := v.(map[string]any)
	paths, _ := m["paths"].(map[string]any)
	for _, pi := range paths {
		ops, _ := pi.(map[string]any)
		for _, op := range ops {
			o, _ := op.(map[string]any)
			ps, _ := o["parameters"].([]any)
			for _, p := range ps {
				q, _ := p.(map[string]any)
				if q["in"] == "header" && q["style"] == "simple" || q["in"] == "cookie" && q["style"] == "form" {
					delete(q, "style")
				}
			}
		}
	}
	return v
}

func (d *doc) prepare(name string) {
	s := d.refl().SpecSchema()
	s.SetTitle(name)
	s.SetVersion("v" + name)
	s.SetDescription(name)
	s.SetHTTPBearerTokenSecurity("b", name, "d")
	s.SetAPIKeySecurity("k", name, openapi.InHeader, "d")
}

func c25(yaml bool) {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	a := newDoc(ver)
	if sym.Choice("info", 2) == 1 {
		a.prepare(sym.Str("title", 1, "a-m"))
	}
	first := anyLop(0)
	if first.kind == 8 {
		first.path += "/{" + first.name + "}"
	}
	hook := ver == 31 && first.kind < 2 && sym.Choice("webhook", 2) == 1
	errFirst := first.add(a)
	sym.Assert(errFirst == nil, "operation is added")
	if hook {
		addHook(a, first.name)
	}
	b := a.reload(yaml)
	sym.Assert(snap(a.data()) == snap(b.data()), "reflected document is loaded as it was saved")
	as, bs := a.ops(), b.ops()
	sym.Assert(len(as) == 1 && len(bs) == 1, "operations of a loaded document")
	t := twin{a, b}
	t.sameOp(as[0].op, bs[0].op)
	if first.kind >= 1 && first.kind <= 4 && sym.Tier() == 0 {
		sym.Cover("loaded")
	}
	edited := len(a.comps()) > 0 && sym.Choice("edited", 2) == 1
	if edited {
		a.edit()
		b.edit()
	}
	kept := b.comps()
	// Continue both documents.
	second := anyLop(1)
	if sym.Tier() == 0 {
		sym.Assume(second.kind == first.kind || second.kind <= 4)
	}
	slot := sym.Choice("slot", 4)
	switch slot {
	case 0: // taken
		second.path, second.method = first.path, "POST"
	case 1: // other method
		second.path, second.method = first.path, "put"
	case 2: // alias of a path with placeholder
		second.path = "/p/{" + second.name + ":[a-z]+}"
	case 3: // other path
		second.path = "/q"
	}
	if second.kind == 8 && slot != 2 && first.kind != 8 {
		second.path += "/{" + second.name + "}"
	}
	errA, errB := second.add(a), second.add(b)
	sym.Assert((errA == nil) == (errB == nil), "operations are accepted by a loaded document like before")
	if slot == 0 && second.path == first.path {
		sym.Assert(errA != nil, "slot of a loaded document is taken")
		sym.Cover("taken")
	}
	if errA != nil {
		sym.Assert(len(b.ops()) == 1, "loaded document is kept")
		sym.Cover("rejected")
		return
	}
	if hook {
		sym.Assert((addHook(a, first.name) == nil) == (addHook(b, first.name) == nil), "webhooks are accepted by a loaded document like before")
		sym.Assert((addHook(a, second.name) == nil) == (addHook(b, second.name) == nil), "webhooks are accepted by a loaded document like before")
	}
	sym.Assert(snap(a.data()) == snap(b.data()), "loaded document is continued as if never saved")
	now := b.comps()
	for n, c := range kept {
		x, ok := now[n]
		sym.Assert(ok && snap(x) == snap(c), "components of a loaded document are kept")
		sym.Cover("kept component")
	}
	sym.Cover("continued")
}

// edit changes all components by hand.
func (d *doc) edit() {
	if d.ver == 3 {
		m := d.r3.Spec.Components.Schemas.MapOfSchemaOrRefValues
		for n, s := range m {
			s.Schema.WithTitle("edited")
			s.Schema.Properties = nil
			m[n] = s
		}
		return
	}
	for _, s := range d.r31.Spec.Components.Schemas {
		s["title"] = "edited"
		delete(s, "properties")
	}
}

func addHook(d *doc, name string) error {
	op := openapi31.Operation{}
	op.WithSummary("hook")
	return d.r31.Spec.AddWebhook("post", "h"+name, op)
}

// C25_JSON saves and loads a reflected document as JSON and continues it.
func C25_JSON() { c25(false) }

// C25_YAML saves and loads a reflected document as YAML and continues it.
func C25_YAML() { c25(true) }

// loadable chooses a type of parameters or headers, including types that allow any value.
func loadable() ptype {
	i := sym.Choice("type", len(ptypes)+3)
	if i < len(ptypes) {
		return ptypes[i]
	}
	return []ptype{
		{t: reflect.TypeOf((*interface{})(nil)).Elem()},
		{t: reflect.TypeOf(json.RawMessage(nil))},
		{t: reflect.TypeOf([]interface{}(nil))},
	}[i-len(ptypes)]
}

// C25_Headers: response headers of every type are decoded.
func C25_Headers() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	pt := loadable()
	tag := `header:"X-` + sym.Str("name", 1, "A-M") + `"`
	if sym.Choice("required", 2) == 1 {
		tag += ` required:"true"`
	}
	if sym.Choice("description", 2) == 1 {
		tag += ` description:"` + sym.Str("d", 1, "a-m") + `"`
	}
	status := []int{200, 404}[sym.Choice("status", 2)]
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("get", "/p")
	sym.Assert(err == nil, "new operation context")
	oc.AddRespStructure(reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: pt.t, Tag: reflect.StructTag(tag)}})).Interface(), openapi.WithHTTPStatus(status))
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	whole, _ := d.data().(map[string]any)
	h, ok := dig(whole, "paths", "/p", "get", "responses", strconv.Itoa(status), "headers")
	sym.Assert(ok && len(h) == 1, "response header is encoded")
	for _, x := range h {
		_, ok := x.(map[string]any)["schema"]
		sym.Assert(ok, "encoded response header has a schema")
	}
	n := d.reload(sym.Choice("form", 2) == 1)
	sym.Assert(snap(d.data()) == snap(n.data()), "response header is loaded as it was saved")
	sym.Cover("decoded header")
	twin{d, n}.same()
}

// C25_Styles: parameters of every location, type and collection format are decoded.
func C25_Styles() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	in := locations[sym.Choice("in", 4)]
	pt := loadable()
	coll := []string{"", "csv", "ssv", "pipes", "multi", "json", "other"}[sym.Choice("collectionFormat", 7)]
	name := sym.Str("name", 1, "a-m")
	tag := in + `:"` + name + `"`
	if coll != "" {
		tag += ` collectionFormat:"` + coll + `"`
	}
	path := "/p"
	if in == "path" {
		path += "/{" + name + "}"
	}
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("get", path)
	sym.Assert(err == nil, "new operation context")
	oc.AddReqStructure(reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: pt.t, Tag: reflect.StructTag(tag)}})).Interface())
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	whole, _ := d.data().(map[string]any)
	op, _ := dig(whole, "paths", path, "get")
	ps, _ := op["parameters"].([]any)
	sym.Assert(len(ps) == 1, "parameter is encoded")
	for _, x := range ps {
		q, _ := x.(map[string]any)
		sym.Assert(q["schema"] != nil || q["content"] != nil, "encoded parameter has a schema or content")
	}
	n := newDoc(ver)
	if ver == 3 {
		b, err := json.Marshal(d.r3.Spec)
		sym.Assert(err == nil, "document is encoded")
		err = json.Unmarshal(b, n.r3.Spec)
		kind := ""
		if pt.object && coll != "json" {
			kind = " object"
		}
		sym.Assert(err == nil, "OpenAPI 3.0 document with "+in+" parameter of collection format '"+coll+"'"+kind+" is decoded")
	} else {
		b, err := json.Marshal(d.r31.Spec)
		sym.Assert(err == nil, "document is encoded")
		sym.Assert(json.Unmarshal(b, n.r31.Spec) == nil, "OpenAPI 3.1 document with "+in+" parameter is decoded")
	}
	sym.Cover("decoded")
	twin{d, n}.same()
	sym.Assert(snap(d.data()) == snap(n.data()), "parameter is loaded as it was saved")
}
