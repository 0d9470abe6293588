"""Planted bugs: realistic changes that break a property, build and pass the existing tests."""
R3, R31 = 'openapi3/reflect.go', 'openapi31/reflect.go'
H3, H31 = 'openapi3/helper.go', 'openapi31/helper.go'
E3, E31 = 'openapi3/entities.go', 'openapi31/entities.go'
J3, J31 = 'openapi3/jsonschema.go', 'openapi31/jsonschema.go'
W3, W31 = 'openapi3/walk_schema.go', 'openapi31/walk_schema.go'
Y3, Y31 = 'openapi3/yaml.go', 'openapi31/yaml.go'
IN = 'internal/json_schema.go'
BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


bug('b01-path-regexp-elsewhere', 'C01', 'the text of a placeholder regexp also occurs earlier in the pattern, outside of the placeholder',
    'the regexp text is removed at its first occurrence in the pattern instead of inside its placeholder',
    [('operation.go', 'pathPattern = strings.Replace(pathPattern, submatch[0], "{"+submatch[1]+"}", 1)',
      'pathPattern = strings.Replace(pathPattern, submatch[2], "", 1)')],
    '''
func TestDemo(t *testing.T) {
	_, p, _, err := openapi.SanitizeMethodPath("GET", "/v:x/{id:x}")
	if err != nil || p != "/v:x/{id}" {
		t.Fatal(p, err)
	}
}''')

bug('b02-setup-before-validation', 'C02', 'a path that already has another operation, then a registration rejected by parameter validation',
    'a rejected operation stays in the document, because the map of operations is shared with the stored path item',
    [(H3, '''	pathParamsMap := make(map[string]bool, len(pathParams))
	for _, p := range pathParams {
		pathParamsMap[p] = true
	}

	if err := operation.validatePathParams(pathParamsMap); err != nil {
		return err
	}

	pathItem.WithMapOfOperationValuesItem(method, operation)

''', '''	pathItem.WithMapOfOperationValuesItem(method, operation)

	pathParamsMap := make(map[string]bool, len(pathParams))
	for _, p := range pathParams {
		pathParamsMap[p] = true
	}

	if err := operation.validatePathParams(pathParamsMap); err != nil {
		return err
	}

''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	if err := s.AddOperation("get", "/a", openapi3.Operation{}); err != nil {
		t.Fatal(err)
	}

	p := openapi3.Parameter{Name: "x", In: openapi3.ParameterInPath}
	bad := openapi3.Operation{Parameters: []openapi3.ParameterOrRef{p.ToParameterOrRef()}}

	if err := s.AddOperation("post", "/a", bad); err == nil {
		t.Fatal("error expected")
	}

	if _, found := s.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["post"]; found {
		t.Fatal("rejected operation in document")
	}
}''')

bug('b04-webhook-default-response', 'C04', 'a webhook whose only response is the default one',
    'a 204 response is added to a webhook that declares a default response',
    [(H31, '''	method = strings.ToLower(method)

	// Add "No Content" response if there are no responses configured.
	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues) == 0 && operation.Responses.Default == nil {''',
      '''	method = strings.ToLower(method)

	// Add "No Content" response if there are no responses configured.
	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues) == 0 {''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	op := openapi31.Operation{}
	op.ResponsesEns().WithDefault(openapi31.ResponseOrReference{Response: &openapi31.Response{Description: "d"}})

	if err := s.AddWebhook("post", "w", op); err != nil {
		t.Fatal(err)
	}

	if n := len(s.Webhooks["w"].PathItem.Post.Responses.MapOfResponseOrReferenceValues); n != 0 {
		t.Fatal(n, "responses added")
	}
}''')

bug('b05-link-request-body', 'C05', 'a link that carries a parameters map and a request body',
    'decoding a 3.0 link loses an explicit null request body, as the key is removed before it is looked at',
    [(E3, '''	if ml.RequestBody == nil {
		if _, ok := rawMap["requestBody"]; ok {''', '''	if ml.RequestBody == nil && len(ml.Parameters) == 0 {
		if _, ok := rawMap["requestBody"]; ok {''')],
    '''
func TestDemo(t *testing.T) {
	var body interface{}
	l := openapi3.Link{RequestBody: &body}
	l.WithOperationID("o").WithParametersItem("p", "v")

	j, err := json.Marshal(l)
	if err != nil {
		t.Fatal(err)
	}

	var back openapi3.Link
	if err := json.Unmarshal(j, &back); err != nil {
		t.Fatal(err)
	}

	if !reflect.DeepEqual(l, back) {
		t.Fatal(string(j), back)
	}
}''')

bug('b06-union-shared-extension', 'C06', 'callbacks that hold an extension next to an expression',
    'encoding 3.1 callbacks drops the extensions as soon as there is an expression',
    [(E31, '''func (c Callbacks) MarshalJSON() ([]byte, error) {
	return marshalUnion(c.MapOfAnything, c.AdditionalProperties)
''', '''func (c Callbacks) MarshalJSON() ([]byte, error) {
	if len(c.AdditionalProperties) > 0 {
		return json.Marshal(c.AdditionalProperties)
	}

	return marshalUnion(c.MapOfAnything)
''')],
    '''
func TestDemo(t *testing.T) {
	c := openapi31.Callbacks{
		MapOfAnything:        map[string]interface{}{"x-a": "b"},
		AdditionalProperties: map[string]openapi31.PathItemOrReference{"u": {Reference: &openapi31.Reference{Ref: "#/r"}}},
	}

	j, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}

	var back openapi31.Callbacks
	if err := json.Unmarshal(j, &back); err != nil {
		t.Fatal(err)
	}

	if !reflect.DeepEqual(c, back) {
		t.Fatal(string(j))
	}
}''')

bug('b07-oauth-flow-required', 'C07', 'a document with a password flow that lacks the token URL',
    'decoding accepts a password flow without the required tokenUrl',
    [(E31, '''var requireKeysOauthFlowsDefsPassword = []string{
	"tokenUrl",
''', '''var requireKeysOauthFlowsDefsPassword = []string{
''')],
    '''
func TestDemo(t *testing.T) {
	var f openapi31.OauthFlows
	if err := json.Unmarshal([]byte(`{"password":{"scopes":{}}}`), &f); err == nil {
		t.Fatal("error expected")
	}
}''')

bug('b09-single-type-list', 'C09', 'a JSON schema with a type list of a single entry',
    'a list with one type is converted to an OpenAPI 3.0 schema without type',
    [(J3, '} else if len(js.Type.SliceOfSimpleTypeValues) > 0 {', '} else if len(js.Type.SliceOfSimpleTypeValues) > 1 {')],
    '''
func TestDemo(t *testing.T) {
	js := jsonschema.SchemaOrBool{}
	if err := json.Unmarshal([]byte(`{"type":["string"]}`), &js); err != nil {
		t.Fatal(err)
	}

	s := openapi3.SchemaOrRef{}
	s.FromJSONSchema(js)

	if s.Schema.Type == nil || *s.Schema.Type != openapi3.SchemaTypeString {
		t.Fatal("type lost")
	}
}''')

bug('b10-any-of-with-one-of', 'C10', 'an OpenAPI schema that has both oneOf and anyOf',
    'anyOf is dropped from the JSON schema if there is oneOf',
    [(J3, '''	if len(ss.AnyOf) != 0 {
		for _, anyOf''', '''	if len(ss.AnyOf) != 0 && len(ss.OneOf) == 0 {
		for _, anyOf''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.SchemaOrRef{}
	s.SchemaEns().WithAnyOf(openapi3.SchemaOrRef{}).WithOneOf(openapi3.SchemaOrRef{})

	if js := s.ToJSONSchema(&openapi3.Spec{}); len(js.TypeObject.AnyOf) != 1 {
		t.Fatal("anyOf lost")
	}
}''')

bug('b11-not-own-context', 'C11', 'a component reference below "not" of a component',
    'definitions of references below "not" are nested where references to them do not resolve',
    [(J3, 'jso.WithNot(ss.Not.toJSONSchema(ctx))', 'jso.WithNot(ss.Not.ToJSONSchema(ctx.spec))')],
    '''
func TestDemo(t *testing.T) {
	spec := openapi3.Spec{}
	ref := func(n string) openapi3.SchemaOrRef {
		return openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/" + n}}
	}
	b := openapi3.SchemaOrRef{}
	b.SchemaEns().WithAllOf(ref("B"))
	spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("B", b)

	s := openapi3.SchemaOrRef{}
	s.SchemaEns().WithNot(ref("B"))

	js := s.ToJSONSchema(&spec)

	c, ok := js.TypeObject.ExtraProperties["components"].(map[string]interface{})
	if !ok || len(c["schemas"].(map[string]jsonschema.SchemaOrBool)) != 1 {
		t.Fatal("definition of B is missing at the root")
	}
}''')

bug('b12-yaml-keys', 'C12', 'a YAML mapping with a boolean or floating point key',
    'entries of YAML mappings with keys other than strings and integers are lost',
    [(Y31, '''			default:
				m[fmt.Sprint(k)] = convertMapI2MapS(v2)
''', '''			case int:
				m[fmt.Sprint(k2)] = convertMapI2MapS(v2)
''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	if err := s.UnmarshalYAML([]byte("openapi: 3.1.0\\ninfo:\\n  title: t\\n  version: v\\nx-a:\\n  1.5: b\\n  true: c\\n")); err != nil {
		t.Fatal(err)
	}

	if m := s.MapOfAnything["x-a"].(map[string]interface{}); len(m) != 2 {
		t.Fatal(m)
	}
}''')

bug('b13-path-not-required', 'C13', 'a path parameter with a required:"false" tag',
    'a path parameter is documented as optional if its field says so',
    [(R31, '''			err = refl.PopulateFieldsFromTags(&p, field.Tag)
			if err != nil {
				return err
			}

			if in == openapi.InPath {
				p.WithRequired(true)
			}
''', '''			if in == openapi.InPath {
				p.WithRequired(true)
			}

			err = refl.PopulateFieldsFromTags(&p, field.Tag)
			if err != nil {
				return err
			}
''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("get", "/{a}")
	oc.AddReqStructure(struct {
		A string `path:"a" required:"false"`
	}{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if p := r.Spec.Paths.MapOfPathItemValues["/{a}"].Get.Parameters[0].Parameter; p.Required == nil || !*p.Required {
		t.Fatal("optional path parameter")
	}
}''')

bug('b15-default-response-merge', 'C15', 'two default response structures of different media types',
    'a second default response structure replaces the first one',
    [(R3, '''			if o.Responses.Default == nil {
				o.Responses.Default = &ResponseOrRef{}
			}

			resp = o.Responses.Default.Response
''', '''			resp = nil
''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("get", "/a")
	def := func(cu *openapi.ContentUnit) { cu.IsDefault = true }
	oc.AddRespStructure(struct {
		A string `json:"a"`
	}{}, def)
	oc.AddRespStructure(nil, openapi.WithContentType("text/csv"), def)

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if c := r.Spec.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].Responses.Default.Response.Content; len(c) != 2 {
		t.Fatal(len(c), "media types")
	}
}''')

bug('b16-done-on-error', 'C16', 'walking a request structure whose parameters can not be set up',
    'the completion function is not called if the request can not be set up',
    [(W3, '''	defer func() {
		if done != nil {
			done(oc)
		}
	}()

	op := oc.op

	if err := r.setupRequest(op, oc); err != nil {
		return err
	}
''', '''	op := oc.op

	if err := r.setupRequest(op, oc); err != nil {
		return err
	}

	defer func() {
		if done != nil {
			done(oc)
		}
	}()
''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	n := 0
	err := r.WalkRequestJSONSchemas("GET", openapi.ContentUnit{Structure: struct {
		A string `query:"a"`
		B string `query:"a"`
	}{}}, func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error { return nil },
		func(oc openapi.OperationContext) { n++ })

	if err == nil || n != 1 {
		t.Fatal(err, n)
	}
}''')

bug('b17-ens-detached', 'C17', 'a components object without examples on which ExamplesEns is called and filled',
    'the ensured examples of 3.0 components are not attached to them',
    [(E3, '''func (c *Components) ExamplesEns() *ComponentsExamples {
	if c.Examples == nil {
		c.Examples = new(ComponentsExamples)
	}

	return c.Examples
''', '''func (c *Components) ExamplesEns() *ComponentsExamples {
	if c.Examples == nil {
		return new(ComponentsExamples)
	}

	return c.Examples
''')],
    '''
func TestDemo(t *testing.T) {
	c := openapi3.Components{}
	c.ExamplesEns().WithMapOfExampleOrRefValuesItem("e", openapi3.ExampleOrRef{})

	if c.Examples == nil {
		t.Fatal("examples lost")
	}
}''')

bug('b18-bearer-format-case', 'C18', 'a bearer scheme with a format in mixed case',
    'the bearer format is stored in upper case',
    [(H3, 'ss.HTTPSecurityScheme.WithBearerFormat(format)', 'ss.HTTPSecurityScheme.WithBearerFormat(strings.ToUpper(format))')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	s.SetHTTPBearerTokenSecurity("b", "Opaque", "d")

	if f := *s.Components.SecuritySchemes.MapOfSecuritySchemeOrRefValues["b"].SecurityScheme.HTTPSecurityScheme.BearerFormat; f != "Opaque" {
		t.Fatal(f)
	}
}''')

bug('b19-security-merged', 'C19', 'the same security scheme required twice with different scopes',
    'alternative requirements of the same security scheme are merged into one that demands all scopes',
    [(R3, '''	o.op.Security = append(o.op.Security, map[string][]string{securityName: scopes})
''', '''	for _, s := range o.op.Security {
		if existing, ok := s[securityName]; ok {
			s[securityName] = append(existing, scopes...)

			return
		}
	}

	o.op.Security = append(o.op.Security, map[string][]string{securityName: scopes})
''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("get", "/a")
	oc.AddSecurity("s", "a")
	oc.AddSecurity("s", "b")

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if s := r.Spec.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].Security; len(s) != 2 {
		t.Fatal(s)
	}
}''')

bug('b03-reference-stops-validation', 'C03', 'an operation that lists a parameter reference before its other parameters',
    'parameters listed after a parameter reference are not looked at',
    [(H31, """		if p.Parameter == nil {
			continue
		}
""", """		if p.Parameter == nil {
			break
		}
""")],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	p := openapi31.Parameter{Name: "x", In: openapi31.ParameterInPath}
	op := openapi31.Operation{Parameters: []openapi31.ParameterOrReference{
		{Reference: &openapi31.Reference{Ref: "#/components/parameters/p"}}, p.ToParameterOrRef(),
	}}

	if err := s.AddOperation("get", "/{x}", op); err != nil {
		t.Fatal(err)
	}
}''')

bug('b08-second-reference', 'C08', 'a response that is set to a reference twice',
    'setting the reference of a response again keeps the earlier target',
    [(H3, """	r.ResponseReferenceEns().Ref = ref
	r.Response = nil
""", """	if r.ResponseReference == nil {
		r.ResponseReference = &ResponseReference{Ref: ref}
	}

	r.Response = nil
""")],
    '''
func TestDemo(t *testing.T) {
	r := openapi3.ResponseOrRef{}
	r.SetReference("#/a")
	r.SetReference("#/b")

	if r.ResponseReference.Ref != "#/b" {
		t.Fatal(r.ResponseReference.Ref)
	}
}''')

bug('b14-trace-body', 'C14', 'a TRACE operation with a JSON structure',
    'a request body is documented for TRACE operations',
    [(IN, 'case http.MethodGet, http.MethodHead, http.MethodDelete, http.MethodTrace:', 'case http.MethodGet, http.MethodHead, http.MethodDelete:')],
    '''
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("trace", "/a")
	oc.AddReqStructure(struct {
		A string `json:"a"`
	}{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if r.Spec.Paths.MapOfPathItemValues["/a"].Trace.RequestBody != nil {
		t.Fatal("unexpected request body")
	}
}''')

bug('b20-name-of-generic', 'C20', 'a generic type within a parameter or a JSON encoded parameter',
    'brackets of generic types are kept in the names of 3.1 components of parameters',
    [(R31, r'`[^a-zA-Z0-9.\-_]+`', r'`[^a-zA-Z0-9.\-_\[\]]+`')],
    '''
type (
	DemoItem struct {
		A string `json:"a"`
	}
	DemoList[V any] struct {
		L []V `json:"l"`
	}
)

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("get", "/a")
	oc.AddReqStructure(struct {
		A DemoList[DemoItem] `query:"a"`
	}{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	for name := range r.Spec.Components.Schemas {
		if strings.ContainsAny(name, "[]") {
			t.Fatal(name)
		}
	}
}''')

bug('b21-family-5xx', 'C21', 'a response of family 5XX',
    'in 3.1 the response family 5 is documented as status 5',
    [(R31, 'case cu.HTTPStatus > 0 && cu.HTTPStatus < 6:', 'case cu.HTTPStatus > 0 && cu.HTTPStatus < 5:')],
    '''
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("get", "/a")
	oc.AddRespStructure(nil, openapi.WithHTTPStatus(5))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if _, found := r.Spec.Paths.MapOfPathItemValues["/a"].Get.Responses.MapOfResponseOrReferenceValues["5XX"]; !found {
		t.Fatal("family missing")
	}
}''')

# ---- second batch

bug('b22-method-fold', 'C01', 'a method spelled with a non-ASCII letter that folds to an ASCII one, such as the long s',
    'methods are compared under Unicode case folding, so "PO\u017fT" is accepted',
    [('operation.go', '''	method = strings.ToLower(method)
	pathParametersSubmatches''', '''	for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
		if strings.EqualFold(method, m) {
			method = m
		}
	}

	pathParametersSubmatches''')],
    '''
func TestDemo(t *testing.T) {
	if m, _, _, err := openapi.SanitizeMethodPath("PO\\u017fT", "/"); err == nil {
		t.Fatal(m)
	}
}''')

bug('b23-trailing-slash', 'C02', 'a path registered without and then with a trailing slash',
    'the duplicate check looks at the path as given, the operation is stored without the trailing slash',
    [(H3, '''	pathItem := s.Paths.MapOfPathItemValues[path]
	operation := pathItem.MapOfOperationValues[method]
''', '''	if len(path) > 1 {
		path = strings.TrimSuffix(path, "/")
	}

	pathItem := s.Paths.MapOfPathItemValues[path]
	operation := pathItem.MapOfOperationValues[method]
''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	a, b := openapi3.Operation{}, openapi3.Operation{}
	a.WithID("a")
	b.WithID("b")

	if err := s.AddOperation("get", "/a", a); err != nil {
		t.Fatal(err)
	}

	_ = s.AddOperation("get", "/a/", b)

	if id := *s.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].ID; id != "a" {
		t.Fatal(id)
	}
}''')

bug('b24-duplicates-adjacent', 'C03', 'two equal parameters with a third one in between',
    'duplicate parameters are noticed only when they follow each other',
    [(H31, '''	for _, p := range o.Parameters {
		if p.Parameter == nil {
			continue
		}

		if found := paramIndex[p.Parameter.Name+string(p.Parameter.In)]; found {''', '''	last := ""

	for _, p := range o.Parameters {
		if p.Parameter == nil {
			continue
		}

		key := p.Parameter.Name + string(p.Parameter.In)
		found := key == last
		last = key

		if found {''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	a := openapi31.Parameter{Name: "a", In: openapi31.ParameterInQuery}
	b := openapi31.Parameter{Name: "b", In: openapi31.ParameterInQuery}

	if err := s.AddOperation("get", "/", openapi31.Operation{Parameters: []openapi31.ParameterOrReference{
		a.ToParameterOrRef(), b.ToParameterOrRef(), a.ToParameterOrRef(),
	}}); err == nil {
		t.Fatal("error expected")
	}
}''')

bug('b25-webhook-name-case', 'C04', 'a webhook whose operation declares responses without statuses but with extensions',
    'a webhook with an extension in its responses gets no 204 response',
    [(H31, '''	method = strings.ToLower(method)

	// Add "No Content" response if there are no responses configured.
	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues) == 0 && operation.Responses.Default == nil {''',
      '''	method = strings.ToLower(method)

	// Add "No Content" response if there are no responses configured.
	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues)+len(operation.Responses.MapOfAnything) == 0 && operation.Responses.Default == nil {''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	op := openapi31.Operation{}
	op.ResponsesEns().WithMapOfAnythingItem("x-a", 1)

	if err := s.AddWebhook("post", "w", op); err != nil {
		t.Fatal(err)
	}

	if n := len(s.Webhooks["w"].PathItem.Post.Responses.MapOfResponseOrReferenceValues); n != 1 {
		t.Fatal(n, "responses")
	}
}''')

bug('b26-component-name-charset', 'C05', 'a component name that consists of dots or other punctuation only',
    'components whose name has no letter, digit or underscore are rejected',
    [(E3, '''regexp.MustCompile(`^[a-zA-Z0-9\\.\\-_]+$`)''', '''regexp.MustCompile(`^[\\.\\-]*\\w[\\w\\.\\-]*$`)''')],
    '''
func TestDemo(t *testing.T) {
	var c openapi3.ComponentsSchemas
	if err := json.Unmarshal([]byte(`{"-.":{"type":"string"}}`), &c); err != nil || len(c.MapOfSchemaOrRefValues) != 1 {
		t.Fatal(err, c)
	}
}''')

bug('b27-extension-charset', 'C06', 'an extension whose name has an unusual character after the prefix, such as a slash',
    'extensions of 3.1 with other characters than letters, digits, dots and dashes are dropped',
    [(E31, 'regexX       = regexp.MustCompile("^x-")', 'regexX       = regexp.MustCompile(`^x-[\\w.-]*$`)')],
    '''
func TestDemo(t *testing.T) {
	var i openapi31.Info
	if err := json.Unmarshal([]byte(`{"title":"t","version":"v","x-a/b":1}`), &i); err != nil || len(i.MapOfAnything) != 1 {
		t.Fatal(err, i)
	}
}''')

bug('b28-enum-trimmed', 'C07', 'an API key location with space around it',
    'the location of an API key is trimmed before it is validated',
    [(E3, '''	v := APIKeySecuritySchemeIn(ii)

	switch v {''', '''	v := APIKeySecuritySchemeIn(strings.TrimSpace(ii))

	switch v {'''), (E3, '''	"regexp"
''', '''	"regexp"
	"strings"
''')],
    '''
func TestDemo(t *testing.T) {
	var s openapi3.APIKeySecurityScheme
	if err := json.Unmarshal([]byte(`{"type":"apiKey","name":"n","in":"header "}`), &s); err == nil {
		t.Fatal(s)
	}
}''')

bug('b29-unknown-with-extension', 'C07', 'an unknown key next to an extension in the same object',
    'unknown keys of components are tolerated as soon as there is an extension',
    [(E3, '''	if len(rawMap) != 0 {
		offendingKeys := make([]string, 0, len(rawMap))

		for key := range rawMap {
			offendingKeys = append(offendingKeys, key)
		}

		return fmt.Errorf("additional properties not allowed in Components: %v", offendingKeys)''',
      '''	if len(rawMap) != 0 && len(mc.MapOfAnything) == 0 {
		offendingKeys := make([]string, 0, len(rawMap))

		for key := range rawMap {
			offendingKeys = append(offendingKeys, key)
		}

		return fmt.Errorf("additional properties not allowed in Components: %v", offendingKeys)''')],
    '''
func TestDemo(t *testing.T) {
	var c openapi3.Components
	if err := json.Unmarshal([]byte(`{"x-a":1,"foo":2}`), &c); err == nil {
		t.Fatal(c)
	}
}''')

bug('b30-reference-with-siblings', 'C08', 'a reference that has a description next to it',
    'a 3.1 reference with other members is tried as both alternatives',
    [(E31, '''func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
	if isReference(data) {''', '''func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
	if isReference(data) && !bytes.Contains(data, []byte(`"description"`)) {''')],
    '''
func TestDemo(t *testing.T) {
	var r openapi31.ResponseOrReference
	if err := json.Unmarshal([]byte(`{"$ref":"#/a","description":"d"}`), &r); err != nil || r.Reference == nil || r.Response != nil {
		t.Fatal(err, r)
	}
}''', skip=True)

bug('b31-empty-maximum', 'C09', 'a JSON schema that allows no items at all',
    'maxItems of zero is taken for an unset limit',
    [(J3, '''	os.MaxItems = js.MaxItems

	if js.MinLength''', '''	if js.MaxItems != nil && *js.MaxItems != 0 {
		os.MaxItems = js.MaxItems
	}

	if js.MinLength''')],
    '''
func TestDemo(t *testing.T) {
	s := jsonschema.Schema{}
	s.WithMaxItems(0)

	o := openapi3.SchemaOrRef{}
	o.FromJSONSchema(s.ToSchemaOrBool())

	if o.Schema.MaxItems == nil {
		t.Fatal("dropped")
	}
}''')

bug('b32-exclusive-without-bound', 'C10', 'a schema with an exclusive minimum and an inclusive maximum',
    'the exclusive flag of one bound is applied to the other one as well',
    [(J3, '''	if ss.ExclusiveMaximum != nil && *ss.ExclusiveMaximum {
		jso.ExclusiveMaximum = ss.Maximum''', '''	if ss.ExclusiveMaximum != nil && *ss.ExclusiveMaximum || ss.Type != nil && *ss.Type == SchemaTypeInteger && ss.ExclusiveMinimum != nil && *ss.ExclusiveMinimum {
		jso.ExclusiveMaximum = ss.Maximum''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.Schema{}
	s.WithType(openapi3.SchemaTypeInteger).WithMinimum(1).WithExclusiveMinimum(true).WithMaximum(2)

	o := openapi3.SchemaOrRef{Schema: &s}
	if js := o.ToJSONSchema(&openapi3.Spec{}); js.TypeObject.Maximum == nil {
		t.Fatal("maximum became exclusive")
	}
}''')

bug('b33-inline-shared-root', 'C11', 'a root reference whose component is referenced by another component of the graph, but not by itself',
    'the root component is inlined although another component in the result refers to it',
    [(J31, '''				ctx.refsProcessed[dstName] = js
				findReferences(js, ctx)
			}

			ctx.refsCount[dstName]++
''', '''				ctx.refsProcessed[dstName] = js
				ctx.refsCount[dstName] = 0
				findReferences(js, ctx)
				ctx.refsCount[dstName] = 0
			}

			ctx.refsCount[dstName]++
''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	c := s.ComponentsEns()
	c.WithSchemasItem("a", map[string]interface{}{"properties": map[string]interface{}{"b": map[string]interface{}{"$ref": "#/components/schemas/b"}}})
	c.WithSchemasItem("b", map[string]interface{}{"properties": map[string]interface{}{"a": map[string]interface{}{"$ref": "#/components/schemas/a"}}})

	j, err := json.Marshal(openapi31.ToJSONSchema(map[string]interface{}{"$ref": "#/components/schemas/a"}, &s))
	if err != nil {
		t.Fatal(err)
	}

	if !strings.Contains(string(j), `"components":{"schemas":{"a":`) && !strings.Contains(string(j), `,"a":{`) {
		t.Fatal(string(j))
	}
}''')

bug('b34-yaml-number-kinds', 'C12', 'an integer above the signed 64 bit range in extension data',
    'integers between 2^63 and 2^64 are rounded in the YAML form',
    [(Y31, '''	err := d.Decode(&mapData)
	if err != nil {
		return err
	}
''', '''	err := d.Decode(&mapData)
	if err != nil {
		return err
	}

	for k, v := range mapData {
		if n, ok := v.(json.Number); ok {
			if i, err := n.Int64(); err == nil {
				mapData[k] = i
			} else if f, err := n.Float64(); err == nil {
				mapData[k] = f
			}
		}
	}
''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi31.Spec{Openapi: "3.1.0"}
	s.WithMapOfAnythingItem("x-n", uint64(18446744073709551615))

	y, err := s.MarshalYAML()
	if err != nil {
		t.Fatal(err)
	}

	if !strings.Contains(string(y), "18446744073709551615") {
		t.Fatal(string(y))
	}
}''')

bug('b35-duplicate-param-other-structure', 'C13', 'the same header in two spellings of letter case is fine, the same parameter in two request structures is not',
    'a parameter declared again by another request structure is dropped silently',
    [(R31, '''			if alreadyExists {
				return fmt.Errorf("parameter %s in %s is already defined", p.Name, p.In)
			}
''', '''			if alreadyExists {
				if len(oc.Request()) > 1 && in == openapi.InCookie {
					return nil
				}

				return fmt.Errorf("parameter %s in %s is already defined", p.Name, p.In)
			}
''')],
    '''
func TestDemo(t *testing.T) {
	type a struct {
		S string `cookie:"s"`
	}

	type b struct {
		S int `cookie:"s"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("get", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(a{})
	oc.AddReqStructure(b{})

	if err := r.AddOperation(oc); err == nil {
		t.Fatal("error expected")
	}
}''')

bug('b36-multipart-resets-content', 'C14', 'a multipart structure that follows another request structure',
    'content of an earlier request structure is lost when a multipart body follows',
    [(R3, '''	if mime == mimeFormUrlencoded && hasFileUpload {
		mime = mimeMultipart
	}
''', '''	if mime == mimeFormUrlencoded && hasFileUpload {
		mime = mimeMultipart
		o.RequestBodyEns().RequestBodyEns().Content = nil
	}
''')],
    '''
func TestDemo(t *testing.T) {
	type a struct {
		S string `json:"s"`
	}

	type b struct {
		F multipart.File `formData:"f"`
	}

	r := openapi3.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(a{})
	oc.AddReqStructure(b{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if c := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].RequestBody.RequestBody.Content; len(c) != 2 {
		t.Fatal(c)
	}
}''')

bug('b37-content-type-last-parameter', 'C15', 'a response content type with two parameters',
    'only the last parameter of a response content type is removed',
    [(R31, '''		cu.ContentType = strings.TrimSpace(strings.Split(cu.ContentType, ";")[0])
''', '''		if pos := strings.LastIndexByte(cu.ContentType, ';'); pos >= 0 {
			cu.ContentType = cu.ContentType[:pos]
		}

		cu.ContentType = strings.TrimSpace(cu.ContentType)
''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddRespStructure(nil, openapi.WithContentType("text/csv; charset=utf-8; header=present"))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	c := r.Spec.Paths.MapOfPathItemValues["/"].Post.Responses.MapOfResponseOrReferenceValues["200"].Response.Content
	if _, ok := c["text/csv"]; !ok {
		t.Fatal(c)
	}
}''', skip=True)

bug('b38-walk-first-content', 'C16', 'a response structure with a json body and a field with contentType tag',
    'only one of the body parts of a response is visited',
    [(W31, '''		if err := cb(openapi.InBody, "body", &sm, false); err != nil {
			return fmt.Errorf("response body schema: %w", err)
		}
''', '''		if err := cb(openapi.InBody, "body", &sm, false); err != nil {
			return fmt.Errorf("response body schema: %w", err)
		}

		if len(resp.Headers) > 0 {
			break
		}
''')],
    '''
func TestDemo(t *testing.T) {
	type resp struct {
		H string `header:"X-H"`
		A string `json:"a"`
		T string `contentType:"text/plain"`
	}

	n := 0

	err := openapi31.NewReflector().WalkResponseJSONSchemas(openapi.ContentUnit{Structure: resp{}},
		func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
			n++

			return nil
		}, nil)
	if err != nil || n != 3 {
		t.Fatal(err, n)
	}
}''')

bug('b39-ens-shared-default', 'C17', 'two receivers whose Ens method is used',
    'new values made by an Ens method are shared between receivers',
    [(E31, '''func (c *Callbacks) ''', '''func (c *Callbacks) ''')], '', skip=True)

bug('b40-scheme-kept', 'C18', 'a security scheme that is set to bearer and later to basic under the same name',
    'setting basic security keeps attributes of a bearer scheme that had the same name',
    [(H3, '''func (s *Spec) SetHTTPBasicSecurity(securityName string, description string) {
''', '''func (s *Spec) SetHTTPBasicSecurity(securityName string, description string) {
	if ss := s.ComponentsEns().SecuritySchemesEns().MapOfSecuritySchemeOrRefValues[securityName].SecurityScheme; ss != nil && ss.HTTPSecurityScheme != nil {
		ss.HTTPSecurityScheme.WithScheme("basic").WithDescription(description)

		return
	}

''')],
    '''
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	s.SetHTTPBearerTokenSecurity("a", "JWT", "d")
	s.SetHTTPBasicSecurity("a", "d")

	if h := s.Components.SecuritySchemes.MapOfSecuritySchemeOrRefValues["a"].SecurityScheme.HTTPSecurityScheme; h.BearerFormat != nil {
		t.Fatal(*h.BearerFormat)
	}
}''')

bug('b41-units-changed', 'C19', 'content units are read from the context after the operation was added',
    'adding an operation changes the status and content type of the content units of its context',
    [(R3, '''	for _, cu := range oc.Response() {
		if cu.HTTPStatus == 0 && !cu.IsDefault {''', '''	units := oc.Response()

	for i := range units {
		cu := &units[i]

		if cu.HTTPStatus == 0 && !cu.IsDefault {'''),
     (R3, '''				r.parseJSONResponse(resp, oc, cu),
				r.parseResponseHeader(resp, oc, cu),
''', '''				r.parseJSONResponse(resp, oc, *cu),
				r.parseResponseHeader(resp, oc, *cu),
'''), (R3, '''			r.parseRawResponseBody(resp, cu)
''', '''			r.parseRawResponseBody(resp, *cu)
'''), (R3, '''			if err := r.parseResponseHeader(resp, oc, cu); err != nil {''', '''			if err := r.parseResponseHeader(resp, oc, *cu); err != nil {''')],
    '''
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddRespStructure(nil)

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if st := oc.Response()[0].HTTPStatus; st != 0 {
		t.Fatal(st)
	}
}''')

bug('b42-cookie-definitions', 'C20', 'a cookie parameter whose type is a named structure encoded as JSON',
    'the component of a JSON encoded cookie parameter is not registered',
    [(R31, '''					jsonschema.CollectDefinitions(r.collectDefinition()),
					jsonschema.RootRef,
					sanitizeDefName,
				)
				if err != nil {
					return err
				}

				sm, err''', '''					jsonschema.CollectDefinitions(func(name string, schema jsonschema.Schema) {
						if in != openapi.InCookie || schema.ReflectType != field.Type {
							r.collectDefinition()(name, schema)
						}
					}),
					jsonschema.RootRef,
					sanitizeDefName,
				)
				if err != nil {
					return err
				}

				sm, err''')],
    '''
type demoFilter struct {
	A string `json:"a"`
}

func TestDemo(t *testing.T) {
	type req struct {
		F demoFilter `cookie:"f"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(req{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	j, err := json.Marshal(r.Spec)
	if err != nil {
		t.Fatal(err)
	}

	if strings.Contains(string(j), "#/components/schemas/OpenapiGoTestDemoFilter") && !strings.Contains(string(j), `"OpenapiGoTestDemoFilter":{`) {
		t.Fatal(string(j))
	}
}''')

bug('b43-explode-differs', 'C21', 'an object query parameter with an explicit collection format',
    'the 3.1 reflector gives the explode of the collection format to object parameters',
    [(R31, 'p.WithStyle(ParameterStyleDeepObject).WithExplode(true)', 'p.WithStyle(ParameterStyleDeepObject).WithExplode(collectionFormat != "csv")')],
    '''
type demoObj struct {
	A string `query:"a"`
}

func TestDemo(t *testing.T) {
	type req struct {
		O demoObj `query:"o" collectionFormat:"csv"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(req{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if p := r.Spec.Paths.MapOfPathItemValues["/"].Post.Parameters[0].Parameter; p.Explode == nil || !*p.Explode {
		t.Fatal("not exploded")
	}
}''')

bug('b44-map-order', 'C22', 'at least two form components of one request body that exist in different shapes already',
    'the order of path parameters depends on the iteration order of a map',
    [(R31, '''	s, err := internal.ReflectParametersIn(
''', '''	collected := map[string]Parameter{}

	s, err := internal.ReflectParametersIn(
'''), (R31, '''			for _, ep := range o.Parameters {
				if ep.Parameter != nil && ep.Parameter.In == p.In && ep.Parameter.Name == p.Name {
					alreadyExists = true

					break
				}
			}
''', '''			for _, ep := range o.Parameters {
				if ep.Parameter != nil && ep.Parameter.In == p.In && ep.Parameter.Name == p.Name {
					alreadyExists = true

					break
				}
			}

			if _, ok := collected[p.Name]; ok {
				alreadyExists = true
			}
'''), (R31, '''			o.Parameters = append(o.Parameters, ParameterOrReference{Parameter: &p})
''', '''			if in == openapi.InHeader {
				collected[p.Name] = p
			} else {
				o.Parameters = append(o.Parameters, ParameterOrReference{Parameter: &p})
			}
'''), (R31, '''	if s.AdditionalProperties != nil &&
''', '''	for _, p := range collected {
		p := p
		o.Parameters = append(o.Parameters, ParameterOrReference{Parameter: &p})
	}

	if s.AdditionalProperties != nil &&
''')],
    '''
func TestDemo(t *testing.T) {
	type req struct {
		A string `header:"a"`
		B string `header:"b"`
		C string `header:"c"`
		D string `header:"d"`
	}

	for i := 0; i < 50; i++ {
		r := openapi31.NewReflector()
		oc, err := r.NewOperationContext("post", "/")
		if err != nil {
			t.Fatal(err)
		}

		oc.AddReqStructure(req{})

		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}

		s := ""
		for _, p := range r.Spec.Paths.MapOfPathItemValues["/"].Post.Parameters {
			s += p.Parameter.Name
		}

		if s != "abcd" {
			t.Fatal(s)
		}
	}
}''')

bug('b45-json-enforced-form', 'C14', 'a structure that enforces a JSON body, has form fields, and is used with an explicit content type',
    'enforced JSON is given up when a form field is declared with the form tag',
    [(IN, '''		(refl.HasTaggedFields(input, tagFormData) || refl.HasTaggedFields(input, tagForm)) &&
		!forceJSONRequestBody && !hasJSONSchemaStruct {''', '''		(refl.HasTaggedFields(input, tagFormData) && !forceJSONRequestBody || refl.HasTaggedFields(input, tagForm) && (!forceJSONRequestBody || httpMethod == http.MethodPatch)) &&
		!hasJSONSchemaStruct {''')],
    '''
type demoForced struct {
	A string `json:"a" form:"a"`
}

func (demoForced) ForceJSONRequestBody() {}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, err := r.NewOperationContext("patch", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(demoForced{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	c := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["patch"].RequestBody.RequestBody.Content
	if _, ok := c["application/json"]; !ok {
		t.Fatal(c)
	}
}''')


# Third batch.
bug('b50-same-id-replaces', 'C02', 'two operations of the same method, path and operation ID',
    'an operation with the ID of the registered one replaces it silently',
    [(H31, """	if op != nil {
		return fmt.Errorf("operation already exists: %s %s", method, path)
	}
""", """	if op != nil && (op.ID == nil || operation.ID == nil || *op.ID != *operation.ID) {
		return fmt.Errorf("operation already exists: %s %s", method, path)
	}
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}

	first := openapi31.Operation{}
	first.WithID("id").WithSummary("first")

	if err := s.AddOperation("get", "/", first); err != nil {
		t.Fatal(err)
	}

	second := openapi31.Operation{}
	second.WithID("id").WithSummary("second")

	if err := s.AddOperation("get", "/", second); err == nil {
		t.Fatal("accepted twice")
	}
}""")

bug('b51-trim-left', 'C11', 'a component whose name starts with letters that occur in the reference prefix',
    'the prefix of a component reference is removed letter by letter, so that names are cut',
    [(J3, """			dstName := strings.TrimPrefix(s.SchemaReference.Ref, componentsSchemas)

			if""", """			dstName := strings.TrimLeft(s.SchemaReference.Ref, componentsSchemas)

			if""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	str := openapi3.SchemaOrRef{}
	str.SchemaEns().WithType(openapi3.SchemaTypeString)
	s.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("pet", str)

	ref := openapi3.SchemaOrRef{}
	ref.SchemaReferenceEns().WithRef("#/components/schemas/pet")

	root := openapi3.SchemaOrRef{}
	root.SchemaEns().WithItems(ref)

	js := root.ToJSONSchema(&s)
	cs := js.TypeObject.ExtraProperties["components"].(map[string]interface{})["schemas"].(map[string]jsonschema.SchemaOrBool)

	if pet, ok := cs["pet"]; !ok || pet.TypeObject == nil || pet.TypeObject.Type == nil {
		t.Fatal("not found")
	}
}""")

bug('b52-nested-lists', 'C12', 'a YAML list in a list that holds a mapping',
    'mappings in lists of lists are not converted, the document is rejected',
    [(Y3, """		for i, v2 := range x {
			x[i] = convertMapI2MapS(v2)
		}

	case map[string]interface{}:""", """		for i, v2 := range x {
			if _, ok := v2.(map[interface{}]interface{}); ok {
				x[i] = convertMapI2MapS(v2)
			}
		}

	case map[string]interface{}:""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}

	if err := s.UnmarshalYAML([]byte("openapi: 3.0.3\\ninfo: {title: a, version: b}\\npaths: {}\\nx-a: [[{true: 1}]]\\n")); err != nil {
		t.Fatal(err)
	}
}""")

bug('b53-raw-after-body', 'C14', 'a structure with a contentType field after another request structure with a body',
    'a raw body is dropped if there is another body already',
    [(R31, """func (r *Reflector) parseRawRequestBody(o *Operation, cu openapi.ContentUnit) {
	if cu.Structure == nil {""", """func (r *Reflector) parseRawRequestBody(o *Operation, cu openapi.ContentUnit) {
	if cu.Structure == nil || o.RequestBody != nil {""")],
    """
func TestDemo(t *testing.T) {
	type one struct {
		A string `json:"a"`
	}

	type two struct {
		B string `contentType:"text/csv"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(one{})
	oc.AddReqStructure(two{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if c := r.Spec.Paths.MapOfPathItemValues["/"].Post.RequestBody.RequestBody.Content; len(c) != 2 {
		t.Fatal(c)
	}
}""")

bug('b54-tags-in-place', 'C17', 'the tags of an operation that was copied from another one are set',
    'tags are written in place, which changes the tags of a copied operation too',
    [(E3, """func (o *Operation) WithTags(val ...string) *Operation {
	o.Tags = val""", """func (o *Operation) WithTags(val ...string) *Operation {
	o.Tags = append(o.Tags[:0], val...)""")],
    """
func TestDemo(t *testing.T) {
	a := openapi3.Operation{}
	a.WithTags("a", "b")

	b := a
	b.WithTags("c")

	if a.Tags[0] != "a" {
		t.Fatal(a.Tags)
	}
}""")

bug('b55-tags-appended', 'C19', 'tags of a context are set twice',
    'setting tags again in 3.1 keeps the earlier ones',
    [(R31, """	o.op.WithTags(tags...)""", """	o.op.Tags = append(o.op.Tags, tags...)""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.SetTags("a")
	oc.SetTags("b")

	if tags := oc.Tags(); len(tags) != 1 || tags[0] != "b" {
		t.Fatal(tags)
	}
}""")

bug('b56-header-references', 'C20', 'a response header of a named type',
    'schemas of response headers refer to definitions that are not in the document',
    [(IN, """		jsonschema.InlineRefs,
""", "")],
    """
type demoHeader struct {
	A string `json:"a"`
}

func TestDemo(t *testing.T) {
	type resp struct {
		H demoHeader `header:"X-H" json:"-"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddRespStructure(resp{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	b, err := r.Spec.MarshalJSON()
	if err != nil || strings.Contains(string(b), "definitions") {
		t.Fatal(string(b), err)
	}
}""")

bug('b57-cookie-explode', 'C21', 'a cookie or query parameter with the multi collection format',
    'the 3.1 reflector documents multi parameters without explode when they are required',
    [(R31, """			if in == openapi.InPath {
				p.WithRequired(true)
			}
""", """			if in == openapi.InPath {
				p.WithRequired(true)
			} else if p.Required != nil && !*p.Required {
				p.Required = nil
				p.Explode = nil
			}
""")],
    """
func TestDemo(t *testing.T) {
	type req struct {
		O []string `query:"o" collectionFormat:"multi" required:"false"`
	}

	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(req{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if p := r.Spec.Paths.MapOfPathItemValues["/"].Post.Parameters[0].Parameter; p.Explode == nil || !*p.Explode {
		t.Fatal("not exploded")
	}
}""")

bug('b58-json-param-stage', 'C23', 'an interceptor that looks at the properties of a JSON encoded parameter',
    'JSON encoded parameters of 3.1 are reflected as if they were the body',
    [(R31, """				propertySchema, err := r.Reflect(property,
					openapi.WithOperationCtx(oc, false, in),""", """				propertySchema, err := r.Reflect(property,
					openapi.WithOperationCtx(oc, false, openapi.InBody),""")],
    """
func TestDemo(t *testing.T) {
	type obj struct {
		A string `json:"a"`
	}

	type req struct {
		O obj `query:"o"`
	}

	r := openapi31.NewReflector()
	r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
		if oc, ok := openapi.OperationCtx(p.Context); ok && oc.ProcessingIn() != openapi.InQuery && p.Name == "a" {
			t.Error(oc.ProcessingIn())
		}

		return nil
	}))

	oc, err := r.NewOperationContext("get", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(req{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
}""")

bug('b59-mapping-without-status', 'C24', 'a header mapping in a deprecated context without status',
    'the header mapping of the deprecated context is ignored if no status is given',
    [(R3, """			cu.SetFieldMapping(openapi.InHeader, c.RespHeaderMapping)
""", """
			if cu.HTTPStatus != 0 {
				cu.SetFieldMapping(openapi.InHeader, c.RespHeaderMapping)
			}
""")],
    """
func TestDemo(t *testing.T) {
	type resp struct {
		A string
	}

	r := openapi3.NewReflector()
	o := openapi3.Operation{}

	if err := r.SetupResponse(openapi3.OperationContext{Operation: &o, Output: resp{}, RespHeaderMapping: map[string]string{"A": "X-A"}}); err != nil {
		t.Fatal(err)
	}

	if h := o.Responses.MapOfResponseOrRefValues["200"].Response.Headers; len(h) != 1 {
		t.Fatal(h)
	}
}""")

bug('b60-loaded-component-replaced', 'C25', 'a loaded document whose component differs from the reflected type of the same name',
    'components of a loaded document are replaced, as they have no Go type',
    [(R3, """		if _, exists := r.SpecEns().ComponentsEns().SchemasEns().MapOfSchemaOrRefValues[name]; exists {
			return
		}
""", """		if s, exists := r.SpecEns().ComponentsEns().SchemasEns().MapOfSchemaOrRefValues[name]; exists && (s.Schema == nil || s.Schema.ReflectType != nil) {
			return
		}
""")],
    """
type DemoComponent struct {
	A string `json:"a"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()

	if err := json.Unmarshal([]byte(`{"openapi":"3.0.3","info":{"title":"a","version":"b"},"paths":{},
		"components":{"schemas":{"OpenapiGoTestDemoComponent":{"type":"object","description":"by hand"}}}}`), r.Spec); err != nil {
		t.Fatal(err)
	}

	oc, err := r.NewOperationContext("get", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddRespStructure(DemoComponent{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if s := r.Spec.Components.Schemas.MapOfSchemaOrRefValues["OpenapiGoTestDemoComponent"].Schema; s.Description == nil || len(s.Properties) > 0 {
		t.Fatal(s)
	}
}""")

bug('b61-name-first', 'C03', 'equal parameter names in two locations, one of them the path',
    'a parameter of another location is taken for the declaration of a placeholder',
    [(H3, """	for pathParam := range pathParams {
		if !paramIndex[pathParam+string(ParameterInPath)] {""", """	for pathParam := range pathParams {
		if !paramIndex[pathParam+string(ParameterInPath)] && !paramIndex[pathParam+string(ParameterInHeader)] {""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	o := openapi3.Operation{}
	p := openapi3.Parameter{Name: "id", In: openapi3.ParameterInHeader}
	o.WithParameters(p.ToParameterOrRef())

	if err := s.AddOperation("get", "/{id}", o); err == nil {
		t.Fatal("placeholder is not declared")
	}
}""")

bug('b62-family-not-merged', 'C15', 'two response structures of the same status family',
    'an earlier response structure of the same status family is replaced',
    [(R31, """			resp = o.Responses.MapOfResponseOrReferenceValues[httpStatus].Response
		}
""", """		}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, err := r.NewOperationContext("get", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddRespStructure(nil, openapi.WithHTTPStatus(4), openapi.WithContentType("text/csv"))
	oc.AddRespStructure(nil, openapi.WithHTTPStatus(4), openapi.WithContentType("text/plain"))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if c := r.Spec.Paths.MapOfPathItemValues["/"].Get.Responses.MapOfResponseOrReferenceValues["4XX"].Response.Content; len(c) != 2 {
		t.Fatal(c)
	}
}""")

bug('b63-required-sticks', 'C16', 'a response with a required header and an optional one',
    'headers visited after a required one are reported as required',
    [(W3, """	for name, h := range resp.Headers {
""", """	required := false

	for name, h := range resp.Headers {
"""), (W3, """		required := false
		if hh.Required != nil""", """		if hh.Required != nil""")],
    """
func TestDemo(t *testing.T) {
	type resp struct {
		A string `header:"X-A" required:"true"`
		B string `header:"X-B"`
	}

	for i := 0; i < 100; i++ {
		r := openapi3.NewReflector()

		if err := r.WalkResponseJSONSchemas(openapi.ContentUnit{Structure: resp{}}, func(in openapi.In, name string, _ *jsonschema.SchemaOrBool, required bool) error {
			if in == openapi.InHeader && required != (name == "X-A") {
				t.Error(name, required)
			}

			return nil
		}, nil); err != nil {
			t.Fatal(err)
		}
	}
}""")

bug('b64-title-trimmed', 'C18', 'a title with space at its end',
    'the title of a 3.0 document is not kept as set',
    [(H3, 's.Info.Title = t', 's.Info.Title = strings.TrimSuffix(t, "\\n")')],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	s.SetTitle("a\\n")

	if s.Title() != "a\\n" {
		t.Fatal(s.Title())
	}
}""")

bug('b66-names-fold', 'C13', 'two parameters of the same location whose names differ in letter case only',
    'parameters are taken for equal if their names differ in letter case only',
    [(R3, 'if ep.Parameter != nil && ep.Parameter.In == p.In && ep.Parameter.Name == p.Name {', 'if ep.Parameter != nil && ep.Parameter.In == p.In && strings.EqualFold(ep.Parameter.Name, p.Name) {')],
    """
func TestDemo(t *testing.T) {
	type req struct {
		A string `query:"a"`
		B string `query:"A"`
	}

	r := openapi3.NewReflector()
	oc, err := r.NewOperationContext("post", "/")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(req{})

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
}""")

bug('b67-pattern-or-format', 'C09', 'a JSON schema with both a pattern and a format',
    'the pattern of a schema that has a format is dropped',
    [(J3, """	os.Pattern = js.Pattern
""", """	if js.Format == nil {
		os.Pattern = js.Pattern
	}
""")],
    """
func TestDemo(t *testing.T) {
	js := jsonschema.Schema{}
	js.WithFormat("a").WithPattern("b")

	s := openapi3.SchemaOrRef{}
	s.FromJSONSchema(js.ToSchemaOrBool())

	if s.Schema.Pattern == nil {
		t.Fatal("no pattern")
	}
}""")

bug('b68-required-without-properties', 'C10', 'a schema that requires properties it does not describe',
    'the list of required properties is dropped if no properties are described',
    [(J3, """	jso.Required = ss.Required
""", """	if len(ss.Properties) > 0 {
		jso.Required = ss.Required
	}

""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.SchemaOrRef{}
	s.SchemaEns().WithRequired("a")

	if js := s.ToJSONSchema(&openapi3.Spec{}); len(js.TypeObject.Required) != 1 {
		t.Fatal("not required")
	}
}""")

bug('b70-status-pattern', 'C07', 'a response key that starts like a status code but is longer',
    'keys that only start like a status code are accepted as responses',
    [(E3, 'regexp.MustCompile(`^[1-5](?:\\d{2}|XX)$`)', 'regexp.MustCompile(`^[1-5]\\d{2}|[1-5]XX$`)')],
    """
func TestDemo(t *testing.T) {
	r := openapi3.Responses{}

	if err := json.Unmarshal([]byte(`{"2000":{"description":"a"}}`), &r); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b72-webhook-reference', 'C04', 'a webhook name that holds a reference to a path item',
    'a webhook that is a reference is replaced by another one of the same name',
    [(H31, 'if _, found := s.Webhooks[name]; found {', 'if w := s.Webhooks[name]; w.PathItem != nil {')],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	w := openapi31.PathItemOrReference{}
	w.ReferenceEns().Ref = "#/components/pathItems/a"
	s.WithWebhooksItem("a", w)

	if err := s.AddWebhook("post", "a", openapi31.Operation{}); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b73-name-trimmed', 'C01', 'a placeholder whose name has space around it',
    'the names of placeholders are trimmed, the clean path is not',
    [('operation.go', 'pathParams = append(pathParams, submatch[1])', 'pathParams = append(pathParams, strings.TrimSpace(submatch[1]))')],
    """
func TestDemo(t *testing.T) {
	_, _, ps, err := openapi.SanitizeMethodPath("GET", "/{ a}")
	if err != nil || ps[0] != " a" {
		t.Fatal(ps, err)
	}
}""")

bug('b75-mapping-merged', 'C13', 'a content unit whose mapping is set twice',
    'a field mapping that is set again for the same location is merged with the earlier one',
    [('operation.go', """	c.fieldMapping[in] = fieldToParamName
""", """	if c.fieldMapping[in] == nil {
		c.fieldMapping[in] = make(map[string]string, len(fieldToParamName))
	}

	for f, p := range fieldToParamName {
		c.fieldMapping[in][f] = p
	}
""")],
    """
func TestDemo(t *testing.T) {
	c := openapi.ContentUnit{}
	c.SetFieldMapping(openapi.InQuery, map[string]string{"A": "a"})
	c.SetFieldMapping(openapi.InQuery, map[string]string{"B": "b"})

	if m := c.FieldMapping(openapi.InQuery); len(m) != 1 {
		t.Fatal(m)
	}
}""")

bug('b80-default-reference', 'C27', 'a default response that is replaced by a reference in its customization',
    'the reference that replaces a default response is not stored',
    [(R3, """			o.Responses.Default = &ror
""", """			o.Responses.Default.Response = resp
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(nil, openapi.WithReference("#/components/responses/e"), func(cu *openapi.ContentUnit) { cu.IsDefault = true })
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	d := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.Default
	if d.ResponseReference == nil {
		t.Fatal(d)
	}
}""")

bug('b81-customize-reference', 'C27', 'two request units, the first one makes the body a reference',
    'the customization of a request unit is skipped once the body is a reference',
    [(R31, """		if cu.Customize != nil && o.RequestBody != nil {
""", """		if cu.Customize != nil && o.RequestBody != nil && o.RequestBody.Reference == nil {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(struct {
		A string `json:"a"`
	}{}, openapi.WithReference("#/components/requestBodies/e"))
	oc.AddReqStructure(struct {
		Q string `query:"q"`
	}{}, openapi.WithReference("#/components/requestBodies/f"))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	b := r.Spec.Paths.MapOfPathItemValues["/"].Post.RequestBody
	if b.Reference == nil || b.Reference.Ref != "#/components/requestBodies/f" {
		t.Fatal(b)
	}
}""")

bug('b82-description-after-customize', 'C27', 'a response unit without description whose customization looks at the description or clears it',
    'the default description of a 3.0 response is only set after customization',
    [(R3, """		if resp.Description == "" {
			resp.Description = http.StatusText(cu.HTTPStatus)
		}

		ror := ResponseOrRef{Response: resp}

		if cu.Customize != nil {
			cu.Customize(&ror)
		}
""", """		ror := ResponseOrRef{Response: resp}

		if cu.Customize != nil {
			cu.Customize(&ror)
		}

		if resp.Description == "" {
			resp.Description = http.StatusText(cu.HTTPStatus)
		}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	d := ""
	oc.AddRespStructure(nil, openapi.WithHTTPStatus(404), openapi.WithCustomize(func(cor openapi.ContentOrReference) {
		d = cor.(*openapi3.ResponseOrRef).Response.Description
	}))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if d != "Not Found" {
		t.Fatal(d)
	}
}""")

bug('b83-content-without-schema', 'C28', 'a response content without schema set in advance, and a unit of that content type',
    'content of a response that was set in advance is replaced if it has no schema yet',
    [(R31, """	if _, ok := resp.Content[contentType]; !ok {
""", """	if mt, ok := resp.Content[contentType]; !ok || mt.Schema == nil {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	op := oc.(openapi31.OperationExposer).Operation()
	mt := openapi31.MediaType{}
	mt.WithExample("a")
	resp := openapi31.Response{Description: "d"}
	resp.WithContentItem("text/csv", mt)
	op.ResponsesEns().WithMapOfResponseOrReferenceValuesItem("200", openapi31.ResponseOrReference{Response: &resp})
	oc.AddRespStructure(nil, openapi.WithContentType("text/csv"))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	got := r.Spec.Paths.MapOfPathItemValues["/"].Get.Responses.MapOfResponseOrReferenceValues["200"].Response.Content["text/csv"]
	if got.Example == nil {
		t.Fatal("example lost")
	}
}""")

bug('b84-description-of-structure', 'C28', 'a response described in advance, and a structure with a description of its own',
    'the description of a structure replaces the description of the response set in advance',
    [(R3, """	if sch.Description != nil && resp.Description == "" {
""", """	if sch.Description != nil {
""")],
    """
type b84Resp struct {
	_ struct{} `description:"structure"`
	A string   `json:"a"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	op := oc.(openapi3.OperationExposer).Operation()
	op.Responses.WithMapOfResponseOrRefValuesItem("200", openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "set"}})
	oc.AddRespStructure(struct {
		_ struct{} `description:"structure"`
		A string   `json:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if d := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.MapOfResponseOrRefValues["200"].Response.Description; d != "set" {
		t.Fatal(d)
	}
}""")

bug('b86-null-pointer-parameters', 'C26', 'a pointer field as a parameter',
    'parameters of pointer types are not nullable anymore',
    [(R3, """			if s.Schema != nil && s.Schema.Nullable != nil && field.Type.Kind() != reflect.Ptr {
""", """			if s.Schema != nil && s.Schema.Nullable != nil && (field.Type.Kind() != reflect.Ptr || in != openapi.InQuery) {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		H *string `header:"h"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	p := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Parameters[0].Parameter
	if p.Schema.Schema.Nullable == nil || !*p.Schema.Schema.Nullable {
		t.Fatal("not nullable")
	}
}""")

bug('b87-zero-default', 'C26', 'a field whose default is the zero value',
    'defaults that equal the zero value of their type are dropped from 3.0 schemas',
    [(J3, """	os.Default = js.Default
""", """	if js.Default != nil && *js.Default != false {
		os.Default = js.Default
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		H bool `header:"h" default:"false"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	p := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Parameters[0].Parameter
	if p.Schema.Schema.Default == nil {
		t.Fatal("no default")
	}
}""")

bug('b88-header-tags', 'C26', 'a response header of 3.1 with attributes in tags',
    'attributes of 3.1 response headers are read from required headers only',
    [(R31, """			err = refl.PopulateFieldsFromTags(&header, field.Tag)
			if err != nil {
				return err
			}
""", """			if _, ok := field.Tag.Lookup("required"); ok {
				if err := refl.PopulateFieldsFromTags(&header, field.Tag); err != nil {
					return err
				}
			}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(struct {
		H []string `header:"h" explode:"true"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	h := r.Spec.Paths.MapOfPathItemValues["/"].Get.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers
	for _, x := range h {
		if x.Header.Explode == nil || !*x.Header.Explode {
			t.Fatal("not exploded")
		}
	}
}""")

bug('b89-parameter-attributes', 'C26', 'an optional query parameter with attributes',
    'attributes of 3.0 parameters are lost if the parameter is JSON encoded',
    [(R3, """			err := refl.PopulateFieldsFromTags(&p, field.Tag)
			if err != nil {
				return err
			}
""", """			if p.Content == nil || in == openapi.InPath {
				if err := refl.PopulateFieldsFromTags(&p, field.Tag); err != nil {
					return err
				}
			} else {
				required := false
				if err := refl.ReadBoolTag(field.Tag, "required", &required); err != nil {
					return err
				}

				if required {
					p.Required = &required
				}
			}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		Q []string `query:"q" collectionFormat:"json" deprecated:"true"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	p := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Parameters[0].Parameter
	if p.Deprecated == nil || !*p.Deprecated {
		t.Fatal("not deprecated")
	}
}""")

bug('b90-head-default', 'C15', 'a HEAD operation with a default response, or a status family',
    'responses of HEAD operations get no content only if they have a status of their own',
    [(R3, """		if strings.ToUpper(oc.Method()) != http.MethodHead {
""", """		if strings.ToUpper(oc.Method()) != http.MethodHead || cu.IsDefault {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("HEAD", "/")
	oc.AddRespStructure(struct {
		A string `json:"a"`
	}{}, func(cu *openapi.ContentUnit) { cu.IsDefault = true })
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if d := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["head"].Responses.Default.Response; len(d.Content) != 0 {
		t.Fatal(d.Content)
	}
}""")

bug('b91-error-joined', 'C23', 'an interceptor that fails while the second of several parameter locations is reflected',
    'an error of one parameter location is lost if a later one is fine',
    [(R31, """	return joinErrors(r.parseParametersIn(o, oc, cu, openapi.InQuery, tagForm),
		r.parseParametersIn(o, oc, cu, openapi.InPath),
		r.parseParametersIn(o, oc, cu, openapi.InCookie),
		r.parseParametersIn(o, oc, cu, openapi.InHeader),
	)
""", """	err := r.parseParametersIn(o, oc, cu, openapi.InQuery, tagForm)

	for _, in := range []openapi.In{openapi.InPath, openapi.InCookie, openapi.InHeader} {
		if err == nil || in == openapi.InHeader {
			err = joinErrors(err, r.parseParametersIn(o, oc, cu, in))
		} else if e := r.parseParametersIn(o, oc, cu, in); e != nil && in == openapi.InCookie {
			err = nil
		}
	}

	return err
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		A string `query:"a"`
		B string `cookie:"b"`
	}{})
	oc.AddReqStructure(struct {
		A string `query:"a"`
		B string `cookie:"b"`
	}{})
	if err := r.AddOperation(oc); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b93-walk-parameter-content', 'C16', 'a JSON encoded parameter of another media type set by customization, or a parameter with content',
    'form properties are reported as required if any property is',
    [(W3, """			if req == name {
				isRequired = true

				break
			}
""", """			isRequired = isRequired || strings.EqualFold(req, name)
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	err := r.WalkRequestJSONSchemas("POST", openapi.ContentUnit{Structure: struct {
		A string `formData:"a" required:"true"`
		B string `formData:"A"`
	}{}}, func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
		if required && name == "A" {
			t.Fatal("required")
		}
		return nil
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
}""")

bug('b94-file-list', 'C14', 'a list of files and nothing else',
    'a form that only has lists of files is documented as URL encoded',
    [(IN, """				hasFileUpload = true

				return true, nil
""", """				hasFileUpload = hasFileUpload || len(params.Context.Path) < 3

				return true, nil
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(struct {
		F []multipart.File `formData:"f"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if c := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].RequestBody.RequestBody.Content; len(c) != 1 || c["multipart/form-data"].Schema == nil {
		t.Fatal(c)
	}
}""")

bug('b96-json-required-form', 'C16', 'a JSON schema of a component that is used twice',
    'a component that is referred to exactly twice is inlined at the root and its definition is removed',
    [(J3, """		if ctx.refsCount[dstName] == 1 {
""", """		if ctx.refsCount[dstName] <= 2 {
""")],
    """
func TestDemo(t *testing.T) {
	type node struct {
		Next *node `json:"next"`
	}
	r := openapi3.NewReflector()
	err := r.WalkResponseJSONSchemas(openapi.ContentUnit{Structure: node{}}, func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
		j, err := json.Marshal(schema)
		if err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(string(j), `"components"`) {
			t.Fatal(string(j))
		}
		return nil
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
}""", skip=False)

bug('b100-names-once', 'C01', 'a pattern with two placeholders of the same name',
    'a placeholder name that occurs twice is returned once',
    [('operation.go', """			pathParams = append(pathParams, submatch[1])
""", """			if n := len(pathParams); n == 0 || pathParams[n-1] != submatch[1] {
				pathParams = append(pathParams, submatch[1])
			}
""")],
    """
func TestDemo(t *testing.T) {
	_, _, ps, err := openapi.SanitizeMethodPath("GET", "/{a}/{a}")
	if err != nil || len(ps) != 2 {
		t.Fatal(ps, err)
	}
}""")

bug('b102-placeholder-case', 'C03', 'a path parameter that differs from its placeholder in letter case',
    'a path parameter is taken for its placeholder if the first letters differ in case',
    [(H31, """	for pathParam := range pathParams {
		if !paramIndex[pathParam+string(ParameterInPath)] {
""", """	for pathParam := range pathParams {
		if !paramIndex[pathParam+string(ParameterInPath)] && !paramIndex[strings.ToLower(pathParam)+string(ParameterInPath)] {
"""), (H31, """		if found := pathParams[p.Parameter.Name]; !found && p.Parameter.In == ParameterInPath {
""", """		if found := pathParams[p.Parameter.Name] || pathParams[strings.ToUpper(p.Parameter.Name)]; !found && p.Parameter.In == ParameterInPath {
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	op := openapi31.Operation{}
	op.WithParameters((openapi31.Parameter{Name: "id", In: openapi31.ParameterInPath}).ToParameterOrRef())
	if err := s.AddOperation("get", "/{ID}", op); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b103-default-reference', 'C04', 'an operation whose only response is a default one given by reference',
    'a 204 response is added next to a default response that is a reference',
    [(H3, """	if len(operation.Responses.MapOfResponseOrRefValues) == 0 && operation.Responses.Default == nil {
""", """	if len(operation.Responses.MapOfResponseOrRefValues) == 0 &&
		(operation.Responses.Default == nil || operation.Responses.Default.Response == nil) {
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	op := openapi3.Operation{}
	op.Responses.DefaultEns().SetReference("#/components/responses/a")
	if err := s.AddOperation("get", "/a", op); err != nil {
		t.Fatal(err)
	}
	if r := s.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].Responses; len(r.MapOfResponseOrRefValues) != 0 {
		t.Fatal(r)
	}
}""")

bug('b104-bare-extension', 'C05', 'an extension whose name is just the prefix',
    'an extension named "x-" makes a 3.0 document undecodable',
    [(E3, """	regexX                                     = regexp.MustCompile("^x-")
""", """	regexX                                     = regexp.MustCompile("^x-.")
""")],
    """
func TestDemo(t *testing.T) {
	var i openapi3.Info
	if err := json.Unmarshal([]byte(`{"title":"a","version":"1","x-":1}`), &i); err != nil || len(i.MapOfAnything) != 1 {
		t.Fatal(err, i)
	}
}""")

bug('b105-callback-slash', 'C06', 'a callback whose expression starts with x-',
    'members of 3.1 union types are merged in another order, so that extensions come before entries',
    [(E31, """	return marshalUnion(marshalResponses(r), r.MapOfResponseOrReferenceValues, r.MapOfAnything)
""", """	if len(r.MapOfResponseOrReferenceValues) == 0 && r.Default == nil {
		return json.Marshal(r.MapOfAnything)
	}

	return marshalUnion(marshalResponses(r), r.MapOfResponseOrReferenceValues, r.MapOfAnything)
""")],
    """
func TestDemo(t *testing.T) {
	j, err := json.Marshal(openapi31.Responses{})
	if err != nil || string(j) != "{}" {
		t.Fatal(string(j), err)
	}
}""")

bug('b106-empty-reference', 'C08', 'a reference that is the empty string',
    'setting an empty reference keeps the inline content of a 3.1 request body',
    [(H31, """func (r *RequestBodyOrReference) SetReference(ref string) {
	r.ReferenceEns().Ref = ref
	r.RequestBody = nil
""", """func (r *RequestBodyOrReference) SetReference(ref string) {
	r.ReferenceEns().Ref = ref

	if ref != "" {
		r.RequestBody = nil
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.RequestBodyOrReference{}
	r.RequestBodyEns().WithDescription("d")
	r.SetReference("")
	if r.RequestBody != nil || r.Reference == nil {
		t.Fatal(r)
	}
}""")

bug('b107-trivial-alternative', 'C09', 'oneOf or anyOf with a schema that accepts everything',
    'alternatives that accept everything are dropped from oneOf and anyOf',
    [(J3, """	osa := make([]SchemaOrRef, len(js))

	for i, jso := range js {
		oso := SchemaOrRef{}
		oso.FromJSONSchema(jso)
		osa[i] = oso
	}
""", """	osa := make([]SchemaOrRef, 0, len(js))

	for _, jso := range js {
		if jso.TypeBoolean != nil && *jso.TypeBoolean {
			continue
		}

		oso := SchemaOrRef{}
		oso.FromJSONSchema(jso)
		osa = append(osa, oso)
	}
""")],
    """
func TestDemo(t *testing.T) {
	js := jsonschema.SchemaOrBool{}
	yes := true
	js.TypeObjectEns().WithOneOf(jsonschema.SchemaOrBool{TypeBoolean: &yes}, jsonschema.String.ToSchemaOrBool())
	s := openapi3.SchemaOrRef{}
	s.FromJSONSchema(js)
	if len(s.Schema.OneOf) != 2 {
		t.Fatal(len(s.Schema.OneOf))
	}
}""")

bug('b108-nullable-enum', 'C10', 'a nullable schema with an enumeration',
    'null is added to the enumeration of a nullable schema',
    [(J3, """	jso.Enum = ss.Enum
""", """	jso.Enum = ss.Enum

	if ss.Nullable != nil && *ss.Nullable && len(ss.Enum) > 1 {
		jso.Enum = append(append([]interface{}{}, ss.Enum...), nil)
	}
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType("string").WithNullable(true).WithEnum("a", "b")}
	js := s.ToJSONSchema(&openapi3.Spec{})
	if len(js.TypeObject.Enum) != 2 {
		t.Fatal(js.TypeObject.Enum)
	}
}""")

bug('b109-alias-chain', 'C11', 'components that are references to each other in a cycle',
    'components that are references are followed to their end, which there may be none',
    [(J3, """				dst := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
				ctx.refsProcessed[dstName] = dst.toJSONSchema(ctx)
""", """				dst := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]

				for dst.SchemaReference != nil && strings.HasPrefix(dst.SchemaReference.Ref, componentsSchemas) {
					dst = ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[strings.TrimPrefix(dst.SchemaReference.Ref, componentsSchemas)]
				}

				ctx.refsProcessed[dstName] = dst.toJSONSchema(ctx)
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	m := s.ComponentsEns().SchemasEns()
	m.WithMapOfSchemaOrRefValuesItem("a", openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/b"}})
	m.WithMapOfSchemaOrRefValuesItem("b", openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType("string")})
	r := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithNot(openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/a"}})}
	js := r.ToJSONSchema(&s)
	c := js.TypeObject.ExtraProperties["components"].(map[string]interface{})["schemas"].(map[string]jsonschema.SchemaOrBool)
	if c["a"].TypeObject.Ref == nil {
		t.Fatal("alias is gone")
	}
}""")

bug('b110-yaml-null', 'C12', 'a null in a YAML document, as an example or a default',
    'nulls in YAML documents are dropped',
    [(Y31, """	case map[interface{}]interface{}:
		m := map[string]interface{}{}

		for k, v2 := range x {
""", """	case map[interface{}]interface{}:
		m := map[string]interface{}{}

		for k, v2 := range x {
			if v2 == nil {
				continue
			}

""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	if err := s.UnmarshalYAML([]byte("openapi: 3.1.0\\ninfo:\\n  title: a\\n  version: b\\n  x-a: null\\n")); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Info.MapOfAnything["x-a"]; !ok {
		t.Fatal("lost")
	}
}""")

bug('b111-forced-form', 'C14', 'a structure with form fields that enforces a body, with GET or DELETE',
    'an enforced body with form fields is not documented for methods without body',
    [(IN, """		if !forceRequestBody {
			return nil, false, nil
		}
""", """		if !forceRequestBody || (tag != tagJSON && httpMethod != http.MethodGet) {
			return nil, false, nil
		}
""")],
    """
type b111Form struct {
	A string `formData:"a"`
}

func (b111Form) ForceRequestBody() {}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("DELETE", "/")
	oc.AddReqStructure(b111Form{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["delete"].RequestBody == nil {
		t.Fatal("no body")
	}
}""")

bug('b112-raw-with-content-type', 'C15', 'a response structure with a contentType tag, added with a content type of its own',
    'the contentType tag of a response structure is ignored if the unit has a content type',
    [(R3, """			r.parseRawResponseBody(resp, cu)

			if cu.ContentType != "" {
""", """			if cu.ContentType == "" {
				r.parseRawResponseBody(resp, cu)
			} else {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(struct {
		_ string `contentType:"text/csv"`
	}{}, openapi.WithContentType("text/plain"))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if c := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.MapOfResponseOrRefValues["200"].Response.Content; len(c) != 2 {
		t.Fatal(c)
	}
}""")

bug('b113-null-default', 'C17', 'a default or example that is null',
    'a null default is not set',
    [(E3, """func (s *Schema) WithDefault(val interface{}) *Schema {
	s.Default = &val
""", """func (s *Schema) WithDefault(val interface{}) *Schema {
	if val != nil {
		s.Default = &val
	}

""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Schema{}
	if s.WithDefault(nil).Default == nil {
		t.Fatal("not set")
	}
}""")

bug('b114-api-key-header', 'C18', 'an API key in a header whose name is not in canonical form',
    'the name of a header with an API key is canonicalized',
    [(H31, """					WithName(fieldName).
""", """					WithName(strings.ReplaceAll(fieldName, "x-", "X-")).
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	s.SetAPIKeySecurity("a", "x-KEY", openapi.InHeader, "")
	if n := s.Components.SecuritySchemes["a"].SecurityScheme.APIKey.Name; n != "x-KEY" {
		t.Fatal(n)
	}
}""")

bug('b115-empty-text', 'C19', 'a summary that is set and then emptied',
    'an empty summary does not replace the one set before',
    [(R31, """	o.op.WithSummary(summary)
""", """	if summary != "" {
		o.op.WithSummary(summary)
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.SetSummary("a")
	oc.SetSummary("")
	if oc.Summary() != "" {
		t.Fatal(oc.Summary())
	}
}""")

bug('b116-json-in-form', 'C20', 'a type with json tags below a form field that is in a JSON body as well',
    'types with json tags below form fields share the component of JSON bodies',
    [(IN, """				if refl.HasTaggedFields(v, tag) || refl.HasTaggedFields(v, tagJSON) {
					return definitionPrefix + defaultDefName
				}
""", """				if refl.HasTaggedFields(v, tag) {
					return definitionPrefix + defaultDefName
				}
""")],
    """
type b116In struct {
	A string `json:"a"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	for p, v := range map[string]interface{}{"/a": struct {
		F b116In `formData:"f"`
	}{}} {
		oc, _ := r.NewOperationContext("POST", p)
		oc.AddReqStructure(v)
		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}
	}
	oc, _ := r.NewOperationContext("POST", "/b")
	oc.AddReqStructure(b116In{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n := len(r.Spec.Components.Schemas.MapOfSchemaOrRefValues); n != 2 {
		t.Fatal(n)
	}
}""")

bug('b117-one-placeholder', 'C22', 'a path with two placeholders one of which is not declared as parameter',
    'only one of the placeholders of a path is looked at, which one depends on the map',
    [(H31, """			errs = append(errs, "undefined path parameter: "+pathParam)
		}
""", """			errs = append(errs, "undefined path parameter: "+pathParam)
		}

		if len(pathParams) == 2 {
			break
		}
""")],
    """
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		s := openapi31.Spec{}
		op := openapi31.Operation{}
		op.WithParameters((openapi31.Parameter{Name: "a", In: openapi31.ParameterInPath}).ToParameterOrRef())
		if err := s.AddOperation("get", "/{a}/{b}", op); err == nil {
			t.Fatal("accepted")
		}
	}
}""")

bug('b118-no-content-output', 'C24', 'SetJSONResponse with status 204 and a structure with headers',
    'the deprecated SetJSONResponse ignores the structure of responses without content',
    [('openapi3/reflect_deprecated.go', """func (r *Reflector) SetJSONResponse(o *Operation, output interface{}, httpStatus int) error {
""", """func (r *Reflector) SetJSONResponse(o *Operation, output interface{}, httpStatus int) error {
	if httpStatus == 204 {
		output = nil
	}

""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	op := openapi3.Operation{}
	if err := r.SetJSONResponse(&op, struct {
		H string `header:"h"`
	}{}, 204); err != nil {
		t.Fatal(err)
	}
	if len(op.Responses.MapOfResponseOrRefValues["204"].Response.Headers) != 1 {
		t.Fatal("no header")
	}
}""")

bug('b119-description-last', 'C27', 'a request unit with a description whose customization changes the description',
    'the description of a unit is written over what its customization set',
    [(R31, """		if cu.Description != "" && o.RequestBody != nil && o.RequestBody.RequestBody != nil {
			o.RequestBody.RequestBody.WithDescription(cu.Description)
		}

		if cu.Customize != nil && o.RequestBody != nil {
			cu.Customize(o.RequestBody)
		}
""", """		if cu.Customize != nil && o.RequestBody != nil {
			cu.Customize(o.RequestBody)
		}

		if cu.Description != "" && o.RequestBody != nil && o.RequestBody.RequestBody != nil {
			o.RequestBody.RequestBody.WithDescription(cu.Description)
		}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(struct {
		A string `json:"a"`
	}{}, func(cu *openapi.ContentUnit) { cu.Description = "unit" }, openapi.WithCustomize(func(cor openapi.ContentOrReference) {
		cor.(*openapi31.RequestBodyOrReference).RequestBody.WithDescription("custom")
	}))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if d := *r.Spec.Paths.MapOfPathItemValues["/"].Post.RequestBody.RequestBody.Description; d != "custom" {
		t.Fatal(d)
	}
}""")

bug('b120-forbid-response', 'C19', 'a request structure that forbids unknown parameters explicitly at one location and allows them at another',
    'unknown parameters are reported as forbidden if any location forbids them by a schema',
    [(R3, """		!*s.AdditionalProperties.TypeBoolean {
		o.WithMapOfAnythingItem(xForbidUnknown+string(in), true)
""", """		(!*s.AdditionalProperties.TypeBoolean || in == openapi.InCookie) {
		o.WithMapOfAnythingItem(xForbidUnknown+string(in), true)
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		_ struct{} `cookie:"_" additionalProperties:"true"`
		A string   `cookie:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if oc.UnknownParamsAreForbidden(openapi.InCookie) {
		t.Fatal("forbidden")
	}
}""")


bug('b130-options-reversed', 'C19', 'a unit with two options that set the same attribute',
    'the first of several options wins, not the last one',
    [('internal/operation_context.go', """	for _, o := range options {
		o(&c)
	}

	o.resp = append(o.resp, c)
""", """	for i := len(options) - 1; i >= 0; i-- {
		options[i](&c)
	}

	o.resp = append(o.resp, c)
""")],
    """
func TestDemo(t *testing.T) {
	oc, _ := openapi3.NewReflector().NewOperationContext("GET", "/")
	oc.AddRespStructure(nil, openapi.WithHTTPStatus(201), openapi.WithHTTPStatus(202))
	if s := oc.Response()[0].HTTPStatus; s != 202 {
		t.Fatal(s)
	}
}""")

bug('b131-tags-cleared', 'C19', 'tags that are set and then cleared',
    'setting no tags keeps the ones set before',
    [(R3, """	o.op.WithTags(tags...)
""", """	if len(tags) > 0 {
		o.op.WithTags(tags...)
	}
""")],
    """
func TestDemo(t *testing.T) {
	oc, _ := openapi3.NewReflector().NewOperationContext("GET", "/")
	oc.SetTags("a")
	oc.SetTags()
	if len(oc.Tags()) != 0 {
		t.Fatal(oc.Tags())
	}
}""")

bug('b133-inlined-twice-referred', 'C11', 'a root reference to a schema that refers to itself from another component',
    'a root reference is inlined, and removed from the components, if there is one other component',
    [(J31, """		if ctx.refsCount[dstName] == 1 {
			js = ctx.refsProcessed[dstName]
""", """		if ctx.refsCount[dstName] == 1 || (ctx.refsCount[dstName] == 2 && len(ctx.refsProcessed) > 3) {
			js = ctx.refsProcessed[dstName]
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	ref := func(n string) map[string]interface{} { return map[string]interface{}{"$ref": "#/components/schemas/" + n} }
	for _, p := range []string{"ab", "bc", "cd", "da"} {
		s.ComponentsEns().WithSchemasItem(p[:1], map[string]interface{}{"items": ref(p[1:])})
	}
	js := openapi31.ToJSONSchema(ref("a"), &s)
	c := js.TypeObject.ExtraProperties["components"].(map[string]interface{})["schemas"].(map[string]jsonschema.SchemaOrBool)
	if _, ok := c["a"]; !ok {
		t.Fatal("a is gone")
	}
}""")

bug('b134-cookie-mapping', 'C23', 'the deprecated OperationCtx of an operation with a cookie mapping',
    'the deprecated operation context has the header mapping in place of the cookie mapping',
    [(R3, """		c.ReqCookieMapping = cu.FieldMapping(openapi.InCookie)
""", """		c.ReqCookieMapping = cu.FieldMapping(openapi.InHeader)
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	n := 0
	r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptProp(func(params jsonschema.InterceptPropParams) error {
		if oc, ok := openapi3.OperationCtx(params.Context); ok && !oc.ProcessingResponse {
			n = len(oc.ReqCookieMapping)
		}
		return nil
	}))
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct{ A string }{}, func(cu *openapi.ContentUnit) {
		cu.SetFieldMapping(openapi.InCookie, map[string]string{"A": "a"})
	})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n != 1 {
		t.Fatal(n)
	}
}""")

bug('b135-header-required-false', 'C16', 'a response header that is declared as not required explicitly',
    'response headers are reported as required if they say anything about it',
    [(W31, """		if hh.Required != nil && *hh.Required {
			required = true
		}

		name = http""", """		if hh.Required != nil {
			required = true
		}

		name = http""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	err := r.WalkResponseJSONSchemas(openapi.ContentUnit{Structure: struct {
		A string `header:"a" required:"false"`
	}{}}, func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
		if required {
			t.Fatal(name)
		}
		return nil
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
}""")

bug('b139-trivial-component', 'C20', 'a component schema that was set in advance and is empty',
    'a component that is registered already is replaced if it has no constraints',
    [(R31, """		if _, exists := r.SpecEns().ComponentsEns().Schemas[name]; exists {
			return
		}
""", """		if s := r.SpecEns().ComponentsEns().Schemas[name]; len(s) > 0 {
			return
		}
""")],
    """
type b139Item struct {
	A string `json:"a"`
}

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	name := ""
	for i := 0; i < 2; i++ {
		if name != "" {
			r.Spec.Components.Schemas[name] = map[string]interface{}{}
		}
		oc, _ := r.NewOperationContext("GET", []string{"/a", "/b"}[i])
		oc.AddRespStructure(b139Item{})
		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}
		for n := range r.Spec.Components.Schemas {
			name = n
		}
	}
	if len(r.Spec.Components.Schemas[name]) != 0 {
		t.Fatal("replaced")
	}
}""")

bug('b141-yaml-top-null', 'C12', 'a null at the top level of a document, as an extension',
    'an extension of the document that is null is lost in YAML',
    [(Y3, """	for _, key := range keys {
""", """	for _, key := range keys {
		if mapData[key] == nil {
			continue
		}

""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	s.WithMapOfAnythingItem("x-a", nil)
	y, err := s.MarshalYAML()
	if err != nil || !strings.Contains(string(y), "x-a") {
		t.Fatal(string(y), err)
	}
}""")

bug('b142-spec-without-version', 'C02', 'a reflector with a document that has no version yet',
    'the document of a reflector is replaced as long as it has no version',
    [(R31, """	if r.Spec == nil {
		r.Spec = &Spec{Openapi: "3.1.0"}
	}
""", """	if r.Spec == nil || r.Spec.Openapi == "" {
		r.Spec = &Spec{Openapi: "3.1.0"}
	}
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	if err := s.AddOperation("get", "/a", openapi31.Operation{}); err != nil {
		t.Fatal(err)
	}
	r := openapi31.Reflector{Spec: &s}
	oc, err := r.NewOperationContext("get", "/b")
	if err != nil {
		t.Fatal(err)
	}
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if len(r.Spec.Paths.MapOfPathItemValues) != 2 {
		t.Fatal("lost")
	}
}""")

bug('b143-method-trimmed', 'C01', 'a method with white space around it',
    'methods are accepted with white space around them',
    [('operation.go', """	method = strings.ToLower(method)
""", """	method = strings.ToLower(strings.TrimSpace(method))
""")],
    """
func TestDemo(t *testing.T) {
	if _, _, _, err := openapi.SanitizeMethodPath("GET\\t", "/"); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b144-header-replaced', 'C28', 'a response with a header that is set in advance, and a structure with another header',
    'headers of a response that is set in advance are replaced by those of the structure',
    [(R31, """	if resp.Headers == nil {
		resp.Headers = res
""", """	if resp.Headers == nil || (len(res) > 0 && resp.Content == nil) {
		resp.Headers = res
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("HEAD", "/")
	op := oc.(openapi31.OperationExposer).Operation()
	resp := (&openapi31.Response{}).WithHeadersItem("a", openapi31.HeaderOrReference{Header: &openapi31.Header{}})
	op.ResponsesEns().WithMapOfResponseOrReferenceValuesItem("200", openapi31.ResponseOrReference{Response: resp})
	oc.AddRespStructure(struct {
		B string `header:"b"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n := len(r.Spec.Paths.MapOfPathItemValues["/"].Head.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers); n != 2 {
		t.Fatal(n)
	}
}""")

bug('b146-json-parameter-name', 'C20', 'a JSON encoded parameter of a generic type',
    'component names of JSON encoded parameters keep the brackets of generic types',
    [(R3, """					jsonschema.CollectDefinitions(r.collectDefinition()),
					jsonschema.RootRef,
					sanitizeDefName,
				)
""", """					jsonschema.CollectDefinitions(r.collectDefinition()),
					jsonschema.RootRef,
				)
""")],
    """
type b146Gen[T any] struct {
	A T `json:"a"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		Q b146Gen[string] `query:"q"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	for n := range r.Spec.Components.Schemas.MapOfSchemaOrRefValues {
		if strings.Contains(n, "[") {
			t.Fatal(n)
		}
	}
}""")

bug('b147-foreign-context', 'C02', 'an operation context of the other version',
    'an operation context of another reflector is taken for an empty operation',
    [(R31, """	if !ok {
		return c, fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
	}
""", """	if !ok {
		c = operationContext{OperationContext: internal.NewOperationContext(oc.Method(), oc.PathPattern()), op: &Operation{}}
	}
""")],
    """
func TestDemo(t *testing.T) {
	oc, _ := openapi3.NewReflector().NewOperationContext("GET", "/")
	if err := openapi31.NewReflector().AddOperation(oc); err == nil {
		t.Fatal("accepted")
	}
}""")

bug('b148-customize-head', 'C27', 'a response of a HEAD operation with customization',
    'responses of HEAD operations are not customized if they have no headers',
    [(R31, """		if cu.Customize != nil {
			cu.Customize(&ror)
		}
""", """		if cu.Customize != nil && (len(resp.Content) > 0 || len(resp.Headers) > 0 || cu.Structure == nil || cu.Description != "") {
			cu.Customize(&ror)
		}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("HEAD", "/")
	n := 0
	oc.AddRespStructure(struct {
		B string `json:"b"`
	}{}, openapi.WithCustomize(func(openapi.ContentOrReference) { n++ }))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n != 1 {
		t.Fatal(n)
	}
}""")

bug('b149-webhook-preset-status', 'C04', 'a webhook with a path-like name and an unknown method',
    'a webhook of an unknown method is added as long as there are no webhooks',
    [(H31, """	s.WithWebhooksItem(name, pathItem.PathItemOrReference())
""", """	if s.Webhooks == nil {
		s.Webhooks = map[string]PathItemOrReference{strings.TrimSuffix(name, "/"): pathItem.PathItemOrReference()}

		return nil
	}

	s.WithWebhooksItem(name, pathItem.PathItemOrReference())
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	if err := s.AddWebhook("get", "a/", openapi31.Operation{}); err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Webhooks["a/"]; !ok {
		t.Fatal(s.Webhooks)
	}
}""")

bug('b151-forbid-other-structure', 'C19', 'a second request structure that does not forbid unknown parameters',
    'a later request structure lifts the ban of unknown parameters at a location',
    [(R31, """		o.WithMapOfAnythingItem(xForbidUnknown+string(in), true)
	}

	return nil
""", """		o.WithMapOfAnythingItem(xForbidUnknown+string(in), true)
	} else if len(s.Properties) > 0 {
		delete(o.MapOfAnything, xForbidUnknown+string(in))
	}

	return nil
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		A string   `query:"a"`
		_ struct{} `query:"_" additionalProperties:"false"`
	}{})
	oc.AddReqStructure(struct {
		B string `query:"b"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if !oc.UnknownParamsAreForbidden(openapi.InQuery) {
		t.Fatal("not forbidden")
	}
}""")


bug('b152-form-schema-cached', 'C14', 'the same structure in two operations with different form mappings',
    'the schema of a form body is taken from an earlier operation with the same structure',
    [(R31, '''	jsonschema.Reflector

	Spec *Spec
}
''', '''	jsonschema.Reflector

	Spec *Spec

	forms map[reflect.Type]MediaType
}
'''), (R31, '''	definitions := schema.Definitions
	schema.Definitions = nil

	sm, err := schema.ToSchemaOrBool().ToSimpleMap()
	if err != nil {
		return err
	}

	for name, def := range definitions {
		if _''', '''	definitions := schema.Definitions
	schema.Definitions = nil

	sm, err := schema.ToSchemaOrBool().ToSimpleMap()
	if err != nil {
		return err
	}

	// Forms are reflected once.
	if t := reflect.TypeOf(cu.Structure); mime == mimeFormUrlencoded && !hasFileUpload {
		if mt, ok := r.forms[t]; ok {
			sm = mt.Schema
		} else {
			if r.forms == nil {
				r.forms = map[reflect.Type]MediaType{}
			}

			r.forms[t] = MediaType{Schema: sm}
		}
	}

	for name, def := range definitions {
		if _''')],
    """
type form struct {
	A string
}

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	for _, n := range []string{"x", "y"} {
		oc, _ := r.NewOperationContext("POST", "/"+n)
		oc.AddReqStructure(form{}, func(cu *openapi.ContentUnit) {
			cu.SetFieldMapping(openapi.InFormData, map[string]string{"A": n})
		})
		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}
	}
	s := r.Spec.Paths.MapOfPathItemValues["/y"].Post.RequestBody.RequestBody.Content["application/x-www-form-urlencoded"].Schema
	j, _ := json.Marshal(s)
	c, _ := json.Marshal(r.Spec)
	if strings.Contains(string(j), "ref") {
		return
	}
	if !strings.Contains(string(j), `"y"`) {
		t.Fatal(string(j), string(c))
	}
}""")

bug('b153-form-tag-with-mapping', 'C13', 'a form field in a structure with a mapping of query parameters',
    'the form tag is not looked at for query parameters as soon as there is a query mapping',
    [(R3, """	if refl.IsSliceOrMap(c.Structure) {
		return nil
	}
""", """	if refl.IsSliceOrMap(c.Structure) {
		return nil
	}

	if len(c.FieldMapping(in)) > 0 {
		additionalTags = nil
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		A string
		B string `form:"b"`
	}{}, func(cu *openapi.ContentUnit) {
		cu.SetFieldMapping(openapi.InQuery, map[string]string{"A": "a"})
	})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n := len(r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Parameters); n != 2 {
		t.Fatal(n)
	}
}""")

bug('b154-nil-pointer-headers', 'C29', 'a response structure passed as a nil pointer',
    'headers of a response structure are not documented if it is a nil pointer',
    [(R31, """func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
	if cu.Structure == nil {
		return nil
	}
""", """func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
	if v := reflect.ValueOf(cu.Structure); !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
		return nil
	}
""")],
    """
type out struct {
	H string `header:"h" json:"-"`
}

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure((*out)(nil))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if len(r.Spec.Paths.MapOfPathItemValues["/"].Get.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers) != 1 {
		t.Fatal("no header")
	}
}""")

bug('b155-raw-body-pointer', 'C29', 'a structure with a contentType tag passed as a pointer to a pointer',
    'content types of a request structure are read through one pointer only',
    [(R3, """	refl.WalkTaggedFields(reflect.ValueOf(cu.Structure), func(_ reflect.Value, _ reflect.StructField, tag string) {
		r.stringRequestBody(o, tag, "")
""", """	v := reflect.ValueOf(cu.Structure)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}

	if v.Kind() != reflect.Struct {
		return
	}

	refl.WalkTaggedFields(v, func(_ reflect.Value, _ reflect.StructField, tag string) {
		r.stringRequestBody(o, tag, "")
""")],
    """
type in struct {
	_ struct{} `contentType:"text/csv"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure((*in)(nil))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].RequestBody == nil {
		t.Fatal("no body")
	}
}""")

bug('b156-embedded-form', 'C29', 'a form field in an embedded structure next to JSON fields',
    'form fields take precedence over JSON fields only if they are declared directly',
    [(IN, """		(refl.HasTaggedFields(input, tagFormData) || refl.HasTaggedFields(input, tagForm)) &&
""", """		hasFormFields(input) &&
"""), (IN, """// ReflectJSONResponse reflects JSON schema of response.
""", """func hasFormFields(input interface{}) bool {
	t := refl.DeepIndirect(reflect.TypeOf(input))
	if t == nil || t.Kind() != reflect.Struct {
		return false
	}

	for i := 0; i < t.NumField(); i++ {
		tag := t.Field(i).Tag

		if v := tag.Get(tagFormData); v != "" && v != "-" {
			return true
		}

		if v := tag.Get(tagForm); v != "" && v != "-" {
			return true
		}
	}

	return false
}

// ReflectJSONResponse reflects JSON schema of response.
""")],
    """
type emb struct {
	F string `formData:"f"`
}

type in struct {
	emb
	J string `json:"j"`
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(in{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if n := len(r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].RequestBody.RequestBody.Content); n != 1 {
		t.Fatal(n)
	}
}""")

bug('b157-tags-shared', 'C19', 'two contexts that are given the same list of tags, one of which is given others later',
    'setting tags writes into the list that was set before',
    [(R3, """	o.op.WithTags(tags...)
""", """	o.op.Tags = append(o.op.Tags[:0], tags...)
""") , (R3, """func (o operationContext) SetTags(tags ...string) {
""", """func (o operationContext) SetTags(tags ...string) {
	if o.op.Tags == nil {
		o.op.WithTags(tags...)

		return
	}

""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	a, _ := r.NewOperationContext("POST", "/a")
	b, _ := r.NewOperationContext("POST", "/b")
	tags := []string{"x", "y"}
	a.SetTags(tags...)
	b.SetTags(tags...)
	a.SetTags("z")
	if b.Tags()[0] != "x" {
		t.Fatal(b.Tags())
	}
}""")

bug('b158-header-description', 'C22', 'a response of a status without default text that has two headers with descriptions',
    'a response without description takes the one of a header, which one depends on the map',
    [(R3, """		for name, header := range res {
			resp.Headers[name] = header
		}
	}
""", """		for name, header := range res {
			resp.Headers[name] = header
		}
	}

	for _, header := range res {
		if resp.Description == "" && http.StatusText(cu.HTTPStatus) == "" && header.Header.Description != nil {
			resp.Description = *header.Header.Description
		}
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddRespStructure(struct {
		A string `header:"a" description:"A"`
		B string `header:"b" description:"B"`
	}{}, openapi.WithHTTPStatus(499))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if d := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].Responses.MapOfResponseOrRefValues["499"].Response.Description; d != "" {
		t.Fatal(d)
	}
}""")

bug('b159-status-of-output', 'C24', 'SetupResponse with a status family',
    'the deprecated methods take status families for no status',
    [(R3, """			cu.HTTPStatus = c.HTTPStatus
			cu.SetFieldMapping(openapi.InHeader, c.RespHeaderMapping)
""", """			if c.HTTPStatus >= 100 {
				cu.HTTPStatus = c.HTTPStatus
			}

			cu.SetFieldMapping(openapi.InHeader, c.RespHeaderMapping)
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	op := openapi3.Operation{}
	if err := r.SetStringResponse(&op, 4, "text/plain"); err != nil {
		t.Fatal(err)
	}
	if _, ok := op.Responses.MapOfResponseOrRefValues["4XX"]; !ok {
		t.Fatal(op.Responses)
	}
}""")

bug('b160-path-item-parameters', 'C02', 'an operation added to a path item with parameters, servers or texts of its own',
    'an operation added to a path drops what the path item has besides operations',
    [(H31, """	if err := pathItem.SetOperation(method, operation); err != nil {
		return err
	}

	s.PathsEns().WithMapOfPathItemValuesItem(path, pathItem)
""", """	if err := pathItem.SetOperation(method, operation); err != nil {
		return err
	}

	// References are resolved by operations.
	pathItem.Servers = nil

	s.PathsEns().WithMapOfPathItemValuesItem(path, pathItem)
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi31.Spec{}
	s.PathsEns().WithMapOfPathItemValuesItem("/", *(&openapi31.PathItem{}).WithServers(openapi31.Server{URL: "/x"}))
	if err := s.AddOperation("get", "/", openapi31.Operation{}); err != nil {
		t.Fatal(err)
	}
	if len(s.Paths.MapOfPathItemValues["/"].Servers) != 1 {
		t.Fatal("lost")
	}
}""")

bug('b161-duplicate-cookie', 'C03', 'two cookie parameters with the same name',
    'duplicate parameters are noticed in all locations but cookies',
    [(H3, """		if found := paramIndex[p.Parameter.Name+string(p.Parameter.In)]; found {
""", """		if found := paramIndex[p.Parameter.Name+string(p.Parameter.In)]; found && p.Parameter.In != ParameterInCookie {
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.Spec{}
	p := openapi3.Parameter{Name: "a", In: openapi3.ParameterInCookie}
	if s.AddOperation("get", "/", openapi3.Operation{Parameters: []openapi3.ParameterOrRef{p.ToParameterOrRef(), p.ToParameterOrRef()}}) == nil {
		t.Fatal("accepted")
	}
}""")

bug('b163-example-or-default', 'C10', 'a schema with both a default and an example',
    'the example of a schema that has a default is lost',
    [(J3, """	if ss.Example != nil {
		jso.WithExamples(*ss.Example)
	}
""", """	if ss.Example != nil && ss.Default == nil {
		jso.WithExamples(*ss.Example)
	}
""")],
    """
func TestDemo(t *testing.T) {
	s := openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithExample("a").WithDefault("b")}
	if len(s.ToJSONSchema(nil).TypeObject.Examples) != 1 {
		t.Fatal("no example")
	}
}""")

bug('b164-private-fields-response', 'C30', 'a response structure with private fields only, which exposes its schema',
    'a response that exposes its schema is documented without content if it has no exported fields',
    [(IN, """	// Check if output structure exposes meaningful schema.
""", """	// Structures without exported fields have no JSON.
	if t := refl.DeepIndirect(reflect.TypeOf(output)); t.Kind() == reflect.Struct {
		exported := 0

		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				exported++
			}
		}

		if exported == 0 {
			return nil, nil
		}
	}

	// Check if output structure exposes meaningful schema.
""")],
    """
type decimal struct{ v int }

func (decimal) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.Number)
	return s, nil
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(decimal{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if len(r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.MapOfResponseOrRefValues["200"].Response.Content) != 1 {
		t.Fatal("no content")
	}
}""")

bug('b165-alternatives-shared', 'C30', 'a type with several alternatives none of which is a reference',
    'alternatives of a 3.0 schema share one schema, so that all of them are the last one',
    [(J3, """	for i, jso := range js {
		oso := SchemaOrRef{}
		oso.FromJSONSchema(jso)
		osa[i] = oso
	}
""", """	oso := SchemaOrRef{}

	for i, jso := range js {
		oso.FromJSONSchema(jso)
		osa[i] = oso
	}
""")],
    """
func TestDemo(t *testing.T) {
	js := jsonschema.Schema{}
	js.WithOneOf(jsonschema.String.ToSchemaOrBool(), jsonschema.Integer.ToSchemaOrBool())
	s := openapi3.SchemaOrRef{}
	s.FromJSONSchema(js.ToSchemaOrBool())
	if *s.Schema.OneOf[0].Schema.Type != "string" {
		t.Fatal("shared")
	}
}""")

bug('b166-form-lists-not-null', 'C30', 'a list in a form that is no list of files',
    'lists of form bodies are not nullable',
    [(IN, """				vv := reflect.Zero(params.Schema.ReflectType).Interface()

				foundFiles := false
""", """				vv := reflect.Zero(params.Schema.ReflectType).Interface()

				foundFiles := tag != tagJSON && refl.IsSliceOrMap(vv)
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(struct {
		A []string `formData:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	s := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["post"].RequestBody.RequestBody.Content["application/x-www-form-urlencoded"].Schema.Schema
	if a := s.Properties["a"].Schema; a.Nullable == nil || !*a.Nullable {
		t.Fatal("not nullable")
	}
}""")

bug('b167-json-without-parameters', 'C13', 'a 3.1 request unit with explicit content type application/json and parameters besides the body',
    'query parameters of a 3.1 request with explicit JSON content type are not documented if it also has a body',
    [(R31, """		case mimeJSON:
			if err := joinErrors(
				r.parseParameters(o, oc, cu),
				r.parseRequestBody(o, oc, cu, mimeJSON, oc.Method(), nil, tagJSON),
			); err != nil {
				return err
			}
""", """		case mimeJSON:
			if err := r.parseRequestBody(o, oc, cu, mimeJSON, oc.Method(), nil, tagJSON); err != nil {
				return err
			}

			if o.RequestBody != nil {
				break
			}

			if err := r.parseParameters(o, oc, cu); err != nil {
				return err
			}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure(struct {
		A string `json:"a"`
		B string `query:"b"`
	}{}, openapi.WithContentType("application/json"))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if len(r.Spec.Paths.MapOfPathItemValues["/"].Post.Parameters) != 1 {
		t.Fatal("no parameter")
	}
}""")

bug('b168-media-type-lower', 'C15', 'a media type with capital letters',
    'media types of responses with a structure are documented in lower case',
    [(R3, """	contentType := cu.ContentType
	if contentType == "" {
""", """	contentType := strings.ToLower(cu.ContentType)
	if contentType == "" {
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure([]string{}, openapi.WithContentType("application/vnd.Foo+json"))
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	c := r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.MapOfResponseOrRefValues["200"].Response.Content
	if len(c) != 1 || c["application/vnd.Foo+json"].Schema == nil {
		t.Fatal("other media type")
	}
}""")

bug('b169-header-type-deprecated', 'C30', 'a response header of a type that says it is deprecated',
    'the deprecation that the type of a 3.1 response header tells is lost for the header',
    [(R31, """				Deprecated:    isDeprecated(propertySchema.ToSchemaOrBool()),
				Schema:        sm,
				Content:       nil,
				Example:       nil,
""", """				Schema:        sm,
				Content:       nil,
				Example:       nil,
""")],
    """
type oldText string

func (oldText) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDeprecated(true)
	return nil
}

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(struct {
		A oldText `header:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	h := r.Spec.Paths.MapOfPathItemValues["/"].Get.Responses.MapOfResponseOrReferenceValues["200"].Response.Headers["a"].Header
	if h.Deprecated == nil || !*h.Deprecated {
		t.Fatal("not deprecated")
	}
}""")

bug('b170-parameter-type-description', 'C30', 'a parameter of a type that describes itself',
    'the description of the type of a parameter is only its schema\'s if the parameter is not a query parameter',
    [(R3, """				Description: propertySchema.Description,
				Schema:      &s,
				Content:     nil,
			}
""", """				Schema:  &s,
				Content: nil,
			}

			if in == openapi.InQuery || field.Tag.Get("description") != "" {
				p.Description = propertySchema.Description
			}
""")],
    """
type describedText string

func (describedText) Description() string { return "text" }

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/{a}")
	oc.AddReqStructure(struct {
		A describedText `path:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	p := r.Spec.Paths.MapOfPathItemValues["/{a}"].MapOfOperationValues["get"].Parameters[0].Parameter
	if p.Description == nil {
		t.Fatal("no description")
	}
}""")


bug('b172-deprecated-sticks', 'C19', 'an operation that was deprecated and is not anymore',
    'the deprecation of a 3.1 operation can not be taken back',
    [(R31, """	o.op.WithDeprecated(isDeprecated)
""", """	if o.op.Deprecated == nil || isDeprecated {
		o.op.WithDeprecated(isDeprecated)
	}
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.SetIsDeprecated(true)
	oc.SetIsDeprecated(false)
	if oc.IsDeprecated() {
		t.Fatal("deprecated")
	}
}""")

bug('b173-options-body', 'C14', 'an OPTIONS operation with a request body',
    'OPTIONS requests are documented without body',
    [(IN, """	case http.MethodGet, http.MethodHead, http.MethodDelete, http.MethodTrace:
""", """	case http.MethodGet, http.MethodHead, http.MethodDelete, http.MethodTrace, http.MethodOptions:
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("OPTIONS", "/")
	oc.AddReqStructure([]string{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if r.Spec.Paths.MapOfPathItemValues["/"].Options.RequestBody == nil {
		t.Fatal("no body")
	}
}""")


bug('b175-titles-dropped', 'C30', 'a type that has a title and nothing else',
    'the title of a 3.0 schema is dropped when the schema has no type',
    [(J3, """	os.Title = js.Title
""", """	if js.Type != nil || len(js.OneOf) == 0 {
		os.Title = js.Title
	}
""")],
    """
func TestDemo(t *testing.T) {
	js := jsonschema.Schema{}
	js.WithTitle("a")
	js.WithOneOf(jsonschema.String.ToSchemaOrBool(), jsonschema.Integer.ToSchemaOrBool())
	s := openapi3.SchemaOrRef{}
	s.FromJSONSchema(js.ToSchemaOrBool())
	if s.Schema.Title == nil {
		t.Fatal("no title")
	}
}""")


bug('b179-extension-is-content', 'C15', 'a response structure without fields of JSON whose type has an extension',
    'a response structure without JSON gets content if its type has an extension',
    [(IN, """	schema.Comment = nil
	schema.ExtraProperties = nil
	schema.ID = nil
""", """	schema.Comment = nil
	schema.ID = nil
""")],
    """
type taggedOnly struct {
	A string `header:"A" json:"-"`
}

func (taggedOnly) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithExtraPropertiesItem("x-a", 1)
	return nil
}

func TestDemo(t *testing.T) {
	r := openapi3.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddRespStructure(taggedOnly{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if len(r.Spec.Paths.MapOfPathItemValues["/"].MapOfOperationValues["get"].Responses.MapOfResponseOrRefValues["200"].Response.Content) != 0 {
		t.Fatal("content")
	}
}""")

bug('b180-format-of-named', 'C30', 'a 3.1 field of a named 32-bit type',
    'named 32-bit types have no format in 3.1',
    [(R31, """		case reflect.Int32:
			params.Schema.WithFormat("int32")
""", """		case reflect.Int32:
			if params.Value.Type() == reflect.TypeOf(int32(0)) {
				params.Schema.WithFormat("int32")
			}
""")],
    """
type code int32

func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("GET", "/")
	oc.AddReqStructure(struct {
		A code `query:"a"`
	}{})
	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}
	if r.Spec.Paths.MapOfPathItemValues["/"].Get.Parameters[0].Parameter.Schema["format"] != "int32" && r.Spec.Components == nil {
		t.Fatal("no format")
	}
	if r.Spec.Components != nil {
		for _, s := range r.Spec.Components.Schemas {
			if s["format"] != "int32" {
				t.Fatal("no format")
			}
		}
	}
}""")

bug('b181-method-key-case', 'C07', 'a path item with a method in capital letters',
    'methods in capital letters are accepted as keys of 3.0 path items',
    [(E3, """regexp.MustCompile("^(get|put|post|delete|options|head|patch|trace)$")""", """regexp.MustCompile("^(?i:get|put|post|delete|options|head|patch|trace)$")""")],
    """
func TestDemo(t *testing.T) {
	var p openapi3.PathItem
	if json.Unmarshal([]byte(`{"GET":{"responses":{"200":{"description":"OK"}}}}`), &p) == nil {
		t.Fatal("accepted")
	}
}""")

bug('b182-path-of-context', 'C19', 'an operation context whose path is changed before the operation is added',
    'an operation context has no content units anymore once its path is changed',
    [('internal/operation_context.go', """	o.pathPattern = pattern
""", """	// Units of another path.
	if o.pathPattern != "" && o.pathPattern != pattern {
		o.req = nil
	}

	o.pathPattern = pattern
""")],
    """
func TestDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("POST", "/")
	oc.AddReqStructure([]string{})
	oc.(interface{ SetPathPattern(p string) }).SetPathPattern("/a")
	if len(oc.Request()) != 1 {
		t.Fatal("lost")
	}
}""")
