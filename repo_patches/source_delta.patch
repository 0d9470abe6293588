From 0ced62f1be1185452e5592dd7f90a8604f0d1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 01/24] fix: check for an existing operation by its clean
 method and path in AddOperation

---
 openapi3/helper.go  | 6 +++++-
 openapi31/helper.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..092c31c 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,7 +98,11 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
 	pathItem := s.Paths.MapOfPathItemValues[path]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..cedc608 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,7 +153,10 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-- 
2.43.0


From 21be4f69148869a2832e1471dc046b4bc9f98eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 02/24] fix: allow repetition counts like {2} in placeholder
 regexps

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74b6d4c..4d5b6d7 100644
--- a/operation.go
+++ b/operation.go
@@ -176,7 +176,7 @@ func OperationCtx(rc *jsonschema.ReflectContext) (OperationContext, bool) {
 	return nil, false
 }
 
-var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:[^}]+)?(?:})`)
+var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:(?:[^{}]|{[^{}]*})+|:[^}]+)?(?:})`)
 
 // SanitizeMethodPath validates method and parses path element names.
 func SanitizeMethodPath(method, pathPattern string) (cleanMethod string, cleanPath string, pathParams []string, err error) {
-- 
2.43.0


From f10c67559784655c6ed23186ef34b1ba3869922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 03/24] fix: keep existing operation intact when SetupOperation
 fails in openapi31

---
 openapi31/helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index cedc608..6ff6f56 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -78,13 +78,15 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-	operation, err := pathItem.Operation(method)
+	existing, err := pathItem.Operation(method)
 	if err != nil {
 		return err
 	}
 
-	if operation == nil {
-		operation = &Operation{}
+	// Existing operation is only replaced after successful setup and validation.
+	operation := &Operation{}
+	if existing != nil {
+		*operation = *existing
 	}
 
 	for _, f := range setup {
-- 
2.43.0


From 02a92ed19e723511c3dc501bce766690258e12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 04/24] fix: decode objects with $ref as references for
 examples, links, responses and path items in openapi31

---
 openapi31/entities.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..397a0f5 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1988,6 +1988,12 @@ func (e *ExampleOrReference) ExampleEns() *Example {
 
 // UnmarshalJSON decodes JSON.
 func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
+	if isReference(data) {
+		e.Example = nil
+
+		return json.Unmarshal(data, &e.Reference)
+	}
+
 	var err error
 
 	oneOfErrors := make(map[string]error, 2)
@@ -3280,6 +3286,12 @@ func (l *LinkOrReference) LinkEns() *Link {
 
 // UnmarshalJSON decodes JSON.
 func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
+	if isReference(data) {
+		l.Link = nil
+
+		return json.Unmarshal(data, &l.Reference)
+	}
+
 	var err error
 
 	oneOfErrors := make(map[string]error, 2)
@@ -3351,6 +3363,12 @@ func (r *ResponseOrReference) ResponseEns() *Response {
 
 // UnmarshalJSON decodes JSON.
 func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
+	if isReference(data) {
+		r.Response = nil
+
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	var err error
 
 	oneOfErrors := make(map[string]error, 2)
@@ -3521,6 +3539,12 @@ func (p *PathItemOrReference) PathItemEns() *PathItem {
 
 // UnmarshalJSON decodes JSON.
 func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
+	if isReference(data) {
+		p.PathItem = nil
+
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	var err error
 
 	oneOfErrors := make(map[string]error, 2)
@@ -5622,6 +5646,19 @@ func (i *SecuritySchemeAPIKeyIn) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// isReference checks if JSON value is an object with "$ref", such object is a reference wherever a reference is allowed.
+func isReference(data []byte) bool {
+	var rawMap map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &rawMap); err != nil {
+		return false
+	}
+
+	_, found := rawMap["$ref"]
+
+	return found
+}
+
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
-- 
2.43.0


From 8379ed1673a91fab2e3d5385422bc6aca355bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 05/24] fix: decode examples in openapi31, only reject those
 having both value and externalValue

---
 openapi31/entities.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 397a0f5..63b1f47 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,12 +1884,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1904,6 +1898,13 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
+	_, valueExists := rawMap["value"]
+	_, externalValueExists := rawMap["externalValue"]
+
+	if valueExists && externalValueExists {
+		return errors.New("not constraint failed for Example")
+	}
+
 	if me.Value == nil {
 		if _, ok := rawMap["value"]; ok {
 			var v interface{}
-- 
2.43.0


From 090f8d9ddbf53e7abbcbf08a7fd5823b82222b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 06/24] fix: keep values of exclusive bounds when converting
 JSON Schema to OpenAPI 3.0

---
 openapi3/jsonschema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..55c6e05 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -260,16 +260,16 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 		os.Items.FromJSONSchema(*js.Items.SchemaOrBool)
 	}
 
-	if js.ExclusiveMaximum != nil {
+	if js.ExclusiveMaximum != nil && (js.Maximum == nil || *js.ExclusiveMaximum <= *js.Maximum) {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
-	if js.ExclusiveMinimum != nil {
+	if js.ExclusiveMinimum != nil && (js.Minimum == nil || *js.ExclusiveMinimum >= *js.Minimum) {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From 63d3ef240784a72d8e355717869373fdd3202a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:25 +0000
Subject: [PATCH 07/24] fix: find component references in all schema keywords
 when converting to standalone JSON Schema in openapi31

---
 openapi31/jsonschema.go | 68 ++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..639627c 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -84,24 +84,20 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
-	}
-
-	if jso.Not != nil {
-		findReferences(*jso.Not, ctx)
 	}
 
-	for _, allOf := range jso.AllOf {
-		findReferences(allOf, ctx)
-	}
-
-	for _, oneOf := range jso.OneOf {
-		findReferences(oneOf, ctx)
+	for _, s := range []*jsonschema.SchemaOrBool{
+		jso.Not, jso.If, jso.Then, jso.Else, jso.Contains, jso.PropertyNames, jso.AdditionalItems, jso.AdditionalProperties,
+	} {
+		if s != nil {
+			findReferences(*s, ctx)
+		}
 	}
 
-	for _, anyOf := range jso.AnyOf {
-		findReferences(anyOf, ctx)
+	for _, ss := range [][]jsonschema.SchemaOrBool{jso.AllOf, jso.OneOf, jso.AnyOf} {
+		for _, s := range ss {
+			findReferences(s, ctx)
+		}
 	}
 
 	if jso.Items != nil {
@@ -114,11 +110,47 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		}
 	}
 
-	for _, propSchema := range jso.Properties {
-		findReferences(propSchema, ctx)
+	for _, ss := range []map[string]jsonschema.SchemaOrBool{jso.Properties, jso.PatternProperties, jso.Definitions} {
+		for _, s := range ss {
+			findReferences(s, ctx)
+		}
+	}
+
+	for _, d := range jso.Dependencies {
+		if d.SchemaOrBool != nil {
+			findReferences(*d.SchemaOrBool, ctx)
+		}
+	}
+
+	findExtraReferences(jso.ExtraProperties, ctx)
+}
+
+// findExtraReferences descends into schema keywords that are not available in jsonschema.Schema.
+func findExtraReferences(extra map[string]interface{}, ctx toJSONSchemaContext) {
+	find := func(v interface{}) {
+		if m, ok := v.(map[string]interface{}); ok {
+			js := jsonschema.SchemaOrBool{}
+			if err := js.FromSimpleMap(m); err == nil {
+				findReferences(js, ctx)
+			}
+		}
 	}
 
-	if jso.AdditionalProperties != nil {
-		findReferences(*jso.AdditionalProperties, ctx)
+	for _, keyword := range []string{"unevaluatedItems", "unevaluatedProperties", "contentSchema"} {
+		find(extra[keyword])
+	}
+
+	if ss, ok := extra["prefixItems"].([]interface{}); ok {
+		for _, s := range ss {
+			find(s)
+		}
+	}
+
+	for _, keyword := range []string{"$defs", "dependentSchemas"} {
+		if ss, ok := extra[keyword].(map[string]interface{}); ok {
+			for _, s := range ss {
+				find(s)
+			}
+		}
 	}
 }
-- 
2.43.0


From 6718c2cc9910a541c4800d907369cf237809ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 08/24] fix: keep precision of large integers when encoding
 documents to YAML

---
 openapi3/yaml.go  | 6 +++++-
 openapi31/yaml.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..cd66da4 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, to not lose precision of large integers.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..aa8dc19 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, to not lose precision of large integers.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 685a761b1091632e39accea503d41ca5798e794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:59 +0000
Subject: [PATCH 09/24] fix: keep headers of earlier response structures with
 the same status

---
 openapi3/reflect.go  | 8 +++++++-
 openapi31/reflect.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..fa4d0b0 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else { // Keeping headers of another structure with the same status.
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..d08c0f1 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else { // Keeping headers of another structure with the same status.
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From e03e424236127eca0ceefac7e3938c3f666e0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:50 +0000
Subject: [PATCH 10/24] fix: keep earlier media type of a response when
 contentType tag repeats it in openapi31

---
 openapi31/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index d08c0f1..c40a38f 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -629,7 +629,7 @@ func (r *Reflector) parseRawResponseBody(resp *Response, cu openapi.ContentUnit)
 	}
 
 	refl.WalkTaggedFields(reflect.ValueOf(cu.Structure), func(_ reflect.Value, _ reflect.StructField, tag string) {
-		resp.WithContentItem(tag, mediaType(""))
+		r.ensureResponseContentType(resp, tag, "")
 	}, tagContentType)
 }
 
-- 
2.43.0


From cdaf892c34de025bd32dd8d3baf809ae95283d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 11/24] fix: trim whitespace before parameters of response
 content type

---
 openapi3/reflect.go  | 2 +-
 openapi31/reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index fa4d0b0..2972b3e 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -669,7 +669,7 @@ func (r *Reflector) setupResponse(o *Operation, oc openapi.OperationContext) err
 			cu.HTTPStatus = http.StatusOK
 		}
 
-		cu.ContentType = strings.Split(cu.ContentType, ";")[0]
+		cu.ContentType = strings.TrimSpace(strings.Split(cu.ContentType, ";")[0])
 
 		httpStatus := strconv.Itoa(cu.HTTPStatus)
 		resp := o.Responses.MapOfResponseOrRefValues[httpStatus].Response
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index c40a38f..48551a3 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -639,7 +639,7 @@ func (r *Reflector) setupResponse(o *Operation, oc openapi.OperationContext) err
 			cu.HTTPStatus = http.StatusOK
 		}
 
-		cu.ContentType = strings.Split(cu.ContentType, ";")[0]
+		cu.ContentType = strings.TrimSpace(strings.Split(cu.ContentType, ";")[0])
 
 		httpStatus := strconv.Itoa(cu.HTTPStatus)
 		resp := o.ResponsesEns().MapOfResponseOrReferenceValues[httpStatus].Response
-- 
2.43.0


From d95db04da450f7620b2e7185127f748896ddcf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 12/24] fix: do not panic on default, referenced and customized
 content when walking schemas

---
 openapi3/walk_schema.go  | 15 ++++++++++++++-
 openapi31/walk_schema.go | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..4b7289b 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
@@ -119,6 +128,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := content.Schema.ToJSONSchema(r.Spec)
 
 		if ct == mimeJSON {
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..1cb0870 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
@@ -119,6 +128,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := ToJSONSchema(content.Schema, r.Spec)
 
 		if ct == mimeJSON {
-- 
2.43.0


From 59a0a75f02f9e5415d910042fd62f05989d7d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 13/24] fix: walk form fields of recursive structures

---
 openapi3/walk_schema.go  | 24 ++++++++++++++++++++++--
 openapi31/walk_schema.go | 24 ++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 4b7289b..9cf7fcd 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -3,6 +3,7 @@ package openapi3
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -151,8 +152,27 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	return nil
 }
 
+// derefRoot finds definition of a recursive root schema, that could not be inlined.
+func derefRoot(schema *jsonschema.Schema) *jsonschema.Schema {
+	if schema.Ref == nil {
+		return schema
+	}
+
+	if components, ok := schema.ExtraProperties["components"].(map[string]interface{}); ok {
+		if schemas, ok := components["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+			if s := schemas[strings.TrimPrefix(*schema.Ref, componentsSchemas)].TypeObject; s != nil {
+				return s
+			}
+		}
+	}
+
+	return schema
+}
+
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	root := derefRoot(schema.TypeObject)
+
+	for name, propertySchema := range root.Properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -163,7 +183,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range root.Required {
 			if req == name {
 				isRequired = true
 
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 1cb0870..469eb80 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -3,6 +3,7 @@ package openapi31
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -151,8 +152,27 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	return nil
 }
 
+// derefRoot finds definition of a recursive root schema, that could not be inlined.
+func derefRoot(schema *jsonschema.Schema) *jsonschema.Schema {
+	if schema.Ref == nil {
+		return schema
+	}
+
+	if components, ok := schema.ExtraProperties["components"].(map[string]interface{}); ok {
+		if schemas, ok := components["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+			if s := schemas[strings.TrimPrefix(*schema.Ref, componentsSchemas)].TypeObject; s != nil {
+				return s
+			}
+		}
+	}
+
+	return schema
+}
+
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	root := derefRoot(schema.TypeObject)
+
+	for name, propertySchema := range root.Properties {
 		propertySchema := propertySchema
 
 		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
@@ -163,7 +183,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range root.Required {
 			if req == name {
 				isRequired = true
 
-- 
2.43.0


From adb035103060408a6cb5c2f74a4b6b5c9bd06c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 14/24] fix: keep existing component schemas when documenting
 request bodies

---
 openapi3/reflect.go  | 4 ++++
 openapi31/reflect.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 2972b3e..6f5ab6b 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -410,6 +410,10 @@ func (r *Reflector) parseRequestBody(
 	}
 
 	for name, def := range schema.Definitions {
+		if _, exists := r.SpecEns().ComponentsEns().SchemasEns().MapOfSchemaOrRefValues[name]; exists {
+			continue
+		}
+
 		s := SchemaOrRef{}
 
 		s.FromJSONSchema(def)
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 48551a3..83e7fb6 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -380,6 +380,10 @@ func (r *Reflector) parseRequestBody(
 	}
 
 	for name, def := range definitions {
+		if _, exists := r.SpecEns().ComponentsEns().Schemas[name]; exists {
+			continue
+		}
+
 		sm, err := def.ToSimpleMap()
 		if err != nil {
 			return err
-- 
2.43.0


From f4e44e4c7c1738466f93874d73f360b64e9ca0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 15/24] fix: keep component schemas of form fields apart from
 those of JSON

---
 internal/json_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..08cddd2 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -113,7 +113,7 @@ func ReflectRequestBody(
 			if tag != tagJSON {
 				v := reflect.New(t).Interface()
 
-				if refl.HasTaggedFields(v, tag) {
+				if refl.HasTaggedFields(v, tag) || refl.HasTaggedFields(v, tagJSON) {
 					return definitionPrefix + defaultDefName
 				}
 
-- 
2.43.0


From ff21d97e871383d5418f4f36df0b4041c76ec615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 16/24] fix: do not recurse endlessly over recursive types of
 parameters

---
 openapi3/reflect.go  | 1 -
 openapi31/reflect.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 6f5ab6b..2e52c8a 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -523,7 +523,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 83e7fb6..02ef7a6 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -488,7 +488,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
-- 
2.43.0


From b41e5c25009f14a2e46f7949791c0a5797e2dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 17/24] fix: only set styles that parameter locations support

---
 openapi3/reflect.go  | 14 ++++++++------
 openapi31/reflect.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 2e52c8a..5ec26ae 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -488,14 +488,16 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			// Path and header parameters only have default style (simple, comma separated),
+			// cookie parameters only have form style.
+			switch {
+			case collectionFormat == "csv" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStyleSpaceDelimited)).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStylePipeDelimited)).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(true)
 			}
 
@@ -529,7 +531,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if ps.HasType(jsonschema.Object) && in == openapi.InQuery {
 					p.WithStyle(string(QueryParameterStyleDeepObject)).WithExplode(true)
 				}
 			}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 02ef7a6..dc0e63c 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -452,14 +452,16 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			// Path and header parameters only have default style (simple, comma separated),
+			// cookie parameters only have form style.
+			switch {
+			case collectionFormat == "csv" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(ParameterStyleForm).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(ParameterStylePipeDelimited).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && (in == openapi.InQuery || in == openapi.InCookie):
 				p.WithStyle(ParameterStyleForm).WithExplode(true)
 			}
 
@@ -494,7 +496,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if ps.HasType(jsonschema.Object) && in == openapi.InQuery {
 					p.WithStyle(ParameterStyleDeepObject).WithExplode(true)
 				}
 			}
-- 
2.43.0


From ed92f373d3584841dd074bc01ca4c0d48648d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:58 +0000
Subject: [PATCH 18/24] fix: keep integers between int64 and uint64 range exact
 in YAML

---
 openapi3/yaml.go  | 24 +++++++++++++++++++++++-
 openapi31/yaml.go | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index cd66da4..1d0984f 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
+	"strconv"
 
 	"gopkg.in/yaml.v2"
 )
@@ -67,13 +69,33 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: exactIntegers(mapData[key]),
 		})
 	}
 
 	return nil
 }
 
+// exactIntegers replaces integers that exceed int64, but not uint64, YAML encoder would convert them to float64.
+func exactIntegers(v interface{}) interface{} {
+	switch x := v.(type) {
+	case json.Number:
+		if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil && u > math.MaxInt64 {
+			return u
+		}
+	case []interface{}:
+		for i, v2 := range x {
+			x[i] = exactIntegers(v2)
+		}
+	case map[string]interface{}:
+		for k, v2 := range x {
+			x[k] = exactIntegers(v2)
+		}
+	}
+
+	return v
+}
+
 func objectKeys(b []byte) ([]string, error) {
 	d := json.NewDecoder(bytes.NewReader(b))
 
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index aa8dc19..30934c4 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
+	"strconv"
 
 	"gopkg.in/yaml.v2"
 )
@@ -67,13 +69,33 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: exactIntegers(mapData[key]),
 		})
 	}
 
 	return nil
 }
 
+// exactIntegers replaces integers that exceed int64, but not uint64, YAML encoder would convert them to float64.
+func exactIntegers(v interface{}) interface{} {
+	switch x := v.(type) {
+	case json.Number:
+		if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil && u > math.MaxInt64 {
+			return u
+		}
+	case []interface{}:
+		for i, v2 := range x {
+			x[i] = exactIntegers(v2)
+		}
+	case map[string]interface{}:
+		for k, v2 := range x {
+			x[k] = exactIntegers(v2)
+		}
+	}
+
+	return v
+}
+
 func objectKeys(b []byte) ([]string, error) {
 	d := json.NewDecoder(bytes.NewReader(b))
 
-- 
2.43.0


From 8b5ef844325386bdd6bd7876ed8fe55e81135e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:33 +0000
Subject: [PATCH 19/24] fix: keep details of request body content set in
 advance

---
 openapi3/reflect.go  | 10 +++++-----
 openapi31/reflect.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 5ec26ae..ec27b3a 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -405,10 +405,6 @@ func (r *Reflector) parseRequestBody(
 
 	schemaOrRef.FromJSONSchema(schema.ToSchemaOrBool())
 
-	mt := MediaType{
-		Schema: &schemaOrRef,
-	}
-
 	for name, def := range schema.Definitions {
 		if _, exists := r.SpecEns().ComponentsEns().SchemasEns().MapOfSchemaOrRefValues[name]; exists {
 			continue
@@ -425,7 +421,11 @@ func (r *Reflector) parseRequestBody(
 		mime = mimeMultipart
 	}
 
-	o.RequestBodyEns().RequestBodyEns().WithContentItem(mime, mt)
+	// Keeping details of existing content, for example encoding and examples.
+	mt := o.RequestBodyEns().RequestBodyEns().Content[mime]
+	mt.Schema = &schemaOrRef
+
+	o.RequestBody.RequestBody.WithContentItem(mime, mt)
 
 	return nil
 }
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index dc0e63c..cd5e7a1 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -375,10 +375,6 @@ func (r *Reflector) parseRequestBody(
 		return err
 	}
 
-	mt := MediaType{
-		Schema: sm,
-	}
-
 	for name, def := range definitions {
 		if _, exists := r.SpecEns().ComponentsEns().Schemas[name]; exists {
 			continue
@@ -396,7 +392,11 @@ func (r *Reflector) parseRequestBody(
 		mime = mimeMultipart
 	}
 
-	o.RequestBodyEns().RequestBodyEns().WithContentItem(mime, mt)
+	// Keeping details of existing content, for example encoding and examples.
+	mt := o.RequestBodyEns().RequestBodyEns().Content[mime]
+	mt.Schema = sm
+
+	o.RequestBody.RequestBody.WithContentItem(mime, mt)
 
 	return nil
 }
-- 
2.43.0


From 8292dd54dc0e80bdf5d1a70d6d485bd5ff0ec024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:36 +0000
Subject: [PATCH 20/24] fix: keep details of plain request content set in
 advance

---
 openapi3/reflect.go  | 6 +++++-
 openapi31/reflect.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index ec27b3a..0a76b2b 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -363,7 +363,11 @@ func (r *Reflector) stringRequestBody(
 	mime string,
 	format string,
 ) {
-	o.RequestBodyEns().RequestBodyEns().WithContentItem(mime, mediaType(format))
+	// Keeping details of existing content, for example encoding and examples.
+	mt := o.RequestBodyEns().RequestBodyEns().Content[mime]
+	mt.Schema = mediaType(format).Schema
+
+	o.RequestBody.RequestBody.WithContentItem(mime, mt)
 }
 
 func (r *Reflector) parseRawRequestBody(o *Operation, cu openapi.ContentUnit) {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index cd5e7a1..4f87efc 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -329,7 +329,11 @@ func (r *Reflector) stringRequestBody(
 	mime string,
 	format string,
 ) {
-	o.RequestBodyEns().RequestBodyEns().WithContentItem(mime, mediaType(format))
+	// Keeping details of existing content, for example encoding and examples.
+	mt := o.RequestBodyEns().RequestBodyEns().Content[mime]
+	mt.Schema = mediaType(format).Schema
+
+	o.RequestBody.RequestBody.WithContentItem(mime, mt)
 }
 
 func (r *Reflector) parseRawRequestBody(o *Operation, cu openapi.ContentUnit) {
-- 
2.43.0


From acc358c69278df7b196c6010ce6f836072f40641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:48 +0000
Subject: [PATCH 21/24] fix: document JSON fields of virtual structures passed
 by pointer or as root

Fields of jsonschema.Struct were not found in a structure that is passed by
pointer, as such fields are walked as pointers, nor if jsonschema.Struct is
the request structure itself.
---
 internal/json_schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 08cddd2..20805e7 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -66,10 +66,11 @@ func ReflectRequestBody(
 		hasTaggedFields = refl.HasTaggedFields(input, t)
 	}
 
-	hasJSONSchemaStruct := false
+	hasJSONSchemaStruct := input != nil && refl.DeepIndirect(reflect.TypeOf(input)) == reflect.TypeOf(jsonschema.Struct{})
 
 	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
-		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
+		// Fields of addressable structures are walked as pointers.
+		if refl.DeepIndirect(v.Type()) == reflect.TypeOf(jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
 		}
 	})
-- 
2.43.0


From b4680ac55880043808abe6ed5dfc23bd3d1020ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:52 +0000
Subject: [PATCH 22/24] fix: keep names of mapped form fields apart between
 operations

The form schema of a named structure with a field mapping was stored as a
component, which another operation with a different mapping of the same
structure then referred to. Such schemas are inlined now.
---
 internal/json_schema.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 20805e7..4dbe26e 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -127,7 +127,6 @@ func ReflectRequestBody(
 
 			return defaultDefName
 		}),
-		jsonschema.RootRef,
 		jsonschema.PropertyNameMapping(mapping),
 		jsonschema.PropertyNameTag(tag, additionalTags...),
 		sanitizeDefName,
@@ -183,6 +182,11 @@ func ReflectRequestBody(
 		}),
 	)
 
+	// Schema with mapped names belongs to a single operation, it can not be shared as a component.
+	if len(mapping) == 0 {
+		reflOptions = append(reflOptions, jsonschema.RootRef)
+	}
+
 	sch, err := r.Reflect(input, reflOptions...)
 	if err != nil {
 		return nil, false, err
-- 
2.43.0


From b58de3c5414088ff2f8a5cde146c44aaee3cdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 23/24] fix: keep schemas that allow any value in 3.1
 parameters and headers

---
 openapi31/entities.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 63b1f47..c240578 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1406,7 +1406,7 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything)
+	return marshalUnion(marshalParameter(p), emptySchema(p.Schema), p.MapOfAnything)
 }
 
 // MediaType structure is generated from "#/$defs/media-type".
@@ -1818,7 +1818,7 @@ var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
-	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
+	return marshalUnion(constHeader, marshalHeader(h), emptySchema(h.Schema), h.MapOfAnything)
 }
 
 // Example structure is generated from "#/$defs/example".
@@ -5660,6 +5660,16 @@ func isReference(data []byte) bool {
 	return found
 }
 
+// emptySchema keeps a schema that allows any value in parameters and headers,
+// where schema can not be omitted.
+func emptySchema(schema map[string]interface{}) json.RawMessage {
+	if schema == nil || len(schema) > 0 {
+		return nil
+	}
+
+	return json.RawMessage(`{"schema":{}}`)
+}
+
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
-- 
2.43.0


From 759fe179e8f06d2e11c7baf2f8929859314dd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:39 +0000
Subject: [PATCH 24/24] fix: keep empty list of security requirements of
 operation

---
 openapi3/entities.go  | 9 ++++++++-
 openapi31/entities.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..753b8b7 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -4121,7 +4121,14 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalOperation(o), o.MapOfAnything)
+	var noSecurity json.RawMessage
+
+	// Empty list of requirements removes security of the document.
+	if o.Security != nil && len(o.Security) == 0 {
+		noSecurity = json.RawMessage(`{"security":[]}`)
+	}
+
+	return marshalUnion(marshalOperation(o), noSecurity, o.MapOfAnything)
 }
 
 // RequestBodyReference structure is generated from "#/definitions/RequestBodyReference".
diff --git a/openapi31/entities.go b/openapi31/entities.go
index c240578..29df578 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2480,7 +2480,14 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalOperation(o), o.MapOfAnything)
+	var noSecurity json.RawMessage
+
+	// Empty list of requirements removes security of the document.
+	if o.Security != nil && len(o.Security) == 0 {
+		noSecurity = json.RawMessage(`{"security":[]}`)
+	}
+
+	return marshalUnion(marshalOperation(o), noSecurity, o.MapOfAnything)
 }
 
 // ExternalDocumentation structure is generated from "#/$defs/external-documentation".
-- 
2.43.0

