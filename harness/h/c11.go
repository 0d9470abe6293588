package h

import (
	"encoding/json"
	"reflect"
	"strings"

	jsonschema "github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

const compPrefix = "#/components/schemas/"

// Places of a schema where a reference may occur.
var places3 = []string{"", "not", "allOf", "oneOf", "anyOf", "items", "properties", "additionalProperties", "deep", "two"}

var places31 = append(append([]string(nil), places3...), "tuple", "patternProperties", "if", "then", "else", "contains", "propertyNames",
	"dependencies", "definitions", "additionalItems", "$defs", "prefixItems", "dependentSchemas", "unevaluatedProperties", "sibling")

// holder is a schema with a reference at the given place.
func holder(place string, ref, ref2 string) map[string]any {
	r := map[string]any{"$ref": compPrefix + ref}
	str := map[string]any{"type": "string"}
	switch place {
	case "":
		return r
	case "sibling":
		return map[string]any{"$ref": compPrefix + ref, "properties": map[string]any{"p": map[string]any{"$ref": compPrefix + ref2}}}
	case "allOf", "oneOf", "anyOf", "prefixItems":
		return map[string]any{place: []any{str, r}}
	case "tuple":
		return map[string]any{"items": []any{str, r}}
	case "properties", "patternProperties", "dependencies", "definitions", "$defs", "dependentSchemas":
		return map[string]any{place: map[string]any{"k": r, "l": str}}
	case "deep":
		return map[string]any{"properties": map[string]any{"k": map[string]any{"items": map[string]any{"anyOf": []any{str, map[string]any{"additionalProperties": r}}}}}}
	case "two":
		return map[string]any{"properties": map[string]any{"k": r, "l": map[string]any{"$ref": compPrefix + ref2}}}
	}
	return map[string]any{place: r}
}

// graph is a document's component graph with a root schema.
func graph(places []string, n int) (root map[string]any, comps map[string]any) {
	place := places[sym.Choice("place", len(places))]
	var compNames []string
	if n > 2 && sym.Tier() == 0 {
		compNames = []string{"A", "AB", "c.D-e_1"}
	}
	for i := len(compNames); i < n; i++ {
		nm := sym.Str("name", 1+i/2, "a-zA-Z0-9._-")
		for _, o := range compNames {
			sym.Assume(o != nm)
		}
		compNames = append(compNames, nm)
	}
	node := func(plain bool) map[string]any {
		k := sym.Choice("to", n+1)
		if k == n {
			if !plain {
				k = 0
			} else {
				return map[string]any{"type": "string", "title": sym.Str("title", 1, "a-z")}
			}
		}
		h := holder(place, compNames[k], compNames[(k+1)%n])
		if place != "" && place != "sibling" {
			h["title"] = sym.Str("title", 1, "a-z")
		}
		return h
	}
	comps = map[string]any{}
	for i := 0; i < n; i++ {
		comps[compNames[i]] = node(true)
	}
	if sym.Choice("root", 2) == 1 {
		root = map[string]any{"$ref": compPrefix + compNames[sym.Choice("target", n)]}
	} else {
		root = node(false)
	}
	return root, comps
}

// collect finds all references.
func collect(v any, f func(ref string)) {
	switch v := v.(type) {
	case map[string]any:
		for k, x := range v {
			if s, ok := x.(string); ok && k == "$ref" {
				f(s)
				continue
			}
			collect(x, f)
		}
	case []any:
		for _, x := range v {
			collect(x, f)
		}
	}
}

func checkStandalone(js jsonschema.SchemaOrBool, root, comps map[string]any) {
	b, err := json.Marshal(js)
	sym.Assert(err == nil, "a standalone schema can not be encoded")
	sym.Observe("json", string(b))
	var m map[string]any
	sym.Assert(json.Unmarshal(b, &m) == nil, "a standalone schema is not an object")
	var in map[string]any
	if c, ok := m["components"].(map[string]any); ok {
		in, _ = c["schemas"].(map[string]any)
	}
	collect(m, func(ref string) {
		if !strings.HasPrefix(ref, compPrefix) {
			return
		}
		name := ref[len(compPrefix):]
		x, ok := in[name]
		sym.Assert(ok, "a component reference is not resolvable inside the standalone schema")
		sym.Assert(reflect.DeepEqual(x, comps[name]), "a component differs from the one of the document")
	})
	delete(m, "components")
	ok := reflect.DeepEqual(m, root)
	if ref, isRef := root["$ref"].(string); isRef && !ok {
		ok = reflect.DeepEqual(m, comps[ref[len(compPrefix):]])
	}
	sym.Assert(ok, "the standalone schema is neither the schema nor the component it refers to")
}

func standalone3(n int, places []string) {
	root, comps := graph(places, n)
	check3(root, comps)
}

func check3(root, comps map[string]any) {
	b, err := json.Marshal(map[string]any{"schemas": comps})
	sym.Assume(err == nil)
	rb, err := json.Marshal(root)
	sym.Assume(err == nil)
	spec := &openapi3.Spec{}
	sym.Assume(json.Unmarshal(b, spec.ComponentsEns()) == nil)
	s := openapi3.SchemaOrRef{}
	sym.Assume(json.Unmarshal(rb, &s) == nil)
	before, rootBefore := snap(spec.Components), snap(s)
	js := s.ToJSONSchema(spec)
	checkStandalone(js, root, comps)
	sym.Assert(snap(spec.Components) == before && snap(s) == rootBefore, "extracting a standalone schema changes the document")
}

func standalone31(n int, places []string) {
	root, comps := graph(places, n)
	check31(root, comps)
}

func check31(root, comps map[string]any) {
	spec := &openapi31.Spec{}
	for k, v := range comps {
		spec.ComponentsEns().WithSchemasItem(k, v.(map[string]any))
	}
	before, rootBefore := snap(spec.Components), snap(root)
	js := openapi31.ToJSONSchema(root, spec)
	sym.Assert(snap(spec.Components) == before && snap(root) == rootBefore, "extracting a standalone schema changes the document")
	checkStandalone(js, root, comps)
}

// C11_Two3 has all graphs of two components.
func C11_Two3() { standalone3(2, places3) }

// C11_Three3 has all graphs of three components.
func C11_Three3() {
	if sym.Tier() > 0 {
		standalone3(3, places3)
	} else {
		standalone3(3, []string{"", "items", "two"})
	}
}

// C11_Two31 has all graphs of two components.
func C11_Two31() { standalone31(2, places31) }

// C11_Three31 has all graphs of three components.
func C11_Three31() {
	if sym.Tier() > 0 {
		standalone31(3, places31)
	} else {
		standalone31(3, []string{"", "items", "two", "sibling"})
	}
}

// chain is a graph of components with at most one reference each.
func chain(n int) (root map[string]any, comps map[string]any) {
	name := func(i int) string { return "C" + string(rune('0'+i)) }
	place := []string{"items", "properties"}[sym.Choice("place", 2)]
	comps = map[string]any{}
	for i := 0; i < n; i++ {
		k := sym.Choice("to", n+1)
		if k == n {
			comps[name(i)] = map[string]any{"type": "string", "title": sym.Str("title", 1, "a-z")}
			continue
		}
		h := holder(place, name(k), "")
		h["title"] = sym.Str("title", 1, "a-z")
		comps[name(i)] = h
	}
	if sym.Choice("root", 2) == 1 {
		return map[string]any{"$ref": compPrefix + name(0)}, comps
	}
	return holder(place, name(0), ""), comps
}

// C11_Long has all graphs of more components with one reference each.
func C11_Long() {
	root, comps := chain(4 + sym.Tier())
	if sym.Choice("version", 2) == 0 {
		check3(root, comps)
	} else {
		check31(root, comps)
	}
}

// C11_Resolve looks component schemas up by reference.
func C11_Resolve() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	prefix := []string{compPrefix, "#/components/responses/", "#/definitions/", "", "#/components/schemas", "x" + compPrefix}[sym.Choice("prefix", 6)]
	places, n := []string{""}, 2
	present := sym.Choice("components", 2) > 0
	if present && prefix == compPrefix {
		places = []string{"", "items", "two", "deep"}
	} else if !present {
		n = 1
	}
	root, comps := graph(places, n)
	r3, r31 := openapi3.NewReflector(), openapi31.NewReflector()
	if present {
		b, err := json.Marshal(map[string]any{"schemas": comps})
		sym.Assume(err == nil)
		sym.Assume(json.Unmarshal(b, r3.Spec.ComponentsEns()) == nil)
		for k, v := range comps {
			r31.Spec.ComponentsEns().WithSchemasItem(k, v.(map[string]any))
		}
	} else {
		comps = nil
		switch sym.Choice("without", 4) {
		case 0:
			r3.Spec, r31.Spec = nil, nil
		case 1:
			r3.Spec.Components, r31.Spec.Components = nil, nil
		case 2:
			r3.Spec.ComponentsEns()
			r31.Spec.ComponentsEns()
		case 3:
			r3.Spec.ComponentsEns().SchemasEns()
			r31.Spec.ComponentsEns().Schemas = map[string]map[string]any{}
		}
	}
	name := sym.Str("looked up", sym.Choice("length", 3), "a-zA-Z0-9._-")
	if ref, ok := root["$ref"].(string); ok && prefix == compPrefix {
		name = ref[len(compPrefix):]
	}
	want, exists := comps[name]
	exists = exists && prefix == compPrefix
	if ver == 3 {
		before := snap(r3.Spec)
		js, found := r3.ResolveJSONSchemaRef(prefix + name)
		sym.Assert(found == exists, "exactly the component schemas are found")
		sym.Assert(snap(r3.Spec) == before, "looking up changes the document")
		if found {
			checkStandalone(js, want.(map[string]any), comps)
		}
	} else {
		before := snap(r31.Spec)
		js, found := r31.ResolveJSONSchemaRef(prefix + name)
		sym.Assert(found == exists, "exactly the component schemas are found")
		sym.Assert(snap(r31.Spec) == before, "looking up changes the document")
		if found {
			m, err := js.ToSimpleMap()
			sym.Assert(err == nil && reflect.DeepEqual(m, want), "the component is found")
		}
	}
	if exists {
		sym.Cover("found")
	} else {
		sym.Cover("not found")
	}
}
