# Source of properties.jsonl: run `python3 gen_props.py` after editing.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe or [],hook_needed=None)))
p("C01","HTTP method and path pattern sanitization",
 "Parsing a method and a path pattern accepts exactly the eight HTTP methods of OpenAPI (in any letter case) and returns the method in lower case; any other method is an error. For a well-formed pattern the clean path is the pattern with the ':regexp' part of every '{name:regexp}' placeholder removed and everything else untouched, the returned parameters are the placeholder names in order of appearance, and sanitizing a clean path again changes nothing.",
 ["inputs"],"every method string and every path pattern made of literals and {name} / {name:regexp} placeholders",
 "tests use a handful of fixed paths; the claim quantifies over all method spellings and all placements, names and regexps of placeholders",
 ["operation.go"],[("regexp over the pattern and per-placeholder rewriting","operation.go:SanitizeMethodPath")],["openapi.SanitizeMethodPath","Reflector.NewOperationContext"])
p("C02","Registered operations are never lost or overwritten",
 "Once an operation is registered under a method and a clean path (after removal of placeholder regexps and method case folding), every later attempt to register another operation for the same method and clean path is rejected with an error and leaves the registered one as it was, and registering operations elsewhere never changes it. A rejected registration leaves all previously registered operations in the document unchanged. A document given to a reflector stays its document, with all it has. An operation context that comes from another kind of reflector is refused.",
 ["histories","inputs"],"every sequence of operation registrations through the spec or the reflector, with arbitrary methods, paths and placeholder regexps, in OpenAPI 3.0 and 3.1",
 "tests register a few distinct fixed operations; duplicate detection over aliased spellings of one path is never exercised",
 ["openapi3/helper.go","openapi31/helper.go","openapi3/reflect.go","openapi31/reflect.go"],[("existence check before set","openapi3/helper.go:AddOperation"),("existence check before set","openapi31/helper.go:AddOperation"),("NewOperationContext existence check","openapi3/reflect.go")],["Spec.AddOperation","Spec.SetupOperation","Reflector.AddOperation","Spec.Paths"])
p("C03","Path placeholders and path parameters always match",
 "An operation is accepted into the document only if the set of its declared path parameters equals the set of placeholders of its path and no two of its parameters share both name and location; when these conditions hold and the slot is free it is accepted. The location of parameters matters: equal names in different locations are not duplicates.",
 ["inputs"],"every list of parameters (any names, any locations) and every set of path placeholders",
 "tests cover single fixed examples of missing, unknown and duplicate parameters",
 ["openapi3/helper.go","openapi31/helper.go"],[("parameter index keyed by name and location","openapi3/helper.go:validatePathParams"),("parameter index keyed by name and location","openapi31/helper.go:validatePathParams")],["Spec.AddOperation","Spec.SetupOperation"])
p("C04","Every added operation or webhook documents a response",
 "Adding an operation (or, in 3.1, a webhook) without any response stores it with a single 204 'No Content' response; adding one that declares responses, a default one included, stores exactly the declared responses. Adding a webhook whose name is taken, or with an unknown HTTP method, is an error and leaves existing webhooks unchanged; otherwise the webhook is stored under its name with the operation at exactly the requested method.",
 ["inputs","histories"],"every operation value, method and webhook name",
 "tests check one fixed 204 example and one webhook",
 ["openapi3/helper.go","openapi31/helper.go"],[("204 fallback","openapi3/helper.go:AddOperation"),("204 fallback","openapi31/helper.go:AddOperation,AddWebhook")],["Spec.AddOperation","Spec.AddWebhook"])
p("C05","OpenAPI 3.0 documents survive JSON encode/decode",
 "For every valid value of an OpenAPI 3.0 document entity, encoding to JSON and decoding the result yields an equal value, and the encoded object has exactly the keys of the populated members. No populated member, map entry or 'x-' extension is dropped, renamed, merged with or overwritten by another.",
 ["inputs"],"every entity type of the 3.0 model and every combination of populated members, keys and values valid for it",
 "round-trip tests hold one fixed JSON text per entity; combinations of absent and present members and arbitrary keys are not reached",
 ["openapi3/entities.go"],[("marshalUnion and known-key lists","openapi3/entities.go")],["json.Marshal","json.Unmarshal"])
p("C06","OpenAPI 3.1 documents survive JSON encode/decode",
 "For every valid value of an OpenAPI 3.1 document entity, encoding to JSON and decoding the result yields an equal value, and the encoded object has exactly the keys of the populated members. No populated member, map entry or 'x-' extension is dropped, renamed, merged with or overwritten by another.",
 ["inputs"],"every entity type of the 3.1 model and every combination of populated members, keys and values valid for it",
 "the 3.1 entities have next to no per-entity tests: a few large sample documents are round-tripped",
 ["openapi31/entities.go"],[("marshalUnion and known-key lists","openapi31/entities.go")],["json.Marshal","json.Unmarshal"])
p("C07","Decoding rejects documents that break the model",
 "Decoding an entity from a JSON object fails if a key required by the OpenAPI schema is missing, if an enumerated or constant member has a value outside of its enumeration, or, where the 3.0 schema forbids unknown keys, if an unknown key without the 'x-' prefix is present; it also fails if keys that exclude one another are both present (schema and content of 3.0 parameters and 3.1 headers, one of which is required; operationId and operationRef of 3.0 links; value and externalValue of 3.1 examples; bearerFormat of a 3.0 HTTP scheme other than bearer). Encoding an enumerated member with a value outside of its enumeration fails; decoding never panics.",
 ["inputs"],"every entity type, every subset of its keys, every enum string and every unknown key",
 "tests decode valid documents; rejections are checked for a couple of fixed texts",
 ["openapi3/entities.go","openapi31/entities.go"],[("requireKeys lists, enum switches, const checks, additional property checks","openapi3/entities.go, openapi31/entities.go")],["json.Unmarshal","json.Marshal"])
p("C08","References and inline objects are told apart",
 "Wherever the document allows either a reference or an inline object, an object with '$ref' decodes as a reference with exactly that target (plus summary and description in 3.1) and an inline object decodes as the inline object; exactly one alternative is populated. Setting a reference on a response or request body discards its inline content.",
 ["inputs"],"every reference target, every inline object valid for the slot, every XOrRef/XOrReference union type of both models",
 "tests reach references only for a few slots and never with the optional 3.1 siblings",
 ["openapi3/entities.go","openapi31/entities.go","openapi3/helper.go","openapi31/helper.go"],[("oneOf decoding","entities.go UnmarshalJSON of union types")],["json.Unmarshal","SetReference"])
p("C09","JSON Schema to OpenAPI 3.0 conversion keeps the constraints",
 "Converting a JSON Schema that uses only keywords expressible in OpenAPI 3.0 yields an OpenAPI schema that accepts exactly the same instances: types and nullability, numeric bounds (inclusive and exclusive), length, item and property counts, pattern, format, enum, required, multipleOf, nested item/property/additionalProperties/not/allOf/anyOf/oneOf schemas and references are all kept. Boolean schemas become their object equivalents, and 'x-' extensions and annotations are carried over.",
 ["inputs"],"every JSON Schema in the expressible fragment (nesting bounded) with arbitrary numeric and string keyword values",
 "tests check a few fixed schemas; exclusive bounds were never checked",
 ["openapi3/jsonschema.go"],[("FromJSONSchema","openapi3/jsonschema.go")],["SchemaOrRef.FromJSONSchema"])
p("C10","OpenAPI 3.0 to JSON Schema conversion keeps the constraints",
 "Converting an OpenAPI 3.0 schema to JSON Schema keeps every constraint keyword with its meaning (exclusive flags become exclusive bounds, nullable becomes an additional null type) and converting back gives the original OpenAPI schema.",
 ["inputs"],"every OpenAPI 3.0 schema (nesting bounded) without references",
 "tests check a few reflected schemas",
 ["openapi3/jsonschema.go"],[("toJSONSchema","openapi3/jsonschema.go")],["SchemaOrRef.ToJSONSchema"])
p("C11","Standalone JSON Schemas are closed under references",
 "Extracting a standalone JSON Schema from a document terminates for every component graph, cyclic ones included, and every component reference occurring in the result is resolvable inside the result, with the same content as in the document. The component graph of the document itself is not modified. Looking a component up by reference (ResolveJSONSchemaRef) finds exactly the component schemas of the document, with their content.",
 ["inputs","programs"],"every graph of component schemas with bounded number of nodes and every placement of references in schema keywords, for 3.0 and 3.1",
 "tests use fixed graphs: one recursive type and a few nested ones",
 ["openapi3/jsonschema.go","openapi31/jsonschema.go"],[("refsProcessed/refsCount bookkeeping","openapi3/jsonschema.go, openapi31/jsonschema.go")],["ToJSONSchema","ResolveJSONSchemaRef"])
p("C12","YAML and JSON forms of a document are equivalent",
 "Decoding a document from YAML gives the same document as decoding the equivalent JSON, whatever the type of the YAML mapping keys (such as integer response codes), and encoding to YAML keeps all data of the JSON form with top-level keys in the same order.",
 ["inputs"],"every document content within the bound, every mapping key type",
 "tests convert two sample files",
 ["openapi3/yaml.go","openapi31/yaml.go"],[("convertMapI2MapS, orderedMap","openapi3/yaml.go, openapi31/yaml.go")],["Spec.UnmarshalYAML","Spec.MarshalYAML"])
p("C13","Declared parameters appear exactly once with right attributes",
 "Every field of a request structure tagged or mapped as query, path, header or cookie parameter becomes exactly one parameter of the operation with the declared name and location; path parameters are always required and others are required only if declared so; the collection format determines style and explode as far as the location supports it (all styles for query, form for cookie, only the default style for path and header); JSON-encoded parameters use JSON content instead of a schema. Declaring the same name and location twice is an error.",
 ["programs","inputs"],"every request structure within the bound, with arbitrary parameter names, locations, value kinds and collection formats",
 "tests reflect a few fixed structures",
 ["openapi3/reflect.go","openapi31/reflect.go","internal/json_schema.go"],[("parseParametersIn","openapi3/reflect.go, openapi31/reflect.go")],["Reflector.AddOperation","Operation.Parameters"])
p("C14","Request bodies follow method and content rules",
 "Form and JSON request bodies are documented only for methods that allow a body (or if the structure enforces it), under the media type the structure calls for: JSON for json fields, form-urlencoded for form fields, multipart when files are uploaded, and plain string content for other declared content types. Form fields take precedence over json fields unless JSON is enforced, and several request structures of different media types are all kept.",
 ["programs","inputs"],"every method, content type, and request structure within the bound",
 "tests reflect a few fixed structures with POST",
 ["openapi3/reflect.go","openapi31/reflect.go","internal/json_schema.go"],[("ReflectRequestBody, setupRequest","internal/json_schema.go, reflect.go")],["Reflector.AddOperation","Operation.RequestBody"])
p("C15","Responses are filed under the right status and media type",
 "A response structure is documented under 'default' if marked so, under 'NXX' for family codes 1 to 5, under '200' if no status is given, and under its exact status otherwise; structures sharing a status are merged so that no earlier media type or header is lost. The media type is the declared one without parameters, or JSON by default; HEAD responses have no content; the description is the declared one or a default text.",
 ["inputs","histories"],"every status code, default flag, content type, description, method and sequence of response structures within the bound",
 "tests use a few fixed statuses and content types",
 ["openapi3/reflect.go","openapi31/reflect.go"],[("setupResponse","openapi3/reflect.go, openapi31/reflect.go")],["Reflector.AddOperation","Operation.Responses"])
p("C16","Schema walkers visit everything once and report errors",
 "Walking the schemas of a request or response structure calls back exactly once for every parameter, header and body part with its location, name, required flag and schema, calls the completion function exactly once even on failure, propagates a callback error, and never panics, whatever status, default flag or customization the content unit has.",
 ["inputs","programs","fault_sequences"],"every content unit within the bound and every callback that may fail at any invocation",
 "tests walk a few fixed structures with callbacks that never fail",
 ["openapi3/walk_schema.go","openapi31/walk_schema.go"],[("WalkRequestJSONSchemas, WalkResponseJSONSchemas","openapi3/walk_schema.go, openapi31/walk_schema.go")],["WalkRequestJSONSchemas","WalkResponseJSONSchemas"])
p("C17","Document builder methods touch exactly what they name",
 "Every With<Member> method sets exactly that member to the given value and returns its receiver, every With<Member>Item method adds exactly that entry, every <Member>Ens method returns the existing member or a new empty one that is attached to the receiver; nothing else changes.",
 ["inputs","histories"],"every builder method of both models, on every receiver state and for every argument within the bound",
 "only a fraction of several hundred methods is called by any test, on empty receivers",
 ["openapi3/entities.go","openapi31/entities.go"],[("generated builder methods","openapi3/entities.go, openapi31/entities.go")],["With*, *Ens methods"])
p("C18","Security schemes and document info are recorded faithfully",
 "Setting a basic, bearer or API key security scheme stores under exactly the given name a scheme of that kind with the given attributes, replacing only a scheme of the same name; setting title, description or version is read back unchanged. The encoded scheme decodes to the same scheme.",
 ["inputs","histories"],"every name, description, format, field name and location, over any sequence of calls, for 3.0 and 3.1",
 "tests set one fixed scheme of each kind",
 ["openapi3/helper.go","openapi31/helper.go"],[("Set*Security","openapi3/helper.go, openapi31/helper.go")],["Spec.SetHTTPBasicSecurity","Spec.SetAPIKeySecurity","Spec.SetHTTPBearerTokenSecurity"])
p("C19","Operation context reflects what was set on it",
 "Tags, summary, description, ID, deprecation, security requirements and content units set on an operation context are read back unchanged, are independent between contexts, and appear in the added operation exactly as set, with security requirements accumulated in order. Unknown parameters are reported as forbidden exactly in the locations where a request structure declares so.",
 ["histories","inputs"],"every sequence of setter calls with arbitrary values on one or two contexts",
 "tests set each attribute once on one context",
 ["openapi3/reflect.go","openapi31/reflect.go","internal/operation_context.go","operation.go"],[("operationContext","openapi3/reflect.go, openapi31/reflect.go")],["OperationContext methods","Reflector.AddOperation"])
p("C20","References emitted by reflection resolve in the document",
 "After operations were added to a reflector, every component reference anywhere in the document points to a component schema present in the document, component names contain only characters allowed by OpenAPI, distinct types get distinct components, components registered earlier are kept, and a component has the properties of the type as encoded (json, form or parameter tags) at the place that refers to it.",
 ["programs","histories"],"every sequence of operations over request and response structures within the bound",
 "tests compare a few whole documents",
 ["openapi3/reflect.go","openapi31/reflect.go","internal/json_schema.go"],[("collectDefinition, sanitizeDefName","reflect.go, internal/json_schema.go")],["Reflector.AddOperation","Spec.Components.Schemas"])
p("C21","OpenAPI 3.0 and 3.1 reflectors agree",
 "The same operations built with the 3.0 and the 3.1 reflector are accepted or rejected alike and produce documents with the same paths, methods, parameters (name, location, required, style), request media types, response statuses, media types and headers.",
 ["programs","inputs"],"every operation within the bound",
 "tests of the two packages are separate and use different structures",
 ["openapi3/reflect.go","openapi31/reflect.go"],[("duplicated implementation","openapi3, openapi31")],["openapi.Reflector"])
p("C22","Reflection does not depend on map iteration order",
 "Adding the same operations gives the same document and the same accept or reject decisions for every iteration order of the maps involved.",
 ["schedules","programs"],"every iteration order of maps of bounded size during reflection and encoding",
 "map order is random per run: tests see one order at a time",
 ["openapi3/reflect.go","openapi31/reflect.go","openapi3/entities.go","openapi31/entities.go"],[("map ranges in reflection and decoding","reflect.go, entities.go")],["Reflector.AddOperation","json.Marshal"])
p("C23","Interceptors learn the operation and the part being reflected",
 "While the structures of an operation are reflected, schema interceptors of the reflector obtain the context of exactly that operation (also through the deprecated openapi3.OperationCtx) with the part being processed: request or response, and query, path, header, cookie or body. Every declared property is intercepted at every part it is documented in and at no other; a property skipped at one part stays documented at the others, and an error of an interceptor is reported and keeps the operation out of the document.",
 ["programs","inputs"],"every operation over request and response structures within the bound, and every part to be skipped or to fail at",
 "one test collects the parts seen for one fixed operation; skipping and failing interceptors per part are not tested",
 ["operation.go","internal/operation_context.go","internal/json_schema.go","openapi3/reflect.go","openapi31/reflect.go","openapi3/reflect_deprecated.go"],[("WithOperationCtx, OperationCtx","operation.go"),("fromOpCtx","openapi3/reflect.go")],["openapi.OperationCtx","openapi3.OperationCtx","Reflector.DefaultOptions"])
p("C24","Deprecated setup methods do what operation contexts do",
 "Setting up an OpenAPI 3.0 operation with the deprecated SetRequest, SetupRequest, SetJSONResponse, SetStringResponse and SetupResponse methods and adding it to the document is accepted or rejected exactly like adding the same structures, mappings, statuses and content types through an operation context, and gives the same document.",
 ["programs","inputs"],"every operation over request and response structures, field mappings, statuses and content types within the bound",
 "tests of the deprecated methods hold a handful of fixed structures and never compare them with the replacement",
 ["openapi3/reflect_deprecated.go","openapi3/reflect.go"],[("toOpCtx","openapi3/reflect.go"),("deprecated methods","openapi3/reflect_deprecated.go")],["Reflector.SetRequest","Reflector.SetupRequest","Reflector.SetJSONResponse","Reflector.SetStringResponse","Reflector.SetupResponse"])
p("C25","Reflected documents can be saved, loaded and continued",
 "A document built by reflection encodes to JSON and YAML and decodes to a document with the same content, into which further operations and webhooks are accepted, rejected and documented exactly as if the document had never been saved: taken slots stay taken and existing components are reused.",
 ["histories","programs","inputs"],"every document of one operation within the bound, JSON and YAML, and every further operation; parameters of every location, type and collection format",
 "tests encode reflected documents to compare texts, they never decode them and go on",
 ["openapi3/reflect.go","openapi31/reflect.go","openapi3/entities.go","openapi31/entities.go","openapi3/yaml.go","openapi31/yaml.go"],[("AddOperation over a decoded document","openapi3/reflect.go, openapi31/reflect.go"),("UnmarshalJSON, UnmarshalYAML of Spec","entities.go, yaml.go")],["Spec.MarshalYAML","Spec.UnmarshalYAML","json.Marshal","json.Unmarshal","Reflector.AddOperation"])
p("C26","Constraints declared on fields reach the documented schemas",
 "The constraints, nullability, enumerations, formats, texts, defaults and examples declared by tags of a field are found with their meaning in the schema documented for it, wherever the field is documented (parameters of every location, form and JSON bodies, JSON responses, response headers): the schema accepts a value exactly if the Go type and the declared constraints allow it. Attributes of parameters and headers declared by tags (required, deprecated, description, explode, style, ...) are attributes of the documented parameter or header, and tags of the blank field those of the structure. The schemas of the 3.0 and the 3.1 document accept the same values.",
 ["inputs","programs"],"every combination of one or two groups of tags on fields of the basic types at every place, every value of the tags and every instance within the bound",
 "tests compare documents of fixed structures that use a few of the tags at one place each, as text",
 ["openapi3/reflect.go","openapi31/reflect.go","openapi3/jsonschema.go","internal/json_schema.go"],[("ReflectJSONResponse, parseParameters, parseResponseHeader","openapi3/reflect.go, openapi31/reflect.go"),("FromJSONSchema","openapi3/jsonschema.go")],["Reflector.AddOperation","openapi3.SchemaOrRef.FromJSONSchema"])
p("C27","Customization gets complete content and has the last word",
 "The customization function of a content unit is called exactly once, with the request body or response prepared for the unit, complete with content, headers and description, and is not called when there is no body; whatever it changes, including replacing the entity by a reference, is what the operation documents, other parts of the operation and components are not affected, and a later unit for the same entity continues with the changes.",
 ["programs","inputs","histories"],"every content unit within the bound alone or with another one, every kind of change",
 "tests customize one response and one body in one document and compare the text",
 ["operation.go","openapi3/reflect.go","openapi31/reflect.go"],[("setupRequest, setupResponse","openapi3/reflect.go, openapi31/reflect.go"),("WithCustomize, WithReference","operation.go")],["openapi.WithCustomize","openapi.WithReference","ContentUnit.Customize"])
p("C28","What was set in an operation in advance is kept",
 "Members of the operation set directly before it is added (texts, tags, security, servers, callbacks, extensions, parameters, request body, responses with headers, links and examples) are found in the documented operation together with everything the structures of the operation declare: a structure only replaces the schema of its content, and a parameter that is declared on both sides is reported. Holds for operations and webhooks.",
 ["programs","inputs"],"every group of members, alone or with another one, with every request and response structure within the bound",
 "tests set an identifier and a tag of one operation in advance",
 ["openapi3/reflect.go","openapi31/reflect.go"],[("OperationExposer, parseRequestBody, ensureResponseContentType, AddOperation","openapi3/reflect.go, openapi31/reflect.go")],["OperationExposer.Operation","Reflector.AddOperation","Reflector.AddWebhook"])
p("C29","Equivalent declarations give equal documents",
 "How fields are declared makes no difference to the document: a structure passed by value, by pointer, by nil pointer or by pointer to pointer, fields declared directly or in embedded structures, parameters declared in one structure or in several, a parameter or form field named by a tag or by a field mapping, and JSON fields declared by a type or by a virtual structure (jsonschema.Struct) that is passed itself or embedded. Nor do the order of operations and other uses of a structure: an operation is documented like it is documented alone. Equivalent declarations are accepted or rejected alike, and the documents are equal apart from the order of parameters and the names of components.",
 ["programs","inputs"],"every combination of fields of all kinds, names and attributes within the bound, declared in every pair of equivalent ways",
 "tests declare each structure in one way and compare the text",
 ["internal/json_schema.go","openapi3/reflect.go","openapi31/reflect.go","operation.go"],[("ReflectRequestBody, ReflectParametersIn, ReflectJSONResponse","internal/json_schema.go"),("setupRequest, setupResponse, parseParameters","openapi3/reflect.go, openapi31/reflect.go")],["Reflector.AddOperation","OperationContext.AddReqStructure","OperationContext.AddRespStructure","ContentUnit.SetFieldMapping"])
p("C30","Types that describe themselves are documented so everywhere",
 "What a type says about its schema (by implementing Preparer, Exposer, RawExposer, Enum, NamedEnum, the OneOf, AnyOf, AllOf and Not exposers, InlineJSONSchema, TextMarshaler, titles and descriptions, or by AddTypeMapping of the reflector) holds for the schema documented at every place the type is used at: parameters of all locations, form fields, fields of bodies, response headers, whole bodies, elements of lists and maps, in both versions, directly or through references to components, which all lead to a component. A second use of the type or of another one changes neither.",
 ["programs","inputs","histories"],"every kind of self-describing type at every kind of place, with all values of the texts and numbers it says, and every JSON value to be accepted or refused",
 "tests compare the text of documents that use an enumeration and a few exposers in JSON bodies",
 ["internal/json_schema.go","openapi3/jsonschema.go","openapi3/reflect.go","openapi31/reflect.go"],[("ReflectParametersIn, ReflectJSONResponse, ReflectRequestBody, ReflectResponseHeader","internal/json_schema.go"),("FromJSONSchema","openapi3/jsonschema.go")],["Reflector.AddOperation","Reflector.JSONSchemaReflector","openapi3.SchemaOrRef.FromJSONSchema"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
