package h

import (
	"reflect"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

var model3 = []entT{
	{"Spec", reflect.TypeOf(openapi3.Spec{}), []mem{{"Openapi", "openapi", req}, {"Info", "info", req}, {"ExternalDocs", "externalDocs", opt}, {"Servers", "servers", opt}, {"Security", "security", opt}, {"Tags", "tags", opt}, {"Paths", "paths", req}, {"Components", "components", opt}, {"MapOfAnything", "", ext}}},
	{"Info", reflect.TypeOf(openapi3.Info{}), []mem{{"Title", "title", req}, {"Description", "description", opt}, {"TermsOfService", "termsOfService", opt}, {"Contact", "contact", opt}, {"License", "license", opt}, {"Version", "version", req}, {"MapOfAnything", "", ext}}},
	{"Contact", reflect.TypeOf(openapi3.Contact{}), []mem{{"Name", "name", opt}, {"URL", "url", opt}, {"Email", "email", opt}, {"MapOfAnything", "", ext}}},
	{"License", reflect.TypeOf(openapi3.License{}), []mem{{"Name", "name", req}, {"URL", "url", opt}, {"MapOfAnything", "", ext}}},
	{"ExternalDocumentation", reflect.TypeOf(openapi3.ExternalDocumentation{}), []mem{{"Description", "description", opt}, {"URL", "url", req}, {"MapOfAnything", "", ext}}},
	{"Server", reflect.TypeOf(openapi3.Server{}), []mem{{"URL", "url", req}, {"Description", "description", opt}, {"Variables", "variables", opt}, {"MapOfAnything", "", ext}}},
	{"ServerVariable", reflect.TypeOf(openapi3.ServerVariable{}), []mem{{"Enum", "enum", opt}, {"Default", "default", req}, {"Description", "description", opt}, {"MapOfAnything", "", ext}}},
	{"Tag", reflect.TypeOf(openapi3.Tag{}), []mem{{"Name", "name", req}, {"Description", "description", opt}, {"ExternalDocs", "externalDocs", opt}, {"MapOfAnything", "", ext}}},
	{"PathItem", reflect.TypeOf(openapi3.PathItem{}), []mem{{"Ref", "$ref", opt}, {"Summary", "summary", opt}, {"Description", "description", opt}, {"Servers", "servers", opt}, {"Parameters", "parameters", opt}, {"MapOfOperationValues", "", pat}, {"MapOfAnything", "", ext}}},
	{"ParameterReference", reflect.TypeOf(openapi3.ParameterReference{}), []mem{{"Ref", "$ref", req}}},
	{"Parameter", reflect.TypeOf(openapi3.Parameter{}), []mem{{"Name", "name", req}, {"In", "in", req}, {"Description", "description", opt}, {"Required", "required", opt}, {"Deprecated", "deprecated", opt}, {"AllowEmptyValue", "allowEmptyValue", opt}, {"Style", "style", opt}, {"Explode", "explode", opt}, {"AllowReserved", "allowReserved", opt}, {"Schema", "schema", opt}, {"Content", "content", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"SchemaXORContent", "", derived}, {"Location", "", derived}, {"MapOfAnything", "", ext}}},
	{"Schema", reflect.TypeOf(openapi3.Schema{}), []mem{{"Title", "title", opt}, {"MultipleOf", "multipleOf", opt}, {"Maximum", "maximum", opt}, {"ExclusiveMaximum", "exclusiveMaximum", opt}, {"Minimum", "minimum", opt}, {"ExclusiveMinimum", "exclusiveMinimum", opt}, {"MaxLength", "maxLength", opt}, {"MinLength", "minLength", opt}, {"Pattern", "pattern", opt}, {"MaxItems", "maxItems", opt}, {"MinItems", "minItems", opt}, {"UniqueItems", "uniqueItems", opt}, {"MaxProperties", "maxProperties", opt}, {"MinProperties", "minProperties", opt}, {"Required", "required", opt}, {"Enum", "enum", opt}, {"Type", "type", opt}, {"Not", "not", opt}, {"AllOf", "allOf", opt}, {"OneOf", "oneOf", opt}, {"AnyOf", "anyOf", opt}, {"Items", "items", opt}, {"Properties", "properties", opt}, {"AdditionalProperties", "additionalProperties", opt}, {"Description", "description", opt}, {"Format", "format", opt}, {"Default", "default", opt}, {"Nullable", "nullable", opt}, {"Discriminator", "discriminator", opt}, {"ReadOnly", "readOnly", opt}, {"WriteOnly", "writeOnly", opt}, {"Example", "example", opt}, {"ExternalDocs", "externalDocs", opt}, {"Deprecated", "deprecated", opt}, {"XML", "xml", opt}, {"MapOfAnything", "", ext}, {"ReflectType", "", skip}}},
	{"SchemaReference", reflect.TypeOf(openapi3.SchemaReference{}), []mem{{"Ref", "$ref", req}}},
	{"SchemaOrRef", reflect.TypeOf(openapi3.SchemaOrRef{}), []mem{{"Schema", "", alt}, {"SchemaReference", "", alt}}},
	{"SchemaAdditionalProperties", reflect.TypeOf(openapi3.SchemaAdditionalProperties{}), []mem{{"SchemaOrRef", "", alt}, {"Bool", "", alt}}},
	{"Discriminator", reflect.TypeOf(openapi3.Discriminator{}), []mem{{"PropertyName", "propertyName", req}, {"Mapping", "mapping", opt}}},
	{"XML", reflect.TypeOf(openapi3.XML{}), []mem{{"Name", "name", opt}, {"Namespace", "namespace", opt}, {"Prefix", "prefix", opt}, {"Attribute", "attribute", opt}, {"Wrapped", "wrapped", opt}, {"MapOfAnything", "", ext}}},
	{"MediaType", reflect.TypeOf(openapi3.MediaType{}), []mem{{"Schema", "schema", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"Encoding", "encoding", opt}, {"MapOfAnything", "", ext}}},
	{"ExampleReference", reflect.TypeOf(openapi3.ExampleReference{}), []mem{{"Ref", "$ref", req}}},
	{"Example", reflect.TypeOf(openapi3.Example{}), []mem{{"Summary", "summary", opt}, {"Description", "description", opt}, {"Value", "value", opt}, {"ExternalValue", "externalValue", opt}, {"MapOfAnything", "", ext}}},
	{"ExampleOrRef", reflect.TypeOf(openapi3.ExampleOrRef{}), []mem{{"ExampleReference", "", alt}, {"Example", "", alt}}},
	{"Encoding", reflect.TypeOf(openapi3.Encoding{}), []mem{{"ContentType", "contentType", opt}, {"Headers", "headers", opt}, {"Style", "style", opt}, {"Explode", "explode", opt}, {"AllowReserved", "allowReserved", opt}}},
	{"Header", reflect.TypeOf(openapi3.Header{}), []mem{{"Description", "description", opt}, {"Required", "required", opt}, {"Deprecated", "deprecated", opt}, {"AllowEmptyValue", "allowEmptyValue", opt}, {"Explode", "explode", opt}, {"AllowReserved", "allowReserved", opt}, {"Schema", "schema", opt}, {"Content", "content", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"MapOfAnything", "", ext}}},
	{"HasSchema", reflect.TypeOf(openapi3.HasSchema{}), []mem{{"Schema", "schema", req}}},
	{"HasContent", reflect.TypeOf(openapi3.HasContent{}), []mem{{"Content", "content", req}}},
	{"SchemaXORContent", reflect.TypeOf(openapi3.SchemaXORContent{}), []mem{{"HasSchema", "", alt}, {"HasContent", "", alt}}},
	{"SchemaXORContentNot", reflect.TypeOf(openapi3.SchemaXORContentNot{}), []mem{{"Schema", "schema", req}, {"Content", "content", req}}},
	{"PathParameter", reflect.TypeOf(openapi3.PathParameter{}), []mem{{"Style", "style", opt}}},
	{"QueryParameter", reflect.TypeOf(openapi3.QueryParameter{}), []mem{{"Style", "style", opt}}},
	{"HeaderParameter", reflect.TypeOf(openapi3.HeaderParameter{}), []mem{}},
	{"CookieParameter", reflect.TypeOf(openapi3.CookieParameter{}), []mem{}},
	{"ParameterLocation", reflect.TypeOf(openapi3.ParameterLocation{}), []mem{{"PathParameter", "", alt}, {"QueryParameter", "", alt}, {"HeaderParameter", "", alt}, {"CookieParameter", "", alt}}},
	{"ParameterOrRef", reflect.TypeOf(openapi3.ParameterOrRef{}), []mem{{"ParameterReference", "", alt}, {"Parameter", "", alt}}},
	{"Operation", reflect.TypeOf(openapi3.Operation{}), []mem{{"Tags", "tags", opt}, {"Summary", "summary", opt}, {"Description", "description", opt}, {"ExternalDocs", "externalDocs", opt}, {"ID", "operationId", opt}, {"Parameters", "parameters", opt}, {"RequestBody", "requestBody", opt}, {"Responses", "responses", req}, {"Callbacks", "callbacks", opt}, {"Deprecated", "deprecated", opt}, {"Security", "security", opt}, {"Servers", "servers", opt}, {"MapOfAnything", "", ext}}},
	{"RequestBodyReference", reflect.TypeOf(openapi3.RequestBodyReference{}), []mem{{"Ref", "$ref", req}}},
	{"RequestBody", reflect.TypeOf(openapi3.RequestBody{}), []mem{{"Description", "description", opt}, {"Content", "content", req}, {"Required", "required", opt}, {"MapOfAnything", "", ext}}},
	{"RequestBodyOrRef", reflect.TypeOf(openapi3.RequestBodyOrRef{}), []mem{{"RequestBodyReference", "", alt}, {"RequestBody", "", alt}}},
	{"Responses", reflect.TypeOf(openapi3.Responses{}), []mem{{"Default", "default", opt}, {"MapOfResponseOrRefValues", "", pat}, {"MapOfAnything", "", ext}}},
	{"ResponseReference", reflect.TypeOf(openapi3.ResponseReference{}), []mem{{"Ref", "$ref", req}}},
	{"Response", reflect.TypeOf(openapi3.Response{}), []mem{{"Description", "description", req}, {"Headers", "headers", opt}, {"Content", "content", opt}, {"Links", "links", opt}, {"MapOfAnything", "", ext}}},
	{"HeaderReference", reflect.TypeOf(openapi3.HeaderReference{}), []mem{{"Ref", "$ref", req}}},
	{"HeaderOrRef", reflect.TypeOf(openapi3.HeaderOrRef{}), []mem{{"HeaderReference", "", alt}, {"Header", "", alt}}},
	{"LinkReference", reflect.TypeOf(openapi3.LinkReference{}), []mem{{"Ref", "$ref", req}}},
	{"Link", reflect.TypeOf(openapi3.Link{}), []mem{{"OperationID", "operationId", opt}, {"OperationRef", "operationRef", opt}, {"Parameters", "parameters", opt}, {"RequestBody", "requestBody", opt}, {"Description", "description", opt}, {"Server", "server", opt}, {"MapOfAnything", "", ext}}},
	{"LinkNot", reflect.TypeOf(openapi3.LinkNot{}), []mem{{"OperationID", "operationId", req}, {"OperationRef", "operationRef", req}}},
	{"LinkOrRef", reflect.TypeOf(openapi3.LinkOrRef{}), []mem{{"LinkReference", "", alt}, {"Link", "", alt}}},
	{"ResponseOrRef", reflect.TypeOf(openapi3.ResponseOrRef{}), []mem{{"ResponseReference", "", alt}, {"Response", "", alt}}},
	{"CallbackReference", reflect.TypeOf(openapi3.CallbackReference{}), []mem{{"Ref", "$ref", req}}},
	{"Callback", reflect.TypeOf(openapi3.Callback{}), []mem{{"MapOfAnything", "", ext}, {"AdditionalProperties", "", pat}}},
	{"CallbackOrRef", reflect.TypeOf(openapi3.CallbackOrRef{}), []mem{{"CallbackReference", "", alt}, {"Callback", "", alt}}},
	{"Paths", reflect.TypeOf(openapi3.Paths{}), []mem{{"MapOfPathItemValues", "", pat}, {"MapOfAnything", "", ext}}},
	{"Components", reflect.TypeOf(openapi3.Components{}), []mem{{"Schemas", "schemas", opt}, {"Responses", "responses", opt}, {"Parameters", "parameters", opt}, {"Examples", "examples", opt}, {"RequestBodies", "requestBodies", opt}, {"Headers", "headers", opt}, {"SecuritySchemes", "securitySchemes", opt}, {"Links", "links", opt}, {"Callbacks", "callbacks", opt}, {"MapOfAnything", "", ext}}},
	{"ComponentsSchemas", reflect.TypeOf(openapi3.ComponentsSchemas{}), []mem{{"MapOfSchemaOrRefValues", "", pat}}},
	{"ComponentsResponses", reflect.TypeOf(openapi3.ComponentsResponses{}), []mem{{"MapOfResponseOrRefValues", "", pat}}},
	{"ComponentsParameters", reflect.TypeOf(openapi3.ComponentsParameters{}), []mem{{"MapOfParameterOrRefValues", "", pat}}},
	{"ComponentsExamples", reflect.TypeOf(openapi3.ComponentsExamples{}), []mem{{"MapOfExampleOrRefValues", "", pat}}},
	{"ComponentsRequestBodies", reflect.TypeOf(openapi3.ComponentsRequestBodies{}), []mem{{"MapOfRequestBodyOrRefValues", "", pat}}},
	{"ComponentsHeaders", reflect.TypeOf(openapi3.ComponentsHeaders{}), []mem{{"MapOfHeaderOrRefValues", "", pat}}},
	{"SecuritySchemeReference", reflect.TypeOf(openapi3.SecuritySchemeReference{}), []mem{{"Ref", "$ref", req}}},
	{"APIKeySecurityScheme", reflect.TypeOf(openapi3.APIKeySecurityScheme{}), []mem{{"Name", "name", req}, {"In", "in", req}, {"Description", "description", opt}, {"MapOfAnything", "", ext}}},
	{"HTTPSecurityScheme", reflect.TypeOf(openapi3.HTTPSecurityScheme{}), []mem{{"Scheme", "scheme", req}, {"BearerFormat", "bearerFormat", opt}, {"Description", "description", opt}, {"Bearer", "", derived}, {"NonBearer", "", derived}, {"MapOfAnything", "", ext}}},
	{"Bearer", reflect.TypeOf(openapi3.Bearer{}), []mem{}},
	{"NonBearer", reflect.TypeOf(openapi3.NonBearer{}), []mem{{"Scheme", "scheme", opt}}},
	{"OAuth2SecurityScheme", reflect.TypeOf(openapi3.OAuth2SecurityScheme{}), []mem{{"Flows", "flows", req}, {"Description", "description", opt}, {"MapOfAnything", "", ext}}},
	{"OAuthFlows", reflect.TypeOf(openapi3.OAuthFlows{}), []mem{{"Implicit", "implicit", opt}, {"Password", "password", opt}, {"ClientCredentials", "clientCredentials", opt}, {"AuthorizationCode", "authorizationCode", opt}, {"MapOfAnything", "", ext}}},
	{"ImplicitOAuthFlow", reflect.TypeOf(openapi3.ImplicitOAuthFlow{}), []mem{{"AuthorizationURL", "authorizationUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", req}, {"MapOfAnything", "", ext}}},
	{"PasswordOAuthFlow", reflect.TypeOf(openapi3.PasswordOAuthFlow{}), []mem{{"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", opt}, {"MapOfAnything", "", ext}}},
	{"ClientCredentialsFlow", reflect.TypeOf(openapi3.ClientCredentialsFlow{}), []mem{{"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", opt}, {"MapOfAnything", "", ext}}},
	{"AuthorizationCodeOAuthFlow", reflect.TypeOf(openapi3.AuthorizationCodeOAuthFlow{}), []mem{{"AuthorizationURL", "authorizationUrl", req}, {"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", opt}, {"MapOfAnything", "", ext}}},
	{"OpenIDConnectSecurityScheme", reflect.TypeOf(openapi3.OpenIDConnectSecurityScheme{}), []mem{{"OpenIDConnectURL", "openIdConnectUrl", req}, {"Description", "description", opt}, {"MapOfAnything", "", ext}}},
	{"SecurityScheme", reflect.TypeOf(openapi3.SecurityScheme{}), []mem{{"APIKeySecurityScheme", "", alt}, {"HTTPSecurityScheme", "", alt}, {"OAuth2SecurityScheme", "", alt}, {"OpenIDConnectSecurityScheme", "", alt}}},
	{"SecuritySchemeOrRef", reflect.TypeOf(openapi3.SecuritySchemeOrRef{}), []mem{{"SecuritySchemeReference", "", alt}, {"SecurityScheme", "", alt}}},
	{"ComponentsSecuritySchemes", reflect.TypeOf(openapi3.ComponentsSecuritySchemes{}), []mem{{"MapOfSecuritySchemeOrRefValues", "", pat}}},
	{"ComponentsLinks", reflect.TypeOf(openapi3.ComponentsLinks{}), []mem{{"MapOfLinkOrRefValues", "", pat}}},
	{"ComponentsCallbacks", reflect.TypeOf(openapi3.ComponentsCallbacks{}), []mem{{"MapOfCallbackOrRefValues", "", pat}}},
}

var model31 = []entT{
	{"Spec", reflect.TypeOf(openapi31.Spec{}), []mem{{"Openapi", "openapi", req}, {"Info", "info", req}, {"JSONSchemaDialect", "jsonSchemaDialect", opt}, {"Servers", "servers", opt}, {"Paths", "paths", opt}, {"Webhooks", "webhooks", opt}, {"Components", "components", opt}, {"Security", "security", opt}, {"Tags", "tags", opt}, {"ExternalDocs", "externalDocs", opt}, {"MapOfAnything", "", ext}}},
	{"Info", reflect.TypeOf(openapi31.Info{}), []mem{{"Title", "title", req}, {"Summary", "summary", opt}, {"Description", "description", opt}, {"TermsOfService", "termsOfService", opt}, {"Contact", "contact", opt}, {"License", "license", opt}, {"Version", "version", req}, {"MapOfAnything", "", ext}}},
	{"Contact", reflect.TypeOf(openapi31.Contact{}), []mem{{"Name", "name", opt}, {"URL", "url", opt}, {"Email", "email", opt}, {"MapOfAnything", "", ext}}},
	{"License", reflect.TypeOf(openapi31.License{}), []mem{{"Name", "name", req}, {"Identifier", "identifier", opt}, {"URL", "url", opt}, {"MapOfAnything", "", ext}}},
	{"Server", reflect.TypeOf(openapi31.Server{}), []mem{{"URL", "url", req}, {"Description", "description", opt}, {"Variables", "variables", opt}, {"MapOfAnything", "", ext}}},
	{"ServerVariable", reflect.TypeOf(openapi31.ServerVariable{}), []mem{{"Enum", "enum", opt}, {"Default", "default", req}, {"Description", "description", opt}, {"MapOfAnything", "", ext}}},
	{"PathItem", reflect.TypeOf(openapi31.PathItem{}), []mem{{"Summary", "summary", opt}, {"Description", "description", opt}, {"Servers", "servers", opt}, {"Parameters", "parameters", opt}, {"Get", "get", opt}, {"Put", "put", opt}, {"Post", "post", opt}, {"Delete", "delete", opt}, {"Options", "options", opt}, {"Head", "head", opt}, {"Patch", "patch", opt}, {"Trace", "trace", opt}, {"MapOfAnything", "", ext}}},
	{"Reference", reflect.TypeOf(openapi31.Reference{}), []mem{{"Ref", "$ref", req}, {"Summary", "summary", opt}, {"Description", "description", opt}}},
	{"Parameter", reflect.TypeOf(openapi31.Parameter{}), []mem{{"Name", "name", req}, {"In", "in", req}, {"Description", "description", opt}, {"Required", "required", opt}, {"Deprecated", "deprecated", opt}, {"Schema", "schema", opt}, {"Content", "content", opt}, {"Style", "style", opt}, {"Explode", "explode", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"MapOfAnything", "", ext}}},
	{"MediaType", reflect.TypeOf(openapi31.MediaType{}), []mem{{"Schema", "schema", opt}, {"Encoding", "encoding", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"MapOfAnything", "", ext}}},
	{"Encoding", reflect.TypeOf(openapi31.Encoding{}), []mem{{"ContentType", "contentType", opt}, {"Headers", "headers", opt}, {"Style", "style", opt}, {"Explode", "explode", opt}, {"AllowReserved", "allowReserved", opt}}},
	{"Header", reflect.TypeOf(openapi31.Header{}), []mem{{"Description", "description", opt}, {"Required", "required", opt}, {"Deprecated", "deprecated", opt}, {"Schema", "schema", opt}, {"Content", "content", opt}, {"Example", "example", opt}, {"Examples", "examples", opt}, {"Explode", "explode", opt}, {"MapOfAnything", "", ext}}},
	{"Example", reflect.TypeOf(openapi31.Example{}), []mem{{"Summary", "summary", opt}, {"Description", "description", opt}, {"Value", "value", opt}, {"ExternalValue", "externalValue", opt}, {"MapOfAnything", "", ext}}},
	{"ExampleOrReference", reflect.TypeOf(openapi31.ExampleOrReference{}), []mem{{"Reference", "", alt}, {"Example", "", alt}}},
	{"HeaderOrReference", reflect.TypeOf(openapi31.HeaderOrReference{}), []mem{{"Reference", "", alt}, {"Header", "", alt}}},
	{"EncodingAllOf0", reflect.TypeOf(openapi31.EncodingAllOf0{}), []mem{{"MapOfAnything", "", ext}}},
	{"Examples", reflect.TypeOf(openapi31.Examples{}), []mem{{"Example", "example", opt}, {"Examples", "examples", opt}}},
	{"ParameterOrReference", reflect.TypeOf(openapi31.ParameterOrReference{}), []mem{{"Reference", "", alt}, {"Parameter", "", alt}}},
	{"Operation", reflect.TypeOf(openapi31.Operation{}), []mem{{"Tags", "tags", opt}, {"Summary", "summary", opt}, {"Description", "description", opt}, {"ExternalDocs", "externalDocs", opt}, {"ID", "operationId", opt}, {"Parameters", "parameters", opt}, {"RequestBody", "requestBody", opt}, {"Responses", "responses", opt}, {"Callbacks", "callbacks", opt}, {"Deprecated", "deprecated", opt}, {"Security", "security", opt}, {"Servers", "servers", opt}, {"MapOfAnything", "", ext}}},
	{"ExternalDocumentation", reflect.TypeOf(openapi31.ExternalDocumentation{}), []mem{{"Description", "description", opt}, {"URL", "url", req}, {"MapOfAnything", "", ext}}},
	{"RequestBody", reflect.TypeOf(openapi31.RequestBody{}), []mem{{"Description", "description", opt}, {"Content", "content", req}, {"Required", "required", opt}, {"MapOfAnything", "", ext}}},
	{"RequestBodyOrReference", reflect.TypeOf(openapi31.RequestBodyOrReference{}), []mem{{"Reference", "", alt}, {"RequestBody", "", alt}}},
	{"Responses", reflect.TypeOf(openapi31.Responses{}), []mem{{"Default", "default", opt}, {"MapOfResponseOrReferenceValues", "", pat}, {"MapOfAnything", "", ext}}},
	{"Response", reflect.TypeOf(openapi31.Response{}), []mem{{"Description", "description", req}, {"Headers", "headers", opt}, {"Content", "content", opt}, {"Links", "links", opt}, {"MapOfAnything", "", ext}}},
	{"Link", reflect.TypeOf(openapi31.Link{}), []mem{{"OperationRef", "operationRef", opt}, {"OperationID", "operationId", opt}, {"Parameters", "parameters", opt}, {"RequestBody", "requestBody", opt}, {"Description", "description", opt}, {"Body", "body", opt}, {"MapOfAnything", "", ext}}},
	{"LinkOrReference", reflect.TypeOf(openapi31.LinkOrReference{}), []mem{{"Reference", "", alt}, {"Link", "", alt}}},
	{"ResponseOrReference", reflect.TypeOf(openapi31.ResponseOrReference{}), []mem{{"Reference", "", alt}, {"Response", "", alt}}},
	{"Callbacks", reflect.TypeOf(openapi31.Callbacks{}), []mem{{"MapOfAnything", "", ext}, {"AdditionalProperties", "", pat}}},
	{"PathItemOrReference", reflect.TypeOf(openapi31.PathItemOrReference{}), []mem{{"Reference", "", alt}, {"PathItem", "", alt}}},
	{"CallbacksOrReference", reflect.TypeOf(openapi31.CallbacksOrReference{}), []mem{{"Reference", "", alt}, {"Callbacks", "", alt}}},
	{"Paths", reflect.TypeOf(openapi31.Paths{}), []mem{{"MapOfPathItemValues", "", pat}, {"MapOfAnything", "", ext}}},
	{"Components", reflect.TypeOf(openapi31.Components{}), []mem{{"Schemas", "schemas", opt}, {"Responses", "responses", opt}, {"Parameters", "parameters", opt}, {"Examples", "examples", opt}, {"RequestBodies", "requestBodies", opt}, {"Headers", "headers", opt}, {"SecuritySchemes", "securitySchemes", opt}, {"Links", "links", opt}, {"Callbacks", "callbacks", opt}, {"PathItems", "pathItems", opt}}},
	{"SecurityScheme", reflect.TypeOf(openapi31.SecurityScheme{}), []mem{{"Description", "description", opt}, {"APIKey", "", alt}, {"HTTP", "", alt}, {"HTTPBearer", "", alt}, {"Oauth2", "", alt}, {"Oidc", "", alt}, {"MutualTLS", "", alt}, {"MapOfAnything", "", ext}}},
	{"SecuritySchemeAPIKey", reflect.TypeOf(openapi31.SecuritySchemeAPIKey{}), []mem{{"Name", "name", req}, {"In", "in", req}}},
	{"SecuritySchemeHTTP", reflect.TypeOf(openapi31.SecuritySchemeHTTP{}), []mem{{"Scheme", "scheme", req}}},
	{"SecuritySchemeHTTPBearer", reflect.TypeOf(openapi31.SecuritySchemeHTTPBearer{}), []mem{{"Scheme", "scheme", req}, {"BearerFormat", "bearerFormat", opt}}},
	{"SecuritySchemeOauth2", reflect.TypeOf(openapi31.SecuritySchemeOauth2{}), []mem{{"Flows", "flows", req}}},
	{"OauthFlows", reflect.TypeOf(openapi31.OauthFlows{}), []mem{{"Implicit", "implicit", opt}, {"Password", "password", opt}, {"ClientCredentials", "clientCredentials", opt}, {"AuthorizationCode", "authorizationCode", opt}, {"MapOfAnything", "", ext}}},
	{"OauthFlowsDefsImplicit", reflect.TypeOf(openapi31.OauthFlowsDefsImplicit{}), []mem{{"AuthorizationURL", "authorizationUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", req}, {"MapOfAnything", "", ext}}},
	{"OauthFlowsDefsPassword", reflect.TypeOf(openapi31.OauthFlowsDefsPassword{}), []mem{{"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", req}, {"MapOfAnything", "", ext}}},
	{"OauthFlowsDefsClientCredentials", reflect.TypeOf(openapi31.OauthFlowsDefsClientCredentials{}), []mem{{"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", req}, {"MapOfAnything", "", ext}}},
	{"OauthFlowsDefsAuthorizationCode", reflect.TypeOf(openapi31.OauthFlowsDefsAuthorizationCode{}), []mem{{"AuthorizationURL", "authorizationUrl", req}, {"TokenURL", "tokenUrl", req}, {"RefreshURL", "refreshUrl", opt}, {"Scopes", "scopes", req}, {"MapOfAnything", "", ext}}},
	{"SecuritySchemeOidc", reflect.TypeOf(openapi31.SecuritySchemeOidc{}), []mem{{"OpenIDConnectURL", "openIdConnectUrl", req}}},
	{"MutualTLS", reflect.TypeOf(openapi31.MutualTLS{}), []mem{}},
	{"SecuritySchemeOrReference", reflect.TypeOf(openapi31.SecuritySchemeOrReference{}), []mem{{"Reference", "", alt}, {"SecurityScheme", "", alt}}},
	{"Tag", reflect.TypeOf(openapi31.Tag{}), []mem{{"Name", "name", req}, {"Description", "description", opt}, {"ExternalDocs", "externalDocs", opt}, {"MapOfAnything", "", ext}}},
}
