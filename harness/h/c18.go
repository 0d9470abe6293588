package h

import (
	"encoding/json"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// secScheme is a version independent security scheme.
type secScheme struct {
	kind     int // 0 basic, 1 bearer, 2 API key
	desc     string
	format   string
	field    string
	in       string
	scheme   string
	ref      bool
	extended bool
}

// schemes reads the security schemes of a document.
func (d *doc) schemes() map[string]secScheme {
	out := map[string]secScheme{}
	if d.ver == 3 {
		if d.r3.Spec.Components == nil || d.r3.Spec.Components.SecuritySchemes == nil {
			return out
		}
		for n, s := range d.r3.Spec.Components.SecuritySchemes.MapOfSecuritySchemeOrRefValues {
			v := secScheme{kind: -1, ref: s.SecuritySchemeReference != nil}
			if x := s.SecurityScheme; x != nil {
				cnt := 0
				if h := x.HTTPSecurityScheme; h != nil {
					cnt++
					v.kind, v.scheme, v.desc, v.format = 0, h.Scheme, strv(h.Description), strv(h.BearerFormat)
					if h.Scheme == "bearer" {
						v.kind = 1
					}
					v.extended = len(h.MapOfAnything) > 0
				}
				if a := x.APIKeySecurityScheme; a != nil {
					cnt++
					v.kind, v.desc, v.field, v.in = 2, strv(a.Description), a.Name, string(a.In)
					v.extended = len(a.MapOfAnything) > 0
				}
				if x.OAuth2SecurityScheme != nil || x.OpenIDConnectSecurityScheme != nil || cnt > 1 {
					v.kind = -1
				}
			}
			out[n] = v
		}
		return out
	}
	if d.r31.Spec.Components == nil {
		return out
	}
	for n, s := range d.r31.Spec.Components.SecuritySchemes {
		v := secScheme{kind: -1, ref: s.Reference != nil}
		if x := s.SecurityScheme; x != nil {
			v.desc = strv(x.Description)
			v.extended = len(x.MapOfAnything) > 0
			cnt := 0
			if h := x.HTTP; h != nil && !(x.HTTPBearer != nil && h.Scheme == "bearer") {
				cnt++
				v.kind, v.scheme = 0, h.Scheme
			}
			if h := x.HTTPBearer; h != nil {
				cnt++
				v.kind, v.scheme, v.format = 1, h.Scheme, strv(h.BearerFormat)
			}
			if a := x.APIKey; a != nil {
				cnt++
				v.kind, v.field, v.in = 2, a.Name, string(a.In)
			}
			if x.Oauth2 != nil || x.Oidc != nil || x.MutualTLS != nil || cnt > 1 {
				v.kind = -1
			}
		}
		out[n] = v
	}
	return out
}

// anyScheme makes a scheme with arbitrary attributes.
func anyScheme(alphabet string, ls ...int) secScheme {
	s := secScheme{kind: sym.Choice("kind", 3)}
	n := func(name string) string { return sym.Str(name, ls[sym.Choice(name+" length", len(ls))], alphabet) }
	s.desc = n("description")
	switch s.kind {
	case 0:
		s.scheme = "basic"
	case 1:
		s.scheme = "bearer"
		s.format = n("format")
	case 2:
		s.field = n("field")
		s.in = []string{"query", "header", "cookie"}[sym.Choice("in", 3)]
	}
	return s
}

func (s secScheme) set(sp openapi.SpecSchema, name string) {
	switch s.kind {
	case 0:
		sp.SetHTTPBasicSecurity(name, s.desc)
	case 1:
		sp.SetHTTPBearerTokenSecurity(name, s.format, s.desc)
	case 2:
		sp.SetAPIKeySecurity(name, s.field, openapi.In(s.in), s.desc)
	}
}

type namedScheme struct {
	name string
	s    secScheme
}

func checkSchemes(d *doc, want []namedScheme, what string) {
	got := d.schemes()
	sym.Assert(len(got) == len(want), what+": number of security schemes")
	for _, w := range want {
		g, ok := got[w.name]
		sym.Assert(ok, what+": scheme is stored under its name")
		sym.Assert(g.kind == w.s.kind && g.scheme == w.s.scheme && !g.ref && !g.extended, what+": kind of scheme")
		sym.Assert(g.desc == w.s.desc, what+": description of scheme")
		sym.Assert(g.format == w.s.format, what+": bearer format")
		sym.Assert(g.field == w.s.field && g.in == w.s.in, what+": field name and location of API key")
	}
}

// reDoc encodes a document and decodes it again.
func reDoc(d *doc) *doc {
	r := &doc{ver: d.ver}
	if d.ver == 3 {
		b, err := json.Marshal(d.r3.Spec)
		sym.Assert(err == nil, "document is encoded")
		r.r3 = &openapi3.Reflector{Spec: &openapi3.Spec{}}
		sym.Assert(json.Unmarshal(b, r.r3.Spec) == nil, "document is decoded")
		return r
	}
	b, err := json.Marshal(d.r31.Spec)
	sym.Assert(err == nil, "document is encoded")
	r.r31 = &openapi31.Reflector{Spec: &openapi31.Spec{}}
	sym.Assert(json.Unmarshal(b, r.r31.Spec) == nil, "document is decoded")
	return r
}

// emptyDoc has a reflector without document if nilSpec.
func emptyDoc(ver int, nilSpec bool) *doc {
	d := newDoc(ver)
	if nilSpec {
		d.r3, d.r31 = nil, nil
		if ver == 3 {
			d.r3 = &openapi3.Reflector{}
		} else {
			d.r31 = &openapi31.Reflector{}
		}
	}
	return d
}

// other puts something else into the components.
func (d *doc) other() {
	if d.ver == 3 {
		d.r3.Spec.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem("S", openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithTitle("t")})
		d.r3.Spec.WithSecurity(map[string][]string{"sec": {}})
		return
	}
	d.r31.Spec.ComponentsEns().WithSchemasItem("S", map[string]interface{}{"title": "t"})
	d.r31.Spec.WithSecurity(map[string][]string{"sec": {}})
}

// rest is everything but the security schemes.
func (d *doc) rest() string {
	if d.ver == 3 {
		sp := *d.r3.Spec
		if sp.Components != nil {
			c := *sp.Components
			c.SecuritySchemes = nil
			sp.Components = &c
		}
		return snap(sp)
	}
	sp := *d.r31.Spec
	if sp.Components != nil {
		c := *sp.Components
		c.SecuritySchemes = nil
		sp.Components = &c
	}
	return snap(sp)
}

// Several schemes of all kinds, possibly of the same name.
func C18_Schemes() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	before := ""
	withOther := sym.Choice("other components", 2) == 1
	if withOther {
		d.other()
		before = d.rest()
	}
	var want []namedScheme
	for i := 0; i < 2+sym.Tier(); i++ {
		name := sym.Str("name", 1, "a-z")
		s := anyScheme(plain, 0, 1)
		s.set(d.refl().SpecSchema(), name)
		found := false
		for j := range want {
			if want[j].name == name {
				want[j].s, found = s, true
				sym.Cover("replaced")
			}
		}
		if !found {
			want = append(want, namedScheme{name, s})
		}
	}
	checkSchemes(d, want, "stored")
	if withOther {
		sym.Assert(d.rest() == before, "nothing but the security schemes changes")
	}
	checkSchemes(reDoc(d), want, "encoded")
}

// A single scheme with long names and special characters.
func C18_Text() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	name := sym.Str("name", 1+sym.Choice("name length", 2), "A-Za-z0-9._-")
	s := anyScheme(" -~", 0, 1, 2)
	s.set(d.refl().SpecSchema(), name)
	want := []namedScheme{{name, s}}
	checkSchemes(d, want, "stored")
	checkSchemes(reDoc(d), want, "encoded")
	sym.Cover("done")
}

// Title, description and version of arbitrary bytes.
func C18_Bytes() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := emptyDoc(ver, sym.Choice("no document", 2) == 1)
	sp := d.refl().SpecSchema()
	n := sym.Choice("length", 4)
	v := sym.Str("text", n, "\x00-\xff")
	switch sym.Choice("member", 3) {
	case 0:
		sp.SetTitle(v)
		sym.Assert(sp.Title() == v && sp.Description() == "" && sp.Version() == "", "title of any bytes is read back")
	case 1:
		sp.SetDescription(v)
		sym.Assert(sp.Description() == v && sp.Title() == emptyDoc(ver, false).refl().SpecSchema().Title() && sp.Version() == "", "description of any bytes is read back")
	case 2:
		sp.SetVersion(v)
		sym.Assert(sp.Version() == v && sp.Description() == "", "version of any bytes is read back")
	}
	name := sym.Str("name", 1+sym.Choice("name length", 2), "\x00-\xff")
	s := anyScheme("\x00-\xff", n)
	s.set(sp, name)
	checkSchemes(d, []namedScheme{{name, s}}, "stored")
	sym.Cover("done")
}

// Title, description and version.
func C18_Info() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := emptyDoc(ver, sym.Choice("no document", 2) == 1)
	sp := d.refl().SpecSchema()
	sym.Assert(sp.Description() == "" && sp.Version() == "", "description and version are empty at first")
	title, desc, version := sp.Title(), "", ""
	for i := 0; i < 3+sym.Tier(); i++ {
		v := sym.Str("text", sym.Choice("text length", 2), " -!#-[]-~")
		switch sym.Choice("member", 3) {
		case 0:
			sp.SetTitle(v)
			title = v
		case 1:
			sp.SetDescription(v)
			desc = v
		case 2:
			sp.SetVersion(v)
			version = v
		}
		sym.Assert(sp.Title() == title && sp.Description() == desc && sp.Version() == version, "title, description and version are read back")
		sp = d.refl().SpecSchema()
	}
	sym.Assert(len(d.schemes()) == 0, "no security schemes")
	r := reDoc(d).refl().SpecSchema()
	sym.Assert(r.Title() == title && r.Description() == desc && r.Version() == version, "title, description and version survive encoding")
	sym.Cover("done")
}
