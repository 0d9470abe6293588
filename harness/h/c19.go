package h

import (
	"encoding/json"
	"reflect"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/sym"
)

// secReq is one security requirement.
type secReq struct {
	name   string
	scopes []string
}

// opInfo is what was set on an operation context.
type opInfo struct {
	tags              []string
	summary, desc, id string
	deprecated        bool
	security          []secReq
	set               map[string]bool
	req, resp         []openapi.ContentUnit
	shared            []string // given to several contexts
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == b[i])
	}
	return ok
}

// infoOf reads the information of a stored operation.
func infoOf(op any) (out opInfo) {
	sec := func(l []map[string][]string) {
		for _, m := range l {
			for k, v := range m {
				if v == nil {
					k = "scopes are nil"
				}
				out.security = append(out.security, secReq{k, v})
			}
		}
	}
	switch o := op.(type) {
	case openapi3.Operation:
		out.tags, out.summary, out.desc, out.id = o.Tags, strv(o.Summary), strv(o.Description), strv(o.ID)
		out.deprecated = tri(o.Deprecated) == 1
		sec(o.Security)
	case openapi31.Operation:
		out.tags, out.summary, out.desc, out.id = o.Tags, strv(o.Summary), strv(o.Description), strv(o.ID)
		out.deprecated = tri(o.Deprecated) == 1
		sec(o.Security)
	}
	return out
}

func (w *opInfo) same(g opInfo, what string) {
	sym.Assert(eqStrs(g.tags, w.tags), what+": tags")
	sym.Assert(g.summary == w.summary, what+": summary")
	sym.Assert(g.desc == w.desc, what+": description")
	sym.Assert(g.id == w.id, what+": ID")
	sym.Assert(g.deprecated == w.deprecated, what+": deprecation")
	sym.Assert(len(g.security) == len(w.security), what+": number of security requirements")
	for i, s := range w.security {
		sym.Assert(g.security[i].name == s.name && eqStrs(g.security[i].scopes, s.scopes), what+": security requirement in order")
	}
}

// encoded reads the information of an operation from its JSON form.
func encoded(op any) (out opInfo) {
	b, err := json.Marshal(op)
	sym.Assert(err == nil, "operation is encoded")
	switch op.(type) {
	case openapi3.Operation:
		var o openapi3.Operation
		sym.Assert(json.Unmarshal(b, &o) == nil, "operation is decoded")
		return infoOf(o)
	default:
		var o openapi31.Operation
		sym.Assert(json.Unmarshal(b, &o) == nil, "operation is decoded")
		return infoOf(o)
	}
}

// read compares what the context tells.
func (w *opInfo) read(oc openapi.OperationContext, what string) {
	ir := oc.(openapi.OperationInfoReader)
	sym.Assert(eqStrs(ir.Tags(), w.tags), what+": tags are read back")
	sym.Assert(ir.Summary() == w.summary, what+": summary is read back")
	sym.Assert(ir.Description() == w.desc, what+": description is read back")
	sym.Assert(ir.ID() == w.id, what+": ID is read back")
	sym.Assert(sym.Iff(ir.IsDeprecated(), w.deprecated), what+": deprecation is read back")
	var op any
	switch e := oc.(type) {
	case openapi3.OperationExposer:
		op = *e.Operation()
	case openapi31.OperationExposer:
		op = *e.Operation()
	}
	g := infoOf(op)
	sym.Assert(len(g.security) == len(w.security), what+": security requirements accumulate")
	for i, s := range w.security {
		sym.Assert(g.security[i].name == s.name && eqStrs(g.security[i].scopes, s.scopes), what+": security requirement in order")
	}
	units(oc.Request(), w.req, what+": request")
	units(oc.Response(), w.resp, what+": response")
}

var mapLocs = []openapi.In{openapi.InQuery, openapi.InHeader, openapi.InPath, openapi.InCookie, openapi.InFormData}

func units(got, want []openapi.ContentUnit, what string) {
	sym.Assert(len(got) == len(want), what+" units are read back")
	for i, w := range want {
		g := got[i]
		sym.Assert(g.Structure == w.Structure, what+" structure")
		sym.Assert(sym.And(g.ContentType == w.ContentType, g.HTTPStatus == w.HTTPStatus, g.Format == w.Format, g.Description == w.Description), what+" attributes")
		sym.Assert(sym.Iff(g.IsDefault, w.IsDefault), what+" default flag")
		for _, in := range mapLocs {
			a, b := g.FieldMapping(in), w.FieldMapping(in)
			sym.Assert(len(a) == len(b), what+" field mapping")
			for k, v := range b {
				sym.Assert(a[k] == v, what+" field mapping")
			}
		}
	}
}

// apply performs one arbitrary setter.
func (w *opInfo) apply(oc openapi.OperationContext, k int) {
	s := func(name string) string { return sym.Str(name, sym.Choice(name+" length", 2), plain) }
	switch k {
	case 0:
		n := sym.Choice("tags", 3+b2i(w.shared != nil))
		var tags []string
		for i := 0; i < n && n < 3; i++ {
			tags = append(tags, sym.Str("tag", 1, plain))
		}
		if n == 3 { // A list that other contexts are given too.
			tags = w.shared
		}
		oc.SetTags(tags...)
		w.tags = append([]string(nil), tags...)
	case 1:
		v := s("summary")
		oc.SetSummary(v)
		w.summary = v
	case 2:
		v := s("description")
		oc.SetDescription(v)
		w.desc = v
	case 3:
		v := s("id")
		oc.SetID(v)
		w.id = v
	case 4:
		v := sym.Choice("deprecated", 2) == 1
		oc.SetIsDeprecated(v)
		w.deprecated = v
	case 5:
		name := sym.Str("scheme", 1, plain)
		var sc []string
		n := sym.Choice("scopes", 3+b2i(w.shared != nil))
		for i := 0; i < n && n < 3; i++ {
			sc = append(sc, sym.Str("scope", 1, plain))
		}
		if n == 3 {
			sc = w.shared
		}
		oc.AddSecurity(name, sc...)
		w.security = append(w.security, secReq{name, append([]string(nil), sc...)})
	}
}

// Setters in arbitrary order on two contexts.
func C19_Setters() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	var ocs [2]openapi.OperationContext
	var want [2]opInfo
	paths := []string{"/a", "/b"}
	shared := append(make([]string, 0, 8), "s", "t")
	for i := range ocs {
		oc, err := d.refl().NewOperationContext("GET", paths[i])
		sym.Assert(err == nil, "operation context is created")
		ocs[i] = oc
		want[i].shared = shared
		want[i].read(oc, "new")
	}
	for i := 0; i < 3+sym.Tier(); i++ {
		c := sym.Choice("context", 2)
		want[c].apply(ocs[c], sym.Choice("setter", 6))
	}
	for i := range ocs {
		want[i].read(ocs[i], "set")
	}
	sym.Assert(len(d.ops()) == 0, "setters do not touch the document")
	for _, i := range []int{1, 0} {
		sym.Assert(d.refl().AddOperation(ocs[i]) == nil, "operation is added")
	}
	for i := range ocs {
		op, ok := d.get("get", paths[i])
		sym.Assert(ok, "added operation is found")
		want[i].same(infoOf(op), "stored")
		want[i].same(encoded(op), "encoded")
		want[i].read(ocs[i], "added")
	}
	sym.Cover("done")
}

// Every setter is used, with structures declared in between.
func C19_Full() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("POST", "/a")
	sym.Assert(err == nil, "operation context is created")
	var w opInfo
	perm := sym.Choice("first", 6)
	for i := 0; i < 6; i++ {
		w.apply(oc, (i+perm)%6)
		if i == 2 {
			rq, rs := openapi.ContentUnit{Structure: new(queryTagged)}, openapi.ContentUnit{Structure: new(jsonTagged)}
			unit := 0
			if perm == 0 {
				unit = sym.Choice("unit", 5)
			}
			switch unit {
			case 1:
				rq.ContentType, rq.Format = "application/json", "f"
				rs.ContentType, rs.Format = "text/csv; charset=utf-8; header=present", "f"
			case 2:
				rq.Description = "d"
				rs.IsDefault, rs.HTTPStatus = true, 4
			case 3:
				rs.HTTPStatus, rs.Description = 5, "d"
				rs.SetFieldMapping(openapi.InHeader, map[string]string{"A": "X-A"})
			case 4:
				rq.HTTPStatus, rq.IsDefault = 7, true
				rs.ContentType = " application/json "
			}
			oc.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = rq })
			oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { *cu = rs })
			w.req = append(w.req, rq)
			w.resp = append(w.resp, rs)
		}
	}
	w.read(oc, "set")
	if sym.Choice("webhook", 2) == 1 && ver == 31 {
		sym.Assert(d.r31.AddWebhook(oc) == nil, "webhook is added")
		pi := d.r31.Spec.Webhooks["/a"]
		sym.Assert(pi.PathItem != nil && pi.PathItem.Post != nil, "webhook is found")
		w.same(infoOf(*pi.PathItem.Post), "stored")
		w.read(oc, "added")
		sym.Cover("webhook")
		return
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get("post", "/a")
	sym.Assert(ok, "added operation is found")
	w.same(infoOf(op), "stored")
	w.same(encoded(op), "encoded")
	w.read(oc, "added")
	sym.Assert(len(pviews(op)) == 1 && len(d.rviews(op)) == 1, "structures are documented as well")
	sym.Cover("operation")
}

// preparedUnit sets its unit up on its own.
type preparedUnit struct {
	s  any
	ct string
	st int
}

func (p preparedUnit) SetupContentUnit(cu *openapi.ContentUnit) {
	cu.Structure, cu.ContentType, cu.HTTPStatus = p.s, p.ct, p.st
}

// Content units are kept in order with all their attributes.
func C19_Units() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	var ocs [2]openapi.OperationContext
	var want [2]opInfo
	for i := range ocs {
		oc, err := d.refl().NewOperationContext("POST", "/a"+string(rune('0'+i)))
		sym.Assert(err == nil, "operation context is created")
		ocs[i] = oc
	}
	for i := 0; i < 2+sym.Tier(); i++ {
		c := sym.Choice("context", 2)
		st := any(new(jsonTagged))
		u := openapi.ContentUnit{Structure: st}
		var options []openapi.ContentOption
		arg := st
		switch sym.Choice("way", 4) {
		case 0:
		case 1:
			u.ContentType = sym.Str("ct", 2, plain)
			u.HTTPStatus = int(sym.Int("status", 0, 600))
			if sym.Choice("again", 2) == 1 {
				// Later options override earlier ones.
				options = append(options, openapi.WithContentType("text/first"), openapi.WithHTTPStatus(299), func(cu *openapi.ContentUnit) { cu.Structure = nil })
				options = append(options, func(cu *openapi.ContentUnit) { cu.Structure = st })
			}
			options = append(options, openapi.WithContentType(u.ContentType), openapi.WithHTTPStatus(u.HTTPStatus))
		case 2:
			u.Format, u.Description = sym.Str("format", 1, plain), sym.Str("desc", 1, plain)
			u.IsDefault = sym.Bool("default")
			in := mapLocs[sym.Choice("in", len(mapLocs))]
			m := map[string]string{"A": sym.Str("mapped", 1, plain)}
			u.SetFieldMapping(in, m)
			if sym.Choice("second mapping", 2) == 1 {
				u.SetFieldMapping(mapLocs[sym.Choice("in", len(mapLocs))], map[string]string{"B": "b"})
			}
			v := u
			options = append(options, func(cu *openapi.ContentUnit) {
				cu.Format, cu.Description, cu.IsDefault = v.Format, v.Description, v.IsDefault
				for _, in := range mapLocs {
					cu.SetFieldMapping(in, v.FieldMapping(in))
				}
			})
		case 3:
			u.ContentType = sym.Str("ct", 1, plain)
			u.HTTPStatus = int(sym.Int("status", 0, 600))
			arg = preparedUnit{st, u.ContentType, u.HTTPStatus}
			if sym.Choice("override", 2) == 1 {
				u.HTTPStatus = int(sym.Int("status", 0, 600))
				options = append(options, openapi.WithHTTPStatus(u.HTTPStatus))
			}
		}
		if sym.Choice("response", 2) == 1 {
			ocs[c].AddRespStructure(arg, options...)
			want[c].resp = append(want[c].resp, u)
		} else {
			ocs[c].AddReqStructure(arg, options...)
			want[c].req = append(want[c].req, u)
		}
	}
	for i := range ocs {
		units(ocs[i].Request(), want[i].req, "request")
		units(ocs[i].Response(), want[i].resp, "response")
		sym.Assert(ocs[i].Method() == "POST" || ocs[i].Method() == "post", "method is read back")
		sym.Assert(ocs[i].PathPattern() == "/a"+string(rune('0'+i)), "path is read back")
	}
	sym.Cover("done")
}

// Forbidden unknown parameters are recorded in their location only.
func C19_Unknown() {
	ver := []int{3, 31}[sym.Choice("version", 2)]
	d := newDoc(ver)
	oc, err := d.refl().NewOperationContext("GET", "/a")
	sym.Assert(err == nil, "operation context is created")
	forbidden := map[string]bool{}
	n := 1 + sym.Choice("structures", 2+sym.Tier())
	for i := 0; i < n; i++ {
		k := sym.Choice("tag", 6)
		// Unset, true or false for the struct.
		mode := sym.Choice("additional", 3)
		tag := ""
		if k < 5 {
			tag = []string{"query", "header", "cookie", "path", "form"}[k] + `:"_"`
		}
		if mode > 0 {
			tag += ` additionalProperties:"` + []string{"", "true", "false"}[mode] + `"`
		}
		name := sym.Str("name", 2, "a-z") + string(rune('0'+i))
		t := reflect.StructOf([]reflect.StructField{
			{Name: "_", PkgPath: "h", Type: reflect.TypeOf(struct{}{}), Tag: reflect.StructTag(tag)},
			{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(`query:"` + name + `" header:"` + name + `" cookie:"` + name + `"`)},
		})
		oc.AddReqStructure(reflect.New(t).Interface())
		if mode == 2 && k < 5 {
			forbidden[[]string{"query", "header", "cookie", "path", "query"}[k]] = true
			sym.Cover("forbidden")
		}
	}
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	op, ok := d.get("get", "/a")
	sym.Assert(ok, "added operation is found")
	for _, l := range []string{"query", "header", "cookie", "path"} {
		sym.Assert(oc.UnknownParamsAreForbidden(openapi.In(l)) == forbidden[l], "unknown parameters are forbidden exactly where declared: context")
		switch o := op.(type) {
		case openapi3.Operation:
			sym.Assert(o.UnknownParamIsForbidden(openapi3.ParameterIn(l)) == forbidden[l], "unknown parameters are forbidden exactly where declared: operation")
		case openapi31.Operation:
			sym.Assert(o.UnknownParamIsForbidden(openapi31.ParameterIn(l)) == forbidden[l], "unknown parameters are forbidden exactly where declared: operation")
		}
	}
}

// C19_Moved: method and path of a context can be changed before its operation is added.
func C19_Moved() {
	d := newDoc([]int{3, 31}[sym.Choice("version", 2)])
	methods := []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
	a, b := methods[sym.Choice("method", 8)], methods[sym.Choice("new method", 8)]
	p, q := "/a"+sym.Str("path", 1, "a-z"), "/b"+sym.Str("new path", 1, "a-z")
	oc, err := d.refl().NewOperationContext(a, p)
	sym.Assert(err == nil && oc.Method() == a && oc.PathPattern() == p, "context has its method and path")
	m, ok := oc.(interface {
		SetMethod(method string)
		SetPathPattern(pattern string)
	})
	sym.Assert(ok, "context can be changed")
	early := sym.Choice("early", 2) == 1
	fill := func() {
		oc.SetID("id")
		oc.AddReqStructure(new(queryTagged))
		oc.AddRespStructure(new(jsonTagged), openapi.WithHTTPStatus(201))
	}
	if early {
		fill()
	}
	if sym.Choice("move", 2) == 1 {
		m.SetPathPattern(q)
	} else {
		q = p
	}
	m.SetMethod(b)
	sym.Assert(oc.Method() == b && oc.PathPattern() == q, "method and path are changed")
	if !early {
		fill()
	}
	sym.Assert(oc.ID() == "id" && len(oc.Request()) == 1 && len(oc.Response()) == 1, "context keeps what it has")
	sym.Assert(d.refl().AddOperation(oc) == nil, "operation is added")
	sym.Assert(len(d.ops()) == 1, "there is one operation")
	op, ok := d.get(b, q)
	sym.Assert(ok, "operation is found where it was moved")
	g, _ := generic(op).(map[string]any)
	sym.Assert(g["operationId"] == any("id"), "operation is the one added")
	ps, _ := g["parameters"].([]any)
	_, ok = dig(g, "responses", "201")
	sym.Assert(len(ps) == 1 && ok, "structures are documented")
	sym.Cover("moved")
}
