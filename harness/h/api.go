package h

import (
	"encoding/json"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

// prm is a version independent parameter.
type prm struct {
	Name, In string
}

// opSpec is a version independent operation.
type opSpec struct {
	Summary string
	Params  []prm
	Resps   []string // status keys
	Default bool
	Ref     int  // a reference is added before the parameter with this number, from 1
	NilOK   bool // 3.1: leave Responses nil if there are none
}

func (o opSpec) op3() openapi3.Operation {
	op := openapi3.Operation{}
	op.WithSummary(o.Summary)
	for i := 0; i <= len(o.Params); i++ {
		if i+1 == o.Ref {
			op.Parameters = append(op.Parameters, openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: "#/p"}})
		}
		if i == len(o.Params) {
			break
		}
		p := o.Params[i]
		op.Parameters = append(op.Parameters, openapi3.Parameter{Name: p.Name, In: openapi3.ParameterIn(p.In)}.ToParameterOrRef())
	}
	for _, s := range o.Resps {
		op.Responses.WithMapOfResponseOrRefValuesItem(s, openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "d" + s}})
	}
	if o.Default {
		op.Responses.Default = &openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "dflt"}}
	}
	return op
}

func (o opSpec) op31() openapi31.Operation {
	op := openapi31.Operation{}
	op.WithSummary(o.Summary)
	for i := 0; i <= len(o.Params); i++ {
		if i+1 == o.Ref {
			op.Parameters = append(op.Parameters, openapi31.ParameterOrReference{Reference: &openapi31.Reference{Ref: "#/p"}})
		}
		if i == len(o.Params) {
			break
		}
		p := o.Params[i]
		op.Parameters = append(op.Parameters, openapi31.Parameter{Name: p.Name, In: openapi31.ParameterIn(p.In)}.ToParameterOrRef())
	}
	for _, s := range o.Resps {
		op.ResponsesEns().WithMapOfResponseOrReferenceValuesItem(s, openapi31.ResponseOrReference{Response: &openapi31.Response{Description: "d" + s}})
	}
	if o.Default {
		op.ResponsesEns().Default = &openapi31.ResponseOrReference{Response: &openapi31.Response{Description: "dflt"}}
	}
	return op
}

// with204 is what the documents stores for an operation without responses.
func (o opSpec) stored() opSpec {
	return o
}

// doc is one document of either version.
type doc struct {
	ver int
	r3  *openapi3.Reflector
	r31 *openapi31.Reflector
}

func newDoc(ver int) *doc {
	d := &doc{ver: ver}
	if ver == 3 {
		d.r3 = openapi3.NewReflector()
	} else {
		d.r31 = openapi31.NewReflector()
	}
	return d
}

func (d *doc) refl() openapi.Reflector {
	if d.ver == 3 {
		return d.r3
	}
	return d.r31
}

func (d *doc) add(method, path string, o opSpec) error {
	if d.ver == 3 {
		return d.r3.Spec.AddOperation(method, path, o.op3())
	}
	return d.r31.Spec.AddOperation(method, path, o.op31())
}

func (d *doc) setup(method, path string, o opSpec) error {
	if d.ver == 3 {
		return d.r3.Spec.SetupOperation(method, path, func(op *openapi3.Operation) error {
			*op = o.op3()
			return nil
		})
	}
	return d.r31.Spec.SetupOperation(method, path, func(op *openapi31.Operation) error {
		*op = o.op31()
		return nil
	})
}

// ent is a stored operation.
type ent struct {
	method, path string
	op           any
}

// ops lists all operations of the document (for up to the eight methods).
func (d *doc) ops() []ent {
	var out []ent
	if d.ver == 3 {
		for p, pi := range d.r3.Spec.Paths.MapOfPathItemValues {
			for m, op := range pi.MapOfOperationValues {
				out = append(out, ent{m, p, op})
			}
		}
		return out
	}
	if d.r31.Spec.Paths == nil {
		return nil
	}
	for p, pi := range d.r31.Spec.Paths.MapOfPathItemValues {
		for _, x := range []struct {
			m string
			o *openapi31.Operation
		}{{"get", pi.Get}, {"put", pi.Put}, {"post", pi.Post}, {"delete", pi.Delete}, {"options", pi.Options}, {"head", pi.Head}, {"patch", pi.Patch}, {"trace", pi.Trace}} {
			if x.o != nil {
				out = append(out, ent{x.m, p, *x.o})
			}
		}
	}
	return out
}

// get finds an operation.
func (d *doc) get(method, path string) (any, bool) {
	if d.ver == 3 {
		op, ok := d.r3.Spec.Paths.MapOfPathItemValues[path].MapOfOperationValues[method]
		return op, ok
	}
	if d.r31.Spec.Paths == nil {
		return nil, false
	}
	pi := d.r31.Spec.Paths.MapOfPathItemValues[path]
	op, err := pi.Operation(method)
	if err != nil || op == nil {
		return nil, false
	}
	return *op, true
}

// snap is a deep copy of a value in text form.
func snap(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func summaryOf(op any) string {
	switch o := op.(type) {
	case openapi3.Operation:
		if o.Summary != nil {
			return *o.Summary
		}
	case openapi31.Operation:
		if o.Summary != nil {
			return *o.Summary
		}
	}
	return ""
}

func paramsOf(op any) []prm {
	var out []prm
	switch o := op.(type) {
	case openapi3.Operation:
		for _, p := range o.Parameters {
			if p.Parameter != nil {
				out = append(out, prm{p.Parameter.Name, string(p.Parameter.In)})
			}
		}
	case openapi31.Operation:
		for _, p := range o.Parameters {
			if p.Parameter != nil {
				out = append(out, prm{p.Parameter.Name, string(p.Parameter.In)})
			}
		}
	}
	return out
}
