package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)

func init() { suites["extset"] = extsetSuite }

const extsetYamlA = `%YAML 1.2
---
urn: extension:t:a
types:
  - name: ta
  - name: tb
type_variations:
  - parent: i32
    name: va
    functions: INHERITS
scalar_functions:
  - name: f
    impls:
      - args: [{name: x, value: i32}]
        return: i32
  - name: g
    impls:
      - args: [{name: x, value: i32}]
        return: i32
      - args: [{name: x, value: i64}]
        return: i64
aggregate_functions:
  - name: h
    impls:
      - args: [{name: x, value: i32}]
        return: i32
        nullability: DECLARED_OUTPUT
`
const extsetYamlB = `%YAML 1.2
---
urn: extension:t:b
types:
  - name: ta
type_variations:
  - parent: i32
    name: vb
    functions: INHERITS
scalar_functions:
  - name: f
    impls:
      - args: [{name: x, value: i32}]
        return: i32
window_functions:
  - name: w
    impls:
      - args: [{name: x, value: i32}]
        return: i32
        window_type: PARTITION
`

func mustCollection(yamls ...string) *extensions.Collection {
	c := &extensions.Collection{}
	for _, y := range yamls {
		if err := c.Load(strings.NewReader(strings.TrimPrefix(y, "%YAML 1.2\n"))); err != nil {
			panic(fmt.Sprintf("collection: %v", err))
		}
	}
	return c
}

type anchor [2]uint32

func (a anchor) u() uint32     { return a[0]<<16 | a[1] }
func toAnchor(u uint32) anchor { return anchor{u >> 16, u & 0xffff} }

type xDecl [4]json.RawMessage // kind, ref, anchor, name

func extDecl(kind string, ref, a uint32, name string) *extpb.SimpleExtensionDeclaration {
	d := &extpb.SimpleExtensionDeclaration{}
	switch kind {
	case "type":
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionType_{ExtensionType: &extpb.SimpleExtensionDeclaration_ExtensionType{ExtensionUrnReference: ref, TypeAnchor: a, Name: name}}
	case "var":
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_{ExtensionTypeVariation: &extpb.SimpleExtensionDeclaration_ExtensionTypeVariation{ExtensionUrnReference: ref, TypeVariationAnchor: a, Name: name}}
	default:
		d.MappingType = &extpb.SimpleExtensionDeclaration_ExtensionFunction_{ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: ref, FunctionAnchor: a, Name: name}}
	}
	return d
}

func declTuple(d *extpb.SimpleExtensionDeclaration) []any {
	switch m := d.MappingType.(type) {
	case *extpb.SimpleExtensionDeclaration_ExtensionType_:
		return []any{"type", toAnchor(m.ExtensionType.ExtensionUrnReference), toAnchor(m.ExtensionType.TypeAnchor), m.ExtensionType.Name}
	case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
		return []any{"var", toAnchor(m.ExtensionTypeVariation.ExtensionUrnReference), toAnchor(m.ExtensionTypeVariation.TypeVariationAnchor), m.ExtensionTypeVariation.Name}
	case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
		return []any{"func", toAnchor(m.ExtensionFunction.ExtensionUrnReference), toAnchor(m.ExtensionFunction.FunctionAnchor), m.ExtensionFunction.Name}
	}
	return []any{"none", anchor{}, anchor{}, ""}
}

func declsOut(us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) ([]any, []any) {
	a, b := []any{}, []any{}
	for _, u := range us {
		a = append(a, []any{toAnchor(u.ExtensionUrnAnchor), u.Urn})
	}
	for _, d := range ds {
		b = append(b, declTuple(d))
	}
	return a, b
}

func extsetSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		ID    int64 `json:"id"`
		Steps []struct {
			O  string               `json:"o"`
			US [][2]json.RawMessage `json:"us"`
			DS []xDecl              `json:"ds"`
			K  string               `json:"k"`
			ID [2]string            `json:"id"`
			A  anchor               `json:"a"`
		} `json:"steps"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	c := mustCollection(extsetYamlA, extsetYamlB)
	rng := rand.New(rand.NewSource(s.ID))
	reg := expr.NewEmptyExtensionRegistry(c)
	universe := map[uint32]bool{65536: true, 4294967295: true}
	for i := uint32(0); i <= 12; i++ {
		universe[i] = true
	}
	obs := []obj{}
	for _, st := range s.Steps {
		r := obj{"a": anchor{}, "ok": false, "us": []any{}, "ds": []any{}, "us2": []any{}, "ds2": []any{}, "again": true, "u": "", "nm": ""}
		parse := func(p *pb.Plan) error {
			set, err := extensions.GetExtensionSet(p, c)
			if err != nil {
				return err
			}
			reg = expr.NewExtensionRegistry(set, c)
			return nil
		}
		o := guard(func() error {
			switch st.O {
			case "parse":
				p := &pb.Plan{}
				for _, u := range st.US {
					var a anchor
					var n string
					_ = json.Unmarshal(u[0], &a)
					_ = json.Unmarshal(u[1], &n)
					p.ExtensionUrns = append(p.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: a.u(), Urn: n})
				}
				for _, d := range st.DS {
					var k, n string
					var ref, a anchor
					_ = json.Unmarshal(d[0], &k)
					_ = json.Unmarshal(d[1], &ref)
					_ = json.Unmarshal(d[2], &a)
					_ = json.Unmarshal(d[3], &n)
					p.Extensions = append(p.Extensions, extDecl(k, ref.u(), a.u(), n))
				}
				return parse(p)
			case "get":
				id := extensions.ExtensionID{URN: st.ID[0], Name: st.ID[1]}
				var a uint32
				switch st.K {
				case "type":
					a = reg.GetTypeAnchor(extensions.TypeID(id))
				case "var":
					a = reg.GetTypeVariationAnchor(extensions.TypeVariationID(id))
				default:
					a = reg.GetFuncAnchor(extensions.FunctionID(id))
				}
				universe[a] = true
				r["a"] = toAnchor(a)
			case "find":
				a, ok := reg.FindURN(st.ID[0])
				r["a"], r["ok"] = toAnchor(a), ok
			case "lookup":
				ok := false
				var u, nm string
				switch st.K {
				case "type":
					t, o := reg.LookupType(st.A.u())
					ok, nm = o, t.Name
					if o {
						id, _ := reg.DecodeType(st.A.u())
						u = id.URN
					}
				case "var":
					t, o := reg.LookupTypeVariation(st.A.u())
					ok, nm = o, t.Name
					if o {
						id, _ := reg.DecodeTypeVariation(st.A.u())
						u = id.URN
					}
				case "scalar":
					if v, o := reg.LookupScalarFunction(st.A.u()); o {
						ok, u, nm = o, v.URN(), v.CompoundName()
					}
				case "agg":
					if v, o := reg.LookupAggregateFunction(st.A.u()); o {
						ok, u, nm = o, v.URN(), v.CompoundName()
					}
				case "window":
					if v, o := reg.LookupWindowFunction(st.A.u()); o {
						ok, u, nm = o, v.URN(), v.CompoundName()
					}
				}
				r["ok"], r["u"], r["nm"] = ok, u, nm
			case "write", "reread":
				us, ds := reg.ExtensionsToProto()
				a, b := declsOut(us, ds)
				r["us"], r["ds"] = a, b
				for k := 0; k < 4; k++ {
					a2, b2 := declsOut(reg.ExtensionsToProto())
					if !reflect.DeepEqual(a, a2) || !reflect.DeepEqual(b, b2) {
						r["again"] = false
					}
				}
				if st.O == "reread" {
					p := &pb.Plan{ExtensionUrns: append([]*extpb.SimpleExtensionURN{}, us...), Extensions: append([]*extpb.SimpleExtensionDeclaration{}, ds...)}
					rng.Shuffle(len(p.ExtensionUrns), func(i, j int) {
						p.ExtensionUrns[i], p.ExtensionUrns[j] = p.ExtensionUrns[j], p.ExtensionUrns[i]
					})
					rng.Shuffle(len(p.Extensions), func(i, j int) { p.Extensions[i], p.Extensions[j] = p.Extensions[j], p.Extensions[i] })
					if err := parse(p); err != nil {
						return err
					}
					r["us2"], r["ds2"] = declsOut(reg.ExtensionsToProto())
				}
			}
			return nil
		})
		r["st"], r["msg"] = o.St, o.Msg
		dec := []any{}
		for a := range universe {
			t, ok := reg.DecodeType(a)
			dec = append(dec, []any{"type", toAnchor(a), ok, t.URN, t.Name})
			v, ok := reg.DecodeTypeVariation(a)
			dec = append(dec, []any{"var", toAnchor(a), ok, v.URN, v.Name})
			f, ok := reg.DecodeFunc(a)
			dec = append(dec, []any{"func", toAnchor(a), ok, f.URN, f.Name})
		}
		r["dec"] = dec
		obs = append(obs, r)
	}
	return obj{"obs": obs}, nil
}
