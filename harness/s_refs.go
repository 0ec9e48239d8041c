package main

import (
	"encoding/json"
	"errors"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() { suites["refs"] = refsSuite }

type segRec struct {
	K string
	I int32
	V *Node
}

func (s segRec) seg() expr.ReferenceSegment {
	switch s.K {
	case "f":
		return expr.NewStructFieldRef(s.I)
	case "l":
		return expr.NewListElemRef(s.I)
	default:
		return expr.NewMapKeyRef(expr.LiteralFromProto(litPb(s.V)))
	}
}

func segsOf(p []segRec) (l []expr.ReferenceSegment) {
	for _, s := range p {
		l = append(l, s.seg())
	}
	return
}

// nested is the reference written as a literal structure, innermost first.
func nested(p []segRec) expr.ReferenceSegment {
	var child expr.ReferenceSegment
	for i := len(p) - 1; i >= 0; i-- {
		switch s := p[i].seg().(type) {
		case *expr.StructFieldRef:
			s.Child, child = child, s
		case *expr.ListElementRef:
			s.Child, child = child, s
		case *expr.MapKeyRef:
			s.Child, child = child, s
		}
	}
	return child
}

func typesOf(ns []*Node) []types.Type {
	r := make([]types.Type, len(ns))
	for i, n := range ns {
		r[i] = nodeToType(n)
	}
	return r
}

type failing struct{ panics bool }

func (f failing) BuildExpr() (expr.Expression, error) {
	if f.panics {
		panic("builder panicked on purpose")
	}
	return nil, errRewrite
}
func (f failing) BuildFuncArg() (types.FuncArg, error) { return f.BuildExpr() }

type bnode struct {
	K    string
	V, T *Node
	P    []segRec
	S    uint32
	Ts   []*Node
	Nul  string
	Of   int
	Args []int
	F    string
}

type anyBuilder interface {
	expr.Builder
	expr.FuncArgBuilder
}

var fnIDs = map[string]extensions.FunctionID{
	"add":       {URN: "extension:io.substrait:functions_arithmetic", Name: "add:i32_i32"},
	"not":       {URN: "extension:io.substrait:functions_boolean", Name: "not:bool"},
	"transform": {URN: "extension:io.substrait:functions_list", Name: "transform:list_func"},
}

func refsSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op     string
		Ts, Us []*Node
		Root   *Node
		Path   []segRec
		Msg    *Node
		More   segRec
		Cut    int
		Emit   []int32
		Idx    []int32
		B      []bnode
		Builds []int
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	coll := extensions.GetDefaultCollectionWithNoError()
	reg := expr.NewExtensionRegistry(extensions.NewSet(), coll)
	names := func(l []types.Type) types.NamedStruct {
		st := types.StructType{Nullability: types.NullabilityRequired, Types: l}
		n := types.NamedStruct{Struct: st}
		for range st.DepthFirstNameCount() {
			n.Names = append(n.Names, "c")
		}
		return n
	}
	nodes := func(l []types.Type) []*Node {
		r := []*Node{}
		for _, t := range l {
			r = append(r, typeToNode(t))
		}
		return r
	}
	named := func(n *Node) *Node { // function anchors as names
		var f func(n *Node)
		f = func(n *Node) {
			if n.K == "function_reference" {
				if id, ok := reg.DecodeFunc(u32(n.P[0])); ok {
					n.P[0] = id.Name
				}
			}
			for _, c := range n.C {
				f(c)
			}
		}
		f(n)
		return n
	}
	switch s.Op {
	case "ref":
		schema := types.NewRecordTypeFromTypes(typesOf(s.Ts))
		msg := exprPb(s.Msg)
		r := obj{"emsg": tree("e", msg)}
		var root expr.RootRefType = expr.RootReference
		if s.Root.K != "nil" {
			e, o := readExpr(exprPb(s.Root), schema, reg)
			if o.St != "ok" {
				return nil, errors.New("root: " + o.Msg)
			}
			root = e.(expr.RootRefType)
		}
		shared := segsOf(s.Path)
		eb := &expr.ExprBuilder{Reg: reg, BaseSchema: schema}
		builders := []struct {
			w string
			f func() (expr.Expression, error)
		}{
			{"nested", func() (expr.Expression, error) { return ref(expr.NewFieldRef(root, nested(s.Path), schema)) }},
			{"flatten", func() (expr.Expression, error) {
				return ref(expr.NewFieldRef(root, expr.FlattenRefSegments(shared...), schema))
			}},
			{"builder", func() (expr.Expression, error) { return eb.Ref(root, nested(s.Path)).BuildExpr() }},
			{"arg", func() (expr.Expression, error) {
				a, err := eb.Ref(root, expr.FlattenRefSegments(shared...)).BuildFuncArg()
				if err != nil {
					return nil, err
				}
				return a.(expr.Expression), nil
			}},
			{"message", func() (expr.Expression, error) { return expr.ExprFromProto(msg, schema, reg) }},
			{"selection", func() (expr.Expression, error) {
				return ref(expr.FieldReferenceFromProto(msg.GetSelection(), schema, reg))
			}},
		}
		ways := []obj{}
		var es []expr.Expression
		for _, b := range builders {
			var e expr.Expression
			o := guard(func() (err error) { e, err = b.f(); return })
			w := obj{"w": b.w, "st": o.St, "msg": o.Msg, "back": "same"}
			if o.St == "ok" {
				w["t"], w["e"] = typeToNode(e.GetType()), tree("e", e.ToProto())
				back, ob := readExpr(wire(e.ToProto(), &pb.Expression{}), schema, reg)
				if ob.St != "ok" {
					w["back"] = ob.St + " " + ob.Msg
				} else if back.GetType() == nil || !back.GetType().Equals(e.GetType()) || !back.Equals(e) {
					w["back"] = "another type or value"
				}
			} else {
				e = nil
			}
			ways, es = append(ways, w), append(es, e)
		}
		// later uses of the same segments and the same builder
		guard(func() error {
			_ = expr.FlattenRefSegments(append(append([]expr.ReferenceSegment{}, shared[:1]...), s.More.seg())...)
			return nil
		})
		guard(func() error { _, err := eb.RootRef(expr.NewStructFieldRef(0)).Build(); return err })
		guard(func() error {
			if len(shared) > 1 {
				_ = expr.FlattenRefSegments(shared[len(shared)-1], s.More.seg())
			}
			return nil
		})
		for i, e := range es {
			if e != nil {
				ways[i]["later"] = tree("e", e.ToProto())
			}
		}
		r["ways"] = ways
		return r, nil
	case "col":
		all := typesOf(s.Ts)
		b := plan.NewBuilder(coll)
		left := b.NamedScan([]string{"l"}, names(all[:s.Cut]))
		right := b.NamedScan([]string{"r"}, names(typesOf(s.Us)))
		whole := b.NamedScan([]string{"w"}, names(all))
		emit, err := whole.Remap(s.Emit...)
		if err != nil {
			return nil, err
		}
		cols := []obj{}
		for _, i := range s.Idx {
			for _, w := range []string{"whole", "left", "emit", "joined", "joinedemit"} {
				var f *expr.FieldReference
				o := guard(func() (err error) {
					switch w {
					case "whole":
						f, err = b.RootFieldRef(whole, i)
					case "left":
						f, err = b.RootFieldRef(left, i)
					case "emit":
						f, err = b.RootFieldRef(emit, i)
					case "joined":
						f, err = b.JoinedRecordFieldRef(left, right, i)
					case "joinedemit":
						f, err = b.JoinedRecordFieldRef(emit, left, i)
					}
					return
				})
				c := obj{"w": w, "i": i, "st": o.St, "msg": o.Msg}
				if o.St == "ok" {
					c["t"], c["e"] = typeToNode(f.GetType()), tree("e", f.ToProto())
				}
				cols = append(cols, c)
			}
		}
		rec := func(r plan.Rel) []*Node { return recNodes(r.RecordType()) }
		return obj{"cols": cols, "schemas": []any{rec(whole), rec(left), rec(right)}, "storage": nodes(all)}, nil
	case "lambda":
		schema := types.NewRecordTypeFromTypes(typesOf(s.Ts))
		eb := &expr.ExprBuilder{Reg: reg, BaseSchema: schema}
		var bs []anyBuilder
		for _, x := range s.B {
			var b anyBuilder
			switch x.K {
			case "lit":
				b = eb.Wrap(expr.LiteralFromProto(litPb(x.V)), nil)
			case "ref":
				b = eb.RootRef(nested(x.P))
			case "pref":
				b = eb.LambdaParamRef(*nested(x.P).(*expr.StructFieldRef), x.S)
			case "lam":
				nul := map[string]types.Nullability{"0": types.NullabilityUnspecified, "1": types.NullabilityNullable, "2": types.NullabilityRequired}[x.Nul]
				b = eb.Lambda(&types.StructType{Nullability: nul, Types: typesOf(x.Ts)}, bs[x.Of-1])
			case "cast":
				b = eb.Cast(bs[x.Of-1], nodeToType(x.T))
			case "param":
				b = eb.DynamicParam(nodeToType(x.T), x.S)
			case "fn":
				fb := eb.ScalarFunc(fnIDs[x.F])
				var as []expr.FuncArgBuilder
				for _, a := range x.Args {
					as = append(as, bs[a-1])
				}
				b = fb.Args(as...)
			case "err":
				b = failing{}
			case "panic":
				b = failing{true}
			}
			bs = append(bs, b)
		}
		obs := []obj{}
		var es []expr.Expression
		for k, i := range s.Builds {
			var e expr.Expression
			o := guard(func() (err error) {
				if k%2 == 0 {
					e, err = bs[i-1].BuildExpr()
					return
				}
				a, err := bs[i-1].BuildFuncArg()
				if err == nil {
					e = a.(expr.Expression)
				}
				return err
			})
			ob := obj{"st": o.St, "msg": o.Msg}
			if o.St == "ok" {
				ob["t"], ob["e"] = typeToNode(e.GetType()), named(tree("e", e.ToProto()))
			} else {
				e = nil
			}
			obs, es = append(obs, ob), append(es, e)
		}
		for i, e := range es {
			if e != nil {
				obs[i]["later"] = named(tree("e", e.ToProto()))
			}
		}
		return obj{"obs": obs}, nil
	}
	return nil, errOp(s.Op)
}

func ref(f *expr.FieldReference, err error) (expr.Expression, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}
