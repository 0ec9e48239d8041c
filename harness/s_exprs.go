package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
)

func init() { suites["exprs"] = exprsSuite }

const exprsYAML = `%YAML 1.2
urn: "extension:vh:f"
scalar_functions:
  - name: sf
    impls:
      - args: [{name: x, value: any1}]
        variadic: {min: 1}
        return: any1
  - name: sg
    impls:
      - args: [{name: x, value: i32}, {name: y, value: i32}]
        return: i64
  - name: both
    impls:
      - args: [{name: x, value: i32}]
        return: i32
aggregate_functions:
  - name: ag
    impls:
      - args: [{name: x, value: i32}]
        return: i64?
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: i64?
  - name: both
    impls:
      - args: [{name: x, value: i32}]
        return: i32
window_functions:
  - name: wf
    impls:
      - args: [{name: x, value: i32}]
        return: i32
        window_type: PARTITION
  - name: w0
    impls:
      - args: []
        return: i64
        window_type: STREAMING
  - name: both
    impls:
      - args: [{name: x, value: i32}]
        return: i32
        window_type: PARTITION
`

const exprsYAML2 = `%YAML 1.2
urn: "extension:vh:g"
scalar_functions:
  - name: gf
    impls:
      - args: [{name: x, value: i32}]
        return: i32
`

type fnDecl struct {
	A uint32 `json:"a"`
	U string `json:"u"`
	N string `json:"n"`
}

func declPlan(fns []fnDecl) *pb.Plan {
	p := &pb.Plan{}
	urns := map[string]uint32{}
	for _, f := range fns {
		if _, ok := urns[f.U]; !ok {
			urns[f.U] = uint32(len(urns) + 1)
			p.ExtensionUrns = append(p.ExtensionUrns, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: urns[f.U], Urn: "extension:vh:" + f.U})
		}
		p.Extensions = append(p.Extensions, extDecl("func", urns[f.U], f.A, f.N))
	}
	return p
}

var exprsColl = mustCollection(exprsYAML, exprsYAML2)

func declRegistry(fns []fnDecl) (expr.ExtensionRegistry, error) {
	set, err := extensions.GetExtensionSet(declPlan(fns), exprsColl)
	if err != nil {
		return expr.ExtensionRegistry{}, err
	}
	reg := expr.NewExtensionRegistry(set, exprsColl)
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg, nil
}

// declList is what a registry declares: sorted (file, name, anchor) triples.
func declList(us []*extpb.SimpleExtensionURN, ds []*extpb.SimpleExtensionDeclaration) []string {
	byA := map[uint32]string{}
	for _, u := range us {
		byA[u.ExtensionUrnAnchor] = u.Urn
	}
	r := []string{}
	for _, d := range ds {
		if f := d.GetExtensionFunction(); f != nil {
			r = append(r, fmt.Sprintf("func %s %s %d", byA[f.ExtensionUrnReference], f.Name, f.FunctionAnchor))
		} else {
			r = append(r, esc(d.String()))
		}
	}
	sort.Strings(r)
	return r
}

func regList(reg expr.ExtensionRegistry) string {
	us, ds := reg.ExtensionsToProto()
	return fmt.Sprint(declList(us, ds))
}

func exprPb(n *Node) *pb.Expression {
	e := &pb.Expression{}
	if err := untree(n, e); err != nil {
		panic("harness: " + err.Error())
	}
	return wire(e, &pb.Expression{})
}

func canon(n *Node) *Node {
	if n == nil {
		return nilNode
	}
	return tree("e", exprPb(n))
}

func baseRecord(n *Node) *types.RecordType {
	return types.NewRecordTypeFromTypes(nodeToType(n).(*types.StructType).Types)
}

func fnID(id extensions.FunctionID) []string {
	u := id.URN
	if len(u) > 13 && u[:13] == "extension:vh:" {
		u = u[13:]
	}
	return []string{u, id.Name}
}

func exprsSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op  string                 `json:"op"`
		How string                 `json:"how"`
		Sch *Node                  `json:"sch"`
		E   *Node                  `json:"e"`
		F   *Node                  `json:"f"`
		S   []struct{ F, T *Node } `json:"s"`
		Fns []fnDecl               `json:"fns"`
		Xs  []struct {
			M     bool     `json:"m"`
			E     *Node    `json:"e"`
			Names []string `json:"names"`
		} `json:"xs"`
		Top []*Node `json:"top"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	base := baseRecord(s.Sch.fix())
	reg, err := declRegistry(s.Fns)
	if err != nil {
		return nil, err
	}
	before := regList(reg)
	read := func(n *Node) (e expr.Expression, o Outcome) {
		p := exprPb(n)
		o = guard(func() (err error) { e, err = expr.ExprFromProto(p, base, reg); return })
		return
	}
	switch s.Op {
	case "wire":
		p := exprPb(s.E)
		in := tree("e", p)
		var e, e2 expr.Expression
		r := obj{"e": in}
		o := guard(func() (err error) { e, err = expr.ExprFromProto(p, base, reg); return })
		if o.St == "ok" {
			o = guard(func() error {
				out := e.ToProto()
				r["out"] = tree("e", out)
				arg := e.ToProtoFuncArg().GetValue()
				if arg == nil {
					return fmt.Errorf("function argument is not a value")
				}
				r["arg"] = tree("e", arg)
				var err error
				if e2, err = expr.ExprFromProto(wire(out, &pb.Expression{}), base, reg); err != nil {
					return fmt.Errorf("read back: %w", err)
				}
				r["out2"] = tree("e", e2.ToProto())
				r["scalar"] = str(e.IsScalar())
				r["eq"] = str(e.Equals(e2)) + str(e2.Equals(e)) + str(e.Equals(e))
				r["reg"] = "same"
				if now := regList(reg); now != before {
					r["reg"] = clip(now)
				}
				r["fid"] = []string{"-", "-"}
				switch f := e.(type) {
				case *expr.ScalarFunction:
					r["fid"] = fnID(f.ID())
				case *expr.WindowFunction:
					r["fid"] = fnID(f.ID())
				}
				return nil
			})
			vo := guard(func() error { r["view"] = tree("e", viewExpr(e)); return nil })
			r["vst"] = vo.St + vo.Msg
			var t1, t2 string
			so := guard(func() error { t1, t2 = e.String(), e2.String(); return nil })
			r["str"] = str(so.St == "ok" && t1 == t2)
			if so.St != "ok" {
				r["str"] = so.Msg
			}
			r["typ"] = nilNode
			r["tst"] = guard(func() error { r["typ"] = typeToNode(e.GetType()); return nil }).St
			r["insame"] = tree("e", p)
		}
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "agg":
		p := &pb.AggregateFunction{}
		if err := untree(s.E, p); err != nil {
			return nil, err
		}
		p = wire(p, &pb.AggregateFunction{})
		r := obj{"e": tree("e", p)}
		o := guard(func() error {
			a, err := expr.NewAggregateFunctionFromProto(p, base, reg)
			if err != nil {
				return err
			}
			r["out"] = tree("e", a.ToProto())
			r["typ"] = typeToNode(a.GetType())
			r["fid"] = fnID(a.ID())
			r["str"] = guard(func() error { _ = a.String() + a.Name() + a.CompoundName(); return nil }).Msg
			if r["str"] == "" {
				r["str"] = "true"
			}
			r["reg"] = "same"
			if now := regList(reg); now != before {
				r["reg"] = clip(now)
			}
			r["insame"] = tree("e", p)
			vo := guard(func() error { r["view"] = tree("e", viewAgg(a)); return nil })
			r["vst"] = vo.St + vo.Msg
			return nil
		})
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "ext":
		x := &pb.ExtendedExpression{}
		if err := untree(N("x", nil, s.Top...).fix(), x); err != nil {
			return nil, err
		}
		dp := declPlan(s.Fns)
		x.ExtensionUrns, x.Extensions = dp.ExtensionUrns, dp.Extensions
		x.BaseSchema = &pb.NamedStruct{Struct: &pb.Type_Struct{Nullability: pb.Type_NULLABILITY_REQUIRED}}
		for i, t := range base.Types() {
			x.BaseSchema.Names = append(x.BaseSchema.Names, fmt.Sprintf("c%d", i))
			x.BaseSchema.Struct.Types = append(x.BaseSchema.Struct.Types, types.TypeToProto(t))
		}
		for _, ref := range s.Xs {
			er := &pb.ExpressionReference{OutputNames: ref.Names}
			if ref.M {
				a := &pb.AggregateFunction{}
				if err := untree(ref.E, a); err != nil {
					return nil, err
				}
				er.ExprType = &pb.ExpressionReference_Measure{Measure: a}
			} else {
				er.ExprType = &pb.ExpressionReference_Expression{Expression: exprPb(ref.E)}
			}
			x.ReferredExpr = append(x.ReferredExpr, er)
		}
		x = wire(x, &pb.ExtendedExpression{})
		r := obj{"in": tree("x", x), "declsin": declList(x.ExtensionUrns, x.Extensions)}
		o := guard(func() error {
			e, err := expr.ExtendedFromProto(x, exprsColl)
			if err != nil {
				return err
			}
			out := e.ToProto()
			r["out"] = tree("x", out)
			r["declsout"] = declList(out.ExtensionUrns, out.Extensions)
			r["insame"] = fmt.Sprint(jsonOf(tree("x", x))) == jsonOf(r["in"])
			return nil
		})
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "visit":
		r := obj{"e": canon(s.E), "seen": []*Node{}, "st": "-", "msg": ""}
		e, o := read(s.E)
		var ss []obj
		type pair struct {
			from string
			to   expr.Expression
		}
		var pairs []pair
		for _, x := range s.S {
			t, ot := read(x.T)
			if ot.St != "ok" {
				o = ot
			}
			ss = append(ss, obj{"f": canon(x.F), "t": canon(x.T)})
			pairs = append(pairs, pair{jsonOf(normForMatch(x.F, read)), t})
		}
		if ss == nil {
			ss = []obj{}
		}
		r["s"] = ss
		r["rst"], r["rmsg"] = o.St, o.Msg
		if o.St != "ok" {
			return r, nil
		}
		repl := func(x expr.Expression) (expr.Expression, bool) {
			k := jsonOf(tree("e", x.ToProto()))
			for _, p := range pairs {
				if p.from == k {
					return p.to, true
				}
			}
			return x, false
		}
		var seen []*Node
		var f expr.VisitFunc
		switch s.How {
		case "one":
			f = func(x expr.Expression) expr.Expression {
				seen = append(seen, tree("e", x.ToProto()))
				y, _ := repl(x)
				return y
			}
		case "pre":
			f = func(x expr.Expression) expr.Expression {
				if y, ok := repl(x); ok {
					return y
				}
				return x.Visit(f)
			}
		case "post":
			f = func(x expr.Expression) expr.Expression {
				y, _ := repl(x.Visit(f))
				return y
			}
		}
		o = guard(func() error {
			var id expr.VisitFunc
			id = func(x expr.Expression) expr.Expression { return x.Visit(id) }
			b := jsonOf(tree("e", e.ToProto()))
			r["ident"] = str(id(e) == e && jsonOf(tree("e", e.ToProto())) == b)
			var out expr.Expression
			if s.How == "one" {
				out = e.Visit(f)
			} else {
				out = f(e)
			}
			r["same"] = str(out == e)
			r["out"] = tree("e", out.ToProto())
			r["orig"] = tree("e", e.ToProto())
			r["eq"] = str(out.Equals(e))
			_ = out.String()
			_ = out.IsScalar()
			return nil
		})
		if seen != nil {
			r["seen"] = seen
		}
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "eq":
		r := obj{"e": canon(s.E), "f": canon(s.F)}
		a, o := read(s.E)
		b, ob := read(s.F)
		r["rst"] = o.St + ob.St
		if o.St == "ok" && ob.St == "ok" {
			g := guard(func() error {
				r["ab"], r["ba"] = str(a.Equals(b)), str(b.Equals(a))
				r["aa"] = str(a.Equals(a) && b.Equals(b))
				r["args"] = str(expr.FuncArgsEqual(a, b))
				return nil
			})
			r["st"], r["msg"] = g.St, g.Msg
		}
		return r, nil
	}
	return nil, errOp(s.Op)
}

// normForMatch is the message the library itself writes for the expression, so that a replacement is found whichever of
// several spellings the scenario uses.
func normForMatch(n *Node, read func(*Node) (expr.Expression, Outcome)) *Node {
	e, o := read(n)
	if o.St != "ok" {
		return canon(n)
	}
	var r *Node
	if guard(func() error { r = tree("e", e.ToProto()); return nil }).St != "ok" {
		return canon(n)
	}
	return r
}
