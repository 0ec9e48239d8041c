package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() { suites["make"] = makeSuite }

type makeDecl struct {
	U, Kind, Name, Null, Ret, Dec string
	Args                          []string
	Var                           []any
}

func makeYAML(urn string, ds []makeDecl) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%%YAML 1.2\n---\nurn: %s\ntypes:\n  - name: point\n  - name: A_b9\n", urn)
	for _, kind := range []string{"scalar", "aggregate", "window"} {
		first := true
		for _, d := range ds {
			if d.U != urn || d.Kind != kind {
				continue
			}
			if first {
				fmt.Fprintf(&b, "%s_functions:\n", kind)
				first = false
			}
			fmt.Fprintf(&b, "  - name: %s\n    impls:\n      - return: %s\n        nullability: %s\n", d.Name, q(d.Ret), d.Null)
			if len(d.Args) > 0 {
				b.WriteString("        args:\n")
			}
			for i, a := range d.Args {
				if a == "" {
					b.WriteString("          - name: A\n            options: [X, Y]\n")
				} else {
					fmt.Fprintf(&b, "          - name: a%d\n            value: %s\n", i, q(a))
				}
			}
			if len(d.Var) == 3 {
				fmt.Fprintf(&b, "        variadic:\n          min: %v\n          parameterConsistency: %v\n", d.Var[0], d.Var[2])
				if fmt.Sprint(d.Var[1]) != "0" {
					fmt.Fprintf(&b, "          max: %v\n", d.Var[1])
				}
			}
			if d.Dec != "" {
				fmt.Fprintf(&b, "        decomposable: %s\n", d.Dec)
			}
			if kind == "window" {
				b.WriteString("        window_type: PARTITION\n")
			}
		}
	}
	return b.String()
}

type pair struct {
	I int
	S string
}

func (p *pair) UnmarshalJSON(b []byte) error {
	var l []json.RawMessage
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if err := json.Unmarshal(l[0], &p.I); err != nil {
		return err
	}
	return json.Unmarshal(l[1], &p.S)
}

type optPair struct {
	Name  string
	Prefs []string
}

func (p *optPair) UnmarshalJSON(b []byte) error {
	var l []json.RawMessage
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if err := json.Unmarshal(l[0], &p.Name); err != nil {
		return err
	}
	return json.Unmarshal(l[1], &p.Prefs)
}

type makePart struct {
	K, Val, Fb, Kind, U, Name, Via, Ph, Inv, Bt string
	V, T, Lo, Hi                                *Node
	P                                           []segRec
	S                                           uint32
	Ts                                          []*Node
	Of                                          json.RawMessage
	Nul                                         bool
	Ifs, Cases                                  [][2]int
	Els, Match                                  int
	Opts                                        []optPair
	Args, Parts                                 []int
	Sorts                                       []pair
}

func (p makePart) of() (i int)    { _ = json.Unmarshal(p.Of, &i); return }
func (p makePart) ofs() (l []int) { _ = json.Unmarshal(p.Of, &l); return }

// thunk is a builder around a constructor.
type thunk func() (expr.Expression, error)

func (f thunk) BuildExpr() (expr.Expression, error) { return f() }
func (f thunk) BuildFuncArg() (types.FuncArg, error) {
	e, err := f()
	if err != nil {
		return nil, err
	}
	return e, nil
}

type enumPart struct{ expr.FuncArgBuilder }

func (enumPart) BuildExpr() (expr.Expression, error) {
	return nil, errors.New("an enumeration argument is no expression")
}

type makeNode struct {
	makePart
	b   anyBuilder
	agg func() (*expr.AggregateFunction, error)
	set func(f string)
}

func boundOf(n *Node) expr.Bound {
	if n == nil || n.K == "nil" {
		return nil
	}
	m := &pb.Expression_WindowFunction_Bound{}
	if err := untree(n, m); err != nil {
		panic(err)
	}
	return expr.BoundFromProto(m)
}

func makeSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Ts    []*Node
		Decls []makeDecl
		B     []makePart
		Steps []struct {
			Op string
			I  int
			F  string
			V  json.RawMessage
		}
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	r := obj{"load": "", "obs": []any{}}
	var coll extensions.Collection
	for _, u := range []string{"extension:test:make", "extension:test:more"} {
		if o := guard(func() error { return coll.Load(strings.NewReader(makeYAML(u, s.Decls))) }); o.St != "ok" {
			r["load"] = o.St + " " + o.Msg
			return r, nil
		}
	}
	reg := expr.NewExtensionRegistry(extensions.NewSet(), &coll)
	for _, n := range []string{"point", "A_b9"} {
		reg.GetTypeAnchor(extensions.TypeID{URN: "extension:test:make", Name: n})
	}
	schema := types.NewRecordTypeFromTypes(typesOf(s.Ts))
	eb := &expr.ExprBuilder{Reg: reg, BaseSchema: schema}
	var named func(n *Node) *Node
	named = func(n *Node) *Node { // function anchors as names
		if n.K == "function_reference" {
			if id, ok := reg.DecodeFunc(u32(n.P[0])); ok {
				n.P[0] = id.URN + "#" + id.Name
			}
		}
		for _, c := range n.C {
			named(c)
		}
		return n
	}
	var bs []*makeNode
	exprAt := func(i int) (expr.Expression, error) {
		if i == 0 {
			return nil, nil
		}
		return bs[i-1].b.BuildExpr()
	}
	newPart := func(p makePart) *makeNode {
		n := &makeNode{makePart: p}
		opts := []*types.FunctionOption{}
		for _, o := range p.Opts {
			opts = append(opts, &types.FunctionOption{Name: o.Name, Preference: o.Prefs})
		}
		id := extensions.FunctionID{URN: p.U, Name: p.Name}
		args := func() (l []expr.FuncArgBuilder) {
			for _, i := range n.Args {
				l = append(l, bs[i-1].b)
			}
			return
		}
		built := func() (l []types.FuncArg, err error) {
			for _, a := range args() {
				x, err := a.BuildFuncArg()
				if err != nil {
					return nil, err
				}
				l = append(l, x)
			}
			return
		}
		var sortErr error
		sorts := func() (l []expr.SortField) {
			sortErr = nil
			for _, x := range n.Sorts {
				e, err := exprAt(x.I)
				if err != nil {
					sortErr = err
				}
				l = append(l, expr.SortField{Expr: e, Kind: types.SortDirection(pb.SortField_SortDirection_value[x.S])})
			}
			return
		}
		parts := func() (l []expr.Builder) {
			for _, i := range n.Parts {
				l = append(l, bs[i-1].b)
			}
			return
		}
		ph := func() types.AggregationPhase {
			return types.AggregationPhase(pb.AggregationPhase_value[n.Ph])
		}
		inv := func() types.AggregationInvocation {
			return types.AggregationInvocation(pb.AggregateFunction_AggregationInvocation_value[n.Inv])
		}
		bt := func() types.BoundsType {
			return types.BoundsType(pb.Expression_WindowFunction_BoundsType_value[n.Bt])
		}
		fb := func() types.CastFailBehavior {
			return types.CastFailBehavior(pb.Expression_Cast_FailureBehavior_value[n.Fb])
		}
		var pre []expr.FuncArgBuilder // replaced again
		if len(bs) > 0 {
			pre = append(pre, bs[0].b, bs[0].b)
		}
		switch p.K {
		case "lit":
			n.b = eb.Wrap(expr.LiteralFromProto(litPb(p.V)), nil)
		case "err":
			n.b = eb.Wrap(nil, errRewrite)
		case "enum":
			n.b = enumPart{eb.Enum(p.Val)}
		case "ref":
			n.b = eb.RootRef(nested(p.P))
		case "eref":
			n.b = thunk(func() (expr.Expression, error) {
				e, err := exprAt(p.of())
				if err != nil {
					return nil, err
				}
				return eb.Ref(e, nested(p.P)).BuildExpr()
			})
		case "pref":
			n.b = eb.LambdaParamRef(*nested(p.P).(*expr.StructFieldRef), p.S)
		case "param":
			var t types.Type
			if p.T.K != "nil" {
				t = nodeToType(p.T)
			}
			n.b = eb.DynamicParam(t, p.S)
		case "lam":
			n.b = eb.Lambda(&types.StructType{Nullability: types.NullabilityRequired, Types: typesOf(p.Ts)}, bs[p.of()-1].b)
		case "cast":
			c := eb.Cast(bs[p.of()-1].b, nodeToType(p.T))
			if p.Fb != "FAILURE_BEHAVIOR_UNSPECIFIED" {
				c.FailBehavior(fb())
			}
			n.b, n.set = c, func(string) { c.FailBehavior(fb()) }
		case "list":
			n.b = thunk(func() (expr.Expression, error) {
				var l []expr.Expression
				for _, i := range p.ofs() {
					e, err := exprAt(i)
					if err != nil {
						return nil, err
					}
					l = append(l, e)
				}
				return expr.NewListExpr(p.Nul, l...), nil
			})
		case "if":
			n.b = thunk(func() (expr.Expression, error) {
				var l []expr.IfThenPair
				for _, x := range p.Ifs {
					a, err := exprAt(x[0])
					if err != nil {
						return nil, err
					}
					b, err := exprAt(x[1])
					if err != nil {
						return nil, err
					}
					l = append(l, expr.IfThenPair{If: a, Then: b})
				}
				els, err := exprAt(p.Els)
				if err != nil {
					return nil, err
				}
				x, err := expr.NewIfThen(l[0], els, l[1:]...)
				if err != nil {
					return nil, err
				}
				for i := range l { // the caller's own list
					l[i] = expr.IfThenPair{}
				}
				return x, nil
			})
		case "sw":
			n.b = thunk(func() (expr.Expression, error) {
				var l []struct {
					If   expr.Literal
					Then expr.Expression
				}
				m, err := exprAt(p.Match)
				if err != nil {
					return nil, err
				}
				for _, x := range p.Cases {
					a, err := exprAt(x[0])
					if err != nil {
						return nil, err
					}
					b, err := exprAt(x[1])
					if err != nil {
						return nil, err
					}
					lit, _ := a.(expr.Literal)
					l = append(l, struct {
						If   expr.Literal
						Then expr.Expression
					}{lit, b})
				}
				els, err := exprAt(p.Els)
				if err != nil {
					return nil, err
				}
				x, err := expr.NewSwitch(m, els, l...)
				if err != nil {
					return nil, err
				}
				return x, nil
			})
		case "fn", "cust":
			switch p.Kind + "." + p.Via {
			case "scalar.builder":
				f := eb.ScalarFunc(id, opts...).Args(pre...)
				n.set = func(string) { f.Args(args()...) }
				n.b = f
			case "scalar.new":
				n.b = thunk(func() (expr.Expression, error) {
					l, err := built()
					if err != nil {
						return nil, err
					}
					var f *expr.ScalarFunction
					if p.K == "fn" {
						f, err = expr.NewScalarFunc(reg, id, opts, l...)
					} else {
						var t types.Type
						if p.T.K != "nil" {
							t = nodeToType(p.T)
						}
						f, err = expr.NewCustomScalarFunc(reg, extensions.NewScalarFuncVariant(id), t, opts, l...)
					}
					if err != nil {
						return nil, err
					}
					return f, nil
				})
			case "window.builder":
				f := eb.WindowFunc(id, opts...).Args(pre...)
				wb := thunk(func() (expr.Expression, error) {
					if sortErr != nil {
						return nil, sortErr
					}
					x, err := f.Build()
					if err != nil {
						return nil, err
					}
					return x, nil
				})
				n.b = wb
				n.set = func(fd string) {
					all := fd == ""
					if all || fd == "args" {
						f.Args(args()...)
					}
					if all || fd == "ph" {
						f.Phase(ph())
					}
					if all || fd == "inv" {
						f.Invocation(inv())
					}
					if all || fd == "sorts" {
						f.Sort(sorts()...)
					}
					if all || fd == "parts" {
						f.Partitions(parts()...)
					}
					if all || fd == "lo" || fd == "hi" {
						f.Bounds(boundOf(n.Lo), boundOf(n.Hi))
					}
					if all || fd == "bt" {
						f.BoundsType(bt())
					}
				}
			case "window.new":
				n.b = thunk(func() (expr.Expression, error) {
					l, err := built()
					if err != nil {
						return nil, err
					}
					var f *expr.WindowFunction
					if p.K == "fn" {
						f, err = expr.NewWindowFunc(reg, id, opts, inv(), ph(), l...)
					} else {
						var t types.Type
						if p.T.K != "nil" {
							t = nodeToType(p.T)
						}
						f, err = expr.NewCustomWindowFunc(reg, extensions.NewWindowFuncVariant(id), t, opts, inv(), ph(), l...)
					}
					if err != nil {
						return nil, err
					}
					return f, nil
				})
			case "aggregate.builder":
				f := eb.AggFunc(id, opts...).Args(pre...)
				n.agg = func() (*expr.AggregateFunction, error) {
					if sortErr != nil {
						return nil, sortErr
					}
					return f.Build()
				}
				n.set = func(fd string) {
					all := fd == ""
					if all || fd == "args" {
						f.Args(args()...)
					}
					if all || fd == "ph" {
						f.Phase(ph())
					}
					if all || fd == "inv" {
						f.Invocation(inv())
					}
					if all || fd == "sorts" {
						f.Sorts(sorts()...)
					}
				}
			case "aggregate.new":
				n.agg = func() (*expr.AggregateFunction, error) {
					l, err := built()
					if err != nil {
						return nil, err
					}
					so := sorts()
					if sortErr != nil {
						return nil, sortErr
					}
					if p.K == "fn" {
						return expr.NewAggregateFunc(reg, id, opts, inv(), ph(), so, l...)
					}
					var t types.Type
					if p.T.K != "nil" {
						t = nodeToType(p.T)
					}
					return expr.NewCustomAggregateFunc(reg, extensions.NewAggFuncVariant(id), t, opts, inv(), ph(), so, l...)
				}
			}
			if n.set != nil {
				n.set("")
			}
		}
		if n.agg != nil {
			n.b = thunk(func() (expr.Expression, error) { return nil, errors.New("an aggregate is no expression") })
		}
		return n
	}
	for _, p := range s.B {
		bs = append(bs, newPart(p))
	}
	type fn interface {
		expr.FunctionInvocation
		NArgs() int
		Arg(int) types.FuncArg
	}
	acc := func(x any) obj {
		f, ok := x.(fn)
		if !ok {
			return obj{}
		}
		ts := []*Node{}
		for _, t := range f.GetArgTypes() {
			if t == types.CommonEnumType {
				ts = append(ts, N("enum", nil))
			} else {
				ts = append(ts, typeToNode(t))
			}
		}
		opts := []any{}
		for _, o := range f.GetOptions() {
			opts = append(opts, []any{o.Name, append([]string{}, o.Preference...)})
		}
		o := obj{"id": f.ID().URN + "#" + f.ID().Name, "name": f.CompoundName(), "nargs": f.NArgs(), "ts": ts, "opts": opts, "ph": "", "inv": ""}
		if p, ok := x.(interface {
			Phase() types.AggregationPhase
			Invocation() types.AggregationInvocation
		}); ok {
			o["ph"], o["inv"] = pb.AggregationPhase(p.Phase()).String(), pb.AggregateFunction_AggregationInvocation(p.Invocation()).String()
		}
		return o
	}
	obs := []obj{}
	var late []func() *Node
	for _, st := range s.Steps {
		n := bs[st.I-1]
		if st.Op == "set" {
			var err error
			switch st.F {
			case "fb":
				err = json.Unmarshal(st.V, &n.Fb)
			case "args":
				n.Args = nil
				err = json.Unmarshal(st.V, &n.Args)
			case "ph":
				err = json.Unmarshal(st.V, &n.Ph)
			case "inv":
				err = json.Unmarshal(st.V, &n.Inv)
			case "bt":
				err = json.Unmarshal(st.V, &n.Bt)
			case "lo":
				n.Lo = nil
				err = json.Unmarshal(st.V, &n.Lo)
			case "hi":
				n.Hi = nil
				err = json.Unmarshal(st.V, &n.Hi)
			case "sorts":
				n.Sorts = nil
				err = json.Unmarshal(st.V, &n.Sorts)
			case "parts":
				n.Parts = nil
				err = json.Unmarshal(st.V, &n.Parts)
			}
			if err != nil {
				return nil, err
			}
			n.set(st.F)
			obs, late = append(obs, obj{}), append(late, nil)
			continue
		}
		ob := obj{"agg": "no", "back": "", "scalar": "", "acc": obj{}}
		var msg func() *Node
		var o Outcome
		if n.agg != nil {
			ob["agg"] = "yes"
			var a *expr.AggregateFunction
			o = guard(func() (err error) { a, err = n.agg(); return })
			if o.St == "ok" {
				msg = func() *Node { return named(N("e", nil, tree("aggregate_function", a.ToProto()))) }
				o = guard(func() error {
					ob["t"], ob["e"], ob["acc"] = typeToNode(a.GetType()), msg(), acc(a)
					_ = a.String()
					var back *expr.AggregateFunction
					g := guard(func() (err error) {
						back, err = expr.NewAggregateFunctionFromProto(wire(a.ToProto(), &pb.AggregateFunction{}), schema, reg)
						return
					})
					if g.St != "ok" {
						ob["back"], ob["re"] = g.St+" "+g.Msg, N("nil", nil)
					} else {
						ob["re"] = named(N("e", nil, tree("aggregate_function", back.ToProto())))
					}
					return nil
				})
			}
		} else {
			var e expr.Expression
			o = guard(func() (err error) {
				if st.Op == "build" {
					e, err = n.b.BuildExpr()
					return
				}
				a, err := n.b.BuildFuncArg()
				if err == nil {
					e = a.(expr.Expression)
				}
				return err
			})
			if o.St == "ok" {
				msg = func() *Node { return named(tree("e", e.ToProto())) }
				o = guard(func() error {
					ob["t"], ob["e"], ob["acc"], ob["scalar"] = typeToNode(e.GetType()), msg(), acc(e), fmt.Sprint(e.IsScalar())
					_ = e.String()
					back, g := readExpr(wire(e.ToProto(), &pb.Expression{}), schema, reg)
					if g.St != "ok" {
						ob["back"], ob["re"] = g.St+" "+g.Msg, N("nil", nil)
					} else {
						ob["re"] = named(tree("e", back.ToProto()))
					}
					if a := e.ToProtoFuncArg(); a == nil || !proto.Equal(a.GetValue(), e.ToProto()) {
						ob["back"] = "as an argument it is written differently"
					}
					return nil
				})
			}
		}
		ob["st"], ob["msg"], ob["leak"] = o.St, o.Msg, "no"
		// outside of every lambda there is no parameter to refer to, whatever was built or refused before
		if g := guard(func() error { _, err := eb.LambdaParamRef(expr.StructFieldRef{}, 0).BuildExpr(); return err }); g.St != "err" {
			ob["leak"] = g.St
		}
		if o.St != "ok" {
			msg = nil
		}
		obs, late = append(obs, ob), append(late, msg)
	}
	for i, m := range late {
		if m != nil {
			obs[i]["later"] = m()
		}
	}
	r["obs"] = obs
	return r, nil
}
