package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() { suites["build"] = buildSuite }

type bindRec struct {
	A string `json:"a"`
	V *Node  `json:"v"`
}

type bstep struct {
	A      string    `json:"a"`
	H      int       `json:"h"`
	G      int       `json:"g"`
	Ins    []int     `json:"ins"`
	M      [][]int32 `json:"m"`
	Ts     []*Node   `json:"ts"`
	Names  []string  `json:"names"`
	Es     []*Node   `json:"es"`
	Rows   [][]*Node `json:"rows"`
	Sorts  []*Node   `json:"sorts"`
	Ms     []*Node   `json:"ms"`
	X      string    `json:"x"`
	Off    string    `json:"off"`
	Cnt    string    `json:"cnt"`
	Idx    []int32   `json:"idx"`
	Groups [][]int   `json:"groups"`
	Binds  []bindRec `json:"binds"`
	Urls   []string  `json:"urls"`
	Others []int     `json:"others"`
	Lit    string    `json:"lit"`
}

func canonMsg(n *Node, m proto.Message) *Node {
	if err := untree(n, m); err != nil {
		panic("harness: " + err.Error())
	}
	b, err := proto.Marshal(m)
	if err != nil {
		panic("harness: " + err.Error())
	}
	proto.Reset(m)
	if err := proto.Unmarshal(b, m); err != nil {
		panic("harness: " + err.Error())
	}
	return tree(n.K, m)
}

// canonE is an expression as its message reads back; nil stays nil.
func canonE(n *Node) *Node {
	if n == nil || n.K == "nil" {
		return nilNode
	}
	return canon(n)
}

func (s *bstep) canonical() {
	for i := range s.Es {
		s.Es[i] = canonE(s.Es[i])
	}
	for i := range s.Rows {
		for j := range s.Rows[i] {
			s.Rows[i][j] = canonE(s.Rows[i][j])
		}
		if s.Rows[i] == nil {
			s.Rows[i] = []*Node{}
		}
	}
	for i := range s.Sorts {
		s.Sorts[i] = canonMsg(s.Sorts[i], &pb.SortField{})
	}
	for i := range s.Ms {
		s.Ms[i] = canonMsg(s.Ms[i], &pb.AggregateRel_Measure{})
	}
}

type relBuilder struct {
	b     plan.Builder
	reg   expr.ExtensionRegistry
	rels  []plan.Rel
	state []string // what each relation looked like when last observed
}

func newRelBuilder(fns []fnDecl) (*relBuilder, error) {
	b := plan.NewBuilder(exprsColl)
	reg := b.GetExprBuilder().Reg
	for i, f := range fns {
		if a := reg.GetFuncAnchor(extensions.FunctionID{URN: "extension:vh:" + f.U, Name: f.N}); int(a) != i+1 {
			return nil, fmt.Errorf("harness: anchor %d for function %d", a, i+1)
		}
	}
	for u, d := range extDecoders {
		if err := reg.SetExtensionRelDecoder(u, d); err != nil {
			return nil, err
		}
	}
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return &relBuilder{b: b, reg: reg}, nil
}

func look(r plan.Rel) (rel *Node, cols []*Node, o Outcome) {
	rel, cols = nilNode, []*Node{}
	o = guard(func() error {
		rel = tree("rel", r.ToProto())
		cols = recNodes(r.RecordType())
		return nil
	})
	return
}

func (x *relBuilder) snapshot(r plan.Rel) string {
	n, t, o := look(r)
	return jsonOf(n) + jsonOf(t) + o.St
}

func (x *relBuilder) add(r plan.Rel) {
	x.rels = append(x.rels, r)
	x.state = append(x.state, x.snapshot(r))
}

// unchanged compares every relation handed out with what it was.
func (x *relBuilder) unchanged() string {
	for i, r := range x.rels {
		if now := x.snapshot(r); now != x.state[i] {
			return fmt.Sprintf("#%d is now %s", i+1, clip(now))
		}
	}
	return "same"
}

func (x *relBuilder) rel(i int) plan.Rel {
	if i <= 0 || i > len(x.rels) {
		return nil
	}
	return x.rels[i-1]
}

func (x *relBuilder) schema(is ...int) *types.RecordType {
	var ts []types.Type
	for _, i := range is {
		if r := x.rel(i); r != nil {
			rt := r.RecordType()
			ts = append(ts, rt.Types()...)
		}
	}
	return types.NewRecordTypeFromTypes(ts)
}

var errHarness = errors.New("harness")

func (x *relBuilder) expr(n *Node, sch *types.RecordType) expr.Expression {
	if n == nil || n.K == "nil" {
		return nil
	}
	e, o := readExpr(exprPb(n), sch, x.reg)
	if o.St != "ok" {
		panic("harness: expression: " + o.Msg)
	}
	return e
}

func (x *relBuilder) exprs(ns []*Node, sch *types.RecordType) (l []expr.Expression) {
	for _, n := range ns {
		l = append(l, x.expr(n, sch))
	}
	return
}

func (x *relBuilder) measures(ns []*Node, sch *types.RecordType) (l []plan.AggRelMeasure) {
	for _, n := range ns {
		m := &pb.AggregateRel_Measure{}
		if err := untree(n, m); err != nil {
			panic("harness: " + err.Error())
		}
		var f *expr.AggregateFunction
		var err error
		if m.Measure != nil {
			if f, err = expr.NewAggregateFunctionFromProto(wire(m.Measure, &pb.AggregateFunction{}), sch, x.reg); err != nil {
				panic("harness: measure: " + err.Error())
			}
		}
		var fl expr.Expression
		if m.Filter != nil {
			if fl, err = expr.ExprFromProto(wire(m.Filter, &pb.Expression{}), sch, x.reg); err != nil {
				panic("harness: measure filter: " + err.Error())
			}
		}
		l = append(l, x.b.Measure(f, fl))
	}
	return
}

func toI64(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func enumOf(m map[string]int32, s string) int32 {
	if v, ok := m[s]; ok {
		return v
	}
	return int32(toI64(s))
}

func relOf[T plan.Rel](r T, err error) func() (plan.Rel, error) {
	return func() (plan.Rel, error) { return nilRel(r, err) }
}

func (x *relBuilder) call(s bstep) (plan.Rel, error) {
	b, in, in2 := x.b, x.rel(s.H), x.rel(s.G)
	var m []int32
	if len(s.M) > 0 {
		m = append([]int32{}, s.M[0]...)
	}
	has := len(s.M) > 0
	named := func() types.NamedStruct {
		return types.NamedStruct{Names: s.Names, Struct: types.StructType{Nullability: types.NullabilityRequired, Types: typesOf(s.Ts)}}
	}
	def := func() plan.ExtensionRelDefinition {
		if s.X == "" {
			return nil
		}
		v := []byte{10, 1}
		if s.X == "vh/par" {
			v = []byte{0x70, 0, 0x71, 1}
		}
		return &extDef{s.X, &anypb.Any{TypeUrl: s.X, Value: v}}
	}
	switch s.A {
	case "scan":
		if has {
			return nilRel(b.NamedScanRemap(s.Urls, named(), m))
		}
		return b.NamedScan(s.Urls, named()), nil
	case "vt":
		noCx := types.NewRecordTypeFromTypes(nil)
		if s.Lit == "yes" {
			var rows []expr.StructLiteralValue
			for _, r := range s.Rows {
				row := expr.StructLiteralValue{}
				for _, e := range x.exprs(r, noCx) {
					l, _ := e.(expr.Literal)
					row = append(row, l)
				}
				rows = append(rows, row)
			}
			if has {
				return nilRel(b.VirtualTableRemap(s.Names, m, rows...))
			}
			return nilRel(b.VirtualTable(s.Names, rows...))
		}
		var rows []expr.VirtualTableExpressionValue
		for _, r := range s.Rows {
			rows = append(rows, expr.VirtualTableExpressionValue(x.exprs(r, noCx)))
		}
		if has {
			return nilRel(b.VirtualTableFromExprRemap(s.Names, m, rows...))
		}
		return nilRel(b.VirtualTableFromExpr(s.Names, rows...))
	case "evt":
		return nilRel(b.EmptyVirtualTable(s.Names, typesOf(s.Ts)))
	case "ext":
		return b.ExtensionTable(&anypb.Any{TypeUrl: s.X, Value: []byte{10, 1}}, named()), nil
	case "iceberg":
		var snap plan.IcebergSnapshot
		switch s.X {
		case "id":
			snap = plan.SnapshotId(s.Off)
		case "ts":
			snap = plan.SnapshotTimestamp(toI64(s.Off))
		}
		return nilRel(b.IcebergTableFromMetadataFile(s.Urls[0], snap, named()))
	case "leaf":
		return nilRel(b.ExtensionLeaf(def()))
	case "single":
		return nilRel(b.ExtensionSingle(in, def()))
	case "multi":
		var ins []plan.Rel
		for _, i := range s.Ins {
			ins = append(ins, x.rel(i))
		}
		return nilRel(b.ExtensionMulti(ins, def()))
	case "filter":
		e := x.expr(s.Es[0], x.schema(s.H))
		if has {
			return nilRel(b.FilterRemap(in, e, m))
		}
		return nilRel(b.Filter(in, e))
	case "project":
		es := x.exprs(s.Es, x.schema(s.H))
		if has {
			return nilRel(b.ProjectRemap(in, m, es...))
		}
		return nilRel(b.Project(in, es...))
	case "fetch":
		if has {
			return nilRel(b.FetchRemap(in, toI64(s.Off), toI64(s.Cnt), m))
		}
		return nilRel(b.Fetch(in, toI64(s.Off), toI64(s.Cnt)))
	case "sort":
		var fs []expr.SortField
		for _, n := range s.Sorts {
			p := &pb.SortField{}
			if err := untree(n, p); err != nil {
				return nil, err
			}
			empty := p.Expr == nil
			if empty {
				p.Expr = &pb.Expression{RexType: &pb.Expression_Literal_{Literal: &pb.Expression_Literal{LiteralType: &pb.Expression_Literal_Boolean{}}}}
			}
			f, err := expr.SortFieldFromProto(wire(p, &pb.SortField{}), x.schema(s.H), x.reg)
			if err != nil {
				panic("harness: sort: " + err.Error())
			}
			if empty {
				f.Expr = nil
			}
			fs = append(fs, f)
		}
		if has {
			return nilRel(b.SortRemap(in, m, fs...))
		}
		return nilRel(b.Sort(in, fs...))
	case "sortcols":
		fs, err := b.SortFields(in, s.Idx...)
		if err != nil {
			return nil, err
		}
		if has {
			return nilRel(b.SortRemap(in, m, fs...))
		}
		return nilRel(b.Sort(in, fs...))
	case "join":
		es := x.exprs(s.Es, x.schema(s.H, s.G))
		jt := plan.JoinType(enumOf(pb.JoinRel_JoinType_value, s.X))
		switch {
		case len(es) == 2 && has:
			return nilRel(b.JoinAndFilterRemap(in, in2, es[0], es[1], jt, m))
		case len(es) == 2:
			return nilRel(b.JoinAndFilter(in, in2, es[0], es[1], jt))
		case has:
			return nilRel(b.JoinRemap(in, in2, es[0], jt, m))
		}
		return nilRel(b.Join(in, in2, es[0], jt))
	case "cross":
		if has {
			return nilRel(b.CrossRemap(in, in2, m))
		}
		return nilRel(b.Cross(in, in2))
	case "set":
		var ins []plan.Rel
		for _, i := range s.Ins {
			ins = append(ins, x.rel(i))
		}
		op := plan.SetOp(enumOf(pb.SetRel_SetOp_value, s.X))
		if has {
			return nilRel(b.SetRemap(op, m, ins...))
		}
		return nilRel(b.Set(op, ins...))
	case "write":
		op := plan.WriteOp(enumOf(pb.WriteRel_WriteOp_value, s.X))
		switch {
		case s.X == "WRITE_OP_CTAS" && has:
			return nilRel(b.CreateTableAsSelectRemap(in, m, s.Urls, named()))
		case s.X == "WRITE_OP_CTAS":
			return nilRel(b.CreateTableAsSelect(in, s.Urls, named()))
		case has:
			return nilRel(b.NamedWriteRemap(in, op, s.Urls, named(), m))
		case s.X == "WRITE_OP_INSERT":
			return nilRel(b.NamedInsert(in, s.Urls, named()))
		case s.X == "WRITE_OP_DELETE":
			return nilRel(b.NamedDelete(in, s.Urls, named()))
		}
		return nilRel(b.NamedWrite(in, op, s.Urls, named()))
	case "aggcols":
		return nilRel(b.AggregateColumns(in, x.measures(s.Ms, x.schema(s.H)), s.Idx...))
	case "aggexprs":
		es := x.exprs(s.Es, x.schema(s.H))
		var groups [][]expr.Expression
		for _, g := range s.Groups {
			l := []expr.Expression{}
			for _, i := range g {
				l = append(l, es[i-1])
			}
			groups = append(groups, l)
		}
		return nilRel(b.AggregateExprs(in, x.measures(s.Ms, x.schema(s.H)), groups...))
	case "remap":
		return in.Remap(m...)
	case "subfilter", "subproject":
		var sub expr.Expression
		es := x.exprs(s.Es, x.schema(s.G))
		var err error
		switch s.X {
		case "scalar":
			e, er := b.ScalarSubquery(in)
			sub, err = e, er
		case "in":
			e, er := b.InPredicateSubquery(es, in)
			sub, err = e, er
		case "set":
			e, er := b.SetPredicateSubquery(in, plan.SetPredicateOp(enumOf(pb.Expression_Subquery_SetPredicate_PredicateOp_value, s.Names[0])))
			sub, err = e, er
		case "cmp":
			e, er := b.SetComparisonSubquery(es[0], in, plan.SetComparisonReductionOp(enumOf(pb.Expression_Subquery_SetComparison_ReductionOp_value, s.Names[0])),
				plan.SetComparisonComparisonOp(enumOf(pb.Expression_Subquery_SetComparison_ComparisonOp_value, s.Names[1])))
			sub, err = e, er
		}
		if err != nil {
			return nil, err
		}
		if s.X == "scalar" {
			c, err := b.GetExprBuilder().Cast(wrapped{sub}, sub.GetType()).Build()
			if err != nil {
				return nil, fmt.Errorf("harness: cast: %w", err)
			}
			return nilRel(b.Project(in2, c))
		}
		return nilRel(b.Filter(in2, sub))
	}
	return nil, errOp(s.A)
}

type wrapped struct{ e expr.Expression }

func (w wrapped) BuildExpr() (expr.Expression, error) { return w.e, nil }

func (x *relBuilder) observe(o obj, r plan.Rel) {
	n, t, l := look(r)
	o["r"], o["t"], o["look"] = n, t, l.St+" "+l.Msg
	o["back"], o["backt"] = "same", []*Node{}
	g := guard(func() error {
		b, err := plan.RelFromProto(wire(r.ToProto(), &pb.Rel{}), x.reg)
		if err != nil {
			return err
		}
		if again := tree("rel", b.ToProto()); jsonOf(again) != jsonOf(n) {
			return errors.New("as " + clip(jsonOf(again)))
		}
		o["backt"] = recNodes(b.RecordType())
		return nil
	})
	if g.St != "ok" {
		o["back"] = g.St + " " + g.Msg
	}
}

func (x *relBuilder) plan(s bstep) (*plan.Plan, error) {
	var bs []plan.DynamicParameterBinding
	for _, b := range s.Binds {
		a, err := strconv.ParseUint(b.A, 10, 32)
		if err != nil {
			return nil, fmt.Errorf("harness: %w", err)
		}
		d := plan.DynamicParameterBinding{ParameterAnchor: uint32(a)}
		if b.V.K != "nil" {
			d.Value = expr.LiteralFromProto(wire(litPb(b.V), &pb.Expression_Literal{}))
		}
		bs = append(bs, d)
	}
	var others []plan.Rel
	for _, i := range s.Others {
		others = append(others, x.rel(i))
	}
	switch {
	case len(bs) > 0:
		return x.b.PlanWithBindings(x.rel(s.H), s.Names, s.Urls, bs, others...)
	case len(s.Urls) > 0:
		return x.b.PlanWithTypes(x.rel(s.H), s.Names, s.Urls, others...)
	}
	return x.b.Plan(x.rel(s.H), s.Names, others...)
}

// readNamed reads the plan of the step's root relation with the step's names, whatever the builder says of them.
func (x *relBuilder) readNamed(s bstep) (string, string) {
	r := x.rel(s.H)
	if r == nil {
		return "none", ""
	}
	var m *pb.Plan
	if o := guard(func() error {
		rt := r.RecordType()
		st := types.StructType{Types: rt.Types()}
		p, err := x.b.Plan(r, make([]string, st.DepthFirstNameCount()))
		if err != nil {
			return err
		}
		m, err = p.ToProto()
		return err
	}); o.St != "ok" {
		return "none", o.Msg
	}
	m = wire(m, &pb.Plan{})
	m.Relations[0].GetRoot().Names = s.Names
	o := guard(func() error { _, err := plan.FromProtoWithDecoder(wire(m, &pb.Plan{}), exprsColl, extDecoders); return err })
	return o.St, o.Msg
}

func planTree(p *plan.Plan) (*pb.Plan, *Node, error) {
	out, err := p.ToProto()
	if err != nil {
		return nil, nil, err
	}
	return out, tree("p", out), nil
}

func buildSuite(raw json.RawMessage) (obj, error) {
	var kind struct {
		Op    string
		First []*Node
		Fns   []fnDecl
		Ts    []*Node
		Es    []*Node
		Ms    []*Node
	}
	if err := json.Unmarshal(raw, &kind); err != nil {
		return nil, err
	}
	x, err := newRelBuilder(kind.Fns)
	if err != nil {
		return nil, err
	}
	switch kind.Op {
	case "build":
		var s struct{ Steps []bstep }
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		first := []*Node{}
		for _, n := range kind.First {
			p := relPb(n)
			first = append(first, tree("rel", p))
			var r plan.Rel
			if o := guard(func() (err error) { r, err = plan.RelFromProto(p, x.reg); return }); o.St != "ok" {
				return obj{"rst": o.St, "rmsg": o.Msg, "first": []any{}, "obs": []any{}}, nil
			}
			x.add(r)
		}
		obs := []obj{}
		type kept struct {
			o   obj
			p   *plan.Plan
			was string
		}
		var plans []kept
		for i := range s.Steps {
			s.Steps[i].canonical()
			st := s.Steps[i]
			o := obj{}
			var g Outcome
			if st.A == "plan" {
				var p *plan.Plan
				g = guard(func() (err error) { p, err = x.plan(st); return })
				o["later"], o["plan"], o["back"] = "same", nilNode, "same"
				o["rd"], o["rdmsg"] = x.readNamed(st)
				if g.St == "ok" {
					g2 := guard(func() error {
						m, n, err := planTree(p)
						if err != nil {
							return err
						}
						o["plan"] = n
						plans = append(plans, kept{o, p, jsonOf(n)})
						q, err := plan.FromProtoWithDecoder(wire(m, &pb.Plan{}), exprsColl, extDecoders)
						if err == nil {
							var n2 *Node
							if m, n2, err = planTree(q); err == nil && jsonOf(n2) != jsonOf(n) {
								err = errors.New("as " + clip(jsonOf(n2)))
							}
						}
						if err != nil {
							o["back"] = err.Error()
						}
						return nil
					})
					if g2.St != "ok" {
						o["back"] = g2.St + " " + g2.Msg
					}
				}
			} else {
				var r plan.Rel
				g = guard(func() (err error) { r, err = x.call(st); return })
				if g.St == "ok" {
					x.observe(o, r)
					x.add(r)
				}
			}
			o["st"], o["msg"], o["old"] = g.St, g.Msg, x.unchanged()
			obs = append(obs, o)
		}
		for _, k := range plans {
			if _, n, err := planTree(k.p); err != nil || jsonOf(n) != k.was {
				k.o["later"] = "changed"
			}
		}
		return obj{"rst": "ok", "rmsg": "", "first": first, "steps": s.Steps, "obs": obs}, nil
	case "agg":
		var s struct {
			Steps []struct {
				A    string
				B, I int
				Refs []uint32
			}
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		b := x.b
		st := types.StructType{Nullability: types.NullabilityRequired, Types: typesOf(kind.Ts)}
		ns := types.NamedStruct{Struct: st}
		for range st.DepthFirstNameCount() {
			ns.Names = append(ns.Names, "c")
		}
		x.add(b.NamedScan([]string{"s1"}, ns))
		x.add(b.NamedScan([]string{"s2"}, ns))
		scans := []*Node{}
		for _, r := range x.rels {
			scans = append(scans, tree("rel", r.ToProto()))
		}
		c := bstep{Es: kind.Es, Ms: kind.Ms}
		c.canonical()
		es := x.exprs(kind.Es, x.schema(1))
		ms := x.measures(kind.Ms, x.schema(1))
		abs := []*plan.AggregateRelBuilder{b.GetRelBuilder().AggregateRel(x.rels[0], ms), b.GetRelBuilder().AggregateRel(x.rels[1], ms)}
		built := []*plan.AggregateRel{}
		obs := []obj{}
		for _, t := range s.Steps {
			o := obj{"pos": -1}
			ab := abs[t.B-1]
			refs := append([]uint32{}, t.Refs...)
			g := guard(func() error {
				switch t.A {
				case "expr":
					if t.I == 0 {
						o["pos"] = ab.AddExpression(nil)
					} else {
						o["pos"] = ab.AddExpression(es[t.I-1])
					}
				case "set":
					ab.AddGroupingSet(refs)
				case "cube":
					return ab.AddCube(refs)
				case "rollup":
					ab.AddRollup(refs)
				case "input":
					in := x.rel(t.I)
					ab.ReplaceInput(&in)
				case "clearm":
					ab.ClearMeasures()
				case "clearg":
					ab.ClearGrouping()
				case "build":
					r, err := ab.Build()
					if err != nil {
						return err
					}
					x.observe(o, r)
					x.add(r)
					built = append(built, r)
				case "tobuilder":
					if t.I <= len(built) {
						abs[t.B-1] = built[t.I-1].ToBuilder()
					}
				}
				return nil
			})
			o["st"], o["msg"] = g.St, g.Msg
			obs = append(obs, o)
		}
		return obj{"scans": scans, "obs": obs, "later": x.unchanged(), "es": c.Es, "ms": c.Ms}, nil
	}
	return nil, errOp(kind.Op)
}
