package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/types/known/anypb"
)

func init() { suites["rels"] = relsSuite }

// extDef is what the harness registers for the two extension details the specification knows.
type extDef struct {
	kind   string
	detail *anypb.Any
}

func (d *extDef) Schema(inputs []plan.Rel) types.RecordType {
	if d.kind == "vh/two" || d.kind == "vh/par" {
		return *types.NewRecordTypeFromTypes([]types.Type{
			&types.Int32Type{Nullability: types.NullabilityRequired}, &types.StringType{Nullability: types.NullabilityNullable}})
	}
	var ts []types.Type
	for _, in := range inputs {
		r := in.RecordType()
		ts = append(ts, r.Types()...)
	}
	return *types.NewRecordTypeFromTypes(ts)
}
func (d *extDef) Build([]plan.Rel) *anypb.Any              { return d.detail }

// Expressions of "vh/par" are the dynamic parameters its detail encodes, two bytes each: how, and the reference.
func (d *extDef) Expressions([]plan.Rel) []expr.Expression {
	if d.kind != "vh/par" {
		return nil
	}
	var es []expr.Expression
	for v := d.detail.GetValue(); len(v) >= 2; v = v[2:] {
		switch v[0] {
		case 0x70:
			es = append(es, &expr.DynamicParameter{OutputType: &types.Int32Type{Nullability: types.NullabilityRequired}, ParameterReference: uint32(v[1])})
		case 0x71:
			es = append(es, &expr.Cast{Type: &types.Int64Type{Nullability: types.NullabilityRequired}, FailureBehavior: types.BehaviorThrowException,
				Input: &expr.DynamicParameter{OutputType: &types.StringType{Nullability: types.NullabilityNullable}, ParameterReference: uint32(v[1])}})
		}
	}
	return es
}

type extDec struct{ kind string }

func (d extDec) DecodeExtensionRel(a *anypb.Any) (any, error) { return &extDef{d.kind, a}, nil }

var extDecoders = map[string]expr.ExtensionRelDecoder{"vh/two": extDec{"vh/two"}, "vh/cat": extDec{"vh/cat"}, "vh/par": extDec{"vh/par"}}

func relRegistry(fns []fnDecl) (expr.ExtensionRegistry, error) {
	reg, err := declRegistry(fns)
	if err != nil {
		return reg, err
	}
	for u, d := range extDecoders {
		if err := reg.SetExtensionRelDecoder(u, d); err != nil {
			return reg, err
		}
	}
	return reg, nil
}

func relPb(n *Node) *pb.Rel {
	r := &pb.Rel{}
	if err := untree(n, r); err != nil {
		panic("harness: " + err.Error())
	}
	return wire(r, &pb.Rel{})
}

func recNodes(rt types.RecordType) []*Node {
	r := []*Node{}
	for _, t := range rt.Types() {
		r = append(r, typeToNode(t))
	}
	return r
}

func preorder(r plan.Rel) []plan.Rel {
	out := []plan.Rel{r}
	for _, in := range r.GetInputs() {
		out = append(out, preorder(in)...)
	}
	return out
}

func mapObs(r plan.Rel) obj {
	m := r.OutputMapping()
	if m == nil {
		return obj{"s": "direct", "m": []int32{}}
	}
	return obj{"s": "emit", "m": m}
}

var errRewrite = errors.New("rewrite failed on purpose")

func relsSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op     string    `json:"op"`
		How    string    `json:"how"`
		R      *Node     `json:"r"`
		Body   []*Node   `json:"body"`
		Ins    [][]*Node `json:"ins"`
		Failat int       `json:"failat"`
		S      []struct{ F, T *Node }
		Steps  []struct {
			A    string
			H, G int
			M    []int32
		}
		Fns []fnDecl `json:"fns"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	reg, err := relRegistry(s.Fns)
	if err != nil {
		return nil, err
	}
	before := regList(reg)
	readRel := func(p *pb.Rel) (r plan.Rel, o Outcome) {
		o = guard(func() (err error) { r, err = plan.RelFromProto(p, reg); return })
		return
	}
	switch s.Op {
	case "wire":
		p := relPb(s.R)
		r := obj{"r": tree("rel", p), "sst": "-", "schemas": []any{}, "schemas2": []any{}}
		var a, b plan.Rel
		a, o := readRel(p)
		if o.St == "ok" {
			o = guard(func() error {
				out := a.ToProto()
				r["out"] = tree("rel", out)
				var err error
				if b, err = plan.RelFromProto(wire(out, &pb.Rel{}), reg); err != nil {
					return fmt.Errorf("read back: %w", err)
				}
				r["out2"] = tree("rel", b.ToProto())
				r["planrel"] = tree("rel", a.ToProtoPlanRel().GetRel())
				var ms []obj
				for _, x := range preorder(a) {
					ms = append(ms, mapObs(x))
				}
				r["maps"] = ms
				r["reg"] = "same"
				if now := regList(reg); now != before {
					r["reg"] = clip(now)
				}
				return nil
			})
			r["insame"] = tree("rel", p)
		}
		r["vst"] = "-"
		if o.St == "ok" {
			vo := guard(func() error { r["view"] = tree("rel", viewRel(a)); return nil })
			r["vst"] = vo.St + vo.Msg
			so := guard(func() error {
				schemas := func(x plan.Rel) (l []any) {
					for _, y := range preorder(x) {
						l = append(l, recNodes(y.RecordType()))
					}
					return
				}
				r["schemas"] = schemas(a)
				if p.GetWrite() == nil {
					r["schemas2"] = schemas(b)
				}
				r["schemas"] = schemas(a)
				r["after"] = tree("rel", a.ToProto())
				return nil
			})
			r["sst"] = so.St
			if so.Msg != "" {
				r["sst"] = so.St + " " + so.Msg
			}
		}
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "mask":
		p := relPb(s.R)
		r := obj{"r": tree("rel", p), "schema": []any{}, "vst": "-"}
		a, o := readRel(p)
		if o.St == "ok" {
			o = guard(func() error {
				out := a.ToProto()
				r["out"] = tree("rel", out)
				b, err := plan.RelFromProto(wire(out, &pb.Rel{}), reg)
				if err != nil {
					return fmt.Errorf("read back: %w", err)
				}
				r["out2"] = tree("rel", b.ToProto())
				r["schema"] = recNodes(a.RecordType())
				return nil
			})
			vo := guard(func() error { r["view"] = tree("rel", viewRel(a)); return nil })
			r["vst"] = vo.St + vo.Msg
		}
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "plan":
		p := &pb.Plan{}
		if err := untree(N("p", nil, s.Body...).fix(), p); err != nil {
			return nil, err
		}
		dp := declPlan(s.Fns)
		p.ExtensionUrns, p.Extensions = dp.ExtensionUrns, dp.Extensions
		p = wire(p, &pb.Plan{})
		in := tree("p", p)
		r := obj{"in": in, "declsin": declList(p.ExtensionUrns, p.Extensions), "body": []any{}}
		o := guard(func() error {
			pl, err := plan.FromProtoWithDecoder(p, exprsColl, extDecoders)
			if err != nil {
				return err
			}
			out, err := pl.ToProto()
			if err != nil {
				return err
			}
			r["out"] = tree("p", out)
			r["declsout"] = declList(out.ExtensionUrns, out.Extensions)
			pl2, err := plan.FromProtoWithDecoder(wire(out, &pb.Plan{}), exprsColl, extDecoders)
			if err != nil {
				return fmt.Errorf("read back: %w", err)
			}
			out2, err := pl2.ToProto()
			if err != nil {
				return err
			}
			strip := func(x *pb.Plan) string {
				y := wire(x, &pb.Plan{})
				y.ExtensionUrns, y.Extensions = nil, nil
				return jsonOf(tree("p", y))
			}
			r["again"] = str(strip(out) == strip(out2) && fmt.Sprint(declList(out.ExtensionUrns, out.Extensions)) == fmt.Sprint(declList(out2.ExtensionUrns, out2.Extensions)))
			why := ""
			chk := func(ok bool, what string) {
				if !ok {
					why += what + " "
				}
			}
			rels := pl.Relations()
			chk(len(rels) == len(p.Relations), "relations")
			roots, others := 0, 0
			var sch []any
			for i, x := range rels {
				isRoot := p.Relations[i].GetRoot() != nil
				chk(x.IsRoot() == isRoot, "isroot")
				rel := x.Rel()
				if isRoot {
					rel = x.Root().Input()
					chk(fmt.Sprint(x.Root().Names()) == fmt.Sprint(p.Relations[i].GetRoot().Names), "names")
					chk(pl.GetRoots()[roots] == x.Root(), "roots")
					roots++
				} else {
					chk(pl.GetNonRootRelations()[others] == rel, "nonroots")
					others++
				}
				var ns []*Node = []*Node{}
				guard(func() error { ns = recNodes(rel.RecordType()); return nil })
				sch = append(sch, ns)
			}
			r["schemas"] = sch
			chk(len(pl.GetRoots()) == roots && len(pl.GetNonRootRelations()) == others, "counts")
			chk(fmt.Sprint(pl.ExpectedTypeURLs()) == fmt.Sprint(p.ExpectedTypeUrls), "urls")
			chk(len(pl.ParameterBindings()) == len(p.ParameterBindings), "bindings")
			if p.Version != nil {
				chk(pl.Version().GetMinorNumber() == p.Version.MinorNumber && pl.Version().GetProducer() == p.Version.Producer, "version")
			}
			// the slices handed out are copies
			for i := range rels {
				rels[i] = plan.Relation{}
			}
			for i := range pl.ExpectedTypeURLs() {
				pl.ExpectedTypeURLs()[i] = "changed"
			}
			for i := range pl.ParameterBindings() {
				pl.ParameterBindings()[i] = plan.DynamicParameterBinding{}
			}
			again, err := pl.ToProto()
			chk(err == nil && strip(again) == strip(out), "copies")
			r["acc"], r["accwhy"] = str(why == ""), why
			r["insame"] = str(jsonOf(tree("p", p)) == jsonOf(in))
			return nil
		})
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "copy":
		p := relPb(s.R)
		r := obj{"r": tree("rel", p), "st": "-", "msg": "", "seen": []any{}, "hit": []any{}, "insame": "true", "cause": "false"}
		a, o := readRel(p)
		var newIns []plan.Rel
		var insOut []any
		if o.St == "ok" {
			for i, in := range a.GetInputs() {
				if i < len(s.Ins) && len(s.Ins[i]) > 0 {
					q := relPb(s.Ins[i][0])
					x, ox := readRel(q)
					if ox.St != "ok" {
						o = ox
						break
					}
					newIns = append(newIns, x)
					insOut = append(insOut, []*Node{tree("rel", q)})
				} else {
					newIns = append(newIns, in)
					insOut = append(insOut, []*Node{})
				}
			}
		}
		if insOut == nil {
			insOut = []any{}
		}
		r["ins"] = insOut
		// the replaced expressions are looked up by what the library itself writes for them
		type pair struct {
			from string
			to   *pb.Expression
		}
		var pairs []pair
		ss := []obj{}
		for _, x := range s.S {
			ss = append(ss, obj{"f": canon(x.F), "t": canon(x.T)})
			pairs = append(pairs, pair{"", exprPb(x.T)})
		}
		r["s"] = ss
		r["rst"], r["rmsg"] = o.St, o.Msg
		if o.St != "ok" {
			return r, nil
		}
		schema := exprSchema(a)
		var tos []expr.Expression
		for i, x := range s.S {
			f, of := readExpr(exprPb(x.F), schema, reg)
			t, ot := readExpr(pairs[i].to, schema, reg)
			if vt, ok := a.(*plan.VirtualTableReadRel); ok && (of.St != "ok" || ot.St != "ok") { // of its filters, not of its rows
				bs := vt.BaseSchema()
				base := types.NewRecordTypeFromStruct(bs.Struct)
				f, of = readExpr(exprPb(x.F), base, reg)
				t, ot = readExpr(pairs[i].to, base, reg)
			}
			if of.St != "ok" || ot.St != "ok" {
				r["rst"], r["rmsg"] = "expr", of.Msg+" "+ot.Msg
				return r, nil
			}
			pairs[i].from = jsonOf(tree("e", f.ToProto()))
			tos = append(tos, t)
		}
		insBefore := ""
		for _, x := range newIns {
			insBefore += jsonOf(tree("rel", x.ToProto()))
		}
		var seen []*Node
		var hit []string
		calls := 0
		rw := func(e expr.Expression) (expr.Expression, error) {
			if e == nil {
				return nil, nil // an absent filter is offered too: left absent
			}
			calls++
			if s.How == "fail" && calls == s.Failat {
				return nil, errRewrite
			}
			seen = append(seen, tree("e", e.ToProto()))
			hit = append(hit, "no")
			k := jsonOf(tree("e", e.ToProto()))
			for i, p := range pairs {
				if p.from == k {
					hit[len(hit)-1] = "yes"
					return tos[i], nil
				}
			}
			return e, nil
		}
		o = guard(func() error {
			var out plan.Rel
			var err error
			switch s.How {
			case "copy":
				out, err = a.Copy(newIns...)
			case "less", "more":
				ins := newIns[:len(newIns)-1]
				if s.How == "more" {
					ins = append(append([]plan.Rel{}, newIns...), newIns[0])
				}
				if out, err = a.Copy(ins...); err == nil {
					return nil
				}
				out, err = a.CopyWithExpressionRewrite(rw, ins...)
			default:
				out, err = a.CopyWithExpressionRewrite(rw, newIns...)
			}
			if err != nil {
				r["cause"] = str(errors.Is(err, errRewrite))
				return err
			}
			r["same"] = str(out == a)
			r["out"] = tree("rel", out.ToProto())
			return nil
		})
		insAfter := ""
		for _, x := range newIns {
			insAfter += jsonOf(tree("rel", x.ToProto()))
		}
		r["insame"] = str(insBefore == insAfter)
		r["orig"] = tree("rel", a.ToProto())
		if seen != nil {
			r["seen"], r["hit"] = seen, hit
		}
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "pool":
		p := relPb(s.R)
		r := obj{"r": tree("rel", p), "obs": []any{}, "first": []any{}}
		a, o := readRel(p)
		r["rst"], r["rmsg"] = o.St, o.Msg
		if o.St != "ok" {
			return r, nil
		}
		pool := []plan.Rel{a}
		b := plan.NewBuilder(exprsColl)
		look := func() (l []obj) {
			for _, x := range pool {
				ob := obj{"r": nilNode, "t": []any{}, "m": obj{}, "o": ""}
				g := guard(func() error {
					ob["r"] = tree("rel", x.ToProto())
					ob["t"] = recNodes(x.RecordType())
					ob["m"] = mapObs(x)
					return nil
				})
				ob["o"] = g.St
				l = append(l, ob)
			}
			return
		}
		r["first"] = look()
		obs := []obj{}
		for _, st := range s.Steps {
			var out plan.Rel
			if st.H > len(pool) || st.G > len(pool) {
				// a step went otherwise than specified: the judge stops at that step
				obs = append(obs, obj{"st": "lost", "msg": "", "pool": look()})
				continue
			}
			x := pool[st.H-1]
			g := guard(func() (err error) {
				switch st.A {
				case "remap":
					m := append([]int32{}, st.M...)
					out, err = x.Remap(m...)
					for i := range m {
						m[i] = -7 // the caller's slice is the caller's own
					}
				case "copy":
					out, err = x.Copy(x.GetInputs()...)
				case "fetch":
					out, err = nilRel(b.Fetch(x, 3, 4))
				case "cross":
					out, err = nilRel(b.Cross(x, pool[st.G-1]))
				case "schema":
					for _, y := range pool {
						_ = y.RecordType()
						if m := y.OutputMapping(); len(m) > 0 {
							m[0] = -5
						}
					}
				}
				return
			})
			if g.St == "ok" && out != nil {
				pool = append(pool, out)
			}
			obs = append(obs, obj{"st": g.St, "msg": g.Msg, "pool": look()})
		}
		r["obs"] = obs
		return r, nil
	}
	return nil, errOp(s.Op)
}

func nilRel[T plan.Rel](r T, err error) (plan.Rel, error) {
	if err != nil {
		return nil, err
	}
	return r, nil
}

func readExpr(p *pb.Expression, base *types.RecordType, reg expr.ExtensionRegistry) (e expr.Expression, o Outcome) {
	o = guard(func() (err error) { e, err = expr.ExprFromProto(p, base, reg); return })
	return
}

// exprSchema is the schema a relation's own expressions refer to.
func exprSchema(r plan.Rel) *types.RecordType {
	if rd, ok := r.(plan.ReadRel); ok {
		if _, vt := r.(*plan.VirtualTableReadRel); vt {
			return types.NewRecordTypeFromTypes(nil)
		}
		bs := rd.BaseSchema()
		return types.NewRecordTypeFromStruct(bs.Struct)
	}
	var ts []types.Type
	for _, in := range r.GetInputs() {
		rt := in.RecordType()
		ts = append(ts, rt.Types()...)
	}
	return types.NewRecordTypeFromTypes(ts)
}
