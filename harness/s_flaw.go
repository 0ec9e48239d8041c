package main

import (
	"encoding/json"
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() { suites["flaw"] = flawSuite }

// flawSuite reads a message, possibly ill-formed, and then uses what was read in every way there is.
func flawSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op  string   `json:"op"`
		Sch *Node    `json:"sch"`
		T   *Node    `json:"t"`
		Fns []fnDecl `json:"fns"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	base := baseRecord(s.Sch.fix())
	reg, err := relRegistry(s.Fns)
	if err != nil {
		return nil, err
	}
	r := obj{}
	stages := []obj{}
	stage := func(n string, f func() error) {
		o := guard(f)
		stages = append(stages, obj{"n": n, "st": o.St, "msg": o.Msg})
	}
	useExpr := func(e expr.Expression) {
		stage("write", func() error { e.ToProto(); e.ToProtoFuncArg(); return nil })
		stage("again", func() error { _, err := expr.ExprFromProto(wire(e.ToProto(), &pb.Expression{}), base, reg); return err })
		stage("visit", func() error {
			var pre expr.VisitFunc
			pre = func(x expr.Expression) expr.Expression { return x.Visit(pre) }
			pre(e)
			return nil
		})
		stage("equals", func() error { e.Equals(e); e.IsScalar(); return nil })
		stage("type", func() error { _ = e.GetType().String(); return nil })
		stage("print", func() error { _ = e.String(); return nil })
	}
	useRel := func(x plan.Rel) {
		stage("write", func() error { x.ToProto(); x.ToProtoPlanRel(); return nil })
		stage("again", func() error { _, err := plan.RelFromProto(wire(x.ToProto(), &pb.Rel{}), reg); return err })
		stage("copy", func() error { _, err := x.Copy(x.GetInputs()...); return err })
		stage("rewrite", func() error {
			_, err := x.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) { return e, nil }, x.GetInputs()...)
			return err
		})
		stage("schema", func() error {
			for _, y := range preorder(x) {
				rt := y.RecordType()
				_ = rt.String()
				_, _ = y.Remap(0)
			}
			return nil
		})
	}
	var o Outcome
	switch s.Op {
	case "rel":
		p := relPb(s.T)
		var x plan.Rel
		o = guard(func() (err error) { x, err = plan.RelFromProto(p, reg); return })
		if o.St == "ok" {
			useRel(x)
		}
	case "expr":
		p := exprPb(s.T)
		var x expr.Expression
		o = guard(func() (err error) { x, err = expr.ExprFromProto(p, base, reg); return })
		if o.St == "ok" {
			useExpr(x)
		}
	case "agg":
		p := &pb.AggregateFunction{}
		if err := untree(s.T, p); err != nil {
			return nil, err
		}
		p = wire(p, &pb.AggregateFunction{})
		var x *expr.AggregateFunction
		o = guard(func() (err error) { x, err = expr.NewAggregateFunctionFromProto(p, base, reg); return })
		if o.St == "ok" {
			stage("write", func() error { x.ToProto(); return nil })
			stage("again", func() error {
				_, err := expr.NewAggregateFunctionFromProto(wire(x.ToProto(), &pb.AggregateFunction{}), base, reg)
				return err
			})
			stage("type", func() error { _ = x.GetType().String(); return nil })
			stage("print", func() error { _ = x.String(); return nil })
		}
	case "ext":
		ref := &pb.ExpressionReference{}
		if err := untree(s.T, ref); err != nil {
			return nil, err
		}
		x := &pb.ExtendedExpression{}
		dp := declPlan(s.Fns)
		x.ExtensionUrns, x.Extensions = dp.ExtensionUrns, dp.Extensions
		x.BaseSchema = &pb.NamedStruct{Struct: &pb.Type_Struct{Nullability: pb.Type_NULLABILITY_REQUIRED}}
		for i, t := range base.Types() {
			x.BaseSchema.Names = append(x.BaseSchema.Names, fmt.Sprintf("c%d", i))
			x.BaseSchema.Struct.Types = append(x.BaseSchema.Struct.Types, types.TypeToProto(t))
		}
		x.ReferredExpr = append(x.ReferredExpr, ref)
		x = wire(x, &pb.ExtendedExpression{})
		var e *expr.Extended
		o = guard(func() (err error) { e, err = expr.ExtendedFromProto(x, exprsColl); return })
		if o.St == "ok" {
			stage("write", func() error { e.ToProto(); return nil })
			stage("again", func() error {
				_, err := expr.ExtendedFromProto(wire(e.ToProto(), &pb.ExtendedExpression{}), exprsColl)
				return err
			})
		}
	case "plan":
		p := &pb.Plan{}
		if err := untree(s.T, p); err != nil {
			return nil, err
		}
		dp := declPlan(s.Fns)
		p.ExtensionUrns, p.Extensions = dp.ExtensionUrns, dp.Extensions
		p = wire(p, &pb.Plan{})
		var x *plan.Plan
		o = guard(func() (err error) { x, err = plan.FromProtoWithDecoder(p, exprsColl, extDecoders); return })
		if o.St == "ok" {
			stage("write", func() error { _, err := x.ToProto(); return err })
			stage("again", func() error {
				q, err := x.ToProto()
				if err == nil {
					_, err = plan.FromProtoWithDecoder(wire(q, &pb.Plan{}), exprsColl, extDecoders)
				}
				return err
			})
			for _, rel := range x.Relations() {
				if rel.IsRoot() {
					useRel(rel.Root().Input())
					stage("schema", func() error { _ = rel.Root().RecordType(); return nil })
				} else {
					useRel(rel.Rel())
				}
			}
		}
	}
	r["st"], r["msg"], r["stages"] = o.St, o.Msg, stages
	return r, nil
}
