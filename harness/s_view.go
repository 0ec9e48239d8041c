package main

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

// The view of a relation or expression is its message put together from what its accessors and exported fields say;
// only parts no accessor reaches are taken from the message written.

func viewExprs(es []expr.Expression) (out []*pb.Expression) {
	for _, e := range es {
		out = append(out, viewExpr(e))
	}
	return
}

func viewArgs(n int, arg func(int) types.FuncArg) (out []*pb.FunctionArgument) {
	for i := 0; i < n; i++ {
		a := arg(i)
		if e, ok := a.(expr.Expression); ok {
			out = append(out, &pb.FunctionArgument{ArgType: &pb.FunctionArgument_Value{Value: viewExpr(e)}})
		} else {
			out = append(out, a.ToProtoFuncArg())
		}
	}
	return
}

func viewOpts(os []*types.FunctionOption, byName func(string) []string) (out []*pb.FunctionOption) {
	seen := map[string]bool{}
	for _, o := range os {
		p := o.Preference
		if byName != nil && !seen[o.Name] {
			p = byName(o.Name) // the first option of that name
		}
		seen[o.Name] = true
		out = append(out, &pb.FunctionOption{Name: o.Name, Preference: p})
	}
	return
}

func viewSorts(ss []expr.SortField) (out []*pb.SortField) {
	for _, s := range ss {
		f := &pb.SortField{Expr: viewExpr(s.Expr)}
		switch k := s.Kind.(type) {
		case types.SortDirection:
			f.SortKind = &pb.SortField_Direction{Direction: pb.SortField_SortDirection(k)}
		case types.FunctionRef:
			f.SortKind = &pb.SortField_ComparisonFunctionReference{ComparisonFunctionReference: uint32(k)}
		}
		out = append(out, f)
	}
	return
}

func viewBound(b expr.Bound) *pb.Expression_WindowFunction_Bound {
	switch b := b.(type) {
	case expr.PrecedingBound:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Preceding_{Preceding: &pb.Expression_WindowFunction_Bound_Preceding{Offset: int64(b)}}}
	case expr.FollowingBound:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Following_{Following: &pb.Expression_WindowFunction_Bound_Following{Offset: int64(b)}}}
	case expr.CurrentRow:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_CurrentRow_{CurrentRow: &pb.Expression_WindowFunction_Bound_CurrentRow{}}}
	case expr.Unbounded:
		return &pb.Expression_WindowFunction_Bound{Kind: &pb.Expression_WindowFunction_Bound_Unbounded_{Unbounded: &pb.Expression_WindowFunction_Bound_Unbounded{}}}
	}
	return nil
}

func viewAgg(a *expr.AggregateFunction) *pb.AggregateFunction {
	if a == nil {
		return nil
	}
	m := proto.Clone(a.ToProto()).(*pb.AggregateFunction)
	m.Arguments = viewArgs(a.NArgs(), a.Arg)
	m.Options = viewOpts(a.GetOptions(), a.GetOption)
	m.Phase, m.Invocation = pb.AggregationPhase(a.Phase()), pb.AggregateFunction_AggregationInvocation(a.Invocation())
	m.OutputType = types.TypeToProto(a.GetType())
	m.Sorts = viewSorts(a.Sorts)
	return m
}

func viewSeg(s expr.ReferenceSegment) *pb.Expression_ReferenceSegment {
	switch s := s.(type) {
	case *expr.MapKeyRef:
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_MapKey_{MapKey: &pb.Expression_ReferenceSegment_MapKey{MapKey: s.MapKey.ToProtoLiteral(), Child: viewSeg(s.GetChild())}}}
	case *expr.StructFieldRef:
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_StructField_{StructField: &pb.Expression_ReferenceSegment_StructField{Field: s.Field, Child: viewSeg(s.GetChild())}}}
	case *expr.ListElementRef:
		return &pb.Expression_ReferenceSegment{ReferenceType: &pb.Expression_ReferenceSegment_ListElement_{ListElement: &pb.Expression_ReferenceSegment_ListElement{Offset: s.Offset, Child: viewSeg(s.GetChild())}}}
	}
	return nil
}

func viewStructSel(m expr.MaskStructSelect) *pb.Expression_MaskExpression_StructSelect {
	out := &pb.Expression_MaskExpression_StructSelect{}
	for i := range m {
		out.StructItems = append(out.StructItems, &pb.Expression_MaskExpression_StructItem{Field: m[i].Field(), Child: viewMaskSel(m[i].Child())})
	}
	return out
}

func viewMaskSel(m expr.MaskSelect) *pb.Expression_MaskExpression_Select {
	switch m := m.(type) {
	case expr.MaskStructSelect:
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Struct{Struct: viewStructSel(m)}}
	case *expr.MaskListSelect:
		l := &pb.Expression_MaskExpression_ListSelect{Child: viewMaskSel(m.Child())}
		for _, it := range m.Selection() {
			x := &pb.Expression_MaskExpression_ListSelect_ListSelectItem{}
			switch it := it.(type) {
			case *expr.MaskListElement:
				x.Type = &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Item{Item: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListElement{Field: it.GetField()}}
			case *expr.MaskListSlice:
				a, b := it.GetBounds()
				x.Type = &pb.Expression_MaskExpression_ListSelect_ListSelectItem_Slice{Slice: &pb.Expression_MaskExpression_ListSelect_ListSelectItem_ListSlice{Start: a, End: b}}
			}
			l.Selection = append(l.Selection, x)
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_List{List: l}}
	case *expr.MaskMapSelect:
		l := &pb.Expression_MaskExpression_MapSelect{Child: viewMaskSel(m.Child())}
		if m.KeyKind() == expr.MapSelectKey {
			l.Select = &pb.Expression_MaskExpression_MapSelect_Key{Key: &pb.Expression_MaskExpression_MapSelect_MapKey{MapKey: m.Key()}}
		} else {
			l.Select = &pb.Expression_MaskExpression_MapSelect_Expression{Expression: &pb.Expression_MaskExpression_MapSelect_MapKeyExpression{MapKeyExpression: m.Key()}}
		}
		return &pb.Expression_MaskExpression_Select{Type: &pb.Expression_MaskExpression_Select_Map{Map: l}}
	}
	return nil
}

func viewMask(m *expr.MaskExpression) *pb.Expression_MaskExpression {
	if m == nil {
		return nil
	}
	return &pb.Expression_MaskExpression{Select: viewStructSel(m.Select()), MaintainSingularStruct: m.MaintainSingularStruct()}
}

func viewRef(r *expr.FieldReference) *pb.Expression_FieldReference {
	if r == nil {
		return nil
	}
	m := proto.Clone(r.ToProtoFieldRef()).(*pb.Expression_FieldReference)
	switch ref := r.Reference.(type) {
	case expr.ReferenceSegment:
		m.ReferenceType = &pb.Expression_FieldReference_DirectReference{DirectReference: viewSeg(ref)}
	case *expr.MaskExpression:
		m.ReferenceType = &pb.Expression_FieldReference_MaskedReference{MaskedReference: viewMask(ref)}
	}
	switch root := r.Root.(type) {
	case expr.OuterReference:
		m.RootType = &pb.Expression_FieldReference_OuterReference_{OuterReference: &pb.Expression_FieldReference_OuterReference{StepsOut: uint32(root)}}
	case expr.LambdaParameterReference:
		m.RootType = &pb.Expression_FieldReference_LambdaParameterReference_{LambdaParameterReference: &pb.Expression_FieldReference_LambdaParameterReference{StepsOut: root.StepsOut}}
	case expr.Expression:
		m.RootType = &pb.Expression_FieldReference_Expression{Expression: viewExpr(root)}
	case nil:
		m.RootType = &pb.Expression_FieldReference_RootReference_{RootReference: &pb.Expression_FieldReference_RootReference{}}
	}
	return m
}

func viewExpr(e expr.Expression) *pb.Expression {
	if e == nil {
		return nil
	}
	m := proto.Clone(e.ToProto()).(*pb.Expression)
	switch e := e.(type) {
	case *expr.ScalarFunction:
		f := m.GetScalarFunction()
		f.FunctionReference = e.FuncRef()
		f.Arguments, f.Options, f.OutputType = viewArgs(e.NArgs(), e.Arg), viewOpts(e.GetOptions(), e.GetOption), types.TypeToProto(e.GetType())
	case *expr.WindowFunction:
		f := m.GetWindowFunction()
		f.Arguments, f.Options, f.OutputType = viewArgs(e.NArgs(), e.Arg), viewOpts(e.GetOptions(), nil), types.TypeToProto(e.GetType())
		f.Phase, f.Invocation = pb.AggregationPhase(e.Phase()), pb.AggregateFunction_AggregationInvocation(e.Invocation())
		f.Sorts, f.Partitions, f.BoundsType = viewSorts(e.Sorts), viewExprs(e.Partitions), pb.Expression_WindowFunction_BoundsType(e.BoundsType)
		f.LowerBound, f.UpperBound = viewBound(e.LowerBound), viewBound(e.UpperBound)
	case *expr.IfThen:
		f := &pb.Expression_IfThen{Else: viewExpr(e.Else())}
		for i := 0; i < e.NIfs(); i++ {
			p := e.IfPair(i)
			f.Ifs = append(f.Ifs, &pb.Expression_IfThen_IfClause{If: viewExpr(p.If), Then: viewExpr(p.Then)})
		}
		m.RexType = &pb.Expression_IfThen_{IfThen: f}
	case *expr.SwitchExpr:
		f := &pb.Expression_SwitchExpression{Match: viewExpr(e.MatchExpr()), Else: viewExpr(e.Else())}
		for i := 0; i < e.NCases(); i++ {
			p := e.Case(i)
			f.Ifs = append(f.Ifs, &pb.Expression_SwitchExpression_IfValue{If: p.If.ToProtoLiteral(), Then: viewExpr(p.Then)})
		}
		m.RexType = &pb.Expression_SwitchExpression_{SwitchExpression: f}
	case *expr.Cast:
		m.RexType = &pb.Expression_Cast_{Cast: &pb.Expression_Cast{Type: types.TypeToProto(e.Type), Input: viewExpr(e.Input), FailureBehavior: pb.Expression_Cast_FailureBehavior(e.FailureBehavior)}}
	case *expr.DynamicParameter:
		m.RexType = &pb.Expression_DynamicParameter{DynamicParameter: &pb.DynamicParameter{Type: types.TypeToProto(e.OutputType), ParameterReference: e.ParameterReference}}
	case *expr.SingularOrList:
		m.RexType = &pb.Expression_SingularOrList_{SingularOrList: &pb.Expression_SingularOrList{Value: viewExpr(e.Value), Options: viewExprs(e.Options)}}
	case *expr.MultiOrList:
		f := &pb.Expression_MultiOrList{Value: viewExprs(e.Value)}
		for _, o := range e.Options {
			f.Options = append(f.Options, &pb.Expression_MultiOrList_Record{Fields: viewExprs(o)})
		}
		m.RexType = &pb.Expression_MultiOrList_{MultiOrList: f}
	case *expr.StructExpr:
		m.RexType = &pb.Expression_Nested_{Nested: &pb.Expression_Nested{Nullable: e.IsNullable(), TypeVariationReference: e.TypeVariation(),
			NestedType: &pb.Expression_Nested_Struct_{Struct: &pb.Expression_Nested_Struct{Fields: viewExprs(e.Fields)}}}}
	case *expr.ListExpr:
		m.RexType = &pb.Expression_Nested_{Nested: &pb.Expression_Nested{Nullable: e.IsNullable(), TypeVariationReference: e.TypeVariation(),
			NestedType: &pb.Expression_Nested_List_{List: &pb.Expression_Nested_List{Values: viewExprs(e.Values)}}}}
	case *expr.MapExpr:
		f := &pb.Expression_Nested_Map{}
		for _, kv := range e.KeyValues {
			f.KeyValues = append(f.KeyValues, &pb.Expression_Nested_Map_KeyValue{Key: viewExpr(kv.Key), Value: viewExpr(kv.Value)})
		}
		m.RexType = &pb.Expression_Nested_{Nested: &pb.Expression_Nested{Nullable: e.IsNullable(), TypeVariationReference: e.TypeVariation(), NestedType: &pb.Expression_Nested_Map_{Map: f}}}
	case *expr.FieldReference:
		m.RexType = &pb.Expression_Selection{Selection: viewRef(e)}
	case *expr.Lambda:
		f := m.GetLambda()
		f.Body, f.Parameters = viewExpr(e.Body), types.TypeToProto(e.Parameters).GetStruct()
	case *plan.ScalarSubquery:
		m.GetSubquery().GetScalar().Input = viewRel(e.Input)
	case *plan.InPredicateSubquery:
		f := m.GetSubquery().GetInPredicate()
		f.Needles, f.Haystack = viewExprs(e.Needles), viewRel(e.Haystack)
	case *plan.SetPredicateSubquery:
		f := m.GetSubquery().GetSetPredicate()
		f.PredicateOp, f.Tuples = e.Operation, viewRel(e.Tuples)
	case *plan.SetComparisonSubquery:
		f := m.GetSubquery().GetSetComparison()
		f.ReductionOp, f.ComparisonOp, f.Left, f.Right = e.ReductionOp, e.ComparisonOp, viewExpr(e.Left), viewRel(e.Right)
	}
	return m
}

func viewCommon(c *pb.RelCommon, rc *plan.RelCommon) *pb.RelCommon {
	out := &pb.RelCommon{Hint: rc.Hint(), AdvancedExtension: rc.GetAdvancedExtension()}
	if mp := rc.OutputMapping(); mp != nil {
		out.EmitKind = &pb.RelCommon_Emit_{Emit: &pb.RelCommon_Emit{OutputMapping: mp}}
	} else {
		out.EmitKind = &pb.RelCommon_Direct_{Direct: &pb.RelCommon_Direct{}}
	}
	return out
}

func viewKeys(ks []*plan.ComparisonJoinKey) (out []*pb.ComparisonJoinKey) {
	for _, k := range ks {
		x := proto.Clone(k.ToProto()).(*pb.ComparisonJoinKey)
		x.Left, x.Right = viewRef(k.Left()), viewRef(k.Right())
		switch c := k.Comparison().(type) {
		case plan.SimpleComparison:
			x.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_Simple{Simple: c.Type}}
		case plan.CustomComparison:
			x.Comparison = &pb.ComparisonJoinKey_ComparisonType{InnerType: &pb.ComparisonJoinKey_ComparisonType_CustomFunctionReference{CustomFunctionReference: c.FunctionReference}}
		}
		out = append(out, x)
	}
	return
}

func viewRefs(rs []*expr.FieldReference) (out []*pb.Expression_FieldReference) {
	for _, r := range rs {
		out = append(out, viewRef(r))
	}
	return
}

func viewRels(rs []plan.Rel) (out []*pb.Rel) {
	for _, r := range rs {
		out = append(out, viewRel(r))
	}
	return
}

// inputs of a relation by name have to be those GetInputs lists
func sameRels(r plan.Rel, ins ...plan.Rel) {
	got := r.GetInputs()
	if len(got) != len(ins) {
		panic(fmt.Sprintf("GetInputs of %T lists %d relations, not %d", r, len(got), len(ins)))
	}
	for i := range got {
		if got[i] != ins[i] {
			panic(fmt.Sprintf("GetInputs of %T differs from its inputs", r))
		}
	}
}

type readAcc interface {
	plan.Rel
	BaseSchema() types.NamedStruct
	Filter() expr.Expression
	BestEffortFilter() expr.Expression
	Projection() *expr.MaskExpression
}

func viewRel(r plan.Rel) *pb.Rel {
	m := proto.Clone(r.ToProto()).(*pb.Rel)
	if ra, ok := r.(readAcc); ok {
		x := m.GetRead()
		bs := ra.BaseSchema()
		x.BaseSchema = bs.ToProto()
		x.Filter, x.BestEffortFilter, x.Projection = viewExpr(ra.Filter()), viewExpr(ra.BestEffortFilter()), viewMask(ra.Projection())
		sameRels(r)
	}
	switch r := r.(type) {
	case *plan.NamedTableReadRel:
		x := m.GetRead()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.GetNamedTable().Names, x.GetNamedTable().AdvancedExtension = r.Names(), r.NamedTableAdvancedExtension()
	case *plan.VirtualTableReadRel:
		x := m.GetRead()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		vt := &pb.ReadRel_VirtualTable{}
		for _, row := range r.Values() {
			vt.Expressions = append(vt.Expressions, &pb.Expression_Nested_Struct{Fields: viewExprs(row)})
		}
		x.ReadType = &pb.ReadRel_VirtualTable_{VirtualTable: vt}
	case *plan.ExtensionTableReadRel:
		x := m.GetRead()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.GetExtensionTable().Detail = r.Detail()
	case *plan.IcebergTableReadRel:
		x := m.GetRead()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
	case *plan.LocalFileReadRel:
		x := m.GetRead()
		x.Common = viewCommon(x.Common, &r.RelCommon)
		lf := x.GetLocalFiles()
		lf.AdvancedExtension = r.GetAdvancedExtension()
		for i := range lf.Items {
			it := r.Item(i)
			y := lf.Items[i]
			y.PartitionIndex, y.Start, y.Length = it.PartIndex, it.Start, it.Len
			switch it.PathType {
			case plan.URIPath:
				y.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPath{UriPath: it.Path}
			case plan.URIPathGlob:
				y.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriPathGlob{UriPathGlob: it.Path}
			case plan.URIFile:
				y.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFile{UriFile: it.Path}
			case plan.URIFolder:
				y.PathType = &pb.ReadRel_LocalFiles_FileOrFiles_UriFolder{UriFolder: it.Path}
			}
		}
	case *plan.ProjectRel:
		x := m.GetProject()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Input, x.Expressions = viewRel(r.Input()), viewExprs(r.Expressions())
		sameRels(r, r.Input())
	case *plan.JoinRel:
		x := m.GetJoin()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Left, x.Right, x.Expression, x.PostJoinFilter, x.Type = viewRel(r.Left()), viewRel(r.Right()), viewExpr(r.Expr()), viewExpr(r.PostJoinFilter()), r.Type()
		sameRels(r, r.Left(), r.Right())
	case *plan.CrossRel:
		x := m.GetCross()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Left, x.Right = viewRel(r.Left()), viewRel(r.Right())
		sameRels(r, r.Left(), r.Right())
	case *plan.FetchRel:
		x := m.GetFetch()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Input = viewRel(r.Input())
		x.OffsetMode, x.CountMode = &pb.FetchRel_Offset{Offset: r.Offset()}, &pb.FetchRel_Count{Count: r.Count()}
		sameRels(r, r.Input())
	case *plan.AggregateRel:
		x := m.GetAggregate()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Input, x.GroupingExpressions = viewRel(r.Input()), viewExprs(r.GroupingExpressions())
		x.Groupings, x.Measures = nil, nil
		for _, g := range r.GroupingReferences() {
			x.Groupings = append(x.Groupings, &pb.AggregateRel_Grouping{ExpressionReferences: g})
		}
		for _, ms := range r.Measures() {
			x.Measures = append(x.Measures, &pb.AggregateRel_Measure{Measure: viewAgg(ms.Measure()), Filter: viewExpr(ms.Filter())})
		}
		sameRels(r, r.Input())
	case *plan.SortRel:
		x := m.GetSort()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Input, x.Sorts = viewRel(r.Input()), viewSorts(r.Sorts())
		sameRels(r, r.Input())
	case *plan.FilterRel:
		x := m.GetFilter()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Input, x.Condition = viewRel(r.Input()), viewExpr(r.Condition())
		sameRels(r, r.Input())
	case *plan.SetRel:
		x := m.GetSet()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Inputs, x.Op = viewRels(r.Inputs()), r.Op()
		sameRels(r, r.Inputs()...)
	case *plan.ExtensionSingleRel:
		x := m.GetExtensionSingle()
		x.Common, x.Input, x.Detail = viewCommon(x.Common, &r.RelCommon), viewRel(r.Input()), r.Detail()
		sameRels(r, r.Input())
	case *plan.ExtensionLeafRel:
		x := m.GetExtensionLeaf()
		x.Common, x.Detail = viewCommon(x.Common, &r.RelCommon), r.Detail()
		sameRels(r)
	case *plan.ExtensionMultiRel:
		x := m.GetExtensionMulti()
		x.Common, x.Inputs, x.Detail = viewCommon(x.Common, &r.RelCommon), viewRels(r.Inputs()), r.Detail()
		sameRels(r, r.Inputs()...)
	case *plan.HashJoinRel:
		x := m.GetHashJoin()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Left, x.Right, x.Keys, x.PostJoinFilter = viewRel(r.Left()), viewRel(r.Right()), viewKeys(r.Keys()), viewExpr(r.PostJoinFilter())
		x.LeftKeys, x.RightKeys, x.Type = viewRefs(r.LeftKeys()), viewRefs(r.RightKeys()), pb.HashJoinRel_JoinType(r.Type())
		sameRels(r, r.Left(), r.Right())
	case *plan.MergeJoinRel:
		x := m.GetMergeJoin()
		x.Common, x.AdvancedExtension = viewCommon(x.Common, &r.RelCommon), r.GetAdvancedExtension()
		x.Left, x.Right, x.Keys, x.PostJoinFilter = viewRel(r.Left()), viewRel(r.Right()), viewKeys(r.Keys()), viewExpr(r.PostJoinFilter())
		x.LeftKeys, x.RightKeys, x.Type = viewRefs(r.LeftKeys()), viewRefs(r.RightKeys()), pb.MergeJoinRel_JoinType(r.Type())
		sameRels(r, r.Left(), r.Right())
	case *plan.NamedTableWriteRel:
		x := m.GetWrite()
		x.Common = viewCommon(x.Common, &r.RelCommon)
		ts := r.TableSchema()
		x.TableSchema, x.Op, x.Input = ts.ToProto(), r.Op(), viewRel(r.Input())
		x.GetNamedTable().Names, x.GetNamedTable().AdvancedExtension = r.Names(), r.NamedTableAdvancedExtension()
		sameRels(r, r.Input())
	}
	return m
}
