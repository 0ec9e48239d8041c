package main

import (
	"encoding/json"
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
)

func init() { suites["lits"] = litsSuite }

var nilNode = N("nil", nil)

func litPb(n *Node) *pb.Expression_Literal {
	l := &pb.Expression_Literal{}
	if err := untree(n, l); err != nil {
		panic("harness: " + err.Error())
	}
	return l
}

// wire sends a message through the protobuf encoding, as a plan read from a file would be.
func wire[M proto.Message](m M, into M) M {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := proto.Unmarshal(b, into); err != nil {
		panic("harness: " + err.Error())
	}
	return into
}

func litsOf(ls []*pb.Expression_Literal) []expr.Literal {
	r := make([]expr.Literal, len(ls))
	for i, l := range ls {
		r[i] = expr.LiteralFromProto(l)
	}
	return r
}

func mapOf(kvs []*pb.Expression_Literal_Map_KeyValue) expr.MapLiteralValue {
	r := make(expr.MapLiteralValue, len(kvs))
	for i, kv := range kvs {
		r[i].Key, r[i].Value = expr.LiteralFromProto(kv.Key), expr.LiteralFromProto(kv.Value)
	}
	return r
}

// buildLit calls the named constructor with the value the message states.
func buildLit(c string, l *pb.Expression_Literal) (expr.Literal, error) {
	nul := l.Nullable
	nn := types.NullabilityRequired
	if nul {
		nn = types.NullabilityNullable
	}
	ok := func(l expr.Literal) (expr.Literal, error) { return l, nil }
	switch c {
	case "new":
		switch v := l.LiteralType.(type) {
		case *pb.Expression_Literal_Boolean:
			return expr.NewLiteral(v.Boolean, nul)
		case *pb.Expression_Literal_I8:
			return expr.NewLiteral(int8(v.I8), nul)
		case *pb.Expression_Literal_I16:
			return expr.NewLiteral(int16(v.I16), nul)
		case *pb.Expression_Literal_I32:
			return expr.NewLiteral(v.I32, nul)
		case *pb.Expression_Literal_I64:
			return expr.NewLiteral(v.I64, nul)
		case *pb.Expression_Literal_Fp32:
			return expr.NewLiteral(v.Fp32, nul)
		case *pb.Expression_Literal_Fp64:
			return expr.NewLiteral(v.Fp64, nul)
		case *pb.Expression_Literal_String_:
			return expr.NewLiteral(v.String_, nul)
		case *pb.Expression_Literal_Timestamp:
			return expr.NewLiteral(types.Timestamp(v.Timestamp), nul)
		case *pb.Expression_Literal_TimestampTz:
			return expr.NewLiteral(types.TimestampTz(v.TimestampTz), nul)
		case *pb.Expression_Literal_Date:
			return expr.NewLiteral(types.Date(v.Date), nul)
		case *pb.Expression_Literal_Time:
			return expr.NewLiteral(types.Time(v.Time), nul)
		case *pb.Expression_Literal_FixedChar:
			return expr.NewLiteral(types.FixedChar(v.FixedChar), nul)
		case *pb.Expression_Literal_Uuid:
			return expr.NewLiteral(types.UUID(v.Uuid), nul)
		case *pb.Expression_Literal_Binary:
			return expr.NewLiteral(v.Binary, nul)
		case *pb.Expression_Literal_FixedBinary:
			return expr.NewLiteral(types.FixedBinary(v.FixedBinary), nul)
		case *pb.Expression_Literal_Struct_:
			return expr.NewLiteral(expr.StructLiteralValue(litsOf(v.Struct.Fields)), nul)
		case *pb.Expression_Literal_List_:
			return expr.NewLiteral(expr.ListLiteralValue(litsOf(v.List.Values)), nul)
		case *pb.Expression_Literal_Map_:
			return expr.NewLiteral(mapOf(v.Map.KeyValues), nul)
		case *pb.Expression_Literal_IntervalYearToMonth_:
			return expr.NewLiteral(v.IntervalYearToMonth, nul)
		case *pb.Expression_Literal_IntervalDayToSecond_:
			return expr.NewLiteral(v.IntervalDayToSecond, nul)
		case *pb.Expression_Literal_Decimal_:
			return expr.NewLiteral(v.Decimal, nul)
		case *pb.Expression_Literal_UserDefined_:
			return expr.NewLiteral(v.UserDefined, nul)
		case *pb.Expression_Literal_VarChar_:
			return expr.NewLiteral(v.VarChar, nul)
		case *pb.Expression_Literal_PrecisionTime_:
			return expr.NewLiteral(v.PrecisionTime, nul)
		case *pb.Expression_Literal_PrecisionTimestamp_:
			return expr.NewLiteral(v, nul)
		case *pb.Expression_Literal_PrecisionTimestampTz:
			return expr.NewLiteral(v, nul)
		}
	case "expr":
		switch v := l.LiteralType.(type) {
		case *pb.Expression_Literal_Boolean:
			return ok(expr.NewPrimitiveLiteral(v.Boolean, nul))
		case *pb.Expression_Literal_I8:
			return ok(expr.NewPrimitiveLiteral(int8(v.I8), nul))
		case *pb.Expression_Literal_I16:
			return ok(expr.NewPrimitiveLiteral(int16(v.I16), nul))
		case *pb.Expression_Literal_I32:
			return ok(expr.NewPrimitiveLiteral(v.I32, nul))
		case *pb.Expression_Literal_I64:
			return ok(expr.NewPrimitiveLiteral(v.I64, nul))
		case *pb.Expression_Literal_Fp32:
			return ok(expr.NewPrimitiveLiteral(v.Fp32, nul))
		case *pb.Expression_Literal_Fp64:
			return ok(expr.NewPrimitiveLiteral(v.Fp64, nul))
		case *pb.Expression_Literal_String_:
			return ok(expr.NewPrimitiveLiteral(v.String_, nul))
		case *pb.Expression_Literal_Timestamp:
			return ok(expr.NewPrimitiveLiteral(types.Timestamp(v.Timestamp), nul))
		case *pb.Expression_Literal_TimestampTz:
			return ok(expr.NewPrimitiveLiteral(types.TimestampTz(v.TimestampTz), nul))
		case *pb.Expression_Literal_Date:
			return ok(expr.NewPrimitiveLiteral(types.Date(v.Date), nul))
		case *pb.Expression_Literal_Time:
			return ok(expr.NewPrimitiveLiteral(types.Time(v.Time), nul))
		case *pb.Expression_Literal_FixedChar:
			return ok(expr.NewFixedCharLiteral(types.FixedChar(v.FixedChar), nul))
		case *pb.Expression_Literal_Uuid:
			return ok(expr.NewByteSliceLiteral(types.UUID(v.Uuid), nul))
		case *pb.Expression_Literal_Binary:
			return ok(expr.NewByteSliceLiteral(v.Binary, nul))
		case *pb.Expression_Literal_FixedBinary:
			return ok(expr.NewFixedBinaryLiteral(types.FixedBinary(v.FixedBinary), nul))
		case *pb.Expression_Literal_Struct_:
			return ok(expr.NewNestedLiteral(expr.StructLiteralValue(litsOf(v.Struct.Fields)), nul))
		case *pb.Expression_Literal_List_:
			return ok(expr.NewNestedLiteral(expr.ListLiteralValue(litsOf(v.List.Values)), nul))
		case *pb.Expression_Literal_Map_:
			return ok(expr.NewNestedLiteral(mapOf(v.Map.KeyValues), nul))
		case *pb.Expression_Literal_Null:
			return ok(expr.NewNullLiteral(types.TypeFromProto(v.Null).WithNullability(types.NullabilityRequired)))
		case *pb.Expression_Literal_EmptyList:
			return ok(expr.NewEmptyListLiteral(types.TypeFromProto(v.EmptyList.Type), nul))
		case *pb.Expression_Literal_EmptyMap:
			return ok(expr.NewEmptyMapLiteral(types.TypeFromProto(v.EmptyMap.Key), types.TypeFromProto(v.EmptyMap.Value), nul))
		case *pb.Expression_Literal_IntervalYearToMonth_:
			return ok(expr.IntervalYearToMonthLiteral{Years: v.IntervalYearToMonth.Years, Months: v.IntervalYearToMonth.Months, Nullability: nn})
		case *pb.Expression_Literal_PrecisionTime_:
			return ok(expr.NewPrecisionTimeLiteral(v.PrecisionTime.Value, types.TimePrecision(v.PrecisionTime.Precision), nn))
		case *pb.Expression_Literal_PrecisionTimestamp_:
			return ok(expr.NewPrecisionTimestampLiteral(v.PrecisionTimestamp.Value, types.TimePrecision(v.PrecisionTimestamp.Precision), nn))
		case *pb.Expression_Literal_PrecisionTimestampTz:
			return ok(expr.NewPrecisionTimestampTzLiteral(v.PrecisionTimestampTz.Value, types.TimePrecision(v.PrecisionTimestampTz.Precision), nn))
		}
	case "lit":
		switch v := l.LiteralType.(type) {
		case *pb.Expression_Literal_Boolean:
			return ok(literal.NewBool(v.Boolean, nul))
		case *pb.Expression_Literal_I8:
			return ok(literal.NewInt8(int8(v.I8), nul))
		case *pb.Expression_Literal_I16:
			return ok(literal.NewInt16(int16(v.I16), nul))
		case *pb.Expression_Literal_I32:
			return ok(literal.NewInt32(v.I32, nul))
		case *pb.Expression_Literal_I64:
			return ok(literal.NewInt64(v.I64, nul))
		case *pb.Expression_Literal_Fp32:
			return ok(literal.NewFloat32(v.Fp32, nul))
		case *pb.Expression_Literal_Fp64:
			return ok(literal.NewFloat64(v.Fp64, nul))
		case *pb.Expression_Literal_String_:
			return ok(literal.NewString(v.String_, nul))
		case *pb.Expression_Literal_Timestamp:
			return literal.NewTimestampFromMicros(v.Timestamp, nul)
		case *pb.Expression_Literal_TimestampTz:
			return literal.NewTimestampTZFromMicros(v.TimestampTz, nul)
		case *pb.Expression_Literal_Date:
			return literal.NewDate(int(v.Date), nul)
		case *pb.Expression_Literal_Time:
			return literal.NewTimeFromMicros(v.Time, nul)
		case *pb.Expression_Literal_FixedChar:
			return literal.NewFixedChar(v.FixedChar, nul)
		case *pb.Expression_Literal_Uuid:
			return literal.NewUUIDFromBytes(v.Uuid, nul)
		case *pb.Expression_Literal_FixedBinary:
			return literal.NewFixedBinary(v.FixedBinary, nul)
		case *pb.Expression_Literal_List_:
			return literal.NewList(litsOf(v.List.Values), nul)
		case *pb.Expression_Literal_Map_:
			return literal.NewMap(mapOf(v.Map.KeyValues), nul)
		case *pb.Expression_Literal_EmptyList:
			return literal.NewEmptyList(types.TypeFromProto(v.EmptyList.Type), nul)
		case *pb.Expression_Literal_EmptyMap:
			return literal.NewEmptyMap(types.TypeFromProto(v.EmptyMap.Key), types.TypeFromProto(v.EmptyMap.Value), nul)
		case *pb.Expression_Literal_IntervalYearToMonth_:
			return literal.NewIntervalYearsToMonth(v.IntervalYearToMonth.Years, v.IntervalYearToMonth.Months, nul)
		case *pb.Expression_Literal_IntervalDayToSecond_:
			i := v.IntervalDayToSecond
			return literal.NewIntervalDaysToSecond(i.Days, i.Seconds, i.Subseconds, nul)
		case *pb.Expression_Literal_Decimal_:
			return literal.NewDecimalFromTwosComplement(v.Decimal.Value, v.Decimal.Precision, v.Decimal.Scale, nul)
		case *pb.Expression_Literal_UserDefined_:
			var ps []types.TypeParam
			for _, p := range v.UserDefined.TypeParameters {
				ps = append(ps, types.TypeParamFromProto(p))
			}
			return literal.NewUserDefinedLiteral(v.UserDefined.GetTypeReference(), expr.StructLiteralValue(litsOf(v.UserDefined.GetStruct().Fields)), nul, ps)
		case *pb.Expression_Literal_VarChar_:
			return literal.NewVarChar(v.VarChar.Value, nul)
		case *pb.Expression_Literal_PrecisionTime_:
			return literal.NewPrecisionTime(types.TimePrecision(v.PrecisionTime.Precision), v.PrecisionTime.Value, nul)
		case *pb.Expression_Literal_PrecisionTimestamp_:
			return literal.NewPrecisionTimestamp(types.TimePrecision(v.PrecisionTimestamp.Precision), v.PrecisionTimestamp.Value, nul)
		case *pb.Expression_Literal_PrecisionTimestampTz:
			return literal.NewPrecisionTimestampTz(types.TimePrecision(v.PrecisionTimestampTz.Precision), v.PrecisionTimestampTz.Value, nul)
		}
	}
	return nil, fmt.Errorf("harness: no constructor %s for %T", c, l.LiteralType)
}

func observeLit(l expr.Literal, r obj) {
	r["typ"] = typeToNode(l.GetType())
	r["out"] = tree("literal", l.ToProtoLiteral())
	r["out2"] = tree("literal", l.ToProto().GetLiteral())
	r["arg"] = tree("literal", l.ToProtoFuncArg().GetValue().GetLiteral())
	l2 := expr.LiteralFromProto(wire(l.ToProtoLiteral(), &pb.Expression_Literal{}))
	r["eq"] = str(l.Equals(l2)) + str(l2.Equals(l))
	r["typeq"] = str(l.GetType().Equals(l2.GetType())) + str(l2.GetType().Equals(types.TypeFromProto(types.TypeToProto(l.GetType())))) +
		str(types.TypeFromProto(types.TypeToProto(l.GetType())).Equals(l2.GetType()))
	r["self"] = str(l.Equals(l)) + str(l.IsScalar())
	r["str"] = l.String() == l2.String() && l.ValueString() == l2.ValueString()
}

func litsSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op string `json:"op"`
		C  string `json:"ctor"`
		L  *Node  `json:"l"`
		M  *Node  `json:"m"`
		T  *Node  `json:"t"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	r := obj{"typ": nilNode, "out": nilNode, "out2": nilNode, "arg": nilNode, "eq": "?", "typeq": "?", "self": "?", "str": false, "insame": nilNode}
	switch s.Op {
	case "rt":
		in := wire(litPb(s.L), &pb.Expression_Literal{})
		o := guard(func() error {
			l := expr.LiteralFromProto(in)
			if l == nil {
				return fmt.Errorf("not read")
			}
			observeLit(l, r)
			return nil
		})
		r["insame"] = tree("literal", in)
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "new":
		in := wire(litPb(s.L), &pb.Expression_Literal{})
		o := guard(func() error {
			l, err := buildLit(s.C, in)
			if err != nil {
				return err
			}
			observeLit(l, r)
			return nil
		})
		r["insame"] = tree("literal", in)
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "as": // the literal as one of another type
		in := expr.LiteralFromProto(litPb(s.L))
		w, ok := in.(expr.WithTypeLiteral)
		if !ok {
			return obj{"st": "none", "msg": "", "typ": nilNode, "out": nilNode, "insame": "yes"}, nil
		}
		before := jsonOf(tree("literal", in.ToProtoLiteral()))
		to := nodeToType(s.T)
		o := guard(func() error {
			l, err := w.WithType(to)
			if err != nil {
				return err
			}
			r["typ"] = typeToNode(l.GetType())
			r["out"] = tree("literal", wire(l.ToProtoLiteral(), &pb.Expression_Literal{}))
			return nil
		})
		same := "yes"
		if jsonOf(tree("literal", in.ToProtoLiteral())) != before {
			same = "no"
		}
		return obj{"st": o.St, "msg": o.Msg, "typ": r["typ"], "out": r["out"], "insame": same}, nil
	case "mix": // a collection of two elements
		a, b := litPb(s.L), litPb(s.M)
		try := func(f func(x, y expr.Literal) (expr.Literal, error)) string {
			return guard(func() error {
				_, err := f(expr.LiteralFromProto(a), expr.LiteralFromProto(b))
				return err
			}).St
		}
		kv := func(k1, v1, k2, v2 expr.Literal) expr.MapLiteralValue {
			m := make(expr.MapLiteralValue, 2)
			m[0].Key, m[0].Value, m[1].Key, m[1].Value = k1, v1, k2, v2
			return m
		}
		return obj{
			"list": try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewList([]expr.Literal{x, x, y}, false) }),
			"keys": try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewMap(kv(x, y, y, y), true) }),
			"vals": try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewMap(kv(x, x, x, y), true) }),
			"none": try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewList(nil, false) }) +
				try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewMap(nil, false) }) +
				try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewList([]expr.Literal{x, nil}, false) }) +
				try(func(x, y expr.Literal) (expr.Literal, error) { return literal.NewEmptyList(nil, false) }),
		}, nil
	}
	return nil, errOp(s.Op)
}
