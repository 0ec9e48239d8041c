package main

import (
	"fmt"
	"strconv"

	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Compact type trees: k = kind (the protobuf oneof name), p[0] = nullability number, p[1] = type variation,
// p[2..] = parameters, c = component types. User-defined type parameters are nodes P:null, P:bool, ...

func u32(s string) uint32 { v, _ := strconv.ParseUint(s, 10, 32); return uint32(v) }
func i32(s string) int32  { v, _ := strconv.ParseInt(s, 10, 32); return int32(v) }
func i64(s string) int64  { v, _ := strconv.ParseInt(s, 10, 64); return v }
func str(v any) string    { return fmt.Sprint(v) }

var protoParams = map[string][]string{
	"interval_day": {"precision"}, "interval_compound": {"precision"}, "precision_time": {"precision"},
	"precision_timestamp": {"precision"}, "precision_timestamp_tz": {"precision"},
	"fixed_char": {"length"}, "varchar": {"length"}, "fixed_binary": {"length"},
	"decimal": {"precision", "scale"}, "user_defined": {"type_reference"},
}

func nodeToPb(n *Node) *pb.Type {
	t := &pb.Type{}
	m := t.ProtoReflect()
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(n.K))
	if fd == nil {
		panic("harness: no type kind " + n.K)
	}
	k := m.Mutable(fd).Message()
	fds := k.Descriptor().Fields()
	k.Set(fds.ByName("nullability"), protoreflect.ValueOfEnum(protoreflect.EnumNumber(i32(n.P[0]))))
	if f := fds.ByName("type_variation_reference"); f != nil {
		k.Set(f, protoreflect.ValueOfUint32(u32(n.P[1])))
	}
	for i, name := range protoParams[n.K] {
		if n.P[2+i] == "" {
			continue
		}
		v, err := scalarVal(fds.ByName(protoreflect.Name(name)), n.P[2+i])
		if err != nil {
			panic("harness: " + err.Error())
		}
		k.Set(fds.ByName(protoreflect.Name(name)), v)
	}
	switch n.K {
	case "struct":
		for _, c := range n.C {
			t.GetStruct().Types = append(t.GetStruct().Types, nodeToPb(c))
		}
	case "list":
		t.GetList().Type = nodeToPb(n.C[0])
	case "map":
		t.GetMap().Key, t.GetMap().Value = nodeToPb(n.C[0]), nodeToPb(n.C[1])
	case "func":
		for _, c := range n.C[:len(n.C)-1] {
			t.GetFunc().ParameterTypes = append(t.GetFunc().ParameterTypes, nodeToPb(c))
		}
		t.GetFunc().ReturnType = nodeToPb(n.C[len(n.C)-1])
	case "user_defined":
		for _, c := range n.C {
			p := &pb.Type_Parameter{}
			switch c.K {
			case "P:null":
				p.Parameter = &pb.Type_Parameter_Null{}
			case "P:type":
				p.Parameter = &pb.Type_Parameter_DataType{DataType: nodeToPb(c.C[0])}
			case "P:bool":
				p.Parameter = &pb.Type_Parameter_Boolean{Boolean: c.P[0] == "true"}
			case "P:int":
				p.Parameter = &pb.Type_Parameter_Integer{Integer: i64(c.P[0])}
			case "P:enum":
				p.Parameter = &pb.Type_Parameter_Enum{Enum: c.P[0]}
			case "P:string":
				p.Parameter = &pb.Type_Parameter_String_{String_: c.P[0]}
			}
			t.GetUserDefined().TypeParameters = append(t.GetUserDefined().TypeParameters, p)
		}
	}
	return t
}

func pbToNode(t *pb.Type) *Node {
	if t == nil {
		return N("nil", nil)
	}
	m := t.ProtoReflect()
	var n *Node
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		n = N(name, nil)
		if fd.Kind() != protoreflect.MessageKind {
			n.P = []string{str(v.Interface())}
			return true
		}
		k := v.Message()
		fds := k.Descriptor().Fields()
		if f := fds.ByName("nullability"); f != nil {
			n.P = append(n.P, str(int(k.Get(f).Enum())))
		}
		if f := fds.ByName("type_variation_reference"); f != nil {
			n.P = append(n.P, str(k.Get(f).Uint()))
		} else {
			n.P = append(n.P, "0")
		}
		for _, p := range protoParams[name] {
			f := fds.ByName(protoreflect.Name(p))
			if f.HasPresence() && !k.Has(f) {
				n.P = append(n.P, "")
			} else {
				n.P = append(n.P, str(k.Get(f).Interface()))
			}
		}
		return true
	})
	if n == nil {
		return N("nil", nil)
	}
	switch n.K {
	case "struct":
		for _, c := range t.GetStruct().Types {
			n.C = append(n.C, pbToNode(c))
		}
	case "list":
		n.C = append(n.C, pbToNode(t.GetList().Type))
	case "map":
		n.C = append(n.C, pbToNode(t.GetMap().Key), pbToNode(t.GetMap().Value))
	case "func":
		for _, c := range t.GetFunc().ParameterTypes {
			n.C = append(n.C, pbToNode(c))
		}
		n.C = append(n.C, pbToNode(t.GetFunc().ReturnType))
	case "user_defined":
		for _, c := range t.GetUserDefined().TypeParameters {
			switch p := c.Parameter.(type) {
			case *pb.Type_Parameter_Null:
				n.C = append(n.C, N("P:null", nil))
			case *pb.Type_Parameter_DataType:
				n.C = append(n.C, N("P:type", nil, pbToNode(p.DataType)))
			case *pb.Type_Parameter_Boolean:
				n.C = append(n.C, N("P:bool", []string{str(p.Boolean)}))
			case *pb.Type_Parameter_Integer:
				n.C = append(n.C, N("P:int", []string{str(p.Integer)}))
			case *pb.Type_Parameter_Enum:
				n.C = append(n.C, N("P:enum", []string{p.Enum}))
			case *pb.Type_Parameter_String_:
				n.C = append(n.C, N("P:string", []string{p.String_}))
			default:
				n.C = append(n.C, N("P:unset", nil))
			}
		}
	}
	return n
}

func prim(k string, t types.Type, ps ...string) *Node {
	return N(k, append([]string{str(int32(t.GetNullability())), str(t.GetTypeVariationReference())}, ps...))
}

// typeToNode reads a library type through its exported fields and accessors.
func typeToNode(t types.Type) *Node { return typeToNodeD(t, 0) }

func typeToNodeD(t types.Type, d int) *Node {
	if d > 40 { // a type that contains itself
		return N("too-deep", nil)
	}
	switch t := t.(type) {
	case nil:
		return N("nil", nil)
	case *types.BooleanType:
		return prim("bool", t)
	case *types.Int8Type:
		return prim("i8", t)
	case *types.Int16Type:
		return prim("i16", t)
	case *types.Int32Type:
		return prim("i32", t)
	case *types.Int64Type:
		return prim("i64", t)
	case *types.Float32Type:
		return prim("fp32", t)
	case *types.Float64Type:
		return prim("fp64", t)
	case *types.StringType:
		return prim("string", t)
	case *types.BinaryType:
		return prim("binary", t)
	case *types.TimestampType:
		return prim("timestamp", t)
	case *types.DateType:
		return prim("date", t)
	case *types.TimeType:
		return prim("time", t)
	case *types.TimestampTzType:
		return prim("timestamp_tz", t)
	case *types.IntervalYearType:
		return prim("interval_year", t)
	case types.IntervalYearToMonthType:
		return prim("interval_year", t)
	case *types.IntervalYearToMonthType:
		return prim("interval_year", t)
	case *types.UUIDType:
		return prim("uuid", t)
	case *types.IntervalDayType:
		return prim("interval_day", t, str(int32(t.Precision)))
	case types.IntervalCompoundType:
		return prim("interval_compound", t, str(t.GetPrecisionProtoVal()))
	case *types.IntervalCompoundType:
		return prim("interval_compound", t, str(t.GetPrecisionProtoVal()))
	case *types.PrecisionTimeType:
		return prim("precision_time", t, str(int32(t.Precision)))
	case *types.PrecisionTimestampType:
		return prim("precision_timestamp", t, str(int32(t.Precision)))
	case *types.PrecisionTimestampTzType:
		return prim("precision_timestamp_tz", t, str(int32(t.Precision)))
	case *types.FixedCharType:
		return prim("fixed_char", t, str(t.Length))
	case *types.VarCharType:
		return prim("varchar", t, str(t.Length))
	case *types.FixedBinaryType:
		return prim("fixed_binary", t, str(t.Length))
	case *types.DecimalType:
		return prim("decimal", t, str(t.Precision), str(t.Scale))
	case *types.StructType:
		n := prim("struct", t)
		for _, c := range t.Types {
			n.C = append(n.C, typeToNodeD(c, d+1))
		}
		return n
	case *types.ListType:
		n := prim("list", t)
		n.C = append(n.C, typeToNodeD(t.Type, d+1))
		return n
	case *types.MapType:
		n := prim("map", t)
		n.C = append(n.C, typeToNodeD(t.Key, d+1), typeToNodeD(t.Value, d+1))
		return n
	case *types.FuncType:
		n := prim("func", t)
		for _, c := range t.ParameterTypes {
			n.C = append(n.C, typeToNodeD(c, d+1))
		}
		n.C = append(n.C, typeToNodeD(t.ReturnType, d+1))
		return n
	case *types.UserDefinedType:
		n := prim("user_defined", t, str(t.TypeReference))
		for _, p := range t.TypeParameters {
			n.C = append(n.C, typeParamToNode(p, d+1))
		}
		return n
	case *types.EnumType:
		return N("enum", []string{str(int32(t.Nullability)), t.Name})
	}
	return N("?"+fmt.Sprintf("%T", t), nil)
}

func typeParamToNode(p types.TypeParam, d int) *Node {
	switch p := p.(type) {
	case types.NullParameter:
		return N("P:null", nil)
	case *types.DataTypeParameter:
		return N("P:type", nil, typeToNodeD(p.Type, d+1))
	case types.BooleanParameter:
		return N("P:bool", []string{str(bool(p))})
	case types.IntegerParameter:
		return N("P:int", []string{str(int64(p))})
	case types.EnumParameter:
		return N("P:enum", []string{string(p)})
	case types.StringParameter:
		return N("P:string", []string{string(p)})
	}
	return N("P:unset", nil)
}

func nodeToTypeParam(c *Node) types.TypeParam {
	switch c.K {
	case "P:null":
		return types.NullParameter{}
	case "P:type":
		return &types.DataTypeParameter{Type: nodeToType(c.C[0])}
	case "P:bool":
		return types.BooleanParameter(c.P[0] == "true")
	case "P:int":
		return types.IntegerParameter(i64(c.P[0]))
	case "P:enum":
		return types.EnumParameter(c.P[0])
	case "P:string":
		return types.StringParameter(c.P[0])
	}
	panic("harness: type parameter " + c.K)
}

// nodeToType builds a library type with struct literals, independently of TypeFromProto.
func nodeToType(n *Node) types.Type {
	if n.K == "nil" {
		return nil
	}
	nl, tv := types.Nullability(i32(n.P[0])), u32(n.P[1])
	switch n.K {
	case "bool":
		return &types.BooleanType{Nullability: nl, TypeVariationRef: tv}
	case "i8":
		return &types.Int8Type{Nullability: nl, TypeVariationRef: tv}
	case "i16":
		return &types.Int16Type{Nullability: nl, TypeVariationRef: tv}
	case "i32":
		return &types.Int32Type{Nullability: nl, TypeVariationRef: tv}
	case "i64":
		return &types.Int64Type{Nullability: nl, TypeVariationRef: tv}
	case "fp32":
		return &types.Float32Type{Nullability: nl, TypeVariationRef: tv}
	case "fp64":
		return &types.Float64Type{Nullability: nl, TypeVariationRef: tv}
	case "string":
		return &types.StringType{Nullability: nl, TypeVariationRef: tv}
	case "binary":
		return &types.BinaryType{Nullability: nl, TypeVariationRef: tv}
	case "timestamp":
		return &types.TimestampType{Nullability: nl, TypeVariationRef: tv}
	case "date":
		return &types.DateType{Nullability: nl, TypeVariationRef: tv}
	case "time":
		return &types.TimeType{Nullability: nl, TypeVariationRef: tv}
	case "timestamp_tz":
		return &types.TimestampTzType{Nullability: nl, TypeVariationRef: tv}
	case "interval_year":
		return &types.IntervalYearType{Nullability: nl, TypeVariationRef: tv}
	case "uuid":
		return &types.UUIDType{Nullability: nl, TypeVariationRef: tv}
	case "interval_day":
		p := types.PrecisionMicroSeconds
		if n.P[2] != "" {
			p = types.TimePrecision(i32(n.P[2]))
		}
		return &types.IntervalDayType{Nullability: nl, TypeVariationRef: tv, Precision: p}
	case "interval_compound":
		return types.NewIntervalCompoundType().WithPrecision(types.TimePrecision(i32(n.P[2]))).WithTypeVariationRef(tv).WithNullability(nl)
	case "precision_time":
		return &types.PrecisionTimeType{Nullability: nl, TypeVariationRef: tv, Precision: types.TimePrecision(i32(n.P[2]))}
	case "precision_timestamp":
		return &types.PrecisionTimestampType{Nullability: nl, TypeVariationRef: tv, Precision: types.TimePrecision(i32(n.P[2]))}
	case "precision_timestamp_tz":
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: nl, TypeVariationRef: tv, Precision: types.TimePrecision(i32(n.P[2]))}}
	case "fixed_char":
		return &types.FixedCharType{Nullability: nl, TypeVariationRef: tv, Length: i32(n.P[2])}
	case "varchar":
		return &types.VarCharType{Nullability: nl, TypeVariationRef: tv, Length: i32(n.P[2])}
	case "fixed_binary":
		return &types.FixedBinaryType{Nullability: nl, TypeVariationRef: tv, Length: i32(n.P[2])}
	case "decimal":
		return &types.DecimalType{Nullability: nl, TypeVariationRef: tv, Precision: i32(n.P[2]), Scale: i32(n.P[3])}
	case "struct":
		s := &types.StructType{Nullability: nl, TypeVariationRef: tv, Types: []types.Type{}}
		for _, c := range n.C {
			s.Types = append(s.Types, nodeToType(c))
		}
		return s
	case "list":
		return &types.ListType{Nullability: nl, TypeVariationRef: tv, Type: nodeToType(n.C[0])}
	case "map":
		return &types.MapType{Nullability: nl, TypeVariationRef: tv, Key: nodeToType(n.C[0]), Value: nodeToType(n.C[1])}
	case "func":
		f := &types.FuncType{Nullability: nl, ParameterTypes: []types.Type{}}
		for _, c := range n.C[:len(n.C)-1] {
			f.ParameterTypes = append(f.ParameterTypes, nodeToType(c))
		}
		f.ReturnType = nodeToType(n.C[len(n.C)-1])
		return f
	case "user_defined":
		u := &types.UserDefinedType{Nullability: nl, TypeVariationRef: tv, TypeReference: u32(n.P[2]), TypeParameters: []types.TypeParam{}}
		for _, c := range n.C {
			u.TypeParameters = append(u.TypeParameters, nodeToTypeParam(c))
		}
		return u
	}
	panic("harness: type kind " + n.K)
}
