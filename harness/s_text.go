package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
	"github.com/substrait-io/substrait-go/v8/types/parser"
)

func init() { suites["text"] = textSuite }

func intParam(p integer_parameters.IntegerParameter) *Node {
	switch p := p.(type) {
	case *integer_parameters.ConcreteIntParam:
		return N("num", []string{str(int32(*p))})
	case *integer_parameters.VariableIntParam:
		return N("var", []string{string(*p)})
	}
	return N("nil", nil)
}

// teToNode reads a type expression through its exported structure.
func teToNode(t types.FuncDefArgType) *Node {
	one := func(k string, n types.Nullability, p integer_parameters.IntegerParameter) *Node {
		return N(k, []string{str(int32(n))}, intParam(p))
	}
	switch t := t.(type) {
	case nil:
		return N("nil", nil)
	case *types.ParameterizedVarCharType:
		return one("varchar", t.Nullability, t.IntegerOption)
	case *types.ParameterizedFixedCharType:
		return one("fixed_char", t.Nullability, t.IntegerOption)
	case *types.ParameterizedFixedBinaryType:
		return one("fixed_binary", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimeType:
		return one("precision_time", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimestampType:
		return one("precision_timestamp", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimestampTzType:
		return one("precision_timestamp_tz", t.Nullability, t.IntegerOption)
	case *types.ParameterizedIntervalDayType:
		return one("interval_day", t.Nullability, t.IntegerOption)
	case *types.ParameterizedDecimalType:
		return N("decimal", []string{str(int32(t.Nullability))}, intParam(t.Precision), intParam(t.Scale))
	case *types.ParameterizedListType:
		return N("list", []string{str(int32(t.Nullability))}, teToNode(t.Type))
	case *types.ParameterizedMapType:
		return N("map", []string{str(int32(t.Nullability))}, teToNode(t.Key), teToNode(t.Value))
	case *types.ParameterizedStructType:
		n := N("struct", []string{str(int32(t.Nullability))})
		for _, c := range t.Types {
			n.C = append(n.C, teToNode(c))
		}
		return n
	case *types.ParameterizedFuncType:
		n := N("func", []string{str(int32(t.Nullability))})
		for _, c := range t.Parameters {
			n.C = append(n.C, teToNode(c))
		}
		n.C = append(n.C, teToNode(t.Return))
		return n
	case *types.ParameterizedUserDefinedType:
		n := N("udt", []string{str(int32(t.Nullability)), t.Name})
		for _, c := range t.TypeParameters {
			switch c := c.(type) {
			case *types.DataTypeUDTParam:
				n.C = append(n.C, teToNode(c.Type))
			case *types.IntegerUDTParam:
				n.C = append(n.C, N("num", []string{str(c.Integer)}))
			case *types.StringUDTParam:
				n.C = append(n.C, N("str", []string{c.StringVal}))
			default:
				n.C = append(n.C, N("nil", nil))
			}
		}
		return n
	case *types.AnyType:
		return N("any", []string{str(int32(t.Nullability)), t.Name})
	case *types.EnumType:
		return N("enum", []string{t.Name})
	case *types.OutputDerivation:
		n := N("derive", nil)
		for _, a := range t.Assignments {
			n.C = append(n.C, N("assign", []string{a.Name}, exprToNode(a.Value)))
		}
		n.C = append(n.C, teToNode(t.FinalType))
		return n
	case types.Type:
		n := typeToNode(t)
		if len(n.P) == 2 && n.P[1] == "0" {
			n.P = n.P[:1]
		}
		return n
	}
	return N(fmt.Sprintf("?%T", t), nil)
}

func exprToNode(e types.Expr) *Node {
	switch e := e.(type) {
	case nil:
		return N("nil", nil)
	case *types.LiteralNumber:
		return N("num", []string{str(e.Value)})
	case types.StringParameter:
		return N("var", []string{string(e)})
	case *types.BinaryExpr:
		return N("bin", []string{e.Op.String()}, exprToNode(e.Left), exprToNode(e.Right))
	case *types.IfExpr:
		k := "if"
		if e.IsTernary {
			k = "ternary"
		}
		return N("if", []string{k}, exprToNode(e.Condition), exprToNode(e.Then), exprToNode(e.Else))
	case *types.NotExpr:
		return N("not", nil, exprToNode(e.Expr))
	case *types.FunctionCallExpr:
		n := N("call", []string{e.Name})
		for _, a := range e.Args {
			n.C = append(n.C, exprToNode(a))
		}
		return n
	}
	return N(fmt.Sprintf("?%T", e), nil)
}

func textSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Text string `json:"text"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	nilN := N("nil", nil)
	r := obj{"ast": nilN, "ast2": nilN, "str": "", "str2": "", "st2": "none", "msg2": "", "yml": "?"}
	var t types.FuncDefArgType
	o := guard(func() error {
		var err error
		if t, err = parser.ParseType(s.Text); err != nil {
			return err
		}
		r["ast"] = teToNode(t)
		return nil
	})
	r["st"], r["msg"] = o.St, o.Msg
	if o.St == "ok" {
		o2 := guard(func() error {
			p := t.String()
			r["str"] = p
			t2, err := parser.ParseType(p)
			if err != nil {
				return err
			}
			r["ast2"], r["str2"] = teToNode(t2), t2.String()
			te := &parser.TypeExpression{}
			if err := te.UnmarshalYAML(func(v any) error { reflect.ValueOf(v).Elem().Set(reflect.ValueOf(s.Text)); return nil }); err != nil {
				return err
			}
			y, err := te.MarshalYAML()
			r["yml"] = str(err == nil && y == any(p))
			return err
		})
		r["st2"], r["msg2"] = o2.St, o2.Msg
	}
	return r, nil
}
