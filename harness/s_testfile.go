package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing/fstest"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	tcparser "github.com/substrait-io/substrait-go/v8/testcases/parser"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() { suites["testfile"] = testfileSuite }

func instNode(i inst) *Node { return N("inst", []string{str(i.D), str(i.S), str(i.N)}) }

// fpNode is the shortest decimal text of a float, as digits without trailing zeros and a power of ten.
func fpNode(v float64, bits int) *Node {
	switch {
	case math.IsNaN(v):
		return N("fp", []string{"nan"})
	case math.IsInf(v, 1):
		return N("fp", []string{"inf"})
	case math.IsInf(v, -1):
		return N("fp", []string{"-inf"})
	case v == 0 && math.Signbit(v):
		return N("fp", []string{"-0"})
	case v == 0:
		return N("fp", []string{"0"})
	}
	t := strconv.FormatFloat(v, 'e', -1, bits)
	m, x, _ := strings.Cut(t, "e")
	e, _ := strconv.Atoi(x)
	sign := ""
	if m[0] == '-' {
		sign, m = "-", m[1:]
	}
	_, frac, _ := strings.Cut(m, ".")
	d := strings.TrimRight(strings.Replace(m, ".", "", 1), "0")
	e += len(strings.Replace(m, ".", "", 1)) - len(d) - len(frac)
	return N("fp", []string{sign + d + "e" + str(e)})
}

// litVal is the value of a literal, independent of how its type is written.
func litVal(l expr.Literal) *Node {
	if l == nil {
		return N("nil", nil)
	}
	p := l.ToProtoLiteral()
	switch v := p.LiteralType.(type) {
	case *pb.Expression_Literal_Null:
		return N("null", nil)
	case *pb.Expression_Literal_Boolean:
		return N("bool", []string{str(v.Boolean)})
	case *pb.Expression_Literal_I8:
		return N("int", []string{str(v.I8)})
	case *pb.Expression_Literal_I16:
		return N("int", []string{str(v.I16)})
	case *pb.Expression_Literal_I32:
		return N("int", []string{str(v.I32)})
	case *pb.Expression_Literal_I64:
		return N("int", []string{str(v.I64)})
	case *pb.Expression_Literal_Fp32:
		return fpNode(float64(v.Fp32), 32)
	case *pb.Expression_Literal_Fp64:
		return fpNode(v.Fp64, 64)
	case *pb.Expression_Literal_String_:
		return N("text", []string{esc(v.String_)})
	case *pb.Expression_Literal_Binary:
		return N("text", []string{esc(string(v.Binary))})
	case *pb.Expression_Literal_FixedChar:
		return N("text", []string{esc(v.FixedChar)})
	case *pb.Expression_Literal_FixedBinary:
		return N("text", []string{esc(string(v.FixedBinary))})
	case *pb.Expression_Literal_VarChar_:
		return N("text", []string{esc(v.VarChar.Value)})
	case *pb.Expression_Literal_Decimal_:
		neg, dg := dec16(v.Decimal.Value)
		s := ""
		if neg {
			s = "-"
		}
		return N("dec", []string{s + digText(dg)})
	case *pb.Expression_Literal_IntervalYearToMonth_:
		return N("ym", []string{str(v.IntervalYearToMonth.Years), str(v.IntervalYearToMonth.Months)})
	case *pb.Expression_Literal_IntervalDayToSecond_:
		i := v.IntervalDayToSecond
		return N("ds", []string{str(i.Days), str(i.Seconds), str(i.Subseconds)})
	case *pb.Expression_Literal_EmptyList:
		return N("list", nil)
	case *pb.Expression_Literal_List_:
		n := N("list", nil)
		for _, e := range l.(*expr.ListLiteral).Value {
			n.C = append(n.C, cellNode(e))
		}
		return n
	case *pb.Expression_Literal_Timestamp, *pb.Expression_Literal_TimestampTz, *pb.Expression_Literal_Time, *pb.Expression_Literal_Date,
		*pb.Expression_Literal_PrecisionTime_, *pb.Expression_Literal_PrecisionTimestamp_, *pb.Expression_Literal_PrecisionTimestampTz:
		x, pr := timeValue(l)
		return instNode(instOf(x, pr))
	}
	return N(fmt.Sprintf("?%T", p.LiteralType), nil)
}

func cellNode(l expr.Literal) *Node {
	if l == nil {
		return N("cell", nil, N("nil", nil), N("nil", nil))
	}
	return N("cell", nil, tyNode(l.GetType()), litVal(l))
}

func tyNode(t types.Type) *Node {
	if t == nil {
		return N("nil", nil)
	}
	if t == types.CommonEnumType {
		return N("enum", nil)
	}
	return typeToNode(t)
}

func caseLit(c *tcparser.CaseLiteral) *Node {
	if c == nil {
		return N("nil", nil)
	}
	switch v := c.Value.(type) {
	case types.Enum:
		return N("lit", []string{esc(c.ValueText)}, tyNode(c.Type), N("enum", nil), N("enum", []string{string(v)}))
	case expr.Literal:
		return N("lit", []string{esc(c.ValueText)}, tyNode(c.Type), tyNode(v.GetType()), litVal(v))
	}
	return N(fmt.Sprintf("?%T", c.Value), nil)
}

func caseNode(c *tcparser.TestCase) *Node {
	args, agg, opts, cols, ct := N("args", nil), N("agg", nil), N("opts", nil), N("cols", nil), N("coltypes", nil)
	for _, a := range c.Args {
		args.C = append(args.C, caseLit(a))
	}
	for _, a := range c.AggregateArgs {
		k, t := "col", tyNode(a.ColumnType)
		if a.IsScalar {
			k, t = "lit", N("nil", nil)
		}
		agg.C = append(agg.C, N("aa", []string{k, a.TableName, a.ColumnName, str(a.ColumnIndex)}, t, caseLit(a.Argument)))
	}
	var names []string
	for n := range c.Options {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		opts.C = append(opts.C, N("o", []string{n, c.Options[n]}))
	}
	for _, col := range c.Columns {
		n := N("col", nil)
		for _, x := range col {
			n.C = append(n.C, cellNode(x))
		}
		cols.C = append(cols.C, n)
	}
	for _, t := range c.ColumnTypes {
		ct.C = append(ct.C, tyNode(t))
	}
	var res *Node
	switch r := c.Result.(type) {
	case *tcparser.CaseLiteral:
		res = caseLit(r)
	case tcparser.NonValueOutcome:
		res = N(map[tcparser.NonValueOutcome]string{tcparser.NonValueError: "error", tcparser.NonValueUndefined: "undefined"}[r], nil)
	default:
		res = N("nil", nil)
	}
	return N("case", []string{c.BaseURI, esc(c.GroupDesc), c.FuncName, string(c.FuncType), c.TableName}, args, agg, res, opts, cols, ct)
}

func optsNode(os []*types.FunctionOption) *Node {
	n := N("opts", nil)
	for _, o := range os {
		n.C = append(n.C, N("o", append([]string{o.Name}, o.Preference...)))
	}
	return n
}

func invArg(a types.FuncArg) *Node {
	switch a := a.(type) {
	case types.Enum:
		return N("enum", []string{string(a)})
	case *expr.FieldReference:
		f := a.ToProto().GetSelection().GetDirectReference().GetStructField()
		if f == nil || f.Child != nil {
			return N("?ref", nil)
		}
		return N("ref", []string{str(f.Field)}, tyNode(a.GetType()))
	case expr.Literal:
		return N("value", nil, tyNode(a.GetType()), litVal(a))
	}
	return N(fmt.Sprintf("?%T", a), nil)
}

// declare makes a collection that knows the function of a case with the types of its arguments, or with any types.
func declare(c *tcparser.TestCase, urn string, args []types.Type, anyArgs bool) *extensions.Collection {
	doc := func(urn string) string {
		kind := "scalar_functions"
		if c.FuncType == tcparser.AggregateFuncType {
			kind = "aggregate_functions"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%%YAML 1.2\n---\nurn: %s\n%s:\n  - name: %s\n    impls:\n      - return: boolean\n", urn, kind, q(c.FuncName))
		if len(args) > 0 {
			b.WriteString("        args:\n")
		}
		for i, a := range args {
			if a == types.CommonEnumType {
				fmt.Fprintf(&b, "          - name: x%d\n            options: [YEAR, Foo_1, lower]\n", i)
				continue
			}
			t := "any"
			if !anyArgs {
				t = a.WithNullability(types.NullabilityRequired).String()
			}
			fmt.Fprintf(&b, "          - name: x%d\n            value: %s\n", i, q(t))
		}
		return b.String()
	}
	return mustCollection(doc("extension:zz:decoy"), doc(urn))
}

func invoke(c *tcparser.TestCase, urn string, anyArgs bool) *Node {
	r := N("nil", nil)
	o := guard(func() error {
		coll := declare(c, urn, c.GetArgTypes(), anyArgs)
		reg := expr.NewExtensionRegistry(extensions.NewSet(), coll)
		fr := functions.NewFunctionRegistry(coll)
		if c.FuncType == tcparser.ScalarFuncType {
			f, err := c.GetScalarFunctionInvocation(&reg, fr)
			if err != nil {
				return err
			}
			r = N("inv", []string{f.ID().URN, f.ID().Name}, N("args", nil), optsNode(f.GetOptions()))
			for i := 0; i < f.NArgs(); i++ {
				r.C[0].C = append(r.C[0].C, invArg(f.Arg(i)))
			}
			if _, err := c.GetAggregateFunctionInvocation(&reg, fr); err == nil {
				r.K = "both"
			}
			return nil
		}
		f, err := c.GetAggregateFunctionInvocation(&reg, fr)
		if err != nil {
			return err
		}
		r = N("inv", []string{f.ID().URN, f.ID().Name}, N("args", nil), optsNode(f.GetOptions()))
		for i := 0; i < f.NArgs(); i++ {
			r.C[0].C = append(r.C[0].C, invArg(f.Arg(i)))
		}
		if _, err := c.GetScalarFunctionInvocation(&reg, fr); err == nil {
			r.K = "both"
		}
		return nil
	})
	if o.St != "ok" {
		return N(o.St, []string{o.Msg})
	}
	return r
}

func testfileSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op   string   `json:"op"`
		Text []string `json:"text"`
		Via  string   `json:"via"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	text := unesc(strings.Join(s.Text, ""))
	var tf *tcparser.TestFile
	o := guard(func() error {
		var err error
		if s.Via == "fs" {
			tf, err = tcparser.ParseTestCaseFileFromFS(fstest.MapFS{"d/x.test": {Data: []byte(text)}}, "d/x.test")
		} else if s.Via == "cut" {
			tf, err = tcparser.ParseTestCasesFromFile(&brokenReader{text})
		} else {
			tf, err = tcparser.ParseTestCasesFromString(text)
		}
		return err
	})
	r := obj{"st": o.St, "msg": o.Msg, "head": []string{}, "cases": []obj{}}
	if o.St != "ok" {
		return r, nil
	}
	if tf == nil {
		r["st"] = "nothing"
		return r, nil
	}
	r["head"] = []string{tf.Header.Version, string(tf.Header.FuncType), tf.Header.IncludedURI}
	cases := []obj{}
	for _, c := range tf.TestCases {
		e := obj{"c": caseNode(c), "id": []string{}, "types": N("types", nil), "exact": N("nil", nil), "any": N("nil", nil), "data": N("nil", nil), "again": N("nil", nil), "txt": "", "txt2": "", "o": ""}
		o := guard(func() error {
			id := c.ID()
			e["id"] = []string{id.URN, id.Name, c.CompoundFunctionName()}
			tn := N("types", nil)
			for _, t := range c.GetArgTypes() {
				tn.C = append(tn.C, tyNode(t))
			}
			e["types"] = tn
			e["exact"] = invoke(c, id.URN, false)
			e["any"] = invoke(c, id.URN, true)
			if cols, err := c.GetAggregateColumnsData(); err != nil {
				e["data"] = N("err", nil)
			} else {
				n := N("cols", nil)
				for _, col := range cols {
					k := N("col", nil)
					for _, x := range col {
						k.C = append(k.C, cellNode(x))
					}
					n.C = append(n.C, k)
				}
				e["data"] = n
			}
			kind := "SCALAR"
			if c.FuncType == tcparser.AggregateFuncType {
				kind = "AGGREGATE"
			}
			txt := c.String()
			e["txt"] = clip(txt)
			desc := ""
			if c.GroupDesc != "" {
				desc = "# " + c.GroupDesc + "\n"
			}
			again, err := tcparser.ParseTestCasesFromString(fmt.Sprintf("### SUBSTRAIT_%s_TEST: %s\n### SUBSTRAIT_INCLUDE: '%s'\n%s%s\n", kind, tf.Header.Version, c.BaseURI, desc, txt))
			switch {
			case err != nil:
				e["again"] = N("err", []string{clip(err.Error())})
			case len(again.TestCases) != 1:
				e["again"] = N("count", nil)
			default:
				e["again"] = caseNode(again.TestCases[0])
				e["txt2"] = clip(again.TestCases[0].String())
			}
			return nil
		})
		if o.St != "ok" {
			e["o"] = o.St + " " + o.Msg
		}
		cases = append(cases, e)
	}
	r["cases"] = cases
	return r, nil
}
