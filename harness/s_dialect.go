package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
)

func init() { suites["dialect"] = dialectSuite }

type dialectScn struct {
	Docs  []json.RawMessage `json:"docs"`
	Doc   json.RawMessage   `json:"doc"`
	Types []*Node           `json:"types"`
	Texts []struct {
		Text string `json:"text"`
	} `json:"texts"`
	Locals []struct {
		Text string `json:"text"`
	} `json:"locals"`
	Looks []struct {
		Kind, By, Name string
		Count          int
	} `json:"looks"`
	Calls []struct {
		Kind, Urn, Compound string
		Args                []*Node
		Opts                []struct {
			Name  string
			Prefs []string
		}
	} `json:"calls"`
}

type localFn interface {
	extensions.FunctionVariant
	LocalName() string
	Notation() functions.FunctionNotation
	IsOptionSupported(name, value string) bool
}

var notations = map[functions.FunctionNotation]string{functions.INFIX: "infix", functions.PREFIX: "prefix", functions.POSTFIX: "postfix"}

func localKey(v localFn) []string {
	kind := "?"
	switch v.(type) {
	case *functions.LocalScalarFunctionVariant:
		kind = "scalar"
	case *functions.LocalAggregateFunctionVariant:
		kind = "aggregate"
	case *functions.LocalWindowFunctionVariant:
		kind = "window"
	}
	return []string{kind, v.URN(), v.CompoundName(), v.Name(), v.LocalName(), notations[v.Notation()]}
}

func brief[T extensions.FunctionVariant](fs []T) [][]string {
	out := [][]string{}
	for _, f := range fs {
		local := ""
		if l, ok := any(f).(localFn); ok {
			local = l.LocalName()
		}
		out = append(out, []string{f.URN(), f.CompoundName(), local})
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func dialectRun(s *dialectScn) obj {
	docs := []string{}
	for _, d := range s.Docs {
		docs = append(docs, string(d))
	}
	coll := mustCollection(docs...)
	ereg, freg := functions.NewExtensionAndFunctionRegistries(coll)
	all := [][]string{}
	for _, f := range freg.GetAllFunctions() {
		k := "?"
		switch f.(type) {
		case *extensions.ScalarFunctionVariant:
			k = "scalar"
		case *extensions.AggregateFunctionVariant:
			k = "aggregate"
		case *extensions.WindowFunctionVariant:
			k = "window"
		}
		all = append(all, []string{k, f.URN(), f.CompoundName()})
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	o := obj{"all": all, "panic": "", "msg": "", "load": "none", "types": "none", "local": "none"}
	var d functions.Dialect
	step := func(name string, f func() error) bool {
		g := guard(f)
		o[name] = g.St
		if g.St != "ok" {
			o["msg"] = g.Msg
		}
		if g.St == "panic" {
			o["panic"] = name + ": " + g.Msg
		}
		return g.St == "ok"
	}
	if !step("load", func() (err error) { d, err = functions.LoadDialect("test", strings.NewReader(string(s.Doc))); return }) {
		return o
	}
	var tr functions.LocalTypeRegistry
	if step("types", func() (err error) { tr, err = d.LocalizeTypeRegistry(functions.NewTypeRegistry()); return }) {
		typ, texts, locals, sup := []any{}, []any{}, []any{}, []any{}
		read := func(f func(string) (types.Type, error), text string) obj {
			var t types.Type
			g := guard(func() (err error) { t, err = f(text); return })
			if g.St != "ok" {
				return obj{"st": g.St, "type": N("nil", nil)}
			}
			return obj{"st": g.St, "type": typeToNode(t)}
		}
		for _, n := range s.Types {
			t := nodeToType(n)
			var text string
			g := guard(func() (err error) { text, err = tr.GetLocalTypeFromSubstraitType(t); return })
			x := obj{"st": g.St, "text": text, "back": N("nil", nil), "col": str(tr.IsTypeSupportedInTables(t))}
			if g.St == "ok" {
				x["back"] = read(tr.GetSubstraitTypeFromLocalType, text)["type"]
			}
			typ = append(typ, x)
		}
		for _, t := range s.Texts {
			texts = append(texts, read(tr.GetTypeFromTypeString, t.Text))
		}
		for _, t := range s.Locals {
			locals = append(locals, read(tr.GetSubstraitTypeFromLocalType, t.Text))
		}
		for k, t := range tr.GetSupportedTypes() {
			sup = append(sup, []string{k, typeToNode(t).K})
		}
		sort.Slice(sup, func(i, j int) bool { return fmt.Sprint(sup[i]) < fmt.Sprint(sup[j]) })
		o["typ"], o["texts"], o["locals"], o["sup"] = typ, texts, locals, sup
	}
	var lr functions.LocalFunctionRegistry
	if !step("local", func() (err error) { lr, err = d.LocalizeFunctionRegistry(freg); return }) {
		return o
	}
	fns := []obj{}
	for _, f := range lr.GetAllFunctions() {
		v := f.(localFn)
		opts := [][]string{}
		for _, p := range [][2]string{{"overflow", "ERROR"}, {"overflow", "SILENT"}, {"overflow", "error"}, {"rounding", "ERROR"}, {"ghost", "ERROR"}} {
			a := "no"
			if v.IsOptionSupported(p[0], p[1]) {
				a = "yes"
			}
			opts = append(opts, []string{p[0], p[1], a})
		}
		fns = append(fns, obj{"key": localKey(v), "opts": opts})
	}
	sort.Slice(fns, func(i, j int) bool { return fmt.Sprint(fns[i]["key"]) < fmt.Sprint(fns[j]["key"]) })
	o["fns"] = fns
	looks, calls := []any{}, []any{}
	for _, l := range s.Looks {
		if l.By == "plain" {
			switch l.Kind {
			case "scalar":
				looks = append(looks, brief(freg.GetScalarFunctions(l.Name, l.Count)))
			case "aggregate":
				looks = append(looks, brief(freg.GetAggregateFunctions(l.Name, l.Count)))
			default:
				looks = append(looks, brief(freg.GetWindowFunctions(l.Name, l.Count)))
			}
			continue
		}
		var n functions.FunctionName = functions.SubstraitFunctionName(l.Name)
		if l.By == "local" {
			n = functions.LocalFunctionName(l.Name)
		}
		switch l.Kind {
		case "scalar":
			looks = append(looks, brief(lr.GetScalarFunctions(n, l.Count)))
		case "aggregate":
			looks = append(looks, brief(lr.GetAggregateFunctions(n, l.Count)))
		default:
			looks = append(looks, brief(lr.GetWindowFunctions(n, l.Count)))
		}
	}
	for _, c := range s.Calls {
		id := extensions.FunctionID{URN: c.Urn, Name: c.Compound}
		args := []types.FuncArg{}
		for _, a := range c.Args {
			if a.K == "enum" {
				args = append(args, types.Enum("A"))
			} else {
				args = append(args, expr.NewNullLiteral(nodeToType(a)))
			}
		}
		opts := []*types.FunctionOption{}
		for _, p := range c.Opts {
			opts = append(opts, &types.FunctionOption{Name: p.Name, Preference: p.Prefs})
		}
		var key []string
		g := guard(func() error {
			out := &types.Int64Type{Nullability: types.NullabilityRequired}
			var v localFn
			switch c.Kind {
			case "scalar":
				fv, _ := coll.GetScalarFunc(id)
				f, err := expr.NewCustomScalarFunc(ereg, fv, out, opts, args...)
				if err != nil {
					panic("harness: " + err.Error())
				}
				x, err := lr.GetScalarFunctionByInvocation(f)
				if err != nil {
					return err
				}
				v = x
			case "aggregate":
				fv, _ := coll.GetAggregateFunc(id)
				f, err := expr.NewCustomAggregateFunc(ereg, fv, out, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, nil, args...)
				if err != nil {
					panic("harness: " + err.Error())
				}
				x, err := lr.GetAggregateFunctionByInvocation(f)
				if err != nil {
					return err
				}
				v = x
			default:
				fv, _ := coll.GetWindowFunc(id)
				f, err := expr.NewCustomWindowFunc(ereg, fv, out, opts, types.AggInvocationAll, types.AggPhaseInitialToResult, args...)
				if err != nil {
					panic("harness: " + err.Error())
				}
				x, err := lr.GetWindowFunctionByInvocation(f)
				if err != nil {
					return err
				}
				v = x
			}
			key = localKey(v)
			return nil
		})
		if key == nil {
			key = []string{}
		}
		calls = append(calls, obj{"st": g.St, "msg": g.Msg, "key": key})
	}
	o["looks"], o["calls"] = looks, calls
	return o
}

// dialectSuite localises one dialect several times: what is listed must not depend on the order maps are walked in.
func dialectSuite(raw json.RawMessage) (obj, error) {
	var s dialectScn
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	runs, seen := []obj{}, map[string]bool{}
	for i := 0; i < 6; i++ {
		var o obj
		if g := guard(func() error { o = dialectRun(&s); return nil }); g.St != "ok" {
			o = obj{"panic": g.Msg}
		}
		k, err := json.Marshal(o)
		if err != nil {
			return nil, err
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			runs = append(runs, o)
		}
	}
	return obj{"runs": runs}, nil
}
