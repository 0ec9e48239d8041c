package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
)

func init() { suites["funcs"] = funcsSuite }

const funcsURN = "extension:test:funcs"

func q(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func argType(n *Node) (types.Type, error) {
	if n.K == "enum" {
		return types.CommonEnumType, nil
	}
	return nodeToType(n), nil
}

func funcsSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		D struct {
			Params []*Node `json:"params"`
			Var    []any   `json:"var"`
			Null   string  `json:"null"`
		} `json:"d"`
		Lists  [][]*Node `json:"lists"`
		Probe  *Node     `json:"probe"`
		PTexts []string  `json:"ptexts"`
		RText  string    `json:"rtext"`
		Kind   string    `json:"kind"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%%YAML 1.2\n---\nurn: %s\ntypes:\n  - name: point\n  - name: A_b9\n%s_functions:\n  - name: f\n    impls:\n      - args:\n", funcsURN, s.Kind)
	for i, t := range s.PTexts {
		if s.D.Params[i].K == "enum" {
			fmt.Fprintf(&b, "          - name: A\n            options: [X, Y]\n")
		} else if s.D.Params[i].K == "type" {
			fmt.Fprintf(&b, "          - name: a%d\n            type: i32\n", i)
		} else {
			fmt.Fprintf(&b, "          - name: a%d\n            value: %s\n", i, q(t))
		}
	}
	if len(s.D.Var) == 3 {
		fmt.Fprintf(&b, "        variadic:\n          min: %v\n", s.D.Var[0])
		if fmt.Sprint(s.D.Var[1]) != "0" {
			fmt.Fprintf(&b, "          max: %v\n", s.D.Var[1])
		}
		if s.D.Var[2] != "CONSISTENT" || fmt.Sprint(s.D.Var[0]) == "1" { // leave the default unstated at times
			fmt.Fprintf(&b, "          parameterConsistency: %v\n", s.D.Var[2])
		}
	}
	if s.D.Null != "MIRROR" || len(s.PTexts) == 1 {
		fmt.Fprintf(&b, "        nullability: %s\n", s.D.Null)
	}
	if s.RText != "" {
		fmt.Fprintf(&b, "        return: %s\n", q(s.RText))
	}
	if s.Kind == "window" {
		fmt.Fprintf(&b, "        window_type: PARTITION\n")
	}
	r := obj{"out": []any{}, "before": []string{}, "after": []string{}, "reg": []string{}}
	var v extensions.FunctionVariant
	var c extensions.Collection
	ld := guard(func() error {
		if err := c.Load(strings.NewReader(b.String())); err != nil {
			return err
		}
		switch s.Kind {
		case "scalar":
			for _, x := range c.GetAllScalarFunctions() {
				v = x
			}
		case "aggregate":
			for _, x := range c.GetAllAggregateFunctions() {
				v = x
			}
		default:
			for _, x := range c.GetAllWindowFunctions() {
				v = x
			}
		}
		if v == nil {
			return fmt.Errorf("function not found after loading")
		}
		return nil
	})
	r["load"] = ld
	if ld.St != "ok" {
		return r, nil
	}
	set := extensions.NewSet()
	set.GetTypeAnchor(extensions.TypeID{URN: funcsURN, Name: "point"})
	set.GetTypeAnchor(extensions.TypeID{URN: funcsURN, Name: "A_b9"})
	describe := func() (out []string) {
		for _, a := range v.Args() {
			out = append(out, jsonOf(teToNode(a.GetTypeExpression())), a.GetTypeExpression().String())
		}
		switch v := v.(type) {
		case *extensions.ScalarFunctionVariant:
			out = append(out, string(v.Nullability()))
		case *extensions.AggregateFunctionVariant:
			out = append(out, string(v.Nullability()))
		case *extensions.WindowFunctionVariant:
			out = append(out, string(v.Nullability()))
		}
		return append(out, v.CompoundName(), jsonOf(v.Variadic()), jsonOf(v.Options()))
	}
	r["before"] = describe()
	max := str(v.MaxArgumentCount())
	if v.MaxArgumentCount() > 1<<30 {
		max = "unlimited"
	}
	r["cnt"] = []string{str(v.MinArgumentCount()), max}
	resolve := func(args []types.Type) obj {
		o := obj{"t": N("nil", nil)}
		g := guard(func() error {
			t, err := v.ResolveType(args, set)
			if err != nil {
				return err
			}
			n := typeToNode(t)
			o["t"] = n
			return nil
		})
		o["st"], o["msg"] = g.St, g.Msg
		return o
	}
	probe, err := argType(s.Probe)
	if err != nil {
		return nil, err
	}
	var all [][]types.Type
	for _, l := range s.Lists {
		args := []types.Type{}
		for _, n := range l {
			t, err := argType(n)
			if err != nil {
				return nil, err
			}
			args = append(args, t)
		}
		all = append(all, args)
	}
	var outs []obj
	for _, args := range all {
		m := obj{"ans": "none"}
		g := guard(func() error {
			ok, err := v.Match(args)
			m["ans"] = str(ok && err == nil)
			return nil
		})
		m["st"], m["msg"] = g.St, g.Msg
		at := []any{}
		for p := -1; p <= len(args)+1; p++ {
			t := probe
			if p >= 0 && p < len(args) {
				t = args[p]
			}
			a := obj{"pos": p, "ans": "none"}
			g := guard(func() error {
				ok, err := v.MatchAt(t, p)
				a["ans"] = str(ok && err == nil)
				return nil
			})
			a["st"], a["msg"] = g.St, g.Msg
			at = append(at, a)
		}
		outs = append(outs, obj{"m": m, "at": at, "r1": resolve(args)})
	}
	for i, args := range all { // once more, after everything else was resolved
		outs[i]["same"] = str(fmt.Sprint(jsonOf(resolve(args))) == fmt.Sprint(jsonOf(outs[i]["r1"])))
	}
	r["out"] = outs
	r["after"] = describe()
	names := []string{}
	for a := uint32(1); a < 10; a++ {
		if id, ok := set.DecodeType(a); ok {
			names = append(names, id.Name)
		}
	}
	r["reg"] = names
	return r, nil
}

func jsonOf(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
