package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"

	"github.com/goccy/go-yaml"
	"github.com/substrait-io/substrait"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	"github.com/substrait-io/substrait-go/v8/types/parser"
)

func init() { suites["coll"] = collSuite }

var collURNs = []string{"extension:a:one", "extension:a:two", "extension:b:three"}
var collNames = []string{"f", "g", "add", "bad"}
var collTypes = []string{"point", "A_b9", "ghost"}

func note(m map[string]any) string {
	if m == nil {
		return ""
	}
	return str(m["note"])
}

func fnArgNode(a extensions.FuncParameter) *Node {
	te := a.GetTypeExpression()
	switch a := a.(type) {
	case extensions.EnumArg:
		t, ok := te.(*types.EnumType)
		if !ok || t.Name != a.Name || fmt.Sprint(t.Options) != fmt.Sprint(a.Options) {
			return N("?enum", nil)
		}
		return N("enum", append([]string{a.Name, a.Description}, a.Options...))
	case extensions.TypeArg:
		if te != a.Type.ValueType {
			return N("?type", nil)
		}
		return N("type", []string{a.Name, a.Description}, teToNode(te))
	case extensions.ValueArg:
		if te != a.Value.ValueType {
			return N("?value", nil)
		}
		return N("value", []string{a.Name, a.Description, str(a.Constant)}, teToNode(te))
	}
	return N(fmt.Sprintf("?%T", a), nil)
}

func fnEntry(kind string, v extensions.FunctionVariant) obj {
	args := []*Node{}
	for _, a := range v.Args() {
		args = append(args, fnArgNode(a))
	}
	opts := [][]string{}
	for k, o := range v.Options() {
		opts = append(opts, append([]string{k, o.Description}, o.Values...))
	}
	sort.Slice(opts, func(i, j int) bool { return opts[i][0] < opts[j][0] })
	vr := []string{}
	if b := v.Variadic(); b != nil {
		vr = []string{str(b.Min), str(b.Max), string(b.ParameterConsistency)}
	}
	o := obj{"kind": kind, "urn": v.URN(), "name": v.Name(), "compound": v.CompoundName(), "desc": v.Description(), "args": args,
		"opts": opts, "var": vr, "meta": note(v.Metadata()), "agg": []string{}, "inter": N("nil", nil), "wt": ""}
	type base interface {
		Nullability() extensions.NullabilityHandling
		SessionDependent() bool
		Deterministic() bool
	}
	b := v.(base)
	o["null"], o["sess"], o["det"] = string(b.Nullability()), str(b.SessionDependent()), str(b.Deterministic())
	switch v := v.(type) {
	case *extensions.AggregateFunctionVariant:
		o["agg"] = []string{str(v.Ordered()), str(v.MaxSet()), string(v.Decomposability())}
		if t, err := v.Intermediate(); err == nil {
			o["inter"] = teToNode(t)
		}
	case *extensions.WindowFunctionVariant:
		o["agg"] = []string{str(v.Ordered()), str(v.MaxSet()), string(v.Decomposability())}
		if t, err := v.Intermediate(); err == nil {
			o["inter"] = teToNode(t)
		}
		o["wt"] = string(v.WindowType())
	}
	return o
}

func observeColl(c *extensions.Collection, urns, names []string) obj {
	fns, lookup, plain := []any{}, []string{}, []any{}
	same := func(ok bool) {
		if ok {
			lookup = append(lookup, "same")
		} else {
			lookup = append(lookup, "other")
		}
	}
	for _, v := range c.GetAllScalarFunctions() {
		fns = append(fns, fnEntry("scalar", v))
		x, ok := c.GetScalarFunc(v.ID())
		same(ok && x == v && v.ID() == extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()})
	}
	for _, v := range c.GetAllAggregateFunctions() {
		fns = append(fns, fnEntry("aggregate", v))
		x, ok := c.GetAggregateFunc(v.ID())
		same(ok && x == v && v.ID() == extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()})
	}
	for _, v := range c.GetAllWindowFunctions() {
		fns = append(fns, fnEntry("window", v))
		x, ok := c.GetWindowFunc(v.ID())
		same(ok && x == v && v.ID() == extensions.FunctionID{URN: v.URN(), Name: v.CompoundName()})
	}
	us, ty, vs, ms := []string{}, []any{}, []any{}, []any{}
	for _, u := range urns {
		if c.URNLoaded(u) {
			us = append(us, u)
		}
		for _, n := range collTypes {
			if t, ok := c.GetType(extensions.TypeID{URN: u, Name: n}); ok {
				ps := [][]string{}
				for _, p := range t.Parameters {
					ps = append(ps, []string{p.Name, string(p.Type)})
				}
				st := ""
				if t.Structure != nil {
					st = str(t.Structure)
				}
				ty = append(ty, []any{u, t.Name, str(t.Variadic), st, ps})
			}
		}
		for _, n := range []string{"v1", "v2"} {
			if t, ok := c.GetTypeVariation(extensions.TypeVariationID{URN: u, Name: n}); ok {
				vs = append(vs, []any{u, t.Name, t.Parent, string(t.Functions)})
			}
		}
		if m := c.GetFileMetadata(u); m != nil {
			ms = append(ms, []any{u, note(m)})
		}
		for _, n := range names {
			id := extensions.FunctionID{URN: u, Name: n}
			f := [3]string{}
			if v, ok := c.GetScalarFunc(id); ok {
				f[0] = v.CompoundName()
			}
			if v, ok := c.GetAggregateFunc(id); ok {
				f[1] = v.CompoundName()
			}
			if v, ok := c.GetWindowFunc(id); ok {
				f[2] = v.CompoundName()
			}
			for i, k := range []string{"scalar", "aggregate", "window"} {
				plain = append(plain, []any{k, u, n, f[i]})
			}
		}
	}
	return obj{"fns": fns, "lookup": lookup, "plain": plain, "urns": us, "types": ty, "vars": vs, "meta": ms}
}

func collSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op    string `json:"op"`
		File  int    `json:"file"`
		Vs    []flyVariant
		Steps []struct {
			Doc json.RawMessage `json:"doc"`
			Raw string          `json:"raw"`
		} `json:"steps"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	if s.Op == "fly" {
		obs := []any{}
		for _, v := range s.Vs {
			o := obj{}
			g := guard(func() error { o["e"] = fnEntry(v.Kind, v.make()); return nil })
			o["st"], o["msg"] = g.St, g.Msg
			obs = append(obs, o)
		}
		return obj{"obs": obs}, nil
	}
	if s.Op == "default" {
		return defaultFile(s.File)
	}
	var c extensions.Collection
	obs := []any{}
	for _, st := range s.Steps {
		text := string(st.Doc)
		var in io.Reader = strings.NewReader(text)
		switch st.Raw {
		case "":
		case "cut", "cutend":
			k := len(text)
			if st.Raw == "cut" {
				k /= 2
			}
			in = &brokenReader{text[:k]}
		default:
			text = st.Raw
			in = strings.NewReader(text)
		}
		g := guard(func() error { return c.Load(in) })
		var o obj
		g2 := guard(func() error { o = observeColl(&c, collURNs, collNames); return nil })
		if g2.St != "ok" {
			o = obj{}
			g = g2
		}
		o["st"], o["msg"] = g.St, g.Msg
		resolved, variants := []any{}, []any{}
		if g.St == "ok" {
			var f extensions.SimpleExtensionFile
			if err := yaml.NewDecoder(strings.NewReader(text)).Decode(&f); err != nil {
				return nil, err
			}
			for i := range f.ScalarFunctions {
				resolved = append(resolved, fnEntries("scalar", f.ScalarFunctions[i].ResolveURN(f.Urn))...)
				variants = append(variants, fnEntries("scalar", f.ScalarFunctions[i].GetVariants(f.Urn))...)
			}
			for i := range f.AggregateFunctions {
				resolved = append(resolved, fnEntries("aggregate", f.AggregateFunctions[i].ResolveURN(f.Urn))...)
				variants = append(variants, fnEntries("aggregate", f.AggregateFunctions[i].GetVariants(f.Urn))...)
			}
			for i := range f.WindowFunctions {
				resolved = append(resolved, fnEntries("window", f.WindowFunctions[i].ResolveURN(f.Urn))...)
				variants = append(variants, fnEntries("window", f.WindowFunctions[i].GetVariants(f.Urn))...)
			}
		}
		o["resolved"], o["variants"] = resolved, variants
		obs = append(obs, o)
	}
	return obj{"obs": obs}, nil
}

// brokenReader delivers a text and then fails.
type brokenReader struct{ left string }

func (r *brokenReader) Read(b []byte) (int, error) {
	if r.left == "" {
		return 0, errors.New("the disk is gone")
	}
	k := copy(b, r.left)
	r.left = r.left[k:]
	return k, nil
}
func (r *brokenReader) Close() error               { return nil }
func (r *brokenReader) Stat() (fs.FileInfo, error) { return nil, errors.New("the disk is gone") }

func fnEntries[V extensions.FunctionVariant](kind string, vs []V) (l []any) {
	for _, v := range vs {
		l = append(l, fnEntry(kind, v))
	}
	return
}

type flyVariant struct {
	Kind, How, Urn, ID, Sess, Det, Ordered, Maxset, Decomp, Itext, Wt string
	Var                                                               []any
}

func (v flyVariant) make() extensions.FunctionVariant {
	id := extensions.FunctionID{URN: v.Urn, Name: v.ID}
	var vr *extensions.VariadicBehavior
	if len(v.Var) == 3 {
		vr = &extensions.VariadicBehavior{Min: int(v.Var[0].(float64)), Max: int(v.Var[1].(float64)), ParameterConsistency: extensions.ParameterConsistency(v.Var[2].(string))}
	}
	n := uint(v.Maxset[0] - '0')
	sess, det, ord := v.Sess == "true", v.Det == "true", v.Ordered == "true"
	switch v.Kind + "." + v.How {
	case "scalar.new":
		return extensions.NewScalarFuncVariant(id)
	case "scalar.opts":
		return extensions.NewScalarFuncVariantWithProps(id, vr, sess, det)
	case "aggregate.new":
		return extensions.NewAggFuncVariant(id)
	case "aggregate.opts":
		return extensions.NewAggFuncVariantOpts(id, extensions.AggVariantOptions{Variadic: vr, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: n,
			Decomposable: extensions.DecomposeType(v.Decomp), IntermediateOutputType: v.Itext})
	case "window.new":
		return extensions.NewWindowFuncVariant(id)
	}
	return extensions.NewWindowFuncVariantOpts(id, extensions.WindowVariantOpts{Variadic: vr, SessionDependant: sess, Deterministic: det, Ordered: ord, MaxSet: n,
		Decomposable: extensions.DecomposeType(v.Decomp), IntermediateOutputType: v.Itext, WindowType: extensions.WindowType(v.Wt)})
}

// defaultFile describes the n-th shipped extension file from its YAML text and what the default collection has for it.
func defaultFile(n int) (obj, error) {
	fs := substrait.GetSubstraitExtensionsFS()
	ents, err := fs.ReadDir("extensions")
	if err != nil {
		return nil, err
	}
	ent := ents[n%len(ents)]
	b, err := fs.ReadFile("extensions/" + ent.Name())
	if err != nil {
		return nil, err
	}
	var y map[string]any
	if err := yaml.NewDecoder(bytes.NewReader(b)).Decode(&y); err != nil {
		return nil, err
	}
	sv := func(m map[string]any, k string) string {
		if v, ok := m[k]; ok {
			return str(v)
		}
		return ""
	}
	list := func(v any) []any { l, _ := v.([]any); return l }
	mp := func(v any) map[string]any { m, _ := v.(map[string]any); return m }
	te := func(s any) *Node {
		t, err := parser.ParseType(str(s))
		if err != nil {
			panic(err)
		}
		return teToNode(t)
	}
	fns := []any{}
	for _, kind := range []string{"scalar", "aggregate", "window"} {
		if ent.Name() == "unknown.yaml" { // not part of the default collection
			break
		}
		for _, fv := range list(y[kind+"_functions"]) {
			f := mp(fv)
			impls := []any{}
			for _, iv := range list(f["impls"]) {
				im := mp(iv)
				args := []*Node{}
				for _, av := range list(im["args"]) {
					a := mp(av)
					switch {
					case a["options"] != nil:
						p := []string{sv(a, "name"), sv(a, "description")}
						for _, o := range list(a["options"]) {
							p = append(p, str(o))
						}
						args = append(args, N("enum", p))
					case a["value"] != nil:
						c := sv(a, "constant")
						if c == "" {
							c = "false"
						}
						args = append(args, N("value", []string{sv(a, "name"), sv(a, "description"), c}, te(a["value"])))
					default:
						args = append(args, N("type", []string{sv(a, "name"), sv(a, "description")}, te(a["type"])))
					}
				}
				opts := [][]string{}
				for k, ov := range mp(im["options"]) {
					o := []string{k, sv(mp(ov), "description")}
					for _, x := range list(mp(ov)["values"]) {
						o = append(o, str(x))
					}
					opts = append(opts, o)
				}
				sort.Slice(opts, func(i, j int) bool { return opts[i][0] < opts[j][0] })
				vr := []any{}
				if v := mp(im["variadic"]); v != nil {
					num := func(k string) any {
						if x := v[k]; x != nil {
							return x
						}
						return 0
					}
					vr = []any{num("min"), num("max"), sv(v, "parameterConsistency")}
				}
				inter := N("nil", nil)
				if im["intermediate"] != nil {
					inter = te(im["intermediate"])
				}
				impls = append(impls, obj{"args": args, "opts": opts, "var": vr, "null": sv(im, "nullability"), "sess": sv(im, "sessionDependent"), "det": sv(im, "deterministic"),
					"ordered": sv(im, "ordered"), "maxset": sv(im, "maxset"), "decomp": sv(im, "decomposable"), "inter": inter, "wt": sv(im, "window_type")})
			}
			fns = append(fns, obj{"kind": kind, "name": sv(f, "name"), "desc": sv(f, "description"), "meta": note(mp(f["metadata"])), "impls": impls})
		}
	}
	urn := sv(y, "urn")
	c, err := extensions.GetDefaultCollection()
	if err != nil {
		return nil, err
	}
	o := observeColl(c, nil, nil)
	mine := []any{}
	for _, e := range o["fns"].([]any) {
		if e.(obj)["urn"] == urn {
			mine = append(mine, e)
		}
	}
	o["fns"] = mine
	o["lookup"] = []string{}
	return obj{"f": obj{"urn": urn, "fns": fns}, "obs": []any{o}, "name": ent.Name()}, nil
}
