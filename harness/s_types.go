package main

import (
	"encoding/json"

	"github.com/substrait-io/substrait-go/v8/functions"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() { suites["types"] = typesSuite }

type typeOp struct {
	O string `json:"o"`
	H int    `json:"h"`
	G int    `json:"g"`
	N int    `json:"n"`
	S string `json:"s"`
}

// held is the same type in the other form it can be held in, by value or by reference.
func held(t types.Type) types.Type {
	switch t := t.(type) {
	case types.IntervalCompoundType:
		return &t
	case *types.IntervalCompoundType:
		return *t
	case types.IntervalYearToMonthType:
		return &t
	case *types.IntervalYearToMonthType:
		return *t
	}
	return t
}

func typesSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op    string   `json:"op"`
		T     *Node    `json:"t"`
		U     *Node    `json:"u"`
		Pool  []*Node  `json:"pool"`
		Steps []typeOp `json:"steps"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	nilN := N("nil", nil)
	switch s.Op {
	case "rt":
		in := nodeToPb(s.T)
		r := obj{"obs": nilN, "out": nilN, "out2": nilN, "arg": nilN, "eq": "?", "nul": "?", "tvr": "?", "lib": nilN, "libeq": "?"}
		o := guard(func() error {
			t := types.TypeFromProto(in)
			r["obs"] = typeToNode(t)
			if g, ok := t.(interface{ GetType() types.Type }); ok {
				r["obs"] = typeToNode(g.GetType())
			}
			r["nul"] = str(int32(t.GetNullability()))
			r["tvr"] = str(t.GetTypeVariationReference())
			p := types.TypeToProto(t)
			r["out"] = pbToNode(p)
			if mp, ok := t.(interface{ ToProto() *pb.Type }); ok {
				r["out2"] = pbToNode(mp.ToProto())
			} else {
				r["out2"] = r["out"]
			}
			r["arg"] = pbToNode(t.ToProtoFuncArg().GetType())
			t2 := types.TypeFromProto(p)
			r["eq"] = str(t.Equals(t2) && t2.Equals(t))
			return nil
		})
		// from a library type built by hand
		o2 := guard(func() error {
			l := nodeToType(s.T)
			p := types.TypeToProto(l)
			r["lib"] = pbToNode(p)
			t2 := types.TypeFromProto(p)
			r["libeq"] = str(l.Equals(t2) && t2.Equals(l))
			return nil
		})
		r["st"], r["msg"], r["st2"], r["msg2"] = o.St, o.Msg, o2.St, o2.Msg
		r["insame"] = pbToNode(in) // conversion must not alter its input
		return r, nil
	case "eq":
		r := obj{"tu": "?", "ut": "?", "tt": "?", "pp": "?"}
		o := guard(func() error {
			t, u := nodeToType(s.T), nodeToType(s.U)
			r["tu"], r["ut"], r["tt"] = str(t.Equals(u)), str(u.Equals(t)), str(t.Equals(nodeToType(s.T)))
			pt, pu := types.TypeFromProto(nodeToPb(s.T)), types.TypeFromProto(nodeToPb(s.U))
			r["pp"] = str(pt.Equals(pu)) + str(pu.Equals(pt)) + str(pt.Equals(u)) + str(t.Equals(pu)) + str(t.Equals(held(u))) + str(held(t).Equals(u)) + str(pt.Equals(held(pu)))
			return nil
		})
		r["st"], r["msg"] = o.St, o.Msg
		return r, nil
	case "hist":
		var pool []types.Type
		for _, n := range s.Pool {
			pool = append(pool, nodeToType(n))
		}
		reg := functions.NewTypeRegistry()
		obs := []obj{}
		look := func() []*Node {
			l := make([]*Node, len(pool))
			for i, t := range pool {
				l[i] = typeToNode(t)
			}
			return l
		}
		for _, st := range s.Steps {
			o := guard(func() error {
				var nt types.Type
				src := func() types.Type { return pool[st.H-1] }
				n := types.Nullability(st.N)
				switch st.O {
				case "null":
					nt = src().WithNullability(n)
				case "list":
					nt = &types.ListType{Nullability: n, Type: src()}
				case "struct":
					nt = &types.StructType{Nullability: n, Types: []types.Type{src(), pool[st.G-1]}}
				case "concat": // records sharing one backing array, as relations build them
					a, b := pool[st.H-1].(*types.StructType), pool[st.G-1].(*types.StructType)
					ra, rb := types.NewRecordTypeFromStruct(*a), types.NewRecordTypeFromStruct(*b)
					rec := ra.Concat(*rb)
					nt = rec.AsStructType()
				case "sub": // a record over a prefix of another's fields
					a := pool[st.H-1].(*types.StructType)
					k := st.N
					if k > len(a.Types) {
						k = len(a.Types)
					}
					nt = types.NewRecordTypeFromTypes(a.Types[:k]).AsStructType()
				case "reg":
					t, err := reg.GetTypeFromTypeString(st.S)
					if err != nil {
						return err
					}
					nt = t
				case "name":
					t, err := types.SimpleTypeNameToType(types.TypeName(st.S))
					if err != nil {
						return err
					}
					nt = t
				case "proto":
					nt = types.TypeFromProto(types.TypeToProto(src()))
				}
				pool = append(pool, nt)
				return nil
			})
			obs = append(obs, obj{"st": o.St, "msg": o.Msg, "pool": look()})
		}
		return obj{"obs": obs}, nil
	}
	return nil, errOp(s.Op)
}
