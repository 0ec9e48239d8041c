package main

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// msgTree renders any protobuf message as a Node named k: one child per populated field, in field order.
// Data types (messages of type substrait.Type) appear in their compact form as the only child of the field.
// Characters outside printable ASCII and the tilde are written ~hex; inside strings.
func msgTree(k string, m protoreflect.Message) *Node {
	n := N(k, nil)
	if m.Descriptor().FullName() == "substrait.Type" {
		n.C = append(n.C, pbToNode(m.Interface().(*pb.Type)))
		return n
	}
	fds := m.Descriptor().Fields()
	idx := make([]protoreflect.FieldDescriptor, 0, fds.Len())
	for i := 0; i < fds.Len(); i++ {
		idx = append(idx, fds.Get(i))
	}
	sort.SliceStable(idx, func(i, j int) bool { return idx[i].Number() < idx[j].Number() })
	for _, fd := range idx {
		if !m.Has(fd) {
			continue
		}
		v := m.Get(fd)
		name := string(fd.Name())
		switch {
		case fd.IsMap():
			var es []*Node
			v.Map().Range(func(mk protoreflect.MapKey, mv protoreflect.Value) bool {
				e := N(name, nil, N("key", []string{mk.String()}))
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					e.C = append(e.C, msgTree("value", mv.Message()))
				} else {
					e.C = append(e.C, N("value", []string{scalarStr(fd.MapValue(), mv)}))
				}
				es = append(es, e)
				return true
			})
			sort.Slice(es, func(i, j int) bool { return es[i].C[0].P[0] < es[j].C[0].P[0] })
			n.C = append(n.C, es...)
		case fd.IsList():
			l := v.List()
			for i := 0; i < l.Len(); i++ {
				if fd.Kind() == protoreflect.MessageKind {
					n.C = append(n.C, msgTree(name, l.Get(i).Message()))
				} else {
					n.C = append(n.C, N(name, []string{scalarStr(fd, l.Get(i))}))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			n.C = append(n.C, msgTree(name, v.Message()))
		default:
			n.C = append(n.C, N(name, []string{scalarStr(fd, v)}))
		}
	}
	return n
}

func tree(k string, m proto.Message) *Node {
	if m == nil || !m.ProtoReflect().IsValid() {
		return N("nil", nil)
	}
	return msgTree(k, m.ProtoReflect())
}

func scalarStr(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return hex.EncodeToString(v.Bytes())
	case protoreflect.EnumKind:
		if ed := fd.Enum().Values().ByNumber(v.Enum()); ed != nil {
			return string(ed.Name())
		}
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case protoreflect.DoubleKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case protoreflect.StringKind:
		return esc(v.String())
	default:
		return fmt.Sprint(v.Interface())
	}
}

func scalarVal(fd protoreflect.FieldDescriptor, s string) (protoreflect.Value, error) {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(s == "true"), nil
	case protoreflect.BytesKind:
		b, err := hex.DecodeString(s)
		return protoreflect.ValueOfBytes(b), err
	case protoreflect.EnumKind:
		if ed := fd.Enum().Values().ByName(protoreflect.Name(s)); ed != nil {
			return protoreflect.ValueOfEnum(ed.Number()), nil
		}
		i, err := strconv.Atoi(s)
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(i)), err
	case protoreflect.FloatKind:
		f, err := strconv.ParseFloat(s, 32)
		return protoreflect.ValueOfFloat32(float32(f)), err
	case protoreflect.DoubleKind:
		f, err := strconv.ParseFloat(s, 64)
		return protoreflect.ValueOfFloat64(f), err
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(unesc(s)), nil
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		i, err := strconv.ParseInt(s, 10, 32)
		return protoreflect.ValueOfInt32(int32(i)), err
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		i, err := strconv.ParseInt(s, 10, 64)
		return protoreflect.ValueOfInt64(i), err
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		i, err := strconv.ParseUint(s, 10, 32)
		return protoreflect.ValueOfUint32(uint32(i)), err
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		i, err := strconv.ParseUint(s, 10, 64)
		return protoreflect.ValueOfUint64(i), err
	}
	return protoreflect.Value{}, fmt.Errorf("kind %v", fd.Kind())
}

// fillMsg populates m from the children of n. Unknown field names are harness errors.
func fillMsg(n *Node, m protoreflect.Message) error {
	if m.Descriptor().FullName() == "substrait.Type" {
		if len(n.C) == 1 {
			proto.Merge(m.Interface(), nodeToPb(n.C[0]))
		}
		return nil
	}
	fds := m.Descriptor().Fields()
	for _, c := range n.C {
		fd := fds.ByName(protoreflect.Name(c.K))
		if fd == nil {
			return fmt.Errorf("no field %s in %s", c.K, m.Descriptor().FullName())
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			kv, err := scalarVal(fd.MapKey(), c.C[0].P[0])
			if err != nil {
				return err
			}
			if fd.MapValue().Kind() == protoreflect.MessageKind {
				nv := mp.NewValue()
				if err := fillMsg(c.C[1], nv.Message()); err != nil {
					return err
				}
				mp.Set(kv.MapKey(), nv)
			} else {
				vv, err := scalarVal(fd.MapValue(), c.C[1].P[0])
				if err != nil {
					return err
				}
				mp.Set(kv.MapKey(), vv)
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			if fd.Kind() == protoreflect.MessageKind {
				e := l.AppendMutable()
				if err := fillMsg(c, e.Message()); err != nil {
					return err
				}
			} else {
				v, err := scalarVal(fd, c.P[0])
				if err != nil {
					return err
				}
				l.Append(v)
			}
		case fd.Kind() == protoreflect.MessageKind:
			if err := fillMsg(c, m.Mutable(fd).Message()); err != nil {
				return err
			}
		default:
			if len(c.P) != 1 {
				return fmt.Errorf("field %s needs one value", c.K)
			}
			v, err := scalarVal(fd, c.P[0])
			if err != nil {
				return fmt.Errorf("field %s: %w", c.K, err)
			}
			m.Set(fd, v)
		}
	}
	return nil
}

func untree(n *Node, m proto.Message) error { return fillMsg(n, m.ProtoReflect()) }

func esc(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 32 || r > 126 || r == '~' {
			fmt.Fprintf(&b, "~%x;", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func unesc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '~' {
			b.WriteByte(s[i])
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		r, err := strconv.ParseUint(s[i+1:i+j], 16, 32)
		if err != nil {
			panic("harness: bad escape in " + s)
		}
		b.WriteRune(rune(r))
		i += j
	}
	return b.String()
}
