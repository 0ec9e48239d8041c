package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/cockroachdb/apd/v3"
	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	pb "github.com/substrait-io/substrait-protobuf/go/substraitpb"
)

func init() { suites["numeric"] = numericSuite }

func digits(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c-'0'))
	}
	return r
}

func digText(d []int) string {
	var b strings.Builder
	for _, x := range d {
		b.WriteByte(byte('0' + x))
	}
	return b.String()
}

// dec16 reads a 16-byte little-endian two's complement integer.
func dec16(b []byte) (neg bool, dg []int) {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	v := new(big.Int).SetBytes(be)
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	neg = v.Sign() < 0
	return neg, digits(new(big.Int).Abs(v).String())
}

func to16(neg bool, dg []int) []byte {
	v, _ := new(big.Int).SetString("0"+digText(dg), 10)
	if neg {
		v.Neg(v)
	}
	if v.Sign() < 0 {
		v.Add(v, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	be := v.FillBytes(make([]byte, 16))
	for i, j := 0, 15; i < j; i, j = i+1, j-1 {
		be[i], be[j] = be[j], be[i]
	}
	return be
}

var numRe = regexp.MustCompile(`^([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?$`)

type decText struct {
	Ok   bool  `json:"ok"`
	Neg  bool  `json:"neg"`
	Int  []int `json:"int"`
	Frac []int `json:"frac"`
	Exp  int   `json:"exp"`
}

func lexNum(s string) decText {
	m := numRe.FindStringSubmatch(s)
	if m == nil {
		return decText{Int: []int{}, Frac: []int{}}
	}
	x, _ := strconv.Atoi(m[4])
	return decText{true, m[1] == "-", digits(m[2]), digits(m[3]), x}
}

func obsDec(l expr.Literal) obj {
	d := l.ToProtoLiteral().GetDecimal()
	neg, dg := dec16(d.GetValue())
	vs := l.(interface{ ValueString() string }).ValueString()
	o := obj{"neg": neg, "dg": dg, "len": len(d.GetValue()), "p": d.GetPrecision(), "s": d.GetScale(), "typ": typeToNode(l.GetType()), "txt": lexNum(vs)}
	again, err := literal.NewDecimalFromString(vs, false)
	o["again"] = "err"
	o["neg2"], o["dg2"], o["s2"] = false, []int{}, 0
	if err == nil {
		d2 := again.ToProtoLiteral().GetDecimal()
		n2, g2 := dec16(d2.GetValue())
		o["again"], o["neg2"], o["dg2"], o["s2"] = "ok", n2, g2, d2.GetScale()
	}
	return o
}

var noDec = obj{"neg": false, "dg": []int{}, "len": 0, "p": 0, "s": 0, "typ": nilNode, "txt": decText{Int: []int{}, Frac: []int{}}, "again": "", "neg2": false, "dg2": []int{}, "s2": 0}

type inst struct {
	D int `json:"d"`
	S int `json:"s"`
	N int `json:"n"`
}

func floorDiv(a, b int64) (int64, int64) {
	q, r := a/b, a%b
	if r < 0 {
		q, r = q-1, r+b
	}
	return q, r
}

func p10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func instOf(v int64, p int) inst {
	q, r := floorDiv(v, p10(p))
	d, s := floorDiv(q, 86400)
	return inst{int(d), int(s), int(r * p10(9-p))}
}

func (i inst) unix() int64 { return int64(i.D)*86400 + int64(i.S) }
func (i inst) value(p int) int64 {
	v := new(big.Int).Mul(big.NewInt(i.unix()), big.NewInt(p10(p)))
	v.Add(v, big.NewInt(int64(i.N)/p10(9-p)))
	if !v.IsInt64() {
		panic("harness: instant not expressible")
	}
	return v.Int64()
}

func instTime(t time.Time) inst {
	d, s := floorDiv(t.Unix(), 86400)
	return inst{int(d), int(s), t.Nanosecond()}
}

type clock struct {
	Ok   bool   `json:"ok"`
	Y    int    `json:"y"`
	M    int    `json:"m"`
	D    int    `json:"d"`
	H    int    `json:"h"`
	Mi   int    `json:"mi"`
	S    int    `json:"s"`
	F    []int  `json:"f"`
	Zone string `json:"zone"`
}

var clockRe = regexp.MustCompile(`^(?:(-?\d{3,})-(\d\d)-(\d\d))?[T ]?(?:(\d\d):(\d\d):(\d\d)(?:\.(\d+))?)?(Z|[+-]\d\d:\d\d)?$`)

func lexClock(s string) clock {
	m := clockRe.FindStringSubmatch(s)
	c := clock{F: []int{}}
	if m == nil {
		return c
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	return clock{true, n(1), n(2), n(3), n(4), n(5), n(6), digits(m[7]), m[8]}
}

type iso interface{ IsoValueString() string }

func isoOf(l expr.Literal) string {
	if i, ok := l.(iso); ok {
		return i.IsoValueString()
	}
	return "none"
}

// timeValue: the integer value of a time-like literal and the precision it is in.
func timeValue(l expr.Literal) (int64, int) {
	switch v := l.ToProtoLiteral().LiteralType.(type) {
	case *pb.Expression_Literal_Timestamp:
		return v.Timestamp, 6
	case *pb.Expression_Literal_TimestampTz:
		return v.TimestampTz, 6
	case *pb.Expression_Literal_Time:
		return v.Time, 6
	case *pb.Expression_Literal_Date:
		return int64(v.Date) * 86400, 0
	case *pb.Expression_Literal_PrecisionTime_:
		return v.PrecisionTime.Value, int(v.PrecisionTime.Precision)
	case *pb.Expression_Literal_PrecisionTimestamp_:
		return v.PrecisionTimestamp.Value, int(v.PrecisionTimestamp.Precision)
	case *pb.Expression_Literal_PrecisionTimestampTz:
		return v.PrecisionTimestampTz.Value, int(v.PrecisionTimestampTz.Precision)
	}
	panic("harness: not a time")
}

func obsTime(l expr.Literal) obj {
	v, p := timeValue(l)
	return obj{"val": instOf(v, p), "prec": p, "typ": typeToNode(l.GetType()), "txt": lexClock(l.ValueString()), "iso": lexClock(isoOf(l))}
}

var noTime = obj{"val": inst{}, "prec": 0, "typ": nilNode, "txt": clock{F: []int{}}, "iso": clock{F: []int{}}}

type ivIso struct {
	Ok   bool  `json:"ok"`
	D    int   `json:"d"`
	H    int   `json:"h"`
	Mi   int   `json:"mi"`
	S    int   `json:"s"`
	SNeg bool  `json:"sneg"`
	F    []int `json:"f"`
	Y    int   `json:"y"`
	M    int   `json:"m"`
}

var ivRe = regexp.MustCompile(`^P(?:(-?\d+)Y)?(?:(-?\d+)M)?(?:(-?\d+)D)?(?:T(?:(-?\d+)H)?(?:(-?\d+)M)?(?:(-?\d+)(?:\.(\d+))?S)?)?$`)

func lexIv(s string) ivIso {
	m := ivRe.FindStringSubmatch(s)
	r := ivIso{F: []int{}}
	if m == nil || s == "P" || strings.HasSuffix(s, "T") {
		return r
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	return ivIso{true, n(3), n(4), n(5), n(6), strings.HasPrefix(m[6], "-"), digits(m[7]), n(1), n(2)}
}

func obsIv(l expr.Literal) obj {
	r := obj{"d": 0, "s": 0, "u": 0, "p": 0, "y": 0, "m": 0, "typ": typeToNode(l.GetType()), "iso": lexIv(isoOf(l))}
	if i := l.ToProtoLiteral().GetIntervalDayToSecond(); i != nil {
		r["d"], r["s"], r["u"], r["p"] = i.Days, i.Seconds, i.Subseconds, i.GetPrecision()
	}
	if i := l.ToProtoLiteral().GetIntervalYearToMonth(); i != nil {
		r["y"], r["m"] = i.Years, i.Months
	}
	return r
}

var noIv = obj{"d": 0, "s": 0, "u": 0, "p": 0, "y": 0, "m": 0, "typ": nilNode, "iso": ivIso{F: []int{}}}

func merge(os ...obj) obj {
	r := obj{}
	for _, o := range os {
		for k, v := range o {
			r[k] = v
		}
	}
	return r
}

func fromText(ctor string, p int, txt string) (expr.Literal, error) {
	tp := types.TimePrecision(p)
	switch ctor {
	case "ts":
		return literal.NewTimestampFromString(txt, false)
	case "tstz":
		return literal.NewTimestampTZFromString(txt, false)
	case "pts":
		return literal.NewPrecisionTimestampFromString(tp, txt, false)
	case "ptstz":
		return literal.NewPrecisionTimestampTzFromString(tp, txt, false)
	case "date":
		return literal.NewDateFromString(txt, false)
	case "time":
		return literal.NewTimeFromString(txt, false)
	case "ptime":
		return literal.NewPrecisionTimeFromString(tp, txt, false)
	}
	panic("harness: " + ctor)
}

func numericSuite(raw json.RawMessage) (obj, error) {
	var s struct {
		Op   string `json:"op"`
		Txt  string `json:"text"`
		Ctor string `json:"ctor"`
		P    int    `json:"p"`
		P2   int    `json:"p2"`
		S2   int    `json:"s2"`
		Sc   int    `json:"s0"`
		Neg  bool   `json:"neg0"`
		Dg   []int  `json:"dg0"`
		I    inst   `json:"i"`
		Off  int    `json:"off"`
		Iv   struct {
			D, S, U int
			Micro   bool
		} `json:"iv"`
		N []int32 `json:"nn"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	nullable := types.NullabilityNullable
	switch s.Op {
	case "dec", "decbad":
		r := merge(noDec)
		o := guard(func() error {
			l, err := literal.NewDecimalFromString(s.Txt, true)
			if err != nil {
				return err
			}
			r = obsDec(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "apdform":
		d, _, err := apd.NewFromString(s.Txt)
		if err != nil {
			panic("harness: " + s.Txt)
		}
		o := guard(func() error { _, err := literal.NewDecimalFromApdDecimal(d, true); return err })
		return obj{"st": o.St, "msg": o.Msg}, nil
	case "apd":
		c, _ := new(apd.BigInt).SetString("0"+digText(s.Dg), 10)
		d := apd.NewWithBigInt(c, int32(s.Sc))
		d.Negative = s.Neg
		before := d.Text('E')
		r, r2 := merge(noDec), merge(noDec)
		st2 := ""
		o := guard(func() error {
			l, err := literal.NewDecimalFromApdDecimal(d, true)
			if err != nil {
				return err
			}
			r = obsDec(l)
			return nil
		})
		o2 := guard(func() error {
			l, err := literal.NewDecimalFromApdDecimal(d, true)
			if err != nil {
				return err
			}
			r2 = obsDec(l)
			return nil
		})
		st2 = o2.St
		return obj{"st": o.St, "msg": o.Msg, "r": r, "same": d.Text('E') == before && st2 == o.St && fmt.Sprint(r["dg"], r["s"], r["p"]) == fmt.Sprint(r2["dg"], r2["s"], r2["p"])}, nil
	case "decre":
		r, q := merge(noDec), merge(noDec)
		st2 := ""
		insame := false
		o := guard(func() error {
			in := to16(s.Neg, s.Dg)
			l, err := literal.NewDecimalFromTwosComplement(in, int32(s.P), int32(s.Sc), true)
			if err != nil {
				return err
			}
			r = obsDec(l)
			o2 := guard(func() error {
				l2, err := l.(expr.WithTypeLiteral).WithType(&types.DecimalType{Precision: int32(s.P2), Scale: int32(s.S2), Nullability: nullable, TypeVariationRef: 3})
				if err != nil {
					return err
				}
				q = obsDec(l2)
				return nil
			})
			st2 = o2.St
			n2, d2 := dec16(in)
			insame = n2 == (r["neg"].(bool)) && digText(d2) == digText(r["dg"].([]int)) && digText(obsDec(l)["dg"].([]int)) == digText(d2)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r, "q": q, "st2": st2, "insame": insame}, nil
	case "text":
		r := merge(noTime)
		o := guard(func() error {
			l, err := fromText(s.Ctor, s.P, s.Txt)
			if err != nil {
				return err
			}
			r = obsTime(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "wall":
		r := merge(noTime)
		o := guard(func() error {
			tm := time.Unix(s.I.unix(), int64(s.I.N)).In(time.FixedZone("x", s.Off*60))
			tp := types.TimePrecision(s.P)
			var l expr.Literal
			var err error
			switch s.Ctor {
			case "ts":
				l, err = literal.NewTimestamp(tm, true)
			case "tstz":
				l, err = literal.NewTimestampTZ(tm, true)
			case "pts":
				l, err = literal.NewPrecisionTimestampFromTime(tp, tm, true)
			case "ptstz":
				l, err = literal.NewPrecisionTimestampTzFromTime(tp, tm, true)
			case "ptime":
				l, err = literal.NewPrecisionTimeFromTime(tp, tm.UTC(), true)
			}
			if err != nil {
				return err
			}
			r = obsTime(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "conv": // a literal of the instant at precision p, then at precision p2
		r, q := merge(noTime), merge(noTime)
		st2, wall, wall2 := "", inst{}, inst{}
		o := guard(func() error {
			v := s.I.value(s.P)
			tp, tp2 := types.TimePrecision(s.P), types.TimePrecision(s.P2)
			var l expr.Literal
			var to types.Type
			var err error
			switch s.Ctor {
			case "pts":
				l, err = literal.NewPrecisionTimestamp(tp, v, true)
				to = &types.PrecisionTimestampType{Precision: tp2, Nullability: nullable, TypeVariationRef: 2}
			case "ptstz":
				l, err = literal.NewPrecisionTimestampTz(tp, v, true)
				to = &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Precision: tp2, Nullability: nullable, TypeVariationRef: 2}}
			case "ptime":
				l, err = literal.NewPrecisionTime(tp, v, true)
				to = &types.PrecisionTimeType{Precision: tp2, Nullability: nullable, TypeVariationRef: 2}
			}
			if err != nil {
				return err
			}
			r = obsTime(l)
			wall, wall2 = instTime(types.Timestamp(v).ToPrecisionTime(tp)), instTime(types.TimestampTz(v).ToPrecisionTime(tp))
			if s.P == 6 {
				wall, wall2 = instTime(types.Timestamp(v).ToTime()), instTime(types.TimestampTz(v).ToTime())
			}
			o2 := guard(func() error {
				l2, err := l.(expr.WithTypeLiteral).WithType(to)
				if err != nil {
					return err
				}
				q = obsTime(l2)
				return nil
			})
			st2 = o2.St
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r, "q": q, "st2": st2, "wall": wall, "wall2": wall2}, nil
	case "plain": // deprecated microsecond types, dates and times of day, printed
		r := merge(noTime)
		o := guard(func() error {
			var l expr.Literal
			var err error
			switch s.Ctor {
			case "ts":
				l, err = literal.NewTimestampFromMicros(s.I.value(6), true)
			case "tstz":
				l, err = literal.NewTimestampTZFromMicros(s.I.value(6), true)
			case "date":
				l, err = literal.NewDate(s.I.D, true)
			case "time":
				l, err = literal.NewTimeFromMicros(inst{0, s.I.S, s.I.N}.value(6), true)
			}
			if err != nil {
				return err
			}
			r = obsTime(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "hms":
		r := merge(noTime)
		o := guard(func() error {
			l, err := literal.NewTime(s.N[0], s.N[1], s.N[2], s.N[3], true)
			if err != nil {
				return err
			}
			r = obsTime(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "iv", "ivbad", "ym", "ymbad":
		r := merge(noIv)
		o := guard(func() error {
			var l expr.Literal
			var err error
			if strings.HasPrefix(s.Op, "iv") {
				l, err = literal.NewIntervalDaysToSecondFromString(s.Txt, true)
			} else {
				l, err = literal.NewIntervalYearsToMonthFromString(s.Txt, true)
			}
			if err != nil {
				return err
			}
			r = obsIv(l)
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r}, nil
	case "ivre":
		r, q := merge(noIv), merge(noIv)
		st2 := ""
		o := guard(func() error {
			m := &types.IntervalDayToSecond{Days: int32(s.Iv.D), Seconds: int32(s.Iv.S)}
			if s.Iv.Micro {
				m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(s.Iv.U)}
			} else {
				m.PrecisionMode = &pb.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(s.P)}
				m.Subseconds = int64(s.Iv.U)
			}
			l, err := expr.NewLiteral(m, true)
			if err != nil {
				return err
			}
			r = obsIv(l)
			o2 := guard(func() error {
				l2, err := l.(expr.WithTypeLiteral).WithType(&types.IntervalDayType{Precision: types.TimePrecision(s.P2), Nullability: nullable, TypeVariationRef: 2})
				if err != nil {
					return err
				}
				q = obsIv(l2)
				return nil
			})
			st2 = o2.St
			return nil
		})
		return obj{"st": o.St, "msg": o.Msg, "r": r, "q": q, "st2": st2}, nil
	}
	return nil, errOp(s.Op)
}
