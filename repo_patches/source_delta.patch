From 04d87afa76fe30ee37de165c3234663807214509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 001/122] fix: write interval_compound types read from a
 message, and IntervalYearToMonthType

TypeFromProto returned *IntervalCompoundType, which TypeToProto refused with a panic.
---
 types/types.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/types/types.go b/types/types.go
index 3407436..469d3ff 100644
--- a/types/types.go
+++ b/types/types.go
@@ -308,7 +308,7 @@ func TypeFromProto(t *proto.Type) Type {
 		if err != nil {
 			panic(fmt.Sprintf("Invalid precision %v", err))
 		}
-		return &IntervalCompoundType{
+		return IntervalCompoundType{
 			nullability:      Nullability(t.IntervalCompound.Nullability),
 			typeVariationRef: t.IntervalCompound.TypeVariationReference,
 			precision:        precision,
@@ -738,13 +738,12 @@ func TypeToProto(t Type) *proto.Type {
 				Precision:              &precision,
 				Nullability:            proto.Type_Nullability(t.Nullability),
 				TypeVariationReference: t.TypeVariationRef}}}
+	case IntervalYearToMonthType:
+		return t.ToProto()
 	case IntervalCompoundType:
-		precision := t.precision.ToProtoVal()
-		return &proto.Type{Kind: &proto.Type_IntervalCompound_{
-			IntervalCompound: &proto.Type_IntervalCompound{
-				Precision:              precision,
-				Nullability:            proto.Type_Nullability(t.nullability),
-				TypeVariationReference: t.typeVariationRef}}}
+		return t.ToProto()
+	case *IntervalCompoundType:
+		return t.ToProto()
 	case *UUIDType:
 		return &proto.Type{Kind: &proto.Type_Uuid{
 			Uuid: &proto.Type_UUID{
-- 
2.43.0


From d27ba2724f2a7734899f2cbd3821ccec0316aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 002/122] fix: IntervalDayType.WithNullability returns a copy

It changed the receiver, and with it every holder of the type, including the
type registry's shared entry.
---
 types/interval_day_type.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/types/interval_day_type.go b/types/interval_day_type.go
index 0d0369b..3bf0401 100644
--- a/types/interval_day_type.go
+++ b/types/interval_day_type.go
@@ -19,8 +19,9 @@ func (m *IntervalDayType) GetPrecisionProtoVal() int32 {
 
 func (*IntervalDayType) isRootRef() {}
 func (m *IntervalDayType) WithNullability(n Nullability) Type {
-	m.Nullability = n
-	return m
+	out := *m
+	out.Nullability = n
+	return &out
 }
 
 func (m *IntervalDayType) GetType() Type                     { return m }
-- 
2.43.0


From 672e6824b9a432de810cc0c7d2c7a82c75cfbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 003/122] fix: RecordType.Concat does not write into its
 receiver's backing array

Two records concatenated onto the same record could share and overwrite one
array, changing the first result.
---
 types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/types.go b/types/types.go
index 469d3ff..b538706 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1812,7 +1812,9 @@ func (r RecordType) Types() []Type {
 }
 
 func (r RecordType) Concat(other RecordType) RecordType {
-	return RecordType{types: append(r.Types(), other.Types()...)}
+	types := make([]Type, 0, len(r.types)+len(other.types))
+	types = append(types, r.types...)
+	return RecordType{types: append(types, other.types...)}
 }
 
 func (d Date) ToTimeString() string {
-- 
2.43.0


From 2fa5367eb5d298a0e23b092c6c71d9c38049e7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 004/122] fix: IntervalCompoundType.WithPrecision keeps the
 type variation

---
 types/interval_compound_type.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/types/interval_compound_type.go b/types/interval_compound_type.go
index 0ff09d6..d729e85 100644
--- a/types/interval_compound_type.go
+++ b/types/interval_compound_type.go
@@ -37,10 +37,8 @@ func (m IntervalCompoundType) WithNullability(n Nullability) Type {
 }
 
 func (m IntervalCompoundType) WithPrecision(precision TimePrecision) IntervalCompoundType {
-	return IntervalCompoundType{
-		precision:   precision,
-		nullability: m.nullability,
-	}
+	m.precision = precision
+	return m
 }
 
 func (m IntervalCompoundType) GetType() Type                     { return m }
-- 
2.43.0


From 891e4dc68d8daa0dadd2dd6b691391d419f6f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 005/122] fix: extension set never hands out an anchor which is
 in use

With anchors read from a plan, len+1 could be taken already: the earlier
extension was replaced silently, and for namespaces the set panicked.
---
 extensions/extension_mgr.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 7eaa25a..d710763 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -515,7 +515,7 @@ func (e *set) GetTypeAnchor(id TypeID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.types)) + 1
+		a = freeAnchor(e.typesMap)
 		e.encodeType(a, id)
 	}
 	return a
@@ -528,7 +528,7 @@ func (e *set) GetFuncAnchor(id FunctionID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		a = uint32(len(e.funcs)) + 1
+		a = freeAnchor(e.funcMap)
 		e.encodeFunc(a, id)
 	}
 	return a
@@ -541,10 +541,9 @@ func (e *set) GetTypeVariationAnchor(id TypeVariationID) uint32 {
 		if err != nil {
 			panic(err)
 		}
-		// add 1 to the length to avoid an anchor of 0
-		// so that it's easier to tell when there is no
-		// type variation.
-		a = uint32(len(e.typeVariations)) + 1
+		// anchors start at 1 so that it's easier to tell
+		// when there is no type variation.
+		a = freeAnchor(e.typeVariationMap)
 		e.encodeTypeVariation(a, id)
 	}
 	return a
@@ -580,13 +579,21 @@ func (e *set) addOrGetURN(urn string) (uint32, error) {
 			return k, nil
 		}
 	}
-	sz := uint32(len(e.urns)) + 1
-	if _, ok := e.urns[sz]; ok {
-		return 0, fmt.Errorf("%w: URN anchor %d already exists", substraitgo.ErrKeyExists, sz)
-	}
+	a := freeAnchor(e.urns)
+	e.urns[a] = urn
+	return a, nil
+}
 
-	e.urns[sz] = urn
-	return sz, nil
+// freeAnchor returns a nonzero anchor which isn't used yet. Sets read from a
+// plan may use any anchors, so the number of entries alone doesn't tell.
+func freeAnchor[T any](used map[uint32]T) uint32 {
+	a := uint32(len(used)) + 1
+	for {
+		if _, ok := used[a]; !ok {
+			return a
+		}
+		a++
+	}
 }
 
 type TopLevel interface {
-- 
2.43.0


From 9983115a7e5ffa54af8625272f0a1508986ef315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 006/122] fix: extension declarations are complete and in a
 stable order

Variations and functions were sorted by comparing other elements of the list,
so their order varied from call to call, and of two anchors read for the same
extension only one was declared again.
---
 extensions/extension_mgr.go | 47 +++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index d710763..422953e 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -378,20 +378,22 @@ type set struct {
 func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*extensions.SimpleExtensionDeclaration) {
 	urnBackRef := make(map[string]uint32)
 
+	// Everything is written in the order of its anchor for consistent output
 	urns := make([]*extensions.SimpleExtensionURN, 0, len(e.urns))
-	for anchor, urn := range e.urns {
-		urnBackRef[urn] = anchor
+	for _, anchor := range sortedAnchors(e.urns) {
+		urn := e.urns[anchor]
+		if _, ok := urnBackRef[urn]; !ok {
+			urnBackRef[urn] = anchor
+		}
 		urns = append(urns, &extensions.SimpleExtensionURN{
 			ExtensionUrnAnchor: anchor,
 			Urn:                urn,
 		})
 	}
 
-	// Sort URN extensions by the anchor for consistent output
-	sort.Slice(urns, func(i, j int) bool { return urns[i].ExtensionUrnAnchor < urns[j].ExtensionUrnAnchor })
-
-	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.types)+len(e.typeVariations)+len(e.funcs))
-	for id, anchor := range e.types {
+	decls := make([]*extensions.SimpleExtensionDeclaration, 0, len(e.typesMap)+len(e.typeVariationMap)+len(e.funcMap))
+	for _, anchor := range sortedAnchors(e.typesMap) {
+		id := e.typesMap[anchor]
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionType_{
 				ExtensionType: &extensions.SimpleExtensionDeclaration_ExtensionType{
@@ -403,12 +405,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 		})
 	}
 
-	sort.Slice(decls, func(i, j int) bool {
-		return decls[i].GetExtensionType().TypeAnchor < decls[j].GetExtensionType().TypeAnchor
-	})
-	typesCount := len(decls)
-
-	for id, anchor := range e.typeVariations {
+	for _, anchor := range sortedAnchors(e.typeVariationMap) {
+		id := e.typeVariationMap[anchor]
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation_{
 				ExtensionTypeVariation: &extensions.SimpleExtensionDeclaration_ExtensionTypeVariation{
@@ -420,13 +418,8 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 		})
 	}
 
-	typeDecls := decls[typesCount:]
-	sort.Slice(typeDecls, func(i, j int) bool {
-		return decls[i].GetExtensionTypeVariation().TypeVariationAnchor < decls[j].GetExtensionTypeVariation().TypeVariationAnchor
-	})
-
-	typeVarCount := len(decls)
-	for id, anchor := range e.funcs {
+	for _, anchor := range sortedAnchors(e.funcMap) {
+		id := e.funcMap[anchor]
 		decls = append(decls, &extensions.SimpleExtensionDeclaration{
 			MappingType: &extensions.SimpleExtensionDeclaration_ExtensionFunction_{
 				ExtensionFunction: &extensions.SimpleExtensionDeclaration_ExtensionFunction{
@@ -438,14 +431,18 @@ func (e *set) ToProto(c *Collection) ([]*extensions.SimpleExtensionURN, []*exten
 		})
 	}
 
-	typeVarDecls := decls[typeVarCount:]
-	sort.Slice(typeVarDecls, func(i, j int) bool {
-		return decls[i].GetExtensionFunction().GetFunctionAnchor() < decls[j].GetExtensionFunction().GetFunctionAnchor()
-	})
-
 	return urns, decls
 }
 
+func sortedAnchors[T any](m map[uint32]T) []uint32 {
+	anchors := make([]uint32, 0, len(m))
+	for anchor := range m {
+		anchors = append(anchors, anchor)
+	}
+	sort.Slice(anchors, func(i, j int) bool { return anchors[i] < anchors[j] })
+	return anchors
+}
+
 func (e *set) LookupWindowFunction(anchor uint32, c *Collection) (sv *WindowFunctionVariant, ok bool) {
 	id, ok := e.funcMap[anchor]
 	if !ok {
-- 
2.43.0


From c62014815f1d3f42badbbb88bce22d1ff07f7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 007/122] fix: refuse plans which declare one extension anchor
 twice with different meanings

The later declaration silently replaced the earlier one.
---
 extensions/extension_mgr.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 422953e..2d7901c 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -601,6 +601,9 @@ type TopLevel interface {
 func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 	urns := make(map[uint32]string)
 	for _, urn := range plan.GetExtensionUrns() {
+		if prev, ok := urns[urn.ExtensionUrnAnchor]; ok && prev != urn.Urn {
+			return nil, fmt.Errorf("%w: URN anchor %d declared for both '%s' and '%s'", substraitgo.ErrKeyExists, urn.ExtensionUrnAnchor, prev, urn.Urn)
+		}
 		urns[urn.ExtensionUrnAnchor] = urn.Urn
 	}
 
@@ -634,30 +637,33 @@ func GetExtensionSet(plan TopLevel, c *Collection) (Set, error) {
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeTypeVariation(etv.TypeVariationAnchor, TypeVariationID{
-				URN:  urn,
-				Name: etv.Name,
-			})
+			id := TypeVariationID{URN: urn, Name: etv.Name}
+			if prev, ok := ret.typeVariationMap[etv.TypeVariationAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: type variation anchor %d declared for both %v and %v", substraitgo.ErrKeyExists, etv.TypeVariationAnchor, prev, id)
+			}
+			ret.encodeTypeVariation(etv.TypeVariationAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionType_:
 			et := e.ExtensionType
 			urn, err := resolveRefToURN(et.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeType(et.TypeAnchor, TypeID{
-				URN:  urn,
-				Name: et.Name,
-			})
+			id := TypeID{URN: urn, Name: et.Name}
+			if prev, ok := ret.typesMap[et.TypeAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: type anchor %d declared for both %v and %v", substraitgo.ErrKeyExists, et.TypeAnchor, prev, id)
+			}
+			ret.encodeType(et.TypeAnchor, id)
 		case *extensions.SimpleExtensionDeclaration_ExtensionFunction_:
 			ef := e.ExtensionFunction
 			urn, err := resolveRefToURN(ef.ExtensionUrnReference)
 			if err != nil {
 				return nil, err
 			}
-			ret.encodeFunc(ef.FunctionAnchor, FunctionID{
-				URN:  urn,
-				Name: ef.Name,
-			})
+			id := FunctionID{URN: urn, Name: ef.Name}
+			if prev, ok := ret.funcMap[ef.FunctionAnchor]; ok && prev != id {
+				return nil, fmt.Errorf("%w: function anchor %d declared for both %v and %v", substraitgo.ErrKeyExists, ef.FunctionAnchor, prev, id)
+			}
+			ret.encodeFunc(ef.FunctionAnchor, id)
 		}
 	}
 
-- 
2.43.0


From 5fe9edb73b6cff893e7d4699a45d09aeb97452ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 008/122] fix: function type expressions with several
 parameters print as text that parses

---
 types/parameterized_func_type.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/types/parameterized_func_type.go b/types/parameterized_func_type.go
index ce9fe8f..177d78e 100644
--- a/types/parameterized_func_type.go
+++ b/types/parameterized_func_type.go
@@ -27,12 +27,19 @@ func (f *ParameterizedFuncType) String() string {
 	b.WriteString("func")
 	b.WriteString(strFromNullability(f.Nullability))
 	b.WriteByte('<')
+	// only a single parameter may be written without parentheses
+	if len(f.Parameters) != 1 {
+		b.WriteByte('(')
+	}
 	for i, p := range f.Parameters {
 		if i != 0 {
 			b.WriteString(", ")
 		}
 		b.WriteString(p.String())
 	}
+	if len(f.Parameters) != 1 {
+		b.WriteByte(')')
+	}
 	b.WriteString(" -> ")
 	b.WriteString(f.Return.String())
 	b.WriteByte('>')
-- 
2.43.0


From 68355aff7e5966c71805185f86e2b52339cee530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 009/122] fix: type parameters that do not fit their integer
 are rejected instead of truncated

---
 types/parser/parse.go   | 2 +-
 types/parser/visitor.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index a6418af..fc79c36 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -47,7 +47,7 @@ func ParseType(input string) (types.FuncDefArgType, error) {
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-	visitor := &TypeVisitor{}
+	visitor := &TypeVisitor{ErrorListener: errorListener}
 	ret, err := parseType(input, p, errorListener, visitor)
 	if err != nil {
 		return nil, err
diff --git a/types/parser/visitor.go b/types/parser/visitor.go
index 13c66ae..301d510 100644
--- a/types/parser/visitor.go
+++ b/types/parser/visitor.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -43,7 +44,7 @@ func (v *TypeVisitor) VisitTypeLiteral(ctx *baseparser2.TypeLiteralContext) inte
 }
 
 func (v *TypeVisitor) VisitLiteralNumber(ctx *baseparser2.LiteralNumberContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 64)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing number: %s", err))
 		return 0
@@ -197,6 +198,9 @@ func (v *TypeVisitor) VisitUserDefined(ctx *baseparser2.UserDefinedContext) inte
 		case types.FuncDefArgType:
 			params = append(params, &types.DataTypeUDTParam{Type: param})
 		case *types.LiteralNumber:
+			if param.Value < math.MinInt32 || param.Value > math.MaxInt32 {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("type parameter %d is out of range", param.Value))
+			}
 			params = append(params, &types.IntegerUDTParam{Integer: int32(param.Value)})
 		case types.StringParameter:
 			params = append(params, &types.StringUDTParam{StringVal: string(param)})
@@ -375,7 +379,7 @@ func (v *TypeVisitor) VisitParameterName(ctx *baseparser2.ParameterNameContext)
 }
 
 func (v *TypeVisitor) VisitNumericLiteral(ctx *baseparser2.NumericLiteralContext) interface{} {
-	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 0)
+	num, err := strconv.ParseInt(ctx.Number().GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("error parsing type parameter as number: %s", err))
 		return integer_parameters.NewConcreteIntParam(0)
-- 
2.43.0


From c690a2ab648396f38feb221110070e36d1df7967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 010/122] fix: printed type derivations keep the grouping of
 nested conditionals and negations

---
 types/type_derivation.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3799ec1..3924e87 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -151,7 +151,17 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 }
 
 func (b BinaryExpr) String() string {
-	return fmt.Sprintf("(%s %s %s)", b.Left, b.Op, b.Right)
+	return fmt.Sprintf("(%s %s %s)", operandString(b.Left), b.Op, operandString(b.Right))
+}
+
+// operandString prints an operand of a larger expression; expressions that
+// would otherwise swallow what follows them are put in parentheses.
+func operandString(e Expr) string {
+	switch e.(type) {
+	case *IfExpr, IfExpr, *NotExpr, NotExpr:
+		return fmt.Sprintf("(%s)", e)
+	}
+	return e.String()
 }
 
 type IfExpr struct {
@@ -163,9 +173,16 @@ type IfExpr struct {
 
 func (i IfExpr) String() string {
 	if i.IsTernary {
-		return fmt.Sprintf("%s ? %s : %s", i.Condition, i.Then, i.Else)
+		return fmt.Sprintf("%s ? %s : %s", operandString(i.Condition), operandString(i.Then), operandString(i.Else))
+	}
+	// then and else stand between keywords: only a ternary needs parentheses there
+	branch := func(e Expr) string {
+		if inner, ok := e.(*IfExpr); ok && inner.IsTernary {
+			return operandString(e)
+		}
+		return e.String()
 	}
-	return fmt.Sprintf("if %s then %s else %s", i.Condition, i.Then, i.Else)
+	return fmt.Sprintf("if %s then %s else %s", branch(i.Condition), branch(i.Then), branch(i.Else))
 }
 
 func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
@@ -184,7 +201,7 @@ type NotExpr struct {
 }
 
 func (n NotExpr) String() string {
-	return fmt.Sprintf("!%s", n.Expr)
+	return fmt.Sprintf("!%s", operandString(n.Expr))
 }
 
 func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
-- 
2.43.0


From 2088dbf8b27d5050703186d0cc3c7699ed491b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 011/122] fix: type derivation expressions report errors
 instead of panicking

---
 types/type_derivation.go | 98 ++++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 25 deletions(-)

diff --git a/types/type_derivation.go b/types/type_derivation.go
index 3924e87..6ed3b90 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -121,35 +121,67 @@ func (b BinaryExpr) Evaluate(symbolTable map[string]any) (any, error) {
 		return nil, err
 	}
 	switch b.Op {
+	case And, Or:
+		l, lok := left.(bool)
+		r, rok := right.(bool)
+		if !lok || !rok {
+			return nil, fmt.Errorf("operator %s expects booleans, got %v and %v", b.Op, left, right)
+		}
+		if b.Op == And {
+			return l && r, nil
+		}
+		return l || r, nil
+	}
+	l, err := asInteger(left)
+	if err != nil {
+		return nil, err
+	}
+	r, err := asInteger(right)
+	if err != nil {
+		return nil, err
+	}
+	switch b.Op {
 	case Plus:
-		return left.(int64) + right.(int64), nil
+		return l + r, nil
 	case Minus:
-		return left.(int64) - right.(int64), nil
+		return l - r, nil
 	case Multiply:
-		return left.(int64) * right.(int64), nil
+		return l * r, nil
 	case Divide:
-		return left.(int64) / right.(int64), nil
+		if r == 0 {
+			return nil, fmt.Errorf("division by zero evaluating %s", b)
+		}
+		return l / r, nil
 	case LT:
-		return left.(int64) < right.(int64), nil
+		return l < r, nil
 	case LTE:
-		return left.(int64) <= right.(int64), nil
+		return l <= r, nil
 	case GT:
-		return left.(int64) > right.(int64), nil
+		return l > r, nil
 	case GTE:
-		return left.(int64) >= right.(int64), nil
+		return l >= r, nil
 	case EQ:
-		return left.(int64) == right.(int64), nil
+		return l == r, nil
 	case NEQ:
-		return left.(int64) != right.(int64), nil
-	case And:
-		return left.(bool) && right.(bool), nil
-	case Or:
-		return left.(bool) || right.(bool), nil
+		return l != r, nil
 	default:
 		panic("Invalid binary operator")
 	}
 }
 
+// asInteger returns the value of an integer (sub)expression.
+func asInteger(v any) (int64, error) {
+	switch v := v.(type) {
+	case int64:
+		return v, nil
+	case int32:
+		return int64(v), nil
+	case TimePrecision:
+		return int64(v), nil
+	}
+	return 0, fmt.Errorf("expected an integer, got %v", v)
+}
+
 func (b BinaryExpr) String() string {
 	return fmt.Sprintf("(%s %s %s)", operandString(b.Left), b.Op, operandString(b.Right))
 }
@@ -190,7 +222,11 @@ func (i IfExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	if condition.(bool) {
+	holds, ok := condition.(bool)
+	if !ok {
+		return nil, fmt.Errorf("condition %s is not a boolean", i.Condition)
+	}
+	if holds {
 		return i.Then.Evaluate(symbolTable)
 	}
 	return i.Else.Evaluate(symbolTable)
@@ -209,7 +245,11 @@ func (n NotExpr) Evaluate(symbolTable map[string]any) (any, error) {
 	if err != nil {
 		return nil, err
 	}
-	return !result.(bool), nil
+	holds, ok := result.(bool)
+	if !ok {
+		return nil, fmt.Errorf("operand of %s is not a boolean", n)
+	}
+	return !holds, nil
 }
 
 type FunctionCallExpr struct {
@@ -232,26 +272,34 @@ func (f FunctionCallExpr) String() string {
 }
 
 func (f FunctionCallExpr) Evaluate(symbolTable map[string]any) (any, error) {
-	args := make([]any, len(f.Args))
+	args := make([]int64, len(f.Args))
 	for i, arg := range f.Args {
 		result, err := arg.Evaluate(symbolTable)
 		if err != nil {
 			return nil, err
 		}
-		args[i] = result
+		if args[i], err = asInteger(result); err != nil {
+			return nil, err
+		}
+	}
+	arity := map[string]int{"abs": 1, "max": 2, "min": 2}
+	n, ok := arity[f.Name]
+	if !ok {
+		return nil, fmt.Errorf("unknown function %s", f.Name)
+	}
+	if len(args) != n {
+		return nil, fmt.Errorf("function %s expects %d arguments, got %d", f.Name, n, len(args))
 	}
 	switch f.Name {
 	case "abs":
-		if args[0].(int64) < 0 {
-			return -args[0].(int64), nil
+		if args[0] < 0 {
+			return -args[0], nil
 		}
-		return args[0].(int64), nil
+		return args[0], nil
 	case "max":
-		return max(args[0].(int64), args[1].(int64)), nil
-	case "min":
-		return min(args[0].(int64), args[1].(int64)), nil
+		return max(args[0], args[1]), nil
 	default:
-		return nil, fmt.Errorf("unknown function %s", f.Name)
+		return min(args[0], args[1]), nil
 	}
 }
 
-- 
2.43.0


From 36ee8269b9250a2cfb5c0fe50e14ca006cb1b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 012/122] fix: integer parameters are bound and resolved at any
 nesting depth

---
 types/parameterized_user_defined_type.go |   4 +-
 types/type_derivation.go                 | 191 ++++++++++++++++++++---
 2 files changed, 173 insertions(+), 22 deletions(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 1c68a20..91aecfc 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -134,8 +134,8 @@ func (m *ParameterizedUserDefinedType) String() string {
 
 func (m *ParameterizedUserDefinedType) HasParameterizedParam() bool {
 	for _, typ := range m.TypeParameters {
-		if param, ok := typ.(*DataTypeUDTParam); ok {
-			return param.Type.HasParameterizedParam()
+		if param, ok := typ.(*DataTypeUDTParam); ok && param.Type.HasParameterizedParam() {
+			return true
 		}
 	}
 	return false
diff --git a/types/type_derivation.go b/types/type_derivation.go
index 6ed3b90..2c7ea2b 100644
--- a/types/type_derivation.go
+++ b/types/type_derivation.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/types/integer_parameters"
@@ -374,26 +375,95 @@ type SymbolInfo struct {
 
 func buildTypeParametersNameValueMap(funcParameters []FuncDefArgType, argumentTypes []Type) (map[string]any, error) {
 	symbolTable := make(map[string]any)
-	for i, p := range funcParameters {
-		paramNames := p.GetParameterizedParams()
-		if len(paramNames) > 0 {
-			paramValues := argumentTypes[i].GetParameters()
-			if len(paramNames) != len(paramValues) {
-				return nil, fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	// the last parameter has no argument when it is variadic and was omitted
+	for i := 0; i < min(len(funcParameters), len(argumentTypes)); i++ {
+		if err := bindIntegerParameters(funcParameters[i], argumentTypes[i], symbolTable); err != nil {
+			return nil, err
+		}
+	}
+	return symbolTable, nil
+}
+
+// bindIntegerParameters records the values the argument type gives to the
+// integer parameters used in the function parameter, at any nesting depth.
+func bindIntegerParameters(p FuncDefArgType, argType Type, symbolTable map[string]any) error {
+	switch param := p.(type) {
+	case *ParameterizedListType:
+		if arg, ok := argType.(*ListType); ok {
+			return bindIntegerParameters(param.Type, arg.Type, symbolTable)
+		}
+		return nil
+	case *ParameterizedMapType:
+		if arg, ok := argType.(*MapType); ok {
+			if err := bindIntegerParameters(param.Key, arg.Key, symbolTable); err != nil {
+				return err
 			}
-			for j, param := range paramNames {
-				if intParam, ok := param.(*integer_parameters.VariableIntParam); ok {
-					name := string(*intParam)
-					if existingValue, ok := symbolTable[name]; ok && existingValue != paramValues[j] {
-						return nil, fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, paramValues[j])
-					}
-					symbolTable[name] = paramValues[j]
-					continue
+			return bindIntegerParameters(param.Value, arg.Value, symbolTable)
+		}
+		return nil
+	case *ParameterizedStructType:
+		if arg, ok := argType.(*StructType); ok {
+			return bindAllIntegerParameters(param.Types, arg.Types, symbolTable)
+		}
+		return nil
+	case *ParameterizedFuncType:
+		if arg, ok := argType.(*FuncType); ok {
+			if err := bindAllIntegerParameters(param.Parameters, arg.ParameterTypes, symbolTable); err != nil {
+				return err
+			}
+			return bindIntegerParameters(param.Return, arg.ReturnType, symbolTable)
+		}
+		return nil
+	case *ParameterizedUserDefinedType:
+		arg, ok := argType.(*UserDefinedType)
+		if !ok {
+			return nil
+		}
+		for i := 0; i < min(len(param.TypeParameters), len(arg.TypeParameters)); i++ {
+			paramType, ok1 := param.TypeParameters[i].(*DataTypeUDTParam)
+			typ, ok2 := arg.TypeParameters[i].(*DataTypeParameter)
+			if ok1 && ok2 {
+				if err := bindIntegerParameters(paramType.Type, typ.Type, symbolTable); err != nil {
+					return err
 				}
 			}
 		}
+		return nil
 	}
-	return symbolTable, nil
+
+	paramNames := p.GetParameterizedParams()
+	if len(paramNames) == 0 {
+		return nil
+	}
+	paramValues := argType.GetParameters()
+	if len(paramNames) != len(paramValues) {
+		return fmt.Errorf("function parameter %s has %d parameters, but %d were provided", p.String(), len(paramNames), len(paramValues))
+	}
+	for j, param := range paramNames {
+		intParam, ok := param.(*integer_parameters.VariableIntParam)
+		if !ok {
+			continue
+		}
+		name := string(*intParam)
+		value, err := asInteger(paramValues[j])
+		if err != nil {
+			return err
+		}
+		if existingValue, ok := symbolTable[name]; ok && existingValue != value {
+			return fmt.Errorf("sync parameters %s has conflicting values: %v and %v", name, existingValue, value)
+		}
+		symbolTable[name] = value
+	}
+	return nil
+}
+
+func bindAllIntegerParameters(params []FuncDefArgType, argTypes []Type, symbolTable map[string]any) error {
+	for i := 0; i < min(len(params), len(argTypes)); i++ {
+		if err := bindIntegerParameters(params[i], argTypes[i], symbolTable); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
@@ -410,18 +480,99 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 			return nil, err
 		}
 	}
+	return finalType(m.FinalType, symbolTable, funcParameters, argumentTypes)
+}
+
+// finalType resolves a type expression whose integer parameters have the
+// values in symbolTable.
+func finalType(t FuncDefArgType, symbolTable map[string]any, funcParameters []FuncDefArgType, argumentTypes []Type) (Type, error) {
+	resolve := func(t FuncDefArgType) (Type, error) {
+		return finalType(t, symbolTable, funcParameters, argumentTypes)
+	}
+	resolveAll := func(ts []FuncDefArgType) ([]Type, error) {
+		out := make([]Type, len(ts))
+		for i, t := range ts {
+			var err error
+			if out[i], err = resolve(t); err != nil {
+				return nil, err
+			}
+		}
+		return out, nil
+	}
+	switch t := t.(type) {
+	case *AnyType:
+		return t.ReturnType(funcParameters, argumentTypes)
+	case *ParameterizedListType:
+		elem, err := resolve(t.Type)
+		if err != nil {
+			return nil, err
+		}
+		return &ListType{Nullability: t.Nullability, Type: elem}, nil
+	case *ParameterizedMapType:
+		key, err := resolve(t.Key)
+		if err != nil {
+			return nil, err
+		}
+		value, err := resolve(t.Value)
+		if err != nil {
+			return nil, err
+		}
+		return &MapType{Nullability: t.Nullability, Key: key, Value: value}, nil
+	case *ParameterizedStructType:
+		fields, err := resolveAll(t.Types)
+		if err != nil {
+			return nil, err
+		}
+		return &StructType{Nullability: t.Nullability, Types: fields}, nil
+	case *ParameterizedFuncType:
+		params, err := resolveAll(t.Parameters)
+		if err != nil {
+			return nil, err
+		}
+		ret, err := resolve(t.Return)
+		if err != nil {
+			return nil, err
+		}
+		return &FuncType{Nullability: t.Nullability, ParameterTypes: params, ReturnType: ret}, nil
+	case *ParameterizedUserDefinedType:
+		var params []TypeParam
+		for _, p := range t.TypeParameters {
+			dataParam, ok := p.(*DataTypeUDTParam)
+			if !ok {
+				param, err := p.toTypeParam()
+				if err != nil {
+					return nil, err
+				}
+				params = append(params, param)
+				continue
+			}
+			typ, err := resolve(dataParam.Type)
+			if err != nil {
+				return nil, err
+			}
+			params = append(params, &DataTypeParameter{Type: typ})
+		}
+		return &UserDefinedType{Nullability: t.Nullability, TypeParameters: params}, nil
+	}
 
 	// make slice of parameters for final type
-	parametrizedParams := m.FinalType.GetParameterizedParams()
+	parametrizedParams := t.GetParameterizedParams()
 	params := make([]interface{}, 0, len(parametrizedParams))
 	for _, p := range parametrizedParams {
 		switch param := p.(type) {
 		case *integer_parameters.VariableIntParam:
-			if paramValue, ok := symbolTable[string(*param)]; ok {
-				params = append(params, paramValue)
-			} else {
+			paramValue, ok := symbolTable[string(*param)]
+			if !ok {
 				return nil, fmt.Errorf("parameter %s is not defined", param)
 			}
+			value, err := asInteger(paramValue)
+			if err != nil {
+				return nil, err
+			}
+			if value < math.MinInt32 || value > math.MaxInt32 {
+				return nil, fmt.Errorf("parameter %s has value %d, which is out of range", param, value)
+			}
+			params = append(params, value)
 		case *integer_parameters.ConcreteIntParam:
 			params = append(params, int64(*param))
 		default:
@@ -429,7 +580,7 @@ func (m *OutputDerivation) ReturnType(funcParameters []FuncDefArgType, argumentT
 		}
 	}
 
-	return m.FinalType.WithParameters(params)
+	return t.WithParameters(params)
 }
 
 func (m *OutputDerivation) WithParameters([]interface{}) (Type, error) {
-- 
2.43.0


From 67a40c81ddb81a872a3da6d0da60409a3261cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 013/122] fix: matching a variadic function with too few
 arguments does not panic

---
 extensions/variants.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index e8cb077..9954f2d 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -167,6 +167,9 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 		return false, nil
 	} else if variadicBehavior != nil {
 		numNonVariadicArgs := len(paramTypeList) - 1
+		if numNonVariadicArgs < 0 || len(actualTypes) < numNonVariadicArgs {
+			return false, nil
+		}
 		if !validateVariadicBehaviorForMatch(variadicBehavior, actualTypes[numNonVariadicArgs:]) {
 			return false, nil
 		}
-- 
2.43.0


From 891ae6a877ed1af0cebcfc1bf5603d68ebdd3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:20 +0000
Subject: [PATCH 014/122] fix: shared integer parameters do not switch off the
 check of shared type variables

---
 extensions/variants.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 9954f2d..09577ca 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -189,8 +189,8 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) {
-		return types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes), nil
+	if HasSyncParams(funcDefArgList) && !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+		return false, nil
 	}
 
 	if err := ValidateConstrainedAnyTypeConsistency(funcDefArgList, actualTypes, variadicBehavior); err != nil {
@@ -665,6 +665,10 @@ func getLeafParameterizedParams(abstractTypes interface{}) []string {
 	if leaf, ok := abstractTypes.(integer_parameters.IntegerParameter); ok {
 		return []string{leaf.String()}
 	}
+	// a user defined type's type parameter stands for the type it wraps
+	if udtParam, ok := abstractTypes.(*types.DataTypeUDTParam); ok {
+		abstractTypes = udtParam.Type
+	}
 	// if it is not a leaf type recurse
 	if pat, ok := abstractTypes.(types.FuncDefArgType); ok {
 		var outLeafParams []string
-- 
2.43.0


From 8a50219086f38b9b3575f4bfe373978c7d22c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 015/122] fix: consistent variadic arguments are compared from
 the first one on

---
 extensions/variants.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 09577ca..ee5bf01 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -246,8 +246,7 @@ func validateVariadicBehaviorForMatch(variadicBehavior *VariadicBehavior, actual
 	// verify consistency of variadic behavior
 	if variadicBehavior.ParameterConsistency == ConsistentParams {
 		// all concrete types must be equal for all variable arguments
-		firstVariadicArgIdx := max(variadicBehavior.Min-1, 0)
-		for i := firstVariadicArgIdx; i < len(actualTypes)-1; i++ {
+		for i := 0; i < len(actualTypes)-1; i++ {
 			if !actualTypes[i].Equals(actualTypes[i+1].WithNullability(actualTypes[i].GetNullability())) {
 				return false
 			}
-- 
2.43.0


From 92c9546f9f8517ee1f81b93bbdfa02eed61273fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 016/122] fix: the position check of variadic functions counts
 from the variadic parameter

---
 extensions/variants.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index ee5bf01..00fbb73 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -214,9 +214,15 @@ func matchArgumentAtCommon(actualType types.Type, argPos int, nullability Nullab
 	// check if argument out of range
 	if variadicBehavior == nil && argPos >= len(funcDefArgList) {
 		return false, nil
-	} else if variadicBehavior != nil && !variadicBehavior.IsValidArgumentPosition(argPos) {
+	} else if variadicBehavior != nil {
+		numNonVariadicArgs := len(funcDefArgList) - 1
+		if numNonVariadicArgs < 0 {
+			return false, nil
+		}
 		// this argument position can't be more than the max allowed by the variadic behavior
-		return false, nil
+		if variadicBehavior.Max != 0 && argPos >= numNonVariadicArgs+variadicBehavior.Max {
+			return false, nil
+		}
 	}
 
 	// if argPos is >= len(funcDefArgList) than last funcDefArg type should be considered for type match
-- 
2.43.0


From c555f8390ca31a206139ec87daa54ac80de4c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 017/122] fix: nullability of inconsistent variadic arguments
 counts for the mirrored return type

---
 extensions/variants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 00fbb73..51568bc 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -111,8 +111,8 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		allNonNull = allNonNull && nonNull
 	}
 
-	// validate variadic argument consistency
-	if variadic != nil && len(argumentTypes) > len(funcParameters) && variadic.ParameterConsistency == ConsistentParams {
+	// validate the remaining variadic arguments
+	if variadic != nil && len(funcParameters) > 0 && len(argumentTypes) > len(funcParameters) {
 		nparams := len(funcParameters)
 		lastParam := funcParameters[nparams-1]
 		for i, actual := range argumentTypes[nparams:] {
-- 
2.43.0


From fb0bab77932870440954e99f193a19efdb424ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 018/122] fix: type variables bind inside function and
 user-defined types

---
 extensions/variants.go | 21 +++++++++++++++++++++
 types/any_type.go      | 20 ++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/extensions/variants.go b/extensions/variants.go
index 51568bc..771c382 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -761,6 +761,27 @@ func validateAnyTypeBinding(paramType types.FuncDefArgType, argType types.Type,
 				}
 			}
 		}
+	case *types.ParameterizedFuncType:
+		if funcType, ok := argType.(*types.FuncType); ok && len(funcType.ParameterTypes) == len(p.Parameters) {
+			for i, param := range p.Parameters {
+				if err := validateAnyTypeBinding(param, funcType.ParameterTypes[i], bindings); err != nil {
+					return err
+				}
+			}
+			return validateAnyTypeBinding(p.Return, funcType.ReturnType, bindings)
+		}
+	case *types.ParameterizedUserDefinedType:
+		if udt, ok := argType.(*types.UserDefinedType); ok && len(udt.TypeParameters) == len(p.TypeParameters) {
+			for i, param := range p.TypeParameters {
+				paramType, ok1 := param.(*types.DataTypeUDTParam)
+				arg, ok2 := udt.TypeParameters[i].(*types.DataTypeParameter)
+				if ok1 && ok2 {
+					if err := validateAnyTypeBinding(paramType.Type, arg.Type, bindings); err != nil {
+						return err
+					}
+				}
+			}
+		}
 	}
 	return nil
 }
diff --git a/types/any_type.go b/types/any_type.go
index 4b065b7..d5f17c4 100644
--- a/types/any_type.go
+++ b/types/any_type.go
@@ -114,6 +114,26 @@ func unwrapAnyTypeWithName(name string, p FuncDefArgType, argType Type) (Type, e
 				return pt, nil
 			}
 		}
+	case *ParameterizedUserDefinedType:
+		udt, ok := argType.(*UserDefinedType)
+		if !ok || len(udt.TypeParameters) != len(arg.TypeParameters) {
+			return nil, fmt.Errorf("expected UserDefinedType with %d parameters, found %v",
+				len(arg.TypeParameters), argType)
+		}
+		for i, param := range arg.TypeParameters {
+			paramType, ok1 := param.(*DataTypeUDTParam)
+			typ, ok2 := udt.TypeParameters[i].(*DataTypeParameter)
+			if !ok1 || !ok2 {
+				continue
+			}
+			pt, err := unwrapAnyTypeWithName(name, paramType.Type, typ.Type)
+			if err != nil {
+				return nil, err
+			}
+			if pt != nil {
+				return pt, nil
+			}
+		}
 	}
 	// Didn't find matching AnyType.
 	return nil, nil
-- 
2.43.0


From 7de56b1d1d50588184f6dfbf6d5dd4401990120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 019/122] fix: nested user-defined types in a return type get
 their type reference

---
 extensions/variants.go | 57 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 771c382..2b217c1 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -142,15 +142,9 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 		return nil, err
 	}
 
-	// If the return type expression is a ParameterizedUserDefinedType, we need to
-	// fill in the TypeReference since ParameterizedUserDefinedType.ReturnType()
-	// doesn't have access to the registry to set it itself.
-	// For other types like AnyType, the TypeReference is already correctly set.
-	if udt, ok := outType.(*types.UserDefinedType); ok {
-		if paramUDT, ok := returnTypeExpr.(*types.ParameterizedUserDefinedType); ok {
-			udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: paramUDT.Name, URN: urn})
-		}
-	}
+	// ReturnType() doesn't have access to the registry to set the TypeReference
+	// of user-defined types in the result, so fill them in here.
+	setUserDefinedTypeReferences(urn, returnTypeExpr, outType, registry)
 
 	if nullHandling == MirrorNullability || nullHandling == "" {
 		if allNonNull {
@@ -162,6 +156,51 @@ func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, return
 	return outType, nil
 }
 
+// setUserDefinedTypeReferences sets the TypeReference of every user-defined type
+// in out that the return type expression names, at any nesting depth. Types
+// taken over from an argument (AnyType) already carry their reference.
+func setUserDefinedTypeReferences(urn string, returnTypeExpr types.FuncDefArgType, out types.Type, registry Set) {
+	switch e := returnTypeExpr.(type) {
+	case *types.OutputDerivation:
+		setUserDefinedTypeReferences(urn, e.FinalType, out, registry)
+	case *types.ParameterizedUserDefinedType:
+		udt, ok := out.(*types.UserDefinedType)
+		if !ok {
+			return
+		}
+		udt.TypeReference = registry.GetTypeAnchor(TypeID{Name: e.Name, URN: urn})
+		for i := 0; i < min(len(e.TypeParameters), len(udt.TypeParameters)); i++ {
+			paramType, ok1 := e.TypeParameters[i].(*types.DataTypeUDTParam)
+			typ, ok2 := udt.TypeParameters[i].(*types.DataTypeParameter)
+			if ok1 && ok2 {
+				setUserDefinedTypeReferences(urn, paramType.Type, typ.Type, registry)
+			}
+		}
+	case *types.ParameterizedListType:
+		if list, ok := out.(*types.ListType); ok {
+			setUserDefinedTypeReferences(urn, e.Type, list.Type, registry)
+		}
+	case *types.ParameterizedMapType:
+		if m, ok := out.(*types.MapType); ok {
+			setUserDefinedTypeReferences(urn, e.Key, m.Key, registry)
+			setUserDefinedTypeReferences(urn, e.Value, m.Value, registry)
+		}
+	case *types.ParameterizedStructType:
+		if st, ok := out.(*types.StructType); ok {
+			for i := 0; i < min(len(e.Types), len(st.Types)); i++ {
+				setUserDefinedTypeReferences(urn, e.Types[i], st.Types[i], registry)
+			}
+		}
+	case *types.ParameterizedFuncType:
+		if f, ok := out.(*types.FuncType); ok {
+			for i := 0; i < min(len(e.Parameters), len(f.ParameterTypes)); i++ {
+				setUserDefinedTypeReferences(urn, e.Parameters[i], f.ParameterTypes[i], registry)
+			}
+			setUserDefinedTypeReferences(urn, e.Return, f.ReturnType, registry)
+		}
+	}
+}
+
 func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameterList, variadicBehavior *VariadicBehavior, actualTypes []types.Type) (bool, error) {
 	if variadicBehavior == nil && len(actualTypes) != len(paramTypeList) {
 		return false, nil
-- 
2.43.0


From 05942c37fe9d1bf61a11147497579a64f69f8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 020/122] fix: integer parameters used twice within one
 function parameter have to agree as well

---
 extensions/variants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index 2b217c1..d90dbfd 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -228,7 +228,7 @@ func matchArguments(nullability NullabilityHandling, paramTypeList FuncParameter
 			return false, nil
 		}
 	}
-	if HasSyncParams(funcDefArgList) && !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
+	if !types.AreSyncTypeParametersMatching(funcDefArgList, actualTypes) {
 		return false, nil
 	}
 
-- 
2.43.0


From efe47743f8816ecac80c66dec42c0288e91566de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 021/122] fix: characters that belong to no token make a type
 expression invalid

---
 types/parser/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types/parser/parse.go b/types/parser/parse.go
index fc79c36..06208ba 100644
--- a/types/parser/parse.go
+++ b/types/parser/parse.go
@@ -44,6 +44,7 @@ func ParseType(input string) (types.FuncDefArgType, error) {
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser2.NewSubstraitTypeParser(stream)
 	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From d87c94089b6729d085cc845e7e20091b0ec21108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 022/122] fix: integer parameters of user-defined types are
 compared without truncation

---
 types/parameterized_user_defined_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/parameterized_user_defined_type.go b/types/parameterized_user_defined_type.go
index 91aecfc..420dd75 100644
--- a/types/parameterized_user_defined_type.go
+++ b/types/parameterized_user_defined_type.go
@@ -69,7 +69,7 @@ func (i *IntegerUDTParam) toTypeParam() (TypeParam, error) {
 
 func (i *IntegerUDTParam) MatchWithoutNullability(param TypeParam) bool {
 	if intParam, ok := param.(IntegerParameter); ok {
-		return i.Integer == int32(intParam)
+		return int64(i.Integer) == int64(intParam)
 	}
 	return false
 }
-- 
2.43.0


From 5579bb53ddea71283f5d45ab1577f3253489112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 023/122] fix: malformed function arguments in an extension
 file are refused instead of panicking

---
 extensions/simple_extension.go | 76 ++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 31 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index 5a4a259..c34a5d6 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -114,6 +114,30 @@ func (v TypeArg) GetTypeExpression() types.FuncDefArgType {
 
 type FuncParameterList []FuncParameter
 
+// yamlField returns the field of a function argument, or the zero value if the argument doesn't have it.
+func yamlField[T any](arg map[string]any, key string) (out T, err error) {
+	v, ok := arg[key]
+	if !ok || v == nil {
+		return out, nil
+	}
+	out, ok = v.(T)
+	if !ok {
+		return out, fmt.Errorf("%w: %s of a function argument must not be %v", substraitgo.ErrInvalidSimpleExtention, key, v)
+	}
+	return out, nil
+}
+
+func unmarshalTypeField(t *parser.TypeExpression, val any) error {
+	return t.UnmarshalYAML(func(v any) error {
+		rv := reflect.ValueOf(v)
+		if val == nil || rv.Type().Kind() != reflect.Ptr {
+			return substraitgo.ErrInvalidType
+		}
+		rv.Elem().Set(reflect.ValueOf(val))
+		return nil
+	})
+}
+
 func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 	var args []map[string]any
 	if err := fn(&args); err != nil {
@@ -122,21 +146,25 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 
 	*a = make(FuncParameterList, len(args))
 	for i, arg := range args {
-		var (
-			name, desc string
-		)
-		if n, ok := arg["name"]; ok {
-			name = n.(string)
+		name, err := yamlField[string](arg, "name")
+		if err != nil {
+			return err
 		}
-		if d, ok := arg["description"]; ok {
-			desc = d.(string)
+		desc, err := yamlField[string](arg, "description")
+		if err != nil {
+			return err
 		}
 
-		if opt, ok := arg["options"]; ok {
-			vals := opt.([]any)
+		if _, ok := arg["options"]; ok {
+			vals, err := yamlField[[]any](arg, "options")
+			if err != nil {
+				return err
+			}
 			values := make([]string, len(vals))
 			for j, v := range vals {
-				values[j] = v.(string)
+				if values[j], ok = v.(string); !ok {
+					return fmt.Errorf("%w: enum option %v of a function argument is not a string", substraitgo.ErrInvalidSimpleExtention, v)
+				}
 			}
 			(*a)[i] = EnumArg{
 				Name:        name,
@@ -144,9 +172,9 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Options:     values,
 			}
 		} else if val, ok := arg["value"]; ok {
-			var constant bool
-			if c, ok := arg["constant"]; ok {
-				constant = c.(bool)
+			constant, err := yamlField[bool](arg, "constant")
+			if err != nil {
+				return err
 			}
 
 			arg := ValueArg{
@@ -155,15 +183,7 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Value:       new(parser.TypeExpression),
 				Constant:    constant,
 			}
-			err := arg.Value.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(val))
-				return nil
-			})
-			if err != nil {
+			if err := unmarshalTypeField(arg.Value, val); err != nil {
 				return fmt.Errorf("failure reading YAML %v", err)
 			}
 
@@ -175,19 +195,13 @@ func (a *FuncParameterList) UnmarshalYAML(fn func(interface{}) error) error {
 				Description: desc,
 				Type:        new(parser.TypeExpression),
 			}
-			err := arg.Type.UnmarshalYAML(func(v any) error {
-				rv := reflect.ValueOf(v)
-				if rv.Type().Kind() != reflect.Ptr {
-					return substraitgo.ErrInvalidType
-				}
-				rv.Elem().Set(reflect.ValueOf(typ))
-				return nil
-			})
-			if err != nil {
+			if err := unmarshalTypeField(arg.Type, typ); err != nil {
 				return fmt.Errorf("failure reading YAML %v", err)
 			}
 
 			(*a)[i] = arg
+		} else {
+			return fmt.Errorf("%w: function argument %d has neither options nor a value nor a type", substraitgo.ErrInvalidSimpleExtention, i)
 		}
 	}
 
-- 
2.43.0


From e1e25f13700a3ab6c30d0f499e97b62c14c34706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 024/122] fix: resolving the type of a function declared
 without a return type is an error, not a panic

---
 extensions/simple_extension.go | 8 ++++++++
 extensions/variants.go         | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/extensions/simple_extension.go b/extensions/simple_extension.go
index c34a5d6..43453b3 100644
--- a/extensions/simple_extension.go
+++ b/extensions/simple_extension.go
@@ -257,6 +257,14 @@ type ScalarFunctionImpl struct {
 	Implementation   map[string]string      `yaml:",omitempty"`
 }
 
+// returnType is the declared return type, nil if none was declared.
+func (s *ScalarFunctionImpl) returnType() types.FuncDefArgType {
+	if s.Return == nil {
+		return nil
+	}
+	return s.Return.ValueType
+}
+
 func (s *ScalarFunctionImpl) signatureKey() string {
 	var b strings.Builder
 	for i, a := range s.Args {
diff --git a/extensions/variants.go b/extensions/variants.go
index d90dbfd..a58b5a5 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -84,6 +84,9 @@ func validateType(funcParameter FuncParameter, actual types.Type, idx int, nullH
 //	registry: the Set of extensions to look up/add user defined types to
 func EvaluateTypeExpression(urn string, nullHandling NullabilityHandling, returnTypeExpr types.FuncDefArgType,
 	funcParameters FuncParameterList, variadic *VariadicBehavior, argumentTypes []types.Type, registry Set) (types.Type, error) {
+	if returnTypeExpr == nil {
+		return nil, fmt.Errorf("%w: function does not declare a return type", substraitgo.ErrInvalidSimpleExtention)
+	}
 	if variadic != nil {
 		numVariadicArgs := len(argumentTypes) - (len(funcParameters) - 1)
 		if numVariadicArgs < 0 {
@@ -400,7 +403,7 @@ func (s *ScalarFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *ScalarFunctionVariant) URN() string                      { return s.urn }
 func (s *ScalarFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -514,7 +517,7 @@ func (s *AggregateFunctionVariant) Nullability() NullabilityHandling { return s.
 func (s *AggregateFunctionVariant) URN() string                      { return s.urn }
 func (s *AggregateFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
@@ -636,7 +639,7 @@ func (s *WindowFunctionVariant) Nullability() NullabilityHandling { return s.imp
 func (s *WindowFunctionVariant) URN() string                      { return s.urn }
 func (s *WindowFunctionVariant) Metadata() map[string]any         { return s.metadata }
 func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry Set) (types.Type, error) {
-	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.Return.ValueType, s.impl.Args, s.impl.Variadic, argumentTypes, registry)
+	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
 	return s.name + ":" + s.impl.signatureKey()
-- 
2.43.0


From 3964eb7bc8507ab426cde33bbdf9d7f15e392df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 025/122] fix: a plain function name resolves exactly when it
 denotes one signature in its file

---
 extensions/extension_mgr.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index 2d7901c..c9ae2e7 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -154,20 +154,17 @@ type extFn[T variants] interface {
 	GetVariants(urn string) []T
 }
 
-func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, simpleMap map[string]string) {
-	variants := fn.GetVariants(id.URN)
-	for _, v := range variants {
+// addToMaps makes the implementations of a function findable by their compound name and
+// notes for the plain name which compound names it stands for.
+func addToMaps[T variants](id FunctionID, fn extFn[T], m map[FunctionID]T, compoundNames map[string]map[string]struct{}) {
+	for _, v := range fn.GetVariants(id.URN) {
 		id.Name = v.CompoundName()
 		m[id] = v
-	}
 
-	if len(variants) == 1 {
-		v := variants[0]
-		if _, ok := simpleMap[v.Name()]; ok {
-			delete(simpleMap, v.Name())
-		} else {
-			simpleMap[v.Name()] = v.CompoundName()
+		if compoundNames[v.Name()] == nil {
+			compoundNames[v.Name()] = make(map[string]struct{})
 		}
+		compoundNames[v.Name()][v.CompoundName()] = void
 	}
 }
 
@@ -252,7 +249,7 @@ func (c *Collection) Load(r io.Reader) error {
 	// if there is only one implementation for a given function
 	// it should be findable by its simple name in addition to the
 	// compound name.
-	simpleNames := make(map[string]string)
+	simpleNames := make(map[string]map[string]struct{})
 
 	for _, f := range file.ScalarFunctions {
 		if err := defaults.Set(&f); err != nil {
@@ -299,9 +296,14 @@ func (c *Collection) Load(r io.Reader) error {
 	}
 
 	// add simple name aliases
-	for k, v := range simpleNames {
-		id.Name = k
-		c.simpleNameMap[id] = v
+	for name, compoundNames := range simpleNames {
+		if len(compoundNames) != 1 {
+			continue
+		}
+		id.Name = name
+		for compoundName := range compoundNames {
+			c.simpleNameMap[id] = compoundName
+		}
 	}
 
 	return nil
-- 
2.43.0


From d0963197d708a21515777506c7bbd9a666a3a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 026/122] fix: a declared window function is not replaced by
 the aggregate function of the same signature

---
 extensions/extension_mgr.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/extensions/extension_mgr.go b/extensions/extension_mgr.go
index c9ae2e7..db84a4f 100644
--- a/extensions/extension_mgr.go
+++ b/extensions/extension_mgr.go
@@ -265,14 +265,8 @@ func (c *Collection) Load(r io.Reader) error {
 		addToMaps[*AggregateFunctionVariant](id, &f, c.aggregateMap, simpleNames)
 	}
 
-	for _, f := range file.WindowFunctions {
-		if err := defaults.Set(&f); err != nil {
-			return fmt.Errorf("failure setting defaults for window functions: %w", err)
-		}
-		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, simpleNames)
-	}
-
-	// Aggregate functions can be used as Window Functions
+	// Aggregate functions can be used as Window Functions, unless the file
+	// declares that window function itself: those are added last.
 	for _, f := range file.AggregateFunctions {
 		// Convert each aggregate implementation to a window implementation
 		windowImpls := make([]WindowFunctionImpl, len(f.Impls))
@@ -295,6 +289,13 @@ func (c *Collection) Load(r io.Reader) error {
 		addToMaps[*WindowFunctionVariant](id, &wf, c.windowMap, simpleNames)
 	}
 
+	for _, f := range file.WindowFunctions {
+		if err := defaults.Set(&f); err != nil {
+			return fmt.Errorf("failure setting defaults for window functions: %w", err)
+		}
+		addToMaps[*WindowFunctionVariant](id, &f, c.windowMap, simpleNames)
+	}
+
 	// add simple name aliases
 	for name, compoundNames := range simpleNames {
 		if len(compoundNames) != 1 {
-- 
2.43.0


From bb1520941879e377df6107c0a91acef25db0a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:01 +0000
Subject: [PATCH 027/122] fix: the two representations of the interval_year
 type compare equal

---
 types/interval_year_month_type.go | 7 ++++++-
 types/types.go                    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/types/interval_year_month_type.go b/types/interval_year_month_type.go
index 9300fd4..e8f769f 100644
--- a/types/interval_year_month_type.go
+++ b/types/interval_year_month_type.go
@@ -35,8 +35,13 @@ func (m IntervalYearToMonthType) GetType() Type                     { return m }
 func (m IntervalYearToMonthType) GetNullability() Nullability       { return m.nullability }
 func (m IntervalYearToMonthType) GetTypeVariationReference() uint32 { return m.typeVariationRef }
 func (m IntervalYearToMonthType) Equals(rhs Type) bool {
-	if o, ok := rhs.(IntervalYearToMonthType); ok {
+	switch o := rhs.(type) {
+	case IntervalYearToMonthType:
 		return o == m
+	case *IntervalYearToMonthType:
+		return *o == m
+	case *IntervalYearType: // the same data type in its other representation
+		return o.Nullability == m.nullability && o.TypeVariationRef == m.typeVariationRef
 	}
 	return false
 }
diff --git a/types/types.go b/types/types.go
index b538706..4333402 100644
--- a/types/types.go
+++ b/types/types.go
@@ -890,8 +890,13 @@ func (s *PrimitiveType[T]) GetType() Type                     { return s }
 func (s *PrimitiveType[T]) GetNullability() Nullability       { return s.Nullability }
 func (s *PrimitiveType[T]) GetTypeVariationReference() uint32 { return s.TypeVariationRef }
 func (s *PrimitiveType[T]) Equals(rhs Type) bool {
-	if o, ok := rhs.(*PrimitiveType[T]); ok {
+	switch o := rhs.(type) {
+	case *PrimitiveType[T]:
 		return *o == *s
+	case IntervalYearToMonthType:
+		return o.Equals(s)
+	case *IntervalYearToMonthType:
+		return o.Equals(s)
 	}
 
 	return false
-- 
2.43.0


From 1d04d9bf40e8096280bded89a057754f0ebbf19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 028/122] fix: interval and precision time literals keep their
 type variation

---
 expr/interval_compound_literal.go |  6 ++++--
 expr/interval_year_to_month.go    | 11 +++++++----
 expr/literals.go                  | 29 ++++++++++++++++++++++++++---
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index ec9790b..a698306 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -17,10 +17,12 @@ type IntervalCompoundLiteral struct {
 	SubSeconds         int64
 	SubSecondPrecision types.TimePrecision
 	Nullability        types.Nullability
+	// TypeVariationRef is the type variation of the literal's type, 0 for none.
+	TypeVariationRef uint32
 }
 
 func (m IntervalCompoundLiteral) getType() types.Type {
-	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithNullability(m.Nullability)
+	return types.NewIntervalCompoundType().WithPrecision(m.SubSecondPrecision).WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -59,7 +61,7 @@ func (m IntervalCompoundLiteral) ToProto() *proto.Expression {
 }
 
 func intervalCompoundLiteralFromProto(l *proto.Expression_Literal) Literal {
-	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable)}
+	icLiteral := IntervalCompoundLiteral{Nullability: getNullability(l.Nullable), TypeVariationRef: l.TypeVariationReference}
 	yearToMonth := l.GetIntervalCompound().GetIntervalYearToMonth()
 	if yearToMonth != nil {
 		icLiteral.Years = yearToMonth.Years
diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index 8006aa5..c79d938 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -12,10 +12,12 @@ type IntervalYearToMonthLiteral struct {
 	Years       int32
 	Months      int32
 	Nullability types.Nullability
+	// TypeVariationRef is the type variation of the literal's type, 0 for none.
+	TypeVariationRef uint32
 }
 
 func (m IntervalYearToMonthLiteral) getType() types.Type {
-	return types.NewIntervalYearToMonthType().WithNullability(m.Nullability)
+	return types.NewIntervalYearToMonthType().WithTypeVariationRef(m.TypeVariationRef).WithNullability(m.Nullability)
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoLiteral() *proto.Expression_Literal {
@@ -40,9 +42,10 @@ func (m IntervalYearToMonthLiteral) ToProto() *proto.Expression {
 
 func intervalYearToMonthLiteralFromProto(l *proto.Expression_Literal) Literal {
 	return IntervalYearToMonthLiteral{
-		Years:       l.GetIntervalYearToMonth().Years,
-		Months:      l.GetIntervalYearToMonth().Months,
-		Nullability: getNullability(l.Nullable),
+		Years:            l.GetIntervalYearToMonth().Years,
+		Months:           l.GetIntervalYearToMonth().Months,
+		Nullability:      getNullability(l.Nullable),
+		TypeVariationRef: l.TypeVariationReference,
 	}
 }
 
diff --git a/expr/literals.go b/expr/literals.go
index f43e5cc..e947fba 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1238,7 +1238,14 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTime.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimeLiteral(precTime.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTime.Value,
+			Type: &types.PrecisionTimeType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestamp_:
 		precTimeStamp := lit.PrecisionTimestamp
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
@@ -1248,7 +1255,14 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTimeStamp.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimestampLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampType{
+				Precision:        precision,
+				Nullability:      nullability,
+				TypeVariationRef: l.TypeVariationReference,
+			},
+		}
 	case *proto.Expression_Literal_PrecisionTimestampTz:
 		precTimeStamp := lit.PrecisionTimestampTz
 		precision, err := types.ProtoToTimePrecision(precTimeStamp.Precision)
@@ -1258,7 +1272,16 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if precTimeStamp.Value < 0 {
 			return nil
 		}
-		return NewPrecisionTimestampTzLiteral(precTimeStamp.Value, precision, nullability)
+		return &ProtoLiteral{
+			Value: precTimeStamp.Value,
+			Type: &types.PrecisionTimestampTzType{
+				PrecisionTimestampType: types.PrecisionTimestampType{
+					Precision:        precision,
+					Nullability:      nullability,
+					TypeVariationRef: l.TypeVariationReference,
+				},
+			},
+		}
 	case *proto.Expression_Literal_IntervalYearToMonth_:
 		return intervalYearToMonthLiteralFromProto(l)
 	case *proto.Expression_Literal_IntervalCompound_:
-- 
2.43.0


From 851463d64db697cdf9ec926bd0d646af38f94725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:41 +0000
Subject: [PATCH 029/122] fix: timestamps before the epoch are read

---
 expr/literals.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index e947fba..882a027 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1252,9 +1252,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return &ProtoLiteral{
 			Value: precTimeStamp.Value,
 			Type: &types.PrecisionTimestampType{
@@ -1269,9 +1266,6 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		if err != nil {
 			return nil
 		}
-		if precTimeStamp.Value < 0 {
-			return nil
-		}
 		return &ProtoLiteral{
 			Value: precTimeStamp.Value,
 			Type: &types.PrecisionTimestampTzType{
-- 
2.43.0


From 51070108884b2fc91773d994d5facceeeef0819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 030/122] fix: the length of a fixed_char or varchar literal
 counts characters, not bytes

---
 expr/literals.go | 7 ++++---
 literal/utils.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 882a027..c7d710d 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -13,6 +13,7 @@ import (
 	"slices"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/google/uuid"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
@@ -714,7 +715,7 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 	if _, ok := literal.GetType().(*types.VarCharType); !ok {
 		return nil, fmt.Errorf("literal type is not varchar")
 	}
-	if len(literal.Value.(string)) > int(vcharType.GetLength()) {
+	if utf8.RuneCountInString(literal.Value.(string)) > int(vcharType.GetLength()) {
 		return nil, fmt.Errorf("varchar literal value length is greater than type length")
 	}
 	return &ProtoLiteral{Value: literal.Value, Type: vcharType}, nil
@@ -797,7 +798,7 @@ func NewFixedCharLiteral(val types.FixedChar, nullable bool) *PrimitiveLiteral[t
 		Value: val,
 		Type: &types.FixedCharType{
 			Nullability: getNullability(nullable),
-			Length:      int32(len(val)),
+			Length:      int32(utf8.RuneCountInString(string(val))),
 		},
 	}
 }
@@ -1109,7 +1110,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		return &PrimitiveLiteral[types.FixedChar]{
 			Value: types.FixedChar(lit.FixedChar),
 			Type: &types.FixedCharType{
-				Length:           int32(len(lit.FixedChar)),
+				Length:           int32(utf8.RuneCountInString(lit.FixedChar)),
 				TypeVariationRef: l.TypeVariationReference,
 				Nullability:      nullability,
 			}}
diff --git a/literal/utils.go b/literal/utils.go
index 01041fe..77bda69 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cockroachdb/apd/v3"
 	"github.com/google/uuid"
@@ -295,7 +296,7 @@ func NewFixedBinary(value []byte, nullable bool) (expr.Literal, error) {
 }
 
 func NewVarChar(value string, nullable bool) (expr.Literal, error) {
-	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(len(value))}, nullable)
+	return expr.NewLiteral(&types.VarChar{Value: value, Length: uint32(utf8.RuneCountInString(value))}, nullable)
 }
 
 // NewDecimalFromTwosComplement create a Decimal literal from twosComplement.
-- 
2.43.0


From 87628a81e17f89cdcbb594a8caf06d7f3c96b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 031/122] fix: a NaN literal equals itself

---
 expr/literals.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index c7d710d..8b8f48f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -225,7 +225,9 @@ func (t *PrimitiveLiteral[T]) ToProto() *proto.Expression {
 
 func (t *PrimitiveLiteral[T]) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*PrimitiveLiteral[T]); ok {
-		return t.Type.Equals(other.Type) && t.Value == other.Value
+		// a NaN literal is the same literal as another NaN literal
+		return t.Type.Equals(other.Type) &&
+			(t.Value == other.Value || (t.Value != t.Value && other.Value != other.Value))
 	}
 	return false
 }
-- 
2.43.0


From 50d32e7f065462ed06bf21a69a8ac21bd25b3251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:01 +0000
Subject: [PATCH 032/122] fix: literals held as messages compare by content in
 either representation

---
 expr/interval_year_to_month.go | 25 ++++++++++++++++++++++---
 expr/literals.go               |  7 +++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/expr/interval_year_to_month.go b/expr/interval_year_to_month.go
index c79d938..d0925b0 100644
--- a/expr/interval_year_to_month.go
+++ b/expr/interval_year_to_month.go
@@ -58,10 +58,29 @@ func (m IntervalYearToMonthLiteral) ValueString() string {
 	return fmt.Sprintf("%d years, %d months", m.Years, m.Months)
 }
 func (m IntervalYearToMonthLiteral) Equals(rhs Expression) bool {
-	if other, ok := rhs.(IntervalYearToMonthLiteral); ok {
-		return m.getType().Equals(other.GetType()) && (m == other)
+	other, ok := intervalYearToMonthOf(rhs)
+	return ok && m == other
+}
+
+// intervalYearToMonthOf returns the interval a literal denotes, in whichever
+// representation it is.
+func intervalYearToMonthOf(e Expression) (IntervalYearToMonthLiteral, bool) {
+	switch l := e.(type) {
+	case IntervalYearToMonthLiteral:
+		return l, true
+	case *IntervalYearToMonthLiteral:
+		return *l, true
+	case *ProtoLiteral:
+		if v, ok := l.Value.(*types.IntervalYearToMonth); ok {
+			return IntervalYearToMonthLiteral{
+				Years:            v.GetYears(),
+				Months:           v.GetMonths(),
+				Nullability:      l.Type.GetNullability(),
+				TypeVariationRef: l.Type.GetTypeVariationReference(),
+			}, true
+		}
 	}
-	return false
+	return IntervalYearToMonthLiteral{}, false
 }
 
 func (m IntervalYearToMonthLiteral) ToProtoFuncArg() *proto.FunctionArgument {
diff --git a/expr/literals.go b/expr/literals.go
index 8b8f48f..23f4a99 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -9,7 +9,6 @@ import (
 	"encoding/hex"
 	"fmt"
 	"math"
-	"reflect"
 	"slices"
 	"strings"
 	"time"
@@ -19,6 +18,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	protobuf "google.golang.org/protobuf/proto"
 )
 
 // PrimitiveLiteralValue is a type constraint that represents
@@ -686,7 +686,10 @@ func (t *ProtoLiteral) ToProto() *proto.Expression {
 func (t *ProtoLiteral) Equals(rhs Expression) bool {
 	if other, ok := rhs.(*ProtoLiteral); ok {
 		return t.Type.Equals(other.Type) &&
-			reflect.DeepEqual(t.Value, other.Value)
+			protobuf.Equal(t.ToProtoLiteral(), other.ToProtoLiteral())
+	}
+	if ym, ok := intervalYearToMonthOf(t); ok {
+		return ym.Equals(rhs)
 	}
 	return false
 }
-- 
2.43.0


From 5f7ada89a47995ce176682d69ef172b24df3bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 033/122] fix: a compound interval literal without days and
 seconds keeps its precision

---
 expr/interval_compound_literal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/interval_compound_literal.go b/expr/interval_compound_literal.go
index a698306..17eb701 100644
--- a/expr/interval_compound_literal.go
+++ b/expr/interval_compound_literal.go
@@ -37,7 +37,8 @@ func (m IntervalCompoundLiteral) ToProtoLiteral() *proto.Expression_Literal {
 		intrCompPB.IntervalYearToMonth = yearToMonthProto
 	}
 
-	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 {
+	// the precision of the type is stated by this part alone
+	if m.Days != 0 || m.Seconds != 0 || m.SubSeconds != 0 || m.SubSecondPrecision != types.PrecisionSeconds {
 		dayToSecondProto := &proto.Expression_Literal_IntervalDayToSecond{
 			Days:          m.Days,
 			Seconds:       m.Seconds,
-- 
2.43.0


From d5cd04cca32fe95864e91a853993f88baae09e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 034/122] fix: an interval literal stated in microseconds has
 the precision of microseconds

---
 expr/literals.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 23f4a99..2faef70 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -951,11 +951,15 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 			},
 		}, nil
 	case *types.IntervalDayToSecond:
+		precision := types.PrecisionMicroSeconds // unless stated otherwise
+		if mode, ok := v.PrecisionMode.(*proto.Expression_Literal_IntervalDayToSecond_Precision); ok {
+			precision = types.TimePrecision(mode.Precision)
+		}
 		return &ProtoLiteral{
 			Value: v,
 			Type: &types.IntervalDayType{
 				Nullability: getNullability(nullable),
-				Precision:   types.TimePrecision(v.GetPrecision()),
+				Precision:   precision,
 			},
 		}, nil
 	case *types.Decimal:
-- 
2.43.0


From 26856e5cb613029d1c42115d86e3a559920dfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:08 +0000
Subject: [PATCH 035/122] fix: time values round towards the past at every
 precision and out-of-range ones are refused

---
 expr/literals.go | 15 ++++++++++---
 literal/utils.go | 18 +++++++++++++---
 types/types.go   | 56 +++++++++++++++++++++++++++++-------------------
 3 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 2faef70..5e57e95 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -728,7 +728,10 @@ func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Li
 
 func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTimeType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimeType); ok {
-		value := types.GetTimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		value, err := types.TimeValueByPrecision(types.Time(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision time")
@@ -736,7 +739,10 @@ func newPrecisionTimeWithType(literal *ProtoLiteral, ptType *types.PrecisionTime
 
 func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.PrecisionTimestampType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		value, err := types.TimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptsType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptsType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp")
@@ -744,7 +750,10 @@ func newPrecisionTimestampWithType(literal *ProtoLiteral, ptsType *types.Precisi
 
 func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.PrecisionTimestampTzType) (Literal, error) {
 	if litType, ok := literal.GetType().(*types.PrecisionTimestampTzType); ok {
-		value := types.GetTimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		value, err := types.TimeValueByPrecision(types.Timestamp(literal.Value.(int64)).ToPrecisionTime(litType.Precision), ptstzType.Precision)
+		if err != nil {
+			return nil, err
+		}
 		return &ProtoLiteral{Value: value, Type: ptstzType}, nil
 	}
 	return nil, fmt.Errorf("literal type is not precision timestamp tz")
diff --git a/literal/utils.go b/literal/utils.go
index 77bda69..63d7acf 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -344,7 +344,11 @@ var epochTM = time.Unix(0, 0).UTC()
 func NewPrecisionTimeFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
 	// truncate the date so that we only keep the duration since midnight
 	tm = epochTM.Add(tm.Sub(tm.Truncate(24 * time.Hour)))
-	return NewPrecisionTime(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTime(precision, value, nullable)
 }
 
 func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nullable bool) (expr.Literal, error) {
@@ -357,7 +361,11 @@ func NewPrecisionTimeFromString(precision types.TimePrecision, value string, nul
 
 // NewPrecisionTimestampFromTime creates a new PrecisionTimestamp literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestamp(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestamp(precision, value, nullable)
 }
 
 // NewPrecisionTimestamp creates a new PrecisionTimestamp literal with given precision and value.
@@ -380,7 +388,11 @@ func NewPrecisionTimestampFromString(precision types.TimePrecision, value string
 
 // NewPrecisionTimestampTzFromTime creates a new PrecisionTimestampTz literal from a time.Time timestamp value with given precision.
 func NewPrecisionTimestampTzFromTime(precision types.TimePrecision, tm time.Time, nullable bool) (expr.Literal, error) {
-	return NewPrecisionTimestampTz(precision, types.GetTimeValueByPrecision(tm, precision), nullable)
+	value, err := types.TimeValueByPrecision(tm, precision)
+	if err != nil {
+		return nil, err
+	}
+	return NewPrecisionTimestampTz(precision, value, nullable)
 }
 
 // NewPrecisionTimestampTz creates a new PrecisionTimestampTz literal with given precision and value.
diff --git a/types/types.go b/types/types.go
index 4333402..c8e69c4 100644
--- a/types/types.go
+++ b/types/types.go
@@ -6,6 +6,7 @@ package types
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -1907,29 +1908,40 @@ func (t TimestampTz) ToIsoTimeString() string {
 	return tm.UTC().Format("2006-01-02T15:04:05.999999999")
 }
 
+// GetTimeValueByPrecision returns the time as the number of units of the given
+// precision since the epoch, rounded towards the past. The result wraps around
+// if the time has no 64-bit value at that precision: use TimeValueByPrecision
+// to detect it.
 func GetTimeValueByPrecision(tm time.Time, precision TimePrecision) int64 {
-	switch precision {
-	case PrecisionSeconds:
-		return tm.Unix()
-	case PrecisionDeciSeconds:
-		return tm.UnixMilli() / 100
-	case PrecisionCentiSeconds:
-		return tm.UnixMilli() / 10
-	case PrecisionMilliSeconds:
-		return tm.UnixMilli()
-	case PrecisionEMinus4Seconds:
-		return tm.UnixMicro() / 100
-	case PrecisionEMinus5Seconds:
-		return tm.UnixMicro() / 10
-	case PrecisionMicroSeconds:
-		return tm.UnixMicro()
-	case PrecisionEMinus7Seconds:
-		return tm.UnixNano() / 100
-	case PrecisionEMinus8Seconds:
-		return tm.UnixNano() / 10
-	case PrecisionNanoSeconds:
-		return tm.UnixNano()
-	default:
+	value, _ := timeUnits(tm, precision)
+	return value
+}
+
+// TimeValueByPrecision is GetTimeValueByPrecision, and fails if the time has no
+// 64-bit value at that precision.
+func TimeValueByPrecision(tm time.Time, precision TimePrecision) (int64, error) {
+	value, ok := timeUnits(tm, precision)
+	if !ok {
+		return 0, fmt.Errorf("time %s cannot be represented with precision %d", tm.UTC().Format(time.RFC3339Nano), precision)
+	}
+	return value, nil
+}
+
+func timeUnits(tm time.Time, precision TimePrecision) (value int64, ok bool) {
+	if precision < PrecisionSeconds || precision > PrecisionNanoSeconds {
 		panic(fmt.Sprintf("unknown TimePrecision %v", precision))
 	}
+	unitsPerSecond := int64(1)
+	for range precision {
+		unitsPerSecond *= 10
+	}
+	seconds, units := tm.Unix(), int64(tm.Nanosecond())/(int64(time.Second)/unitsPerSecond)
+	if seconds < 0 && units > 0 {
+		// keep the product in range for the earliest times
+		seconds, units = seconds+1, units-unitsPerSecond
+	}
+	value = seconds*unitsPerSecond + units
+	ok = seconds <= math.MaxInt64/unitsPerSecond && seconds >= math.MinInt64/unitsPerSecond &&
+		(value < 0) == (seconds < 0 || units < 0)
+	return value, ok
 }
-- 
2.43.0


From 29bc7d34d5ba16a10d5ff2dcc027453ebe23f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 036/122] fix: decimals of zero, of 38 fraction digits and
 non-finite ones

---
 expr/decimal_util.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/expr/decimal_util.go b/expr/decimal_util.go
index 53886a1..481abc9 100644
--- a/expr/decimal_util.go
+++ b/expr/decimal_util.go
@@ -43,21 +43,31 @@ func DecimalToBytes(dec *apd.Decimal) ([16]byte, int32, int32, error) {
 		scale     int32
 	)
 
-	if dec.Exponent > 0 {
-		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
-		scale = 0
+	if dec.Form != apd.Finite {
+		return result, 0, 0, fmt.Errorf("%s is not a decimal number", dec.String())
+	}
+	digits, exponent := apd.NumDigits(&dec.Coeff), int64(dec.Exponent)
+	if dec.Coeff.Sign() == 0 {
+		// zero is zero whatever the power of ten it is multiplied by
+		exponent = min(exponent, 0)
+	}
+	minPrecision := digits
+	if exponent > 0 {
+		minPrecision += exponent
 	} else {
-		scale = -dec.Exponent
-		precision = max(int32(apd.NumDigits(&dec.Coeff)), scale+1)
+		scale = int32(-exponent)
+		// one digit before the point, where there is room for it
+		minPrecision = max(digits, min(-exponent+1, 38), -exponent)
 	}
-	if precision > 38 {
-		return result, precision, scale, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), precision)
+	if minPrecision > 38 {
+		return result, 0, 0, fmt.Errorf("number %s exceeds maximum precision of 38 (%d)", dec.String(), minPrecision)
 	}
+	precision = int32(minPrecision)
 
-	coefficient := dec.Coeff
-	if dec.Exponent > 0 {
+	coefficient := new(apd.BigInt).Set(&dec.Coeff)
+	if exponent > 0 {
 		// Multiply coefficient by 10^exponent.
-		multiplier := apd.NewBigInt(1).Exp(apd.NewBigInt(10), apd.NewBigInt(int64(dec.Exponent)), nil)
+		multiplier := apd.NewBigInt(1).Exp(apd.NewBigInt(10), apd.NewBigInt(exponent), nil)
 		coefficient.Mul(&dec.Coeff, multiplier)
 	}
 	// Convert the coefficient to a byte array.
@@ -120,6 +130,9 @@ func modifyDecimalPrecisionAndScale(decimalBytes [16]byte, scale, targetPrecisio
 	if targetPrecision > 38 {
 		return result, 0, 0, fmt.Errorf("target precision %d exceeds maximum allowed precision of 38", targetPrecision)
 	}
+	if targetPrecision < 1 || targetScale < 0 || targetScale > targetPrecision {
+		return result, 0, 0, fmt.Errorf("invalid target precision %d and scale %d", targetPrecision, targetScale)
+	}
 
 	isNegative := decimalBytes[15]&0x80 != 0
 
@@ -188,6 +201,9 @@ func validatePrecisionAndScale(dec *apd.Decimal, targetPrecision int32, targetSc
 }
 
 func getMinimumPrecisionAndScale(dec *apd.Decimal) (precision int32, scale int32) {
+	if dec.Coeff.Sign() == 0 {
+		return 0, 0
+	}
 	if dec.Exponent > 0 {
 		precision = int32(apd.NumDigits(&dec.Coeff)) + dec.Exponent
 		scale = 0
-- 
2.43.0


From 1dd6c8052e8d3b090b766d7a12b4006ec4d8d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 037/122] fix: decimal literal WithType keeps the given type

---
 expr/literals.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 5e57e95..6f9f85f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -709,11 +709,11 @@ func newDecimalWithType(literal *ProtoLiteral, decType *types.DecimalType) (Lite
 		return nil, fmt.Errorf("literal type is not decimal")
 	}
 	inDecimalBytes := [16]byte(literal.Value.([]byte))
-	decimalBytes, precision, scale, err := modifyDecimalPrecisionAndScale(inDecimalBytes, litType.Scale, decType.Precision, decType.Scale)
+	decimalBytes, _, _, err := modifyDecimalPrecisionAndScale(inDecimalBytes, litType.Scale, decType.Precision, decType.Scale)
 	if err != nil {
 		return nil, err
 	}
-	return NewLiteral[*types.Decimal](&types.Decimal{Value: decimalBytes[:16], Precision: precision, Scale: scale}, decType.GetNullability() == types.NullabilityNullable)
+	return &ProtoLiteral{Value: decimalBytes[:], Type: decType}, nil
 }
 
 func newVarCharWithType(literal *ProtoLiteral, vcharType *types.VarCharType) (Literal, error) {
-- 
2.43.0


From 78f93e48f38ba4b027d56687e0a2d0d9216a31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 038/122] fix: interval texts are read exactly and malformed or
 out-of-range ones refused

---
 literal/utils.go | 111 +++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 67 deletions(-)

diff --git a/literal/utils.go b/literal/utils.go
index 63d7acf..9192737 100644
--- a/literal/utils.go
+++ b/literal/utils.go
@@ -2,8 +2,10 @@ package literal
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
+	"strings"
 	"time"
 	"unicode/utf8"
 
@@ -150,40 +152,26 @@ func NewIntervalYearsToMonthFromString(yearsToMonth string, nullable bool) (expr
 	return NewIntervalYearsToMonth(years, months, nullable)
 }
 
+// Interval of format P[n]Y[n]M
+var intervalYearsToMonthRegex = regexp.MustCompile(`^P(?:([+-]?\d+)Y)?(?:([+-]?\d+)M)?$`)
+
 func parseIntervalYearsToMonth(interval string) (int32, int32, error) {
-	if len(interval) < 3 || interval[0] != 'P' {
+	matches := intervalYearsToMonthRegex.FindStringSubmatch(interval)
+	if matches == nil || interval == "P" {
 		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
-	interval = interval[1:]
-	yIndex := -1
-	mIndex := -1
-	for i, c := range interval {
-		if c == 'Y' {
-			yIndex = i
-		} else if c == 'M' {
-			mIndex = i
+	var parts [2]int64
+	for i, name := range []string{"year", "month"} {
+		if matches[i+1] == "" {
+			continue
 		}
-	}
-	if yIndex == -1 && mIndex == -1 {
-		return 0, 0, fmt.Errorf("invalid interval format: %s", interval)
-	}
-	var months, years int
-	var err error
-	if yIndex != -1 {
-		years, err = strconv.Atoi(interval[:yIndex])
+		part, err := strconv.ParseInt(matches[i+1], 10, 32)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, fmt.Errorf("invalid %s value: %v", name, err)
 		}
-		interval = interval[yIndex+1:]
-		mIndex -= yIndex + 1
+		parts[i] = part
 	}
-	if mIndex > 0 {
-		months, err = strconv.Atoi(interval[:mIndex])
-		if err != nil {
-			return 0, 0, err
-		}
-	}
-	return int32(years), int32(months), nil
+	return int32(parts[0]), int32(parts[1]), nil
 }
 
 func NewIntervalYearsToMonth(years, months int32, nullable bool) (expr.Literal, error) {
@@ -205,63 +193,52 @@ func NewIntervalDaysToSecondFromString(daysToSecond string, nullable bool) (expr
 	}, nullable)
 }
 
+// Interval of format P[n]DT[n]H[n]M[n]S
+// Ex: P3DT4H5M6.789S
+var intervalDaysToSecondRegex = regexp.MustCompile(`^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*)(?:\.(\d+))?S)?)?$`)
+
 func parseIntervalDaysToSecond(interval string) (int32, int32, int64, int32, error) {
 	if len(interval) < 3 || interval[0] != 'P' {
 		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
 
-	// Parse interval of format P[n]DT[n]H[n]M[n]S
-	// Ex: 3DT4H5M6.789S
-	regex := `^P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d*(\.\d+)?)S)?)?$`
-	r := regexp.MustCompile(regex)
-
 	// Find matches
-	matches := r.FindStringSubmatch(interval)
-	if matches == nil {
+	matches := intervalDaysToSecondRegex.FindStringSubmatch(interval)
+	if matches == nil || strings.HasSuffix(interval, "T") {
+		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
+	}
+	if strings.HasSuffix(interval, "S") && matches[4] == "" && matches[5] == "" {
 		return 0, 0, 0, 0, fmt.Errorf("invalid interval format: %s", interval)
 	}
 
 	// Parse each component
-	var err error
-	var days, hours, minutes, seconds int
-	var secFloat float64
-	var subSeconds int64
-	if matches[1] != "" {
-		days, err = strconv.Atoi(matches[1])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid day value: %v", err)
-		}
-	}
-	if matches[2] != "" {
-		hours, err = strconv.Atoi(matches[2])
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid hour value: %v", err)
+	var parts [4]int64
+	for i, name := range []string{"day", "hour", "minute", "second"} {
+		if matches[i+1] == "" {
+			continue
 		}
-	}
-	if matches[3] != "" {
-		minutes, err = strconv.Atoi(matches[3])
+		part, err := strconv.ParseInt(matches[i+1], 10, 32)
 		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid minute value: %v", err)
+			return 0, 0, 0, 0, fmt.Errorf("invalid %s value: %v", name, err)
 		}
+		parts[i] = part
 	}
-	if matches[4] != "" {
-		secFloat, err = strconv.ParseFloat(matches[4], 64)
-		if err != nil {
-			return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
-		}
+	days, seconds := parts[0], parts[1]*3600+parts[2]*60+parts[3]
+	if seconds > math.MaxInt32 {
+		return 0, 0, 0, 0, fmt.Errorf("interval %s exceeds the maximum number of seconds %d", interval, math.MaxInt32)
 	}
 
-	seconds = int(secFloat)
-	secFloat -= float64(seconds)
-	seconds += hours*3600 + minutes*60
-	nanoSeconds := int64(secFloat * 1e9)
-	subSeconds = int64(secFloat * 1e6)
-	precision := int32(types.PrecisionMicroSeconds)
-	if nanoSeconds > subSeconds*1e3 {
-		subSeconds = nanoSeconds
-		precision = int32(types.PrecisionNanoSeconds)
+	// The fraction in nanoseconds, or in microseconds if those are enough.
+	fraction := (matches[5] + "000000000")[:9]
+	precision := types.PrecisionNanoSeconds
+	if strings.HasSuffix(fraction, "000") {
+		fraction, precision = fraction[:6], types.PrecisionMicroSeconds
+	}
+	subSeconds, err := strconv.ParseInt(fraction, 10, 64)
+	if err != nil {
+		return 0, 0, 0, 0, fmt.Errorf("invalid fractional second value: %v", err)
 	}
-	return int32(days), int32(seconds), subSeconds, precision, nil
+	return int32(days), int32(seconds), subSeconds, precision.ToProtoVal(), nil
 }
 
 func NewIntervalDaysToSecond(days, seconds int32, micros int64, nullable bool) (expr.Literal, error) {
-- 
2.43.0


From 195e3703f71e856ef912f84033fb8d6d25c6919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:04 +0000
Subject: [PATCH 039/122] fix: ISO form of interval literals shorter than a
 second, negative or zero

---
 expr/literals.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 6f9f85f..d04664f 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -573,20 +573,39 @@ func (t *ProtoLiteral) IsoValueString() string {
 		// Validity is required by construction.
 		sb := strings.Builder{}
 		sb.WriteString("P")
-		if x.GetDays() > 0 {
+		if x.GetDays() != 0 {
 			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
 		}
-		if x.GetSeconds() > 0 || x.GetSubseconds() > 0 {
+		duration := time.Duration(x.GetSeconds()) * time.Second
+		duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
+		if duration != 0 || x.GetDays() == 0 {
 			sb.WriteString("T")
-			duration := time.Duration(x.GetSeconds()) * time.Second
-			duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
-			sb.WriteString(strings.ToUpper(duration.String()))
+			sb.WriteString(isoDuration(duration))
 		}
 		return sb.String()
 	}
 	return t.ValueString()
 }
 
+// isoDuration writes the duration as hours, minutes and seconds, each with its
+// sign, leaving out the leading ones that are zero.
+func isoDuration(d time.Duration) string {
+	sign := ""
+	if d < 0 {
+		sign, d = "-", -d
+	}
+	text := ""
+	hours, minutes := int64(d/time.Hour), int64(d%time.Hour/time.Minute)
+	if hours > 0 {
+		text += fmt.Sprintf("%s%dH", sign, hours)
+	}
+	if hours > 0 || minutes > 0 {
+		text += fmt.Sprintf("%s%dM", sign, minutes)
+	}
+	seconds := fmt.Sprintf("%d.%09d", int64(d%time.Minute/time.Second), int64(d%time.Second))
+	return text + sign + strings.TrimSuffix(strings.TrimRight(seconds, "0"), ".") + "S"
+}
+
 func (*ProtoLiteral) isRootRef()            {}
 func (t *ProtoLiteral) GetType() types.Type { return t.Type }
 func (t *ProtoLiteral) String() string {
-- 
2.43.0


From 56125ac738c5ac11935c6778cd30aa315b47313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:13 +0000
Subject: [PATCH 040/122] fix: interval literals stated in microseconds print
 and convert with them

---
 expr/literals.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index d04664f..571772c 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -547,7 +547,8 @@ func (t *ProtoLiteral) ValueString() string {
 	case *types.IntervalDayType:
 		x, _ := t.Value.(*proto.Expression_Literal_IntervalDayToSecond)
 		// Validity is required by construction.
-		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), x.GetSubseconds())
+		subSeconds, _ := intervalDaySubSeconds(x)
+		return fmt.Sprintf("%d days, %d seconds, %d subseconds", x.GetDays(), x.GetSeconds(), subSeconds)
 	}
 	return fmt.Sprintf("%s", t.Value)
 }
@@ -577,7 +578,8 @@ func (t *ProtoLiteral) IsoValueString() string {
 			sb.WriteString(fmt.Sprintf("%dD", x.GetDays()))
 		}
 		duration := time.Duration(x.GetSeconds()) * time.Second
-		duration += types.SubSecondsToDuration(x.GetSubseconds(), literalType.Precision)
+		subSeconds, _ := intervalDaySubSeconds(x)
+		duration += types.SubSecondsToDuration(subSeconds, literalType.Precision)
 		if duration != 0 || x.GetDays() == 0 {
 			sb.WriteString("T")
 			sb.WriteString(isoDuration(duration))
@@ -587,6 +589,15 @@ func (t *ProtoLiteral) IsoValueString() string {
 	return t.ValueString()
 }
 
+// intervalDaySubSeconds returns the fraction of a second of the interval and
+// its precision, also of one stated in the deprecated microseconds.
+func intervalDaySubSeconds(x *proto.Expression_Literal_IntervalDayToSecond) (value int64, precision int32) {
+	if micros, ok := x.GetPrecisionMode().(*proto.Expression_Literal_IntervalDayToSecond_Microseconds); ok {
+		return int64(micros.Microseconds), types.PrecisionMicroSeconds.ToProtoVal()
+	}
+	return x.GetSubseconds(), x.GetPrecision()
+}
+
 // isoDuration writes the duration as hours, minutes and seconds, each with its
 // sign, leaving out the leading ones that are zero.
 func isoDuration(d time.Duration) string {
@@ -781,8 +792,8 @@ func newPrecisionTimestampTzWithType(literal *ProtoLiteral, ptstzType *types.Pre
 func newIntervalDayWithType(literal *ProtoLiteral, intervalDayType *types.IntervalDayType) (Literal, error) {
 	if _, ok := literal.GetType().(*types.IntervalDayType); ok {
 		intervalValue := literal.Value.(*proto.Expression_Literal_IntervalDayToSecond)
-		precisionDiff := intervalValue.GetPrecision() - intervalDayType.Precision.ToProtoVal()
-		ss := intervalValue.GetSubseconds()
+		ss, precision := intervalDaySubSeconds(intervalValue)
+		precisionDiff := precision - intervalDayType.Precision.ToProtoVal()
 		if precisionDiff != 0 {
 			factor := int64(math.Pow10(int(math.Abs(float64(precisionDiff)))))
 			if precisionDiff > 0 {
-- 
2.43.0


From 25a7b6e130406674fb5181f846d2becebd00afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 041/122] fix: on-the-fly function variants keep the declared
 function name

---
 extensions/variants.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/extensions/variants.go b/extensions/variants.go
index a58b5a5..0a3b756 100644
--- a/extensions/variants.go
+++ b/extensions/variants.go
@@ -329,7 +329,10 @@ func parseFuncName(compoundName string) (name string, args FuncParameterList) {
 	for _, argStr := range splitArgs {
 		parsed, err := parser.ParseType(argStr)
 		if err != nil {
-			panic(err)
+			// the signature of an on-the-fly variant is not necessarily made of
+			// type names that can be parsed (e.g. "dec", "vchar" or "any1"), the
+			// argument types are unknown then.
+			return name, nil
 		}
 		exp := ValueArg{Name: name, Value: &parser.TypeExpression{ValueType: parsed}}
 		args = append(args, exp)
@@ -362,6 +365,7 @@ func NewScalarFuncVariant(id FunctionID) *ScalarFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: ScalarFunctionImpl{Args: args},
 	}
@@ -374,6 +378,7 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 	simpleName, args := parseFuncName(id.Name)
 	return &ScalarFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: ScalarFunctionImpl{
 			Args:             args,
@@ -386,6 +391,7 @@ func NewScalarFuncVariantWithProps(id FunctionID, variadic *VariadicBehavior, se
 
 type ScalarFunctionVariant struct {
 	name        string
+	id          string // name of an on-the-fly variant as it was declared
 	description string
 	urn         string
 	impl        ScalarFunctionImpl
@@ -406,6 +412,9 @@ func (s *ScalarFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *ScalarFunctionVariant) CompoundName() string {
+	if s.id != "" {
+		return s.id
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *ScalarFunctionVariant) ID() FunctionID {
@@ -438,6 +447,7 @@ func NewAggFuncVariant(id FunctionID) *AggregateFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
@@ -482,6 +492,7 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 	simpleName, args := parseFuncName(id.Name)
 	return &AggregateFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: AggregateFunctionImpl{
 			ScalarFunctionImpl: ScalarFunctionImpl{
@@ -500,6 +511,7 @@ func NewAggFuncVariantOpts(id FunctionID, opts AggVariantOptions) *AggregateFunc
 
 type AggregateFunctionVariant struct {
 	name        string
+	id          string // name of an on-the-fly variant as it was declared
 	description string
 	urn         string
 	impl        AggregateFunctionImpl
@@ -520,6 +532,9 @@ func (s *AggregateFunctionVariant) ResolveType(argumentTypes []types.Type, regis
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *AggregateFunctionVariant) CompoundName() string {
+	if s.id != "" {
+		return s.id
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *AggregateFunctionVariant) ID() FunctionID {
@@ -550,6 +565,7 @@ func (s *AggregateFunctionVariant) MaxArgumentCount() int {
 
 type WindowFunctionVariant struct {
 	name        string
+	id          string // name of an on-the-fly variant as it was declared
 	description string
 	urn         string
 	impl        WindowFunctionImpl
@@ -560,6 +576,7 @@ func NewWindowFuncVariant(id FunctionID) *WindowFunctionVariant {
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
@@ -609,6 +626,7 @@ func NewWindowFuncVariantOpts(id FunctionID, opts WindowVariantOpts) *WindowFunc
 	simpleName, args := parseFuncName(id.Name)
 	return &WindowFunctionVariant{
 		name: simpleName,
+		id:   id.Name,
 		urn:  id.URN,
 		impl: WindowFunctionImpl{
 			AggregateFunctionImpl: AggregateFunctionImpl{
@@ -642,6 +660,9 @@ func (s *WindowFunctionVariant) ResolveType(argumentTypes []types.Type, registry
 	return EvaluateTypeExpression(s.urn, s.impl.Nullability, s.impl.returnType(), s.impl.Args, s.impl.Variadic, argumentTypes, registry)
 }
 func (s *WindowFunctionVariant) CompoundName() string {
+	if s.id != "" {
+		return s.id
+	}
 	return s.name + ":" + s.impl.signatureKey()
 }
 func (s *WindowFunctionVariant) ID() FunctionID {
-- 
2.43.0


From 80ffe457c3255d71e982bbe9cc778dab48f3fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 042/122] fix: custom aggregate functions keep their
 declaration

---
 expr/functions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expr/functions.go b/expr/functions.go
index cd16c14..b7e5dd0 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -816,6 +816,7 @@ func NewCustomAggregateFunc(
 
 	return &AggregateFunction{
 		funcRef:    reg.GetFuncAnchor(v.ID()),
+		declaration: v,
 		outputType: outputType,
 		options:    opts,
 		args:       args,
-- 
2.43.0


From 4e1669323fbb90bc978980fa4b87cde3876c8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 043/122] fix: masks selecting from lists and maps may have no
 child selection

---
 expr/field_reference.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 362d7bd..6f1ec2d 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -373,10 +373,11 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListSlice)(s.Slice)
 			}
 		}
-		return &MaskListSelect{
-			selection: selection,
-			child:     maskSelectFromProto(s.List.Child),
+		ret := &MaskListSelect{selection: selection}
+		if s.List.Child != nil {
+			ret.child = maskSelectFromProto(s.List.Child)
 		}
+		return ret
 	case *proto.Expression_MaskExpression_Select_Map:
 		var ret MaskMapSelect
 		if s.Map.Child != nil {
@@ -450,11 +451,16 @@ func (m *MaskListSelect) ToProto() *proto.Expression_MaskExpression_Select {
 		selection[i] = s.ToProto()
 	}
 
+	var child *proto.Expression_MaskExpression_Select
+	if m.child != nil {
+		child = m.child.ToProto()
+	}
+
 	return &proto.Expression_MaskExpression_Select{
 		Type: &proto.Expression_MaskExpression_Select_List{
 			List: &proto.Expression_MaskExpression_ListSelect{
 				Selection: selection,
-				Child:     m.child.ToProto(),
+				Child:     child,
 			},
 		},
 	}
@@ -519,9 +525,10 @@ func (m *MaskMapSelect) Child() MaskSelect {
 
 func (m *MaskMapSelect) ToProto() *proto.Expression_MaskExpression_Select {
 	ret := &proto.Expression_MaskExpression_Select_Map{
-		Map: &proto.Expression_MaskExpression_MapSelect{
-			Child: m.child.ToProto(),
-		},
+		Map: &proto.Expression_MaskExpression_MapSelect{},
+	}
+	if m.child != nil {
+		ret.Map.Child = m.child.ToProto()
 	}
 
 	if m.kind == MapSelectKey {
-- 
2.43.0


From 265886f689bc71d8bd4ccdecead3d3d6c4039239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:28 +0000
Subject: [PATCH 044/122] fix: a field reference is scalar only if its root
 expression is

---
 expr/field_reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 6f1ec2d..71bf9dc 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -764,7 +764,10 @@ func (f *FieldReference) Visit(v VisitFunc) Expression {
 	return f
 }
 
-func (*FieldReference) IsScalar() bool { return true }
+func (f *FieldReference) IsScalar() bool {
+	root, ok := f.Root.(Expression)
+	return !ok || root.IsScalar()
+}
 
 func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *types.RecordType, reg ExtensionRegistry) (*FieldReference, error) {
 	var (
-- 
2.43.0


From 730bab0afc408bbde593d2c999d419b429f10793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:35 +0000
Subject: [PATCH 045/122] fix: field references with a mask are equal when
 their masks are

---
 expr/field_reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 71bf9dc..59616aa 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -10,6 +10,7 @@ import (
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/types"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
+	pb "google.golang.org/protobuf/proto"
 )
 
 // RootRefType is a marker interface for types that can be used as a Root
@@ -749,7 +750,9 @@ func (f *FieldReference) Equals(rhs Expression) bool {
 				return false
 			}
 
-			return ref == rhs
+			return pb.Equal(ref.ToProto(), rhs.ToProto())
+		default:
+			return rhs.Reference == nil
 		}
 	}
 
-- 
2.43.0


From 198196d2a05374e96e41cc2c53fde62cb55204d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 046/122] fix: field references with a mask can be printed

---
 expr/field_reference.go | 50 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 59616aa..a35c8bd 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -327,6 +327,51 @@ type MaskExpression struct {
 }
 
 func (*MaskExpression) isRefType() {}
+func (e *MaskExpression) String() string {
+	var singular string
+	if e.maintainSingular {
+		singular = "!"
+	}
+	return ".mask" + maskSelectString(e.sel) + singular
+}
+
+func maskSelectString(m MaskSelect) string {
+	var b strings.Builder
+	switch m := m.(type) {
+	case MaskStructSelect:
+		b.WriteByte('{')
+		for i, item := range m {
+			if i != 0 {
+				b.WriteString(", ")
+			}
+			fmt.Fprintf(&b, "%d%s", item.field, maskSelectString(item.child))
+		}
+		b.WriteByte('}')
+	case *MaskListSelect:
+		b.WriteByte('[')
+		for i, item := range m.selection {
+			if i != 0 {
+				b.WriteString(", ")
+			}
+			switch item := item.(type) {
+			case *MaskListElement:
+				fmt.Fprintf(&b, "%d", item.Field)
+			case *MaskListSlice:
+				fmt.Fprintf(&b, "%d:%d", item.Start, item.End)
+			}
+		}
+		b.WriteString("]" + maskSelectString(m.child))
+	case *MaskMapSelect:
+		if m.kind == MapSelectKey {
+			fmt.Fprintf(&b, "[key:%q]", m.key)
+		} else {
+			fmt.Fprintf(&b, "[expr:%q]", m.key)
+		}
+		b.WriteString(maskSelectString(m.child))
+	}
+	return b.String()
+}
+
 func (e *MaskExpression) ToProto() *proto.Expression_MaskExpression {
 	return &proto.Expression_MaskExpression{
 		Select:                 e.sel.toProtoStructSelect(),
@@ -645,7 +690,10 @@ func (f *FieldReference) String() string {
 	if f.knownType != nil {
 		typ = " => " + f.knownType.String()
 	}
-	return b.String() + f.Reference.(ReferenceSegment).String() + typ
+	if ref, ok := f.Reference.(fmt.Stringer); ok {
+		b.WriteString(ref.String())
+	}
+	return b.String() + typ
 }
 
 func (f *FieldReference) ToProtoFuncArg() *proto.FunctionArgument {
-- 
2.43.0


From 94a0e9fe75367c5240fcda8f64cea32ce1bcdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:49 +0000
Subject: [PATCH 047/122] fix: refuse direct references without a reference
 type

---
 expr/field_reference.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index a35c8bd..756f854 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -844,6 +844,9 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 	switch rt := p.ReferenceType.(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
+		if refseg == nil {
+			return nil, fmt.Errorf("%w: direct reference without a reference type", substraitgo.ErrInvalidExpr)
+		}
 		if root == RootReference && baseSchema != nil {
 			baseType := baseSchema.AsStructType()
 			knownType, err = refseg.GetType(baseType)
-- 
2.43.0


From 79442337e0008bb3e181648972e1ad6ca87d9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:33 +0000
Subject: [PATCH 048/122] fix: switch expressions without an else clause can be
 read

---
 expr/expression.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 0ea24aa..f24316e 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -182,9 +182,13 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			return nil, err
 		}
 
-		elseExpr, err := ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
-		if err != nil {
-			return nil, err
+		// the else clause is optional
+		var elseExpr Expression
+		if et.SwitchExpression.Else != nil {
+			elseExpr, err = ExprFromProto(et.SwitchExpression.Else, baseSchema, reg)
+			if err != nil {
+				return nil, err
+			}
 		}
 
 		ifs := make([]struct {
-- 
2.43.0


From 2576bc4c61498fd40ed179c7f17abe91f19abb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:39 +0000
Subject: [PATCH 049/122] fix: visiting a switch expression without an else
 clause

---
 expr/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/expression.go b/expr/expression.go
index f24316e..ad8d87c 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -967,7 +967,10 @@ func (ex *SwitchExpr) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	afterElse := visit(ex.elseClause)
+	var afterElse Expression
+	if ex.elseClause != nil {
+		afterElse = visit(ex.elseClause)
+	}
 	if out == nil {
 		if afterElse == ex.elseClause {
 			return ex
-- 
2.43.0


From a80455007421371bbca1a0995bea1d3d104f186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:46 +0000
Subject: [PATCH 050/122] fix: replacing an option of a multi or list

---
 expr/expression.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index ad8d87c..4a3ea14 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1228,9 +1228,7 @@ func (ex *MultiOrList) Visit(visit VisitFunc) Expression {
 					out.Options[k] = slices.Clone(ex.Options[k])
 				}
 
-				for k := 0; k < j; k++ {
-					out.Options[i][k] = ex.Options[i][k]
-				}
+				out.Options[i] = slices.Clone(ex.Options[i])
 			}
 
 			if out != nil {
-- 
2.43.0


From 07edecd11f053ac4264d503122f2d1c40bc2c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 051/122] fix: scalar functions with different numbers of
 arguments are not equal

---
 expr/functions.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index b7e5dd0..efe93d3 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -423,10 +423,8 @@ func (s *ScalarFunction) Equals(rhs Expression) bool {
 		return false
 	}
 
-	for i := range s.args {
-		if !FuncArgsEqual(s.args[i], other.args[i]) {
-			return false
-		}
+	if !slices.EqualFunc(s.args, other.args, FuncArgsEqual) {
+		return false
 	}
 
 	return slices.EqualFunc(s.options, other.options, func(a, b *types.FunctionOption) bool {
-- 
2.43.0


From 6371a3e99e3aadbd228999cb506c6b0ff582cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:00 +0000
Subject: [PATCH 052/122] fix: window functions with different bounds types are
 not equal

---
 expr/functions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/functions.go b/expr/functions.go
index efe93d3..325a894 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -649,6 +649,8 @@ func (w *WindowFunction) Equals(other Expression) bool {
 		return false
 	case w.phase != rhs.phase || w.invocation != rhs.invocation:
 		return false
+	case w.BoundsType != rhs.BoundsType:
+		return false
 	case w.LowerBound != rhs.LowerBound || w.UpperBound != rhs.UpperBound:
 		return false
 	case !slices.EqualFunc(w.options, rhs.options, func(l, r *types.FunctionOption) bool {
-- 
2.43.0


From b7215b2d8710f1c5e4d62648c02dbe42ba941951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 053/122] fix: visiting a window function reaches its
 partitions and sorts

---
 expr/functions.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/expr/functions.go b/expr/functions.go
index 325a894..04d0a05 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -758,12 +758,42 @@ func (w *WindowFunction) Visit(visit VisitFunc) Expression {
 		}
 	}
 
-	if args == nil {
+	var partitions []Expression
+	for i, p := range w.Partitions {
+		after := visit(p)
+		if partitions == nil && after != p {
+			partitions = slices.Clone(w.Partitions)
+		}
+		if partitions != nil {
+			partitions[i] = after
+		}
+	}
+
+	var sorts []SortField
+	for i, s := range w.Sorts {
+		after := visit(s.Expr)
+		if sorts == nil && after != s.Expr {
+			sorts = slices.Clone(w.Sorts)
+		}
+		if sorts != nil {
+			sorts[i].Expr = after
+		}
+	}
+
+	if args == nil && partitions == nil && sorts == nil {
 		return w
 	}
 
 	out := *w
-	out.args = args
+	if args != nil {
+		out.args = args
+	}
+	if partitions != nil {
+		out.Partitions = partitions
+	}
+	if sorts != nil {
+		out.Sorts = sorts
+	}
 	return &out
 }
 
-- 
2.43.0


From 3de8a8d6c7a407dbed12d1ef976c8e60c11a2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 054/122] fix: refuse literals without a type instead of
 panicking

---
 expr/expression.go      | 10 ++++++++--
 expr/field_reference.go |  6 +++++-
 expr/literals.go        | 23 +++++++++++++++++++++--
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/expr/expression.go b/expr/expression.go
index 4a3ea14..fa97186 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -59,7 +59,11 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 
 	switch et := e.RexType.(type) {
 	case *proto.Expression_Literal_:
-		return LiteralFromProto(et.Literal), nil
+		lit := LiteralFromProto(et.Literal)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: unsupported literal: %s", substraitgo.ErrInvalidExpr, et.Literal)
+		}
+		return lit, nil
 	case *proto.Expression_Selection:
 		return FieldReferenceFromProto(et.Selection, baseSchema, reg)
 	case *proto.Expression_ScalarFunction_:
@@ -196,7 +200,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			Then Expression
 		}, len(et.SwitchExpression.Ifs))
 		for i, clause := range et.SwitchExpression.Ifs {
-			ifs[i].If = LiteralFromProto(clause.If)
+			if ifs[i].If = LiteralFromProto(clause.If); ifs[i].If == nil {
+				return nil, fmt.Errorf("%w: unsupported literal: %s", substraitgo.ErrInvalidExpr, clause.If)
+			}
 			ifs[i].Then, err = ExprFromProto(clause.Then, baseSchema, reg)
 			if err != nil {
 				return nil, err
diff --git a/expr/field_reference.go b/expr/field_reference.go
index 756f854..d92bb04 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -56,8 +56,12 @@ func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment
 
 	switch seg := p.ReferenceType.(type) {
 	case *proto.Expression_ReferenceSegment_MapKey_:
+		key := LiteralFromProto(seg.MapKey.MapKey)
+		if key == nil {
+			return nil
+		}
 		return &MapKeyRef{
-			MapKey: LiteralFromProto(seg.MapKey.MapKey),
+			MapKey: key,
 			Child:  RefSegmentFromProto(seg.MapKey.Child),
 		}
 	case *proto.Expression_ReferenceSegment_StructField_:
diff --git a/expr/literals.go b/expr/literals.go
index 571772c..7404b8c 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1049,6 +1049,10 @@ func NewLiteral[T allLiteralTypes](val T, nullable bool) (Literal, error) {
 // LiteralFromProto constructs the appropriate Literal struct from
 // a protobuf message.
 func LiteralFromProto(l *proto.Expression_Literal) Literal {
+	if l == nil {
+		return nil
+	}
+
 	nullability := getNullability(l.Nullable)
 
 	switch lit := l.LiteralType.(type) {
@@ -1209,7 +1213,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 		typeList := make([]types.Type, len(lit.Struct.Fields))
 		fields := make([]Literal, len(lit.Struct.Fields))
 		for i, f := range lit.Struct.Fields {
-			fields[i] = LiteralFromProto(f)
+			if fields[i] = LiteralFromProto(f); fields[i] == nil {
+				return nil
+			}
 			typeList[i] = fields[i].GetType()
 		}
 
@@ -1221,10 +1227,17 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Types:            typeList,
 			}}
 	case *proto.Expression_Literal_Map_:
+		if len(lit.Map.KeyValues) == 0 {
+			// the types are unknown, an empty map literal is needed
+			return nil
+		}
 		ret := make(MapLiteralValue, len(lit.Map.KeyValues))
 		for i, kv := range lit.Map.KeyValues {
 			ret[i].Key = LiteralFromProto(kv.Key)
 			ret[i].Value = LiteralFromProto(kv.Value)
+			if ret[i].Key == nil || ret[i].Value == nil {
+				return nil
+			}
 		}
 		return &MapLiteral{
 			Value: ret,
@@ -1235,9 +1248,15 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Value:            ret[0].Value.GetType(),
 			}}
 	case *proto.Expression_Literal_List_:
+		if len(lit.List.Values) == 0 {
+			// the element type is unknown, an empty list literal is needed
+			return nil
+		}
 		ret := make(ListLiteralValue, len(lit.List.Values))
 		for i, v := range lit.List.Values {
-			ret[i] = LiteralFromProto(v)
+			if ret[i] = LiteralFromProto(v); ret[i] == nil {
+				return nil
+			}
 		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: ListLiteralValue(ret),
-- 
2.43.0


From 965eb14f6dc24c5b66636b652791de7da8c927c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 055/122] fix: refuse to read scalar subqueries that do not
 return one column

---
 plan/subquery.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plan/subquery.go b/plan/subquery.go
index 02516ec..7e11df3 100644
--- a/plan/subquery.go
+++ b/plan/subquery.go
@@ -27,6 +27,11 @@ func (r *ExpressionConverter) SubqueryFromProto(sub *proto.Expression_Subquery,
 		if err != nil {
 			return nil, err
 		}
+		schema := rel.RecordType()
+		if n := len(schema.Types()); n != 1 {
+			return nil, fmt.Errorf("%w: scalar subquery must return exactly one column, got %d",
+				substraitgo.ErrInvalidExpr, n)
+		}
 		return NewScalarSubquery(rel), nil
 
 	case *proto.Expression_Subquery_InPredicate_:
-- 
2.43.0


From 40fd99573dae7b0cccb0183fd9162826722806ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 056/122] fix: read relations without common fields instead of
 panicking

---
 plan/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plan/common.go b/plan/common.go
index 6890c0d..8b925c6 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -132,8 +132,8 @@ type RelCommon struct {
 }
 
 func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
-	rc.hint = c.Hint
-	rc.advExtension = c.AdvancedExtension
+	rc.hint = c.GetHint()
+	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
 		rc.mapping = emit.Emit.OutputMapping
-- 
2.43.0


From 7f523c5b9f0a90743472a721301ff1de3705646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 057/122] fix: keep an emit without columns apart from a direct
 output

---
 plan/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plan/common.go b/plan/common.go
index 8b925c6..31124bb 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -136,7 +136,8 @@ func (rc *RelCommon) fromProtoCommon(c *proto.RelCommon) {
 	rc.advExtension = c.GetAdvancedExtension()
 
 	if emit, ok := c.GetEmitKind().(*proto.RelCommon_Emit_); ok {
-		rc.mapping = emit.Emit.OutputMapping
+		// an empty output mapping is not the same as no output mapping
+		rc.mapping = append([]int32{}, emit.Emit.GetOutputMapping()...)
 	} else {
 		rc.mapping = nil
 	}
-- 
2.43.0


From af9e76a6ca4d6a4ebdeb022b0abcb0b0bc566dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 058/122] fix: keep the text format of local files

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 4f501c6..936070e 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -521,6 +521,7 @@ type (
 	OrcReadOptions       proto.ReadRel_LocalFiles_FileOrFiles_OrcReadOptions
 	DwrfReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DwrfReadOptions
 	ExtensionReadOptions anypb.Any
+	TextReadOptions      proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions
 
 	FileFormat interface {
 		isFileFormat()
@@ -532,6 +533,7 @@ func (*ArrowReadOptions) isFileFormat()     {}
 func (*OrcReadOptions) isFileFormat()       {}
 func (*DwrfReadOptions) isFileFormat()      {}
 func (*ExtensionReadOptions) isFileFormat() {}
+func (*TextReadOptions) isFileFormat()      {}
 
 // FileOrFiles represents the contents of a LocalFiles table. Many files
 // consist of indivisible chunks (e.g. parquet row groups or CSV rows).
@@ -576,6 +578,8 @@ func (f *FileOrFiles) fromProto(p *proto.ReadRel_LocalFiles_FileOrFiles) {
 		f.Format = (*OrcReadOptions)(format.Orc)
 	case *proto.ReadRel_LocalFiles_FileOrFiles_Parquet:
 		f.Format = (*ParquetReadOptions)(format.Parquet)
+	case *proto.ReadRel_LocalFiles_FileOrFiles_Text:
+		f.Format = (*TextReadOptions)(format.Text)
 	}
 }
 
@@ -617,6 +621,10 @@ func (f *FileOrFiles) ToProto() *proto.ReadRel_LocalFiles_FileOrFiles {
 		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Extension{
 			Extension: (*anypb.Any)(fm),
 		}
+	case *TextReadOptions:
+		ret.FileFormat = &proto.ReadRel_LocalFiles_FileOrFiles_Text{
+			Text: (*proto.ReadRel_LocalFiles_FileOrFiles_DelimiterSeparatedTextReadOptions)(fm),
+		}
 	}
 	return ret
 }
-- 
2.43.0


From d7855b0edd23cdaa1aef82669a51944e94f5da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 059/122] fix: keep the build input of hash joins

---
 plan/plan.go      | 1 +
 plan/relations.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 43fbb1b..6080456 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -847,6 +847,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			right:        right,
 			keys:         keys,
 			joinType:     HashMergeJoinType(rel.HashJoin.Type),
+			buildInput:   rel.HashJoin.BuildInput,
 			advExtension: rel.HashJoin.AdvancedExtension,
 		}
 		out.fromProtoCommon(rel.HashJoin.Common)
diff --git a/plan/relations.go b/plan/relations.go
index 936070e..612f4b0 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2030,6 +2030,7 @@ type HashJoinRel struct {
 	keys           []*ComparisonJoinKey
 	postJoinFilter expr.Expression
 	joinType       HashMergeJoinType
+	buildInput     proto.HashJoinRel_BuildInput
 	advExtension   *extensions.AdvancedExtension
 }
 
@@ -2078,6 +2079,7 @@ func (hr *HashJoinRel) ToProto() *proto.Rel {
 			Right:             hr.right.ToProto(),
 			Keys:              comparisonJoinKeysToProto(hr.keys),
 			Type:              proto.HashJoinRel_JoinType(hr.joinType),
+			BuildInput:        hr.buildInput,
 			AdvancedExtension: hr.advExtension,
 		},
 	}
-- 
2.43.0


From d8b2a93f699f8860fdd3bb43996d03c14c8b5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 060/122] fix: keep the create mode and advanced extension of
 write relations

---
 plan/plan.go      |  3 +++
 plan/relations.go | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 6080456..3957d4b 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -909,6 +909,9 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			op:          rel.Write.Op,
 			input:       input,
 			outputMode:  rel.Write.Output,
+			createMode:  rel.Write.CreateMode,
+
+			writeAdvExtension: rel.Write.AdvancedExtension,
 		}
 		if rel.Write.Common != nil {
 			out.fromProtoCommon(rel.Write.Common)
diff --git a/plan/relations.go b/plan/relations.go
index 612f4b0..2fe4da5 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -2288,6 +2288,9 @@ type NamedTableWriteRel struct {
 	op          WriteOp
 	input       Rel
 	outputMode  OutputMode
+	createMode  proto.WriteRel_CreateMode
+
+	writeAdvExtension *extensions.AdvancedExtension
 }
 
 func (wr *NamedTableWriteRel) directOutputSchema() types.RecordType {
@@ -2331,9 +2334,11 @@ func (wr *NamedTableWriteRel) ToProto() *proto.Rel {
 						AdvancedExtension: wr.advExtension,
 					},
 				},
-				TableSchema: wr.tableSchema.ToProto(),
-				Op:          wr.op,
-				Input:       wr.input.ToProto(),
+				TableSchema:       wr.tableSchema.ToProto(),
+				Op:                wr.op,
+				Input:             wr.input.ToProto(),
+				CreateMode:        wr.createMode,
+				AdvancedExtension: wr.writeAdvExtension,
 			},
 		},
 	}
-- 
2.43.0


From 66610799a0c40cd01e1978faf57d3de1107fbbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:01 +0000
Subject: [PATCH 061/122] fix: keep an iceberg snapshot at timestamp zero

---
 plan/builders.go  | 1 +
 plan/plan.go      | 1 +
 plan/relations.go | 5 ++++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index b63af38..3e7c47c 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -659,6 +659,7 @@ func (b *builder) IcebergTableFromMetadataFile(metadataURI string, snapshot Iceb
 			tableType.SnapshotId = snapshotId
 		} else if snapshotTimestamp, ok := snapshot.(SnapshotTimestamp); ok {
 			tableType.SnapshotTimestamp = snapshotTimestamp
+			tableType.atTimestamp = true
 		}
 	}
 
diff --git a/plan/plan.go b/plan/plan.go
index 3957d4b..677ee55 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -502,6 +502,7 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 					tableType.SnapshotId = SnapshotId(snapshotId.SnapshotId)
 				} else if snapshotTimestamp, ok := direct.Direct.Snapshot.(*proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp); ok {
 					tableType.SnapshotTimestamp = SnapshotTimestamp(snapshotTimestamp.SnapshotTimestamp)
+					tableType.atTimestamp = true
 				}
 				out = &IcebergTableReadRel{
 					tableType: tableType,
diff --git a/plan/relations.go b/plan/relations.go
index 2fe4da5..32eb250 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -410,6 +410,9 @@ type (
 		MetadataUri string
 		SnapshotTimestamp
 		SnapshotId
+
+		// atTimestamp tells a snapshot at timestamp zero from no snapshot
+		atTimestamp bool
 	}
 
 	IcebergTableType interface {
@@ -456,7 +459,7 @@ func (n *IcebergTableReadRel) ToProto() *proto.Rel {
 			direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotId{
 				SnapshotId: string(directTableType.SnapshotId),
 			}
-		} else if directTableType.SnapshotTimestamp != 0 {
+		} else if directTableType.SnapshotTimestamp != 0 || directTableType.atTimestamp {
 			direct.Snapshot = &proto.ReadRel_IcebergTable_MetadataFileRead_SnapshotTimestamp{
 				SnapshotTimestamp: int64(directTableType.SnapshotTimestamp),
 			}
-- 
2.43.0


From 0b5d6930f5d890e673be4a3428bf0ddfe7edd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:52 +0000
Subject: [PATCH 062/122] fix: output schema of mark joins

---
 plan/relations.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 32eb250..a5c32a3 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -817,8 +817,16 @@ const (
 	JoinTypeRightSemi   = proto.JoinRel_JOIN_TYPE_RIGHT_SEMI
 	JoinTypeRightAnti   = proto.JoinRel_JOIN_TYPE_RIGHT_ANTI
 	JoinTypeRightSingle = proto.JoinRel_JOIN_TYPE_RIGHT_SINGLE
+	JoinTypeLeftMark    = proto.JoinRel_JOIN_TYPE_LEFT_MARK
+	JoinTypeRightMark   = proto.JoinRel_JOIN_TYPE_RIGHT_MARK
 )
 
+// markRecordType is the nullable boolean column a mark join appends.
+func markRecordType() types.RecordType {
+	return *types.NewRecordTypeFromTypes([]types.Type{
+		&types.BooleanType{Nullability: types.NullabilityNullable}})
+}
+
 // JoinRel is a binary Join relational operator representing left-join-right,
 // including various join types, a join condition and a post join filter expr.
 type JoinRel struct {
@@ -863,6 +871,10 @@ func (j *JoinRel) directOutputSchema() types.RecordType {
 		typeList = j.left.RecordType().Types()
 	case JoinTypeRightSemi, JoinTypeRightAnti:
 		return j.right.RecordType()
+	case JoinTypeLeftMark:
+		return j.left.RecordType().Concat(markRecordType())
+	case JoinTypeRightMark:
+		return j.right.RecordType().Concat(markRecordType())
 	}
 
 	return *types.NewRecordTypeFromTypes(typeList)
-- 
2.43.0


From 3ed84e3a03e7c4c2106606692934ea360defb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:57 +0000
Subject: [PATCH 063/122] fix: output schema of hash and merge joins follows
 the join type, their post-join filter reads both inputs

---
 plan/plan.go      |  6 ++++--
 plan/relations.go | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/plan/plan.go b/plan/plan.go
index 677ee55..e5505e8 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -854,7 +854,8 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.HashJoin.Common)
 
 		if rel.HashJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			// the filter's field references are over the fields of both inputs
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.HashJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for HashJoinRel: %w", err)
@@ -891,7 +892,8 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 		out.fromProtoCommon(rel.MergeJoin.Common)
 
 		if rel.MergeJoin.PostJoinFilter != nil {
-			base := out.RecordType()
+			// the filter's field references are over the fields of both inputs
+			base := leftBase.Concat(rightBase)
 			out.postJoinFilter, err = expr.ExprFromProto(rel.MergeJoin.PostJoinFilter, &base, reg)
 			if err != nil {
 				return nil, fmt.Errorf("error getting post join filter for MergeJoin: %w", err)
diff --git a/plan/relations.go b/plan/relations.go
index a5c32a3..ae97f51 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1841,8 +1841,41 @@ const (
 	HashMergeRightSemi
 	HashMergeLeftAnti
 	HashMergeRightAnti
+	HashMergeLeftSingle
+	HashMergeRightSingle
+	HashMergeLeftMark
+	HashMergeRightMark
 )
 
+// outputSchema is the record type a join of this type makes of its inputs' record types.
+func (t HashMergeJoinType) outputSchema(left, right types.RecordType) types.RecordType {
+	switch t {
+	case HashMergeOuter:
+		return nullableRecordType(left).Concat(nullableRecordType(right))
+	case HashMergeLeft, HashMergeLeftSingle:
+		return left.Concat(nullableRecordType(right))
+	case HashMergeRight, HashMergeRightSingle:
+		return nullableRecordType(left).Concat(right)
+	case HashMergeLeftSemi, HashMergeLeftAnti:
+		return left
+	case HashMergeRightSemi, HashMergeRightAnti:
+		return right
+	case HashMergeLeftMark:
+		return left.Concat(markRecordType())
+	case HashMergeRightMark:
+		return right.Concat(markRecordType())
+	}
+	return left.Concat(right)
+}
+
+func nullableRecordType(r types.RecordType) types.RecordType {
+	nullable := make([]types.Type, 0, r.FieldCount())
+	for _, t := range r.Types() {
+		nullable = append(nullable, t.WithNullability(types.NullabilityNullable))
+	}
+	return *types.NewRecordTypeFromTypes(nullable)
+}
+
 // SimpleComparisonType describes one of the predefined comparison behaviors
 // used by a ComparisonJoinKey.
 type SimpleComparisonType = proto.ComparisonJoinKey_SimpleComparisonType
@@ -2050,7 +2083,7 @@ type HashJoinRel struct {
 }
 
 func (hr *HashJoinRel) directOutputSchema() types.RecordType {
-	return hr.left.RecordType().Concat(hr.right.RecordType())
+	return hr.joinType.outputSchema(hr.left.RecordType(), hr.right.RecordType())
 }
 
 func (hr *HashJoinRel) RecordType() types.RecordType {
@@ -2168,7 +2201,7 @@ type MergeJoinRel struct {
 }
 
 func (mr *MergeJoinRel) directOutputSchema() types.RecordType {
-	return mr.left.RecordType().Concat(mr.right.RecordType())
+	return mr.joinType.outputSchema(mr.left.RecordType(), mr.right.RecordType())
 }
 
 func (mr *MergeJoinRel) RecordType() types.RecordType {
-- 
2.43.0


From 0743de8a9051e7ebce5dcfe41590b61e50d311cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:03 +0000
Subject: [PATCH 064/122] fix: output schema of aggregates with several or
 reordered grouping sets

---
 plan/relations.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index ae97f51..9a1419f 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1158,11 +1158,25 @@ type AggregateRel struct {
 }
 
 func (ar *AggregateRel) directOutputSchema() types.RecordType {
-	groupTypes := make([]types.Type, 0, len(ar.groupingReferences)+len(ar.measures))
+	// number of grouping sets each grouping expression occurs in
+	sets := make([]int, len(ar.groupingExpressions))
 	for _, g := range ar.groupingReferences {
-		for _, e := range g {
-			expression := ar.groupingExpressions[e]
+		for i, e := range g {
+			if !slices.Contains(g[:i], e) {
+				sets[e]++
+			}
+		}
+	}
+
+	// one column per grouping expression, in declaration order, nullable if it is absent from some grouping set
+	groupTypes := make([]types.Type, 0, len(ar.groupingExpressions)+len(ar.measures)+1)
+	for i, expression := range ar.groupingExpressions {
+		switch sets[i] {
+		case 0:
+		case len(ar.groupingReferences):
 			groupTypes = append(groupTypes, expression.GetType())
+		default:
+			groupTypes = append(groupTypes, expression.GetType().WithNullability(types.NullabilityNullable))
 		}
 	}
 
@@ -1170,6 +1184,11 @@ func (ar *AggregateRel) directOutputSchema() types.RecordType {
 		groupTypes = append(groupTypes, m.measure.GetType())
 	}
 
+	// the index of the grouping set a record belongs to
+	if len(ar.groupingReferences) > 1 {
+		groupTypes = append(groupTypes, &types.Int32Type{Nullability: types.NullabilityRequired})
+	}
+
 	return *types.NewRecordTypeFromTypes(groupTypes)
 }
 
-- 
2.43.0


From 4170cce1c4da9e415762c930b61d1c8473438e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:30 +0000
Subject: [PATCH 065/122] fix: remapping a relation without inputs leaves the
 original as it was

---
 plan/relations.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 9a1419f..c4257f9 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -168,12 +168,40 @@ func isSequentialFromZero(order []int32) bool {
 	return true
 }
 
+// cloneLeaf returns a shallow copy of a relation without inputs, whose Copy returns the relation itself.
+func cloneLeaf(r Rel) Rel {
+	switch r := r.(type) {
+	case *NamedTableReadRel:
+		c := *r
+		return &c
+	case *VirtualTableReadRel:
+		c := *r
+		return &c
+	case *ExtensionTableReadRel:
+		c := *r
+		return &c
+	case *IcebergTableReadRel:
+		c := *r
+		return &c
+	case *LocalFileReadRel:
+		c := *r
+		return &c
+	case *ExtensionLeafRel:
+		c := *r
+		return &c
+	}
+	return r
+}
+
 // RemapHelper implements the core functionality of RemapHelper for relations.
 func RemapHelper(r Rel, mapping []int32) (Rel, error) {
 	newRel, err := r.Copy(r.GetInputs()...)
 	if err != nil {
 		return nil, err
 	}
+	if newRel == r {
+		newRel = cloneLeaf(r)
+	}
 	if len(mapping) == 0 {
 		newRel.setMapping([]int32{})
 		return newRel, nil
-- 
2.43.0


From 9a5fc1a6b1dc6b4fbc669dc4bc84270446c70904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:59 +0000
Subject: [PATCH 066/122] fix: rewrite the rows of a virtual table whose
 filters stay the same

---
 plan/relations.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/plan/relations.go b/plan/relations.go
index c4257f9..6c6375e 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -338,25 +338,23 @@ func (v *VirtualTableReadRel) CopyWithExpressionRewrite(rewriteFunc RewriteFunc,
 	if err != nil {
 		return nil, err
 	}
-	if slices.Equal(newExprs, v.getExpressions()) {
-		return v, nil
-	}
-	vtr := *v
-	vtr.updateFilters(newExprs)
 	valuesUnchanged := true
 	newValues := make([]expr.VirtualTableExpressionValue, len(v.values))
 	for i, val := range v.values {
-		newExprs := make([]expr.Expression, len(val))
+		newRow := make([]expr.Expression, len(val))
 		for j, e := range val {
-			newExpr, err := rewriteFunc(e)
-			if err != nil {
+			if newRow[j], err = rewriteFunc(e); err != nil {
 				return nil, err
 			}
-			valuesUnchanged = valuesUnchanged && newExpr.Equals(e)
-			newExprs[j] = newExpr
+			valuesUnchanged = valuesUnchanged && newRow[j] == e
 		}
-		newValues[i] = newExprs
+		newValues[i] = newRow
 	}
+	if valuesUnchanged && slices.Equal(newExprs, v.getExpressions()) {
+		return v, nil
+	}
+	vtr := *v
+	vtr.updateFilters(newExprs)
 	if !valuesUnchanged {
 		vtr.values = newValues
 	}
-- 
2.43.0


From baf553258a0fe116c1b537c59336ff28ac0d68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 067/122] fix: rewrite the sort fields of aggregate measures

---
 plan/relations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/plan/relations.go b/plan/relations.go
index 6c6375e..a0ba360 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -1322,6 +1322,14 @@ func (ar *AggregateRel) rewriteAggregateFunc(rewriteFunc RewriteFunc, f *expr.Ag
 			argsAreEqual = argsAreEqual && exp == newExp
 		}
 	}
+	for i, s := range f.Sorts {
+		newExp, err := rewriteFunc(s.Expr)
+		if err != nil {
+			return nil, err
+		}
+		newF.Sorts[i].Expr = newExp
+		argsAreEqual = argsAreEqual && s.Expr == newExp
+	}
 	if argsAreEqual {
 		return f, nil
 	}
-- 
2.43.0


From 93a0304c31e0669b9bdd0cba6667a5a75ddf5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 068/122] fix: field references over joined inputs leave the
 schemas of the inputs alone

---
 plan/builders.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 3e7c47c..5856fea 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -241,8 +241,13 @@ func (b *builder) UserDefinedType(nameSpace, typeName string, params ...types.Ty
 }
 
 func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.FieldReference, error) {
-	baseTypes := append(left.RecordType().Types(), right.RecordType().Types()...)
-	if index < 0 || index > int32(len(baseTypes)) {
+	if left == nil || right == nil {
+		return nil, errNilInputRel
+	}
+
+	leftType, rightType := left.RecordType(), right.RecordType()
+	baseTypes := slices.Concat(leftType.Types(), rightType.Types())
+	if index < 0 || index >= int32(len(baseTypes)) {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields to reference",
 			substraitgo.ErrInvalidArg, index, len(baseTypes))
 	}
@@ -251,8 +256,12 @@ func (b *builder) JoinedRecordFieldRef(left, right Rel, index int32) (*expr.Fiel
 }
 
 func (b *builder) RootFieldRef(input Rel, index int32) (*expr.FieldReference, error) {
+	if input == nil {
+		return nil, errNilInputRel
+	}
+
 	base := input.RecordType()
-	if index < 0 || index > base.FieldCount() {
+	if index < 0 || index >= base.FieldCount() {
 		return nil, fmt.Errorf("%w: cannot create field ref index %d, only %d fields in rel",
 			substraitgo.ErrInvalidArg, index, base.FieldCount())
 	}
-- 
2.43.0


From e7c28e3fc2d45db99b5fe8da0ce1f0a02442dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 069/122] fix: flattening reference segments leaves the
 segments as they were

---
 expr/field_reference.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index d92bb04..4bfde54 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -88,20 +88,20 @@ func FlattenRefSegments(refs ...ReferenceSegment) ReferenceSegment {
 		return refs[0]
 	}
 
-	out, cur := refs[0], refs[0]
-	for _, r := range refs[1:] {
-		switch parent := cur.(type) {
+	// link copies, the segments belong to the caller
+	child := refs[len(refs)-1]
+	for i := len(refs) - 2; i >= 0; i-- {
+		switch parent := refs[i].(type) {
 		case *MapKeyRef:
-			parent.Child = r
+			child = &MapKeyRef{MapKey: parent.MapKey, Child: child}
 		case *StructFieldRef:
-			parent.Child = r
+			child = &StructFieldRef{Field: parent.Field, Child: child}
 		case *ListElementRef:
-			parent.Child = r
+			child = &ListElementRef{Offset: parent.Offset, Child: child}
 		}
-		cur = r
 	}
 
-	return out
+	return child
 }
 
 type MapKeyRef struct {
-- 
2.43.0


From b1aa9e884fa64a925ee15fa76308dc0127919ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 070/122] fix: a lambda body that panics does not leave its
 parameters in scope

---
 expr/builder.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/expr/builder.go b/expr/builder.go
index 14b515e..5739786 100644
--- a/expr/builder.go
+++ b/expr/builder.go
@@ -242,12 +242,10 @@ func (lb *lambdaBuilder) Build() (*Lambda, error) {
 	// This allows nested lambdas to validate stepsOut references against
 	// outer lambda parameters.
 	lb.b.pushLambdaContext(lb.params)
+	// Pop our params from context stack (always, even on error or panic)
+	defer lb.b.popLambdaContext()
 
 	bodyExpr, err := lb.body.BuildExpr()
-
-	// Pop our params from context stack (always, even on error)
-	lb.b.popLambdaContext()
-
 	if err != nil {
 		return nil, fmt.Errorf("failed to build lambda body: %w", err)
 	}
-- 
2.43.0


From 594783896dda07f60846d0871c93d7f83be78f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 071/122] fix: keep the root relation of a plan built with
 further relations

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index 5856fea..e144368 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -791,7 +791,7 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
-		relations[i].rel = o
+		relations[i+1].rel = o
 	}
 
 	reg := b.reg
-- 
2.43.0


From eca2ae7a01d508495f50a8923905fd8ffacd5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 072/122] fix: refuse nil relations when building a plan

---
 plan/builders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index e144368..df60ff7 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -791,6 +791,9 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 	}
 
 	for i, o := range others {
+		if o == nil {
+			return nil, fmt.Errorf("%w: relations of a plan must not be nil", substraitgo.ErrInvalidRel)
+		}
 		relations[i+1].rel = o
 	}
 
-- 
2.43.0


From ce447d03b80ae8c09490892dc96d404465ae51f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:42 +0000
Subject: [PATCH 073/122] fix: check the output mapping of a filter against the
 columns of its input

---
 plan/builders.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/builders.go b/plan/builders.go
index df60ff7..b5ef46f 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -430,7 +430,7 @@ func (b *builder) FilterRemap(input Rel, condition expr.Expression, remap []int3
 			substraitgo.ErrInvalidArg, condition.GetType())
 	}
 
-	noutput := input.directOutputSchema().FieldCount()
+	noutput := input.RecordType().FieldCount()
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
 			return nil, errOutputMappingOutOfRange
-- 
2.43.0


From 7b969aa0d306046939ff0e56b84efd757102afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:06 +0000
Subject: [PATCH 074/122] fix: check the output mapping of a write against the
 columns it puts out

---
 plan/builders.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index b5ef46f..edbd8c3 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -349,21 +349,23 @@ func (b *builder) CreateTableAsSelectRemap(input Rel, remap []int32, tableName [
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          WriteOpCTAS,
 		input:       input,
 		outputMode:  OutputModeModifiedRecords,
-	}, nil
+	}
+
+	noutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= noutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) CreateTableAsSelect(input Rel, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
@@ -511,21 +513,23 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
-	nOutput := input.RecordType().FieldCount()
-	for _, idx := range remap {
-		if idx < 0 || idx >= nOutput {
-			return nil, errOutputMappingOutOfRange
-		}
-	}
-
-	return &NamedTableWriteRel{
+	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
 		tableSchema: schema,
 		op:          op,
 		input:       input,
 		outputMode:  OutputModeNoOutput,
-	}, nil
+	}
+
+	noutput := out.directOutputSchema().FieldCount()
+	for _, idx := range remap {
+		if idx < 0 || idx >= noutput {
+			return nil, errOutputMappingOutOfRange
+		}
+	}
+
+	return out, nil
 }
 
 func (b *builder) NamedWrite(input Rel, op WriteOp, tableName []string, schema types.NamedStruct) (*NamedTableWriteRel, error) {
-- 
2.43.0


From d7481cdf34663753ccaff8950f65bea84b01a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:11 +0000
Subject: [PATCH 075/122] fix: refuse to build a write with an unspecified
 operation

---
 plan/builders.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index edbd8c3..db45611 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -513,6 +513,11 @@ func (b *builder) NamedWriteRemap(input Rel, op WriteOp, tableName []string, sch
 		return nil, errNilInputRel
 	}
 
+	if op == WriteOpUnspecified {
+		return nil, fmt.Errorf("%w: operation for write relation must not be unspecified",
+			substraitgo.ErrInvalidArg)
+	}
+
 	out := &NamedTableWriteRel{
 		RelCommon:   RelCommon{mapping: remap},
 		names:       tableName,
-- 
2.43.0


From e7e77af2b9268225dec03e8e62f3e888ff99fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 076/122] fix: check every row and the names of a virtual table
 when building it

---
 plan/builders.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index db45611..b93eb69 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -596,10 +596,17 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 		return nil, fmt.Errorf("%w: must provide at least one set of values. Consider EmptyVirtualTable to construct rowless Virtual Table", substraitgo.ErrInvalidArg)
 	}
 
-	nfields := len(fieldNames)
-	if len(values[0]) != nfields {
-		return nil, fmt.Errorf("%w: mismatched number of fields (%d) and literal values (%d) in virtual table",
-			substraitgo.ErrInvalidRel, nfields, len(values[0]))
+	nfields := len(values[0])
+	for _, row := range values {
+		if len(row) != nfields {
+			return nil, fmt.Errorf("%w: rows of virtual table have different numbers of values (%d and %d)",
+				substraitgo.ErrInvalidRel, nfields, len(row))
+		}
+		for _, v := range row {
+			if v == nil {
+				return nil, fmt.Errorf("%w: values of virtual table must not be nil", substraitgo.ErrInvalidRel)
+			}
+		}
 	}
 
 	for _, idx := range remap {
@@ -630,6 +637,10 @@ func (b *builder) VirtualTableFromExprRemap(fieldNames []string, remap []int32,
 			Types:       typeList,
 		},
 	}
+	if n := baseSchema.Struct.DepthFirstNameCount(); len(fieldNames) != n {
+		return nil, fmt.Errorf("%w: mismatched number of field names (%d) and fields (%d) in virtual table",
+			substraitgo.ErrInvalidRel, len(fieldNames), n)
+	}
 
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
-- 
2.43.0


From 6aef227bdf5a0ab16994b4b7ec82e831d1e5c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:58 +0000
Subject: [PATCH 077/122] fix: check the names of a virtual table without rows
 when building it

---
 plan/builders.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index b93eb69..87fbc65 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -663,6 +663,10 @@ func (b *builder) EmptyVirtualTable(fieldNames []string, typeList []types.Type)
 			Types:       typeList,
 		},
 	}
+	if n := baseSchema.Struct.DepthFirstNameCount(); len(fieldNames) != n {
+		return nil, fmt.Errorf("%w: mismatched number of field names (%d) and fields (%d) in virtual table",
+			substraitgo.ErrInvalidRel, len(fieldNames), n)
+	}
 	return &VirtualTableReadRel{
 		baseReadRel: baseReadRel{
 			baseSchema: baseSchema,
-- 
2.43.0


From fb9ee0b38b3194ef092c70e95675e661c6a023c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:19 +0000
Subject: [PATCH 078/122] fix: refuse to build a fetch with a negative offset
 or an illegal count

---
 plan/builders.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 87fbc65..717c307 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -406,6 +406,15 @@ func (b *builder) FetchRemap(input Rel, offset, count int64, remap []int32) (*Fe
 		}
 	}
 
+	if offset < 0 {
+		return nil, fmt.Errorf("%w: offset of fetch relation must not be negative, got %d",
+			substraitgo.ErrInvalidArg, offset)
+	}
+	if count < FETCH_COUNT_ALL_RECORDS {
+		return nil, fmt.Errorf("%w: count of fetch relation must be non-negative or %d, got %d",
+			substraitgo.ErrInvalidArg, FETCH_COUNT_ALL_RECORDS, count)
+	}
+
 	return &FetchRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
-- 
2.43.0


From 5d0d828a2174d8749e6eaf49b93f3e33c08b83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:49 +0000
Subject: [PATCH 079/122] fix: refuse to build a join of an unknown type

---
 plan/builders.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 717c307..bd84f0b 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -10,6 +10,7 @@ import (
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
 	"github.com/substrait-io/substrait-go/v8/types"
+	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
@@ -481,6 +482,10 @@ func (b *builder) JoinAndFilterRemap(left, right Rel, condition, postJoinFilter
 			substraitgo.ErrInvalidArg)
 	}
 
+	if _, ok := proto.JoinRel_JoinType_name[int32(joinType)]; !ok {
+		return nil, fmt.Errorf("%w: unknown join type %d", substraitgo.ErrInvalidArg, joinType)
+	}
+
 	if postJoinFilter != nil {
 		if !postJoinFilter.GetType().WithNullability(types.NullabilityUnspecified).Equals(&types.BooleanType{}) {
 			return nil, fmt.Errorf("%w: post join filter must be either nil or yield a boolean, not %s",
-- 
2.43.0


From 78c93425861e43d822f94fdfb0d30220a995de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 080/122] fix: refuse to build projections and sorts with nil
 expressions

---
 plan/builders.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index bd84f0b..4b9f919 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -294,6 +294,10 @@ func (b *builder) ProjectRemap(input Rel, remap []int32, exprs ...expr.Expressio
 		return nil, fmt.Errorf("%w: must provide at least one expression for project relation", substraitgo.ErrInvalidRel)
 	}
 
+	if slices.Contains(exprs, nil) {
+		return nil, fmt.Errorf("%w: cannot use nil expression in project relation", substraitgo.ErrInvalidRel)
+	}
+
 	noutput := input.RecordType().FieldCount() + int32(len(exprs))
 	for _, idx := range remap {
 		if idx < 0 || idx >= noutput {
@@ -734,6 +738,12 @@ func (b *builder) SortRemap(input Rel, remap []int32, sorts ...expr.SortField) (
 		return nil, fmt.Errorf("%w: must provide at least one SortField for sort relation", substraitgo.ErrInvalidRel)
 	}
 
+	for _, s := range sorts {
+		if s.Expr == nil {
+			return nil, fmt.Errorf("%w: cannot use nil expression in sort relation", substraitgo.ErrInvalidRel)
+		}
+	}
+
 	return &SortRel{
 		RelCommon: RelCommon{mapping: remap},
 		input:     input,
-- 
2.43.0


From 0a4730406b4275457e3468f43c46ddb1bf71a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:34 +0000
Subject: [PATCH 081/122] fix: refuse to build an aggregate with a measure
 without function

---
 plan/builders.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index 4b9f919..a73d032 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -996,6 +996,13 @@ func (arb *AggregateRelBuilder) validate() error {
 		return errNoGroupingExpression
 	}
 
+	for _, m := range arb.measures {
+		if m.measure == nil {
+			return fmt.Errorf("%w: cannot use measure without aggregate function in aggregate relation",
+				substraitgo.ErrInvalidRel)
+		}
+	}
+
 	for _, refList := range arb.groupingReferences {
 		for _, ref := range refList {
 			if ref >= uint32(len(arb.groupingExpressions)) {
-- 
2.43.0


From 261c40410d8ffa0cfc3dca2d75fe10fbfb2c3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 082/122] fix: check the number of columns of the relations of
 subqueries

---
 plan/builders.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plan/builders.go b/plan/builders.go
index a73d032..305a1b7 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -1063,6 +1063,11 @@ func (b *builder) ScalarSubquery(input Rel) (*ScalarSubquery, error) {
 		return nil, errNilInputRel
 	}
 
+	if schema := input.RecordType(); schema.FieldCount() != 1 {
+		return nil, fmt.Errorf("%w: scalar subquery must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, schema.FieldCount())
+	}
+
 	return NewScalarSubquery(input), nil
 }
 
@@ -1090,6 +1095,11 @@ func (b *builder) SetComparisonSubquery(
 		return nil, errNilInputRel
 	}
 
+	if schema := right.RecordType(); schema.FieldCount() != 1 {
+		return nil, fmt.Errorf("%w: relation of set comparison must return exactly one column, got %d",
+			substraitgo.ErrInvalidExpr, schema.FieldCount())
+	}
+
 	return NewSetComparisonSubquery(
 		reductionOp,
 		comparisonOp,
-- 
2.43.0


From 14498ce92545f246d3ef2bd0bbac73422a2d64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 083/122] fix: find the parameters of a plan wherever they
 occur when checking bindings

---
 plan/builders.go |  8 +++---
 plan/common.go   | 71 +++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 59 insertions(+), 20 deletions(-)

diff --git a/plan/builders.go b/plan/builders.go
index 305a1b7..0188e6a 100644
--- a/plan/builders.go
+++ b/plan/builders.go
@@ -829,10 +829,6 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		return nil, err
 	}
 
-	if err := ValidateParameterBindings(root, bindings); err != nil {
-		return nil, err
-	}
-
 	relations := make([]Relation, len(others)+1)
 	relations[0].root = &Root{
 		input: root, names: rootNames,
@@ -845,6 +841,10 @@ func (b *builder) PlanWithBindings(root Rel, rootNames []string, expectedTypeURL
 		relations[i+1].rel = o
 	}
 
+	if err := validateParameterBindings(bindings, append([]Rel{root}, others...)...); err != nil {
+		return nil, err
+	}
+
 	reg := b.reg
 	reg.SetSubqueryConverter(&ExpressionConverter{ExtensionRegistry: reg})
 	return &Plan{
diff --git a/plan/common.go b/plan/common.go
index 31124bb..3a47b59 100644
--- a/plan/common.go
+++ b/plan/common.go
@@ -29,19 +29,38 @@ type DynamicParameterBinding struct {
 // parameter can be bound to a nullable literal and vice-versa.
 //
 // Returns an error for:
+//   - A binding without a value, or for an anchor that another binding names.
 //   - A binding whose anchor does not correspond to any DynamicParameter in the tree.
 //   - A binding whose value type does not match the parameter's declared type
 //     (ignoring nullability).
 func ValidateParameterBindings(root Rel, bindings []DynamicParameterBinding) error {
+	return validateParameterBindings(bindings, root)
+}
+
+// validateParameterBindings checks the bindings of a plan made of the given relations.
+func validateParameterBindings(bindings []DynamicParameterBinding, rels ...Rel) error {
 	if len(bindings) == 0 {
 		return nil
 	}
 
 	// Collect all DynamicParameter output types keyed by anchor.
 	paramTypes := make(map[uint32]types.Type)
-	collectDynamicParams(root, paramTypes)
+	for _, rel := range rels {
+		collectDynamicParams(rel, paramTypes)
+	}
 
+	bound := make(map[uint32]struct{}, len(bindings))
 	for _, b := range bindings {
+		if b.Value == nil {
+			return fmt.Errorf("%w: parameter binding for anchor %d has no value",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+		if _, ok := bound[b.ParameterAnchor]; ok {
+			return fmt.Errorf("%w: more than one parameter binding for anchor %d",
+				substraitgo.ErrInvalidPlan, b.ParameterAnchor)
+		}
+		bound[b.ParameterAnchor] = struct{}{}
+
 		declaredType, ok := paramTypes[b.ParameterAnchor]
 		if !ok {
 			return fmt.Errorf("%w: parameter binding references anchor %d, "+
@@ -77,8 +96,17 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 	// Walk expressions owned by this relation.
 	walkRelExprs(rel, func(e expr.Expression) {
 		walkExpr(e, func(inner expr.Expression) {
-			if dp, ok := inner.(*expr.DynamicParameter); ok {
-				out[dp.ParameterReference] = dp.OutputType
+			switch inner := inner.(type) {
+			case *expr.DynamicParameter:
+				out[inner.ParameterReference] = inner.OutputType
+			case *ScalarSubquery:
+				collectDynamicParams(inner.Input, out)
+			case *InPredicateSubquery:
+				collectDynamicParams(inner.Haystack, out)
+			case *SetPredicateSubquery:
+				collectDynamicParams(inner.Tuples, out)
+			case *SetComparisonSubquery:
+				collectDynamicParams(inner.Right, out)
 			}
 		})
 	})
@@ -86,21 +114,25 @@ func collectDynamicParams(rel Rel, out map[uint32]types.Type) {
 
 // walkRelExprs invokes fn for every top-level expression in a relation.
 func walkRelExprs(rel Rel, fn func(expr.Expression)) {
+	var definition ExtensionRelDefinition
 	switch r := rel.(type) {
-	case *FilterRel:
-		fn(r.Condition())
-	case *ProjectRel:
-		for _, e := range r.Expressions() {
+	case *ExtensionSingleRel:
+		definition = r.definition
+	case *ExtensionLeafRel:
+		definition = r.definition
+	case *ExtensionMultiRel:
+		definition = r.definition
+	default:
+		// rewriting offers each of the relation's own expressions; the copy is not needed
+		_, _ = rel.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
+			fn(e)
+			return e, nil
+		}, rel.GetInputs()...)
+		return
+	}
+	if definition != nil {
+		for _, e := range definition.Expressions(rel.GetInputs()) {
 			fn(e)
-		}
-	case *JoinRel:
-		fn(r.Expr())
-		if pjf := r.PostJoinFilter(); pjf != nil {
-			fn(pjf)
-		}
-	case *SortRel:
-		for _, sf := range r.Sorts() {
-			fn(sf.Expr)
 		}
 	}
 }
@@ -111,6 +143,13 @@ func walkExpr(e expr.Expression, fn func(expr.Expression)) {
 		return
 	}
 	fn(e)
+	if ref, ok := e.(*expr.FieldReference); ok {
+		// visiting a reference does not lead to the expression it refers into
+		if root, ok := ref.Root.(expr.Expression); ok {
+			walkExpr(root, fn)
+		}
+		return
+	}
 	e.Visit(func(child expr.Expression) expr.Expression {
 		walkExpr(child, fn)
 		return child
-- 
2.43.0


From 42bdaae02af752920ca6f8e89856563de73e6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:07 +0000
Subject: [PATCH 084/122] fix: a dialect's local name equal to another
 function's Substrait name made localising fail at random

Localising a registry took the functions named X as done once any function
had X as its local name, and then reported the remaining ones as missing,
depending on the order in which the map of functions was walked.
---
 functions/dialect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 3efba63..91064e9 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -107,16 +107,18 @@ func makeLocalFunctionVariantMapAndSlice[T withID, V localFunctionVariant](
 	createLocalVariant func(T, *dialectFunctionInfo) V) (*mapAndSlice[V], error) {
 
 	processedFunctions := make(map[extensions.FunctionID]bool)
+	processedNames := make(map[string]bool)
 	variantsMap := make(map[FunctionName][]V)
 	variantsSlice := make([]V, 0)
 	for _, dfi := range dialectFunctionInfos {
-		if _, nameAlreadyProcessed := variantsMap[LocalFunctionName(dfi.Name)]; nameAlreadyProcessed {
+		if processedNames[dfi.Name] {
 			if _, ok := processedFunctions[dfi.ID]; !ok {
 				var invocationType V
 				return nil, fmt.Errorf("%w: no %s function variant found for '%s'", substraitgo.ErrInvalidDialect, invocationType.InvocationTypeName(), dfi.ID)
 			}
 			continue
 		}
+		processedNames[dfi.Name] = true
 
 		localVariantArray := make([]V, 0)
 		for _, f := range getFunctionVariants(dfi.Name) {
-- 
2.43.0


From add2419316d8cec7e9fa17cb06ed7196f41e6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:30 +0000
Subject: [PATCH 085/122] fix: looking up a call whose function exists as
 another kind in the dialect panicked

Aggregate functions are window functions too, with the same id. The local
registry kept one map for all kinds, so the last kind replaced the others and
the type assertion on the result panicked.
---
 functions/dialect.go         | 18 ++++++++++--------
 functions/local_functions.go | 36 ++++++++++++++++--------------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 91064e9..9d1e174 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -77,14 +77,16 @@ func (d *dialectImpl) LocalizeFunctionRegistry(registry FunctionRegistry) (Local
 	allVariants = appendVariants(allVariants, windowFunctions.variantsSlice)
 
 	return &localFunctionRegistryImpl{
-		dialect:              d,
-		scalarFunctions:      scalarFunctions.variantsMap,
-		aggregateFunctions:   aggregateFunctions.variantsMap,
-		windowFunctions:      windowFunctions.variantsMap,
-		allFunctions:         allVariants,
-		idToLocalFunctionMap: makeLocalFunctionVariantsMap(allVariants),
-		localTypeRegistry:    localTypeRegistry,
-		funcRegistry:         registry,
+		dialect:               d,
+		scalarFunctions:       scalarFunctions.variantsMap,
+		aggregateFunctions:    aggregateFunctions.variantsMap,
+		windowFunctions:       windowFunctions.variantsMap,
+		allFunctions:          allVariants,
+		idToScalarFunction:    makeLocalFunctionVariantsMap(scalarFunctions.variantsSlice),
+		idToAggregateFunction: makeLocalFunctionVariantsMap(aggregateFunctions.variantsSlice),
+		idToWindowFunction:    makeLocalFunctionVariantsMap(windowFunctions.variantsSlice),
+		localTypeRegistry:     localTypeRegistry,
+		funcRegistry:          registry,
 	}, nil
 }
 
diff --git a/functions/local_functions.go b/functions/local_functions.go
index 5213d43..8cefa90 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -17,22 +17,18 @@ type localFunctionRegistryImpl struct {
 
 	allFunctions []extensions.FunctionVariant
 
-	idToLocalFunctionMap map[extensions.FunctionID]localFunctionVariant
-	localTypeRegistry    LocalTypeRegistry
-	funcRegistry         FunctionRegistry
+	// function id to local function variant; the same id may exist as more than one kind of function
+	idToScalarFunction    map[extensions.FunctionID]*LocalScalarFunctionVariant
+	idToAggregateFunction map[extensions.FunctionID]*LocalAggregateFunctionVariant
+	idToWindowFunction    map[extensions.FunctionID]*LocalWindowFunctionVariant
+	localTypeRegistry     LocalTypeRegistry
+	funcRegistry          FunctionRegistry
 }
 
-func makeLocalFunctionVariantsMap(functions []extensions.FunctionVariant) map[extensions.FunctionID]localFunctionVariant {
-	localFunctionVariants := make(map[extensions.FunctionID]localFunctionVariant)
-	for _, f := range functions {
-		switch variant := f.(type) {
-		case *LocalScalarFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalAggregateFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		case *LocalWindowFunctionVariant:
-			localFunctionVariants[variant.ID()] = variant
-		}
+func makeLocalFunctionVariantsMap[V withID](variants []V) map[extensions.FunctionID]V {
+	localFunctionVariants := make(map[extensions.FunctionID]V)
+	for _, variant := range variants {
+		localFunctionVariants[variant.ID()] = variant
 	}
 	return localFunctionVariants
 }
@@ -62,20 +58,20 @@ func (l *localFunctionRegistryImpl) GetWindowFunctions(name FunctionName, numArg
 }
 
 func (l *localFunctionRegistryImpl) GetScalarFunctionByInvocation(scalarFuncInvocation *expr.ScalarFunction) (*LocalScalarFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalScalarFunctionVariant](scalarFuncInvocation, l)
+	return getFunctionVariantByInvocation(scalarFuncInvocation, l, l.idToScalarFunction)
 }
 
 func (l *localFunctionRegistryImpl) GetAggregateFunctionByInvocation(aggregateFuncInvocation *expr.AggregateFunction) (*LocalAggregateFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalAggregateFunctionVariant](aggregateFuncInvocation, l)
+	return getFunctionVariantByInvocation(aggregateFuncInvocation, l, l.idToAggregateFunction)
 }
 
 func (l *localFunctionRegistryImpl) GetWindowFunctionByInvocation(windowFuncInvocation *expr.WindowFunction) (*LocalWindowFunctionVariant, error) {
-	return getFunctionVariantByInvocation[*LocalWindowFunctionVariant](windowFuncInvocation, l)
+	return getFunctionVariantByInvocation(windowFuncInvocation, l, l.idToWindowFunction)
 }
 
-func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl) (V, error) {
+func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.FunctionInvocation, registry *localFunctionRegistryImpl, variants map[extensions.FunctionID]V) (V, error) {
 	var zeroV V
-	f, ok := registry.idToLocalFunctionMap[invocation.ID()]
+	f, ok := variants[invocation.ID()]
 	if !ok {
 		return zeroV, fmt.Errorf("function variant not found for function: %s", invocation.ID())
 	}
@@ -93,7 +89,7 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 			}
 		}
 	}
-	return f.(V), nil
+	return f, nil
 }
 
 var _ LocalFunctionRegistry = &localFunctionRegistryImpl{}
-- 
2.43.0


From 20334afd608defc25673c07dc43ef9ca6d0ee0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 086/122] fix: a call listing several preferences of an option
 was refused when one was unsupported

FunctionOption.preference is a list of alternatives, of which the consumer
uses the first one it supports.
---
 functions/local_functions.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/functions/local_functions.go b/functions/local_functions.go
index 8cefa90..cd95b06 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -2,6 +2,8 @@ package functions
 
 import (
 	"fmt"
+	"slices"
+	"strings"
 
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
@@ -83,10 +85,10 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 		}
 	}
 	for _, option := range invocation.GetOptions() {
-		for _, value := range option.Preference {
-			if !f.IsOptionSupported(option.Name, value) {
-				return zeroV, fmt.Errorf("unsupported option [%s:%s] in function %s", option.Name, value, invocation.CompoundName())
-			}
+		// the preferences are alternatives, in order: one of them has to be supported
+		isSupported := func(value string) bool { return f.IsOptionSupported(option.Name, value) }
+		if len(option.Preference) > 0 && !slices.ContainsFunc(option.Preference, isSupported) {
+			return zeroV, fmt.Errorf("unsupported option [%s:%s] in function %s", option.Name, strings.Join(option.Preference, ","), invocation.CompoundName())
 		}
 	}
 	return f, nil
-- 
2.43.0


From ef1dacbb7a7755959e4c8076e7a2b15533be9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:51 +0000
Subject: [PATCH 087/122] fix: option names were compared case-sensitively
 against the dialect

The name of a FunctionOption is matched case-insensitively, like its values.
---
 functions/registries.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/functions/registries.go b/functions/registries.go
index b366cc9..b8bb05c 100644
--- a/functions/registries.go
+++ b/functions/registries.go
@@ -136,14 +136,15 @@ func (l *LocalFunctionVariant) Notation() FunctionNotation {
 }
 
 func (l *LocalFunctionVariant) IsOptionSupported(name string, value string) bool {
-	val, exists := l.supportedOptions[name]
-	if !exists {
-		// TODO: should this be true or false?
-		return false
-	}
-	for _, v := range val.Values {
-		if strings.EqualFold(v, value) {
-			return true
+	// TODO: should this be true or false for an option that isn't listed?
+	for option, val := range l.supportedOptions {
+		if !strings.EqualFold(option, name) {
+			continue
+		}
+		for _, v := range val.Values {
+			if strings.EqualFold(v, value) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From 05a0053f1034958f21f145cb78c1dd578d8bd939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 088/122] fix: functions with enumeration, nested or
 user-defined arguments could not be in a dialect

Kernels like req_ts, list_i32 or u!point name variants of existing functions
but were refused as unsupported types, and calls with an enumeration argument
were refused because enumerations have no local type.
---
 functions/dialect.go         | 19 ++++++++++++++++++-
 functions/local_functions.go |  5 +++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 9d1e174..91c9009 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -11,6 +11,7 @@ import (
 	"github.com/goccy/go-yaml"
 	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/extensions"
+	"github.com/substrait-io/substrait-go/v8/types"
 )
 
 func LoadDialect(name string, r io.Reader) (Dialect, error) {
@@ -331,11 +332,17 @@ func (df *dialectFunction) validateAndFixKernels() error {
 	for i, kernel := range df.SupportedKernels {
 		argTypes := strings.Split(kernel, "_")
 		hasAnyType := false
+		inUserDefinedName := false
 		for i, argType := range argTypes {
 			if strings.HasPrefix(argType, "any") {
 				argTypes[i] = "any"
 				hasAnyType = true
-			} else if argType != "" && !isSupportedType(argType) {
+				inUserDefinedName = false
+			} else if strings.HasPrefix(argType, "u!") {
+				inUserDefinedName = true
+			} else if isSupportedType(argType) || isKernelOnlyType(argType) {
+				inUserDefinedName = false
+			} else if argType != "" && !inUserDefinedName { // user-defined names may contain '_'
 				return fmt.Errorf("%w: unsupported type '%s'", substraitgo.ErrInvalidDialect, argType)
 			}
 		}
@@ -346,6 +353,16 @@ func (df *dialectFunction) validateAndFixKernels() error {
 	return nil
 }
 
+// isKernelOnlyType tells whether name abbreviates, in the name of a function variant, an argument for which the
+// dialect has no type name of its own.
+func isKernelOnlyType(name string) bool {
+	switch name {
+	case "req", "type", "list", "map", "struct", "func", types.GetShortTypeName(types.TypeNameIntervalCompound):
+		return true
+	}
+	return false
+}
+
 func (df *dialectFunction) getOptions() map[string]extensions.Option {
 	if len(df.RequiredOptions) == 0 {
 		return nil
diff --git a/functions/local_functions.go b/functions/local_functions.go
index cd95b06..195c1f2 100644
--- a/functions/local_functions.go
+++ b/functions/local_functions.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/substrait-io/substrait-go/v8/expr"
 	"github.com/substrait-io/substrait-go/v8/extensions"
+	"github.com/substrait-io/substrait-go/v8/types"
 )
 
 type localFunctionRegistryImpl struct {
@@ -79,6 +80,10 @@ func getFunctionVariantByInvocation[V localFunctionVariant](invocation expr.Func
 	}
 	argTypes := invocation.GetArgTypes()
 	for i, argType := range argTypes {
+		if _, ok := argType.(*types.EnumType); ok {
+			// an enumeration argument is an option of the function, not a value of some type
+			continue
+		}
 		_, err := registry.localTypeRegistry.GetLocalTypeFromSubstraitType(argType)
 		if err != nil {
 			return zeroV, fmt.Errorf("unsupported substrait type: %v as argument %d in %s", argType, i, invocation.CompoundName())
-- 
2.43.0


From def6cd604e764ec9433ac2672279638a67464082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 089/122] fix: function look-up by argument count miscounted
 variadic functions

The bounds of a variadic function are those of its last argument; they were
compared with the number of all arguments.
---
 functions/functions.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/functions/functions.go b/functions/functions.go
index 77b5d77..aafb9f5 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -81,7 +81,9 @@ func (f *functionRegistryImpl) GetWindowFunctions(name string, numArgs int) []*e
 func getFunctionVariantsByCount[T extensions.FunctionVariant](functions []T, numArgs int) []T {
 	ret := make([]T, 0)
 	for _, f := range functions {
-		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numArgs) {
+		// the bounds of a variadic function count its last argument only
+		numVariadicArgs := numArgs - (len(f.Args()) - 1)
+		if len(f.Args()) == numArgs || f.Variadic().IsValidArgumentCount(numVariadicArgs) {
 			ret = append(ret, f)
 		}
 	}
-- 
2.43.0


From d52e2b2bad8cf07e59e5d7506504dac57c353ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:03 +0000
Subject: [PATCH 090/122] fix: types with a precision could not be read back
 from their own text

precision_timestamp<6> and the local TIMESTAMP(6) it was translated to were
refused, because only decimals and fixed-length types took parameters.
---
 functions/types.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/functions/types.go b/functions/types.go
index 1231556..c132cc1 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -98,6 +98,27 @@ func getTypeWithParameters(typ types.Type, parameters []int32) (types.Type, erro
 		case *types.VarCharType:
 			return &types.VarCharType{Length: parameters[0]}, nil
 		}
+	case *types.IntervalDayType, *types.PrecisionTimeType, *types.PrecisionTimestampType, *types.PrecisionTimestampTzType:
+		if len(parameters) > 1 {
+			return nil, substraitgo.ErrInvalidType
+		}
+		if len(parameters) == 0 {
+			return typ, nil
+		}
+		precision, err := types.ProtoToTimePrecision(parameters[0])
+		if err != nil {
+			return nil, err
+		}
+		switch typ.(type) {
+		case *types.IntervalDayType:
+			return &types.IntervalDayType{Precision: precision}, nil
+		case *types.PrecisionTimeType:
+			return &types.PrecisionTimeType{Precision: precision}, nil
+		case *types.PrecisionTimestampType:
+			return &types.PrecisionTimestampType{Precision: precision}, nil
+		case *types.PrecisionTimestampTzType:
+			return types.NewPrecisionTimestampTzType(precision), nil
+		}
 	default:
 		if len(parameters) != 0 {
 			return nil, substraitgo.ErrInvalidType
-- 
2.43.0


From 1ce7b593042cde9403c80238c184ccd14474807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 091/122] fix: local type names shared by several types or
 containing parentheses were read at random or not at all

With VARCHAR for both string and varchar, VARCHAR(10) was refused whenever the
string had been entered last, which depended on the order in which a map was
walked. A local name like TIMESTAMP(6) was never found again.
---
 functions/dialect.go |  5 ++++-
 functions/types.go   | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/functions/dialect.go b/functions/dialect.go
index 91c9009..b54eefa 100644
--- a/functions/dialect.go
+++ b/functions/dialect.go
@@ -5,6 +5,8 @@ package functions
 import (
 	"fmt"
 	"io"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/creasty/defaults"
@@ -171,7 +173,8 @@ func (d *dialectImpl) LocalizeTypeRegistry(TypeRegistry) (LocalTypeRegistry, err
 		return d.localTypeRegistry, nil
 	}
 	typeInfos := make([]typeInfo, 0, len(d.toLocalTypeMap))
-	for name, info := range d.toLocalTypeMap {
+	for _, name := range slices.Sorted(maps.Keys(d.toLocalTypeMap)) {
+		info := d.toLocalTypeMap[name]
 		// TODO use registry.GetTypeClasses
 		typ, err := getTypeFromBaseTypeName(name)
 		if err != nil {
diff --git a/functions/types.go b/functions/types.go
index c132cc1..44d79f5 100644
--- a/functions/types.go
+++ b/functions/types.go
@@ -3,6 +3,7 @@
 package functions
 
 import (
+	"errors"
 	"strconv"
 	"strings"
 
@@ -186,16 +187,20 @@ func (ti *typeInfo) getLocalTypeString(input types.Type, enclosure typeEnclosure
 type localTypeRegistryImpl struct {
 	nameToType      map[string]types.Type
 	localNameToType map[string]types.Type
-	typeInfoMap     map[string]typeInfo
+	// several types may share a local name
+	localNameToTypes map[string][]types.Type
+	typeInfoMap      map[string]typeInfo
 }
 
 func NewLocalTypeRegistry(typeInfos []typeInfo) LocalTypeRegistry {
 	nameToType := make(map[string]types.Type)
 	localNameToType := make(map[string]types.Type)
+	localNameToTypes := make(map[string][]types.Type)
 	typeInfoMap := make(map[string]typeInfo)
 	for _, ti := range typeInfos {
 		nameToType[ti.shortName] = ti.typ
 		localNameToType[ti.localName] = ti.typ
+		localNameToTypes[ti.localName] = append(localNameToTypes[ti.localName], ti.typ)
 		typeInfoMap[ti.shortName] = ti
 		longName := ti.getLongName()
 		if longName != ti.shortName {
@@ -204,9 +209,10 @@ func NewLocalTypeRegistry(typeInfos []typeInfo) LocalTypeRegistry {
 		}
 	}
 	return &localTypeRegistryImpl{
-		nameToType:      nameToType,
-		localNameToType: localNameToType,
-		typeInfoMap:     typeInfoMap,
+		nameToType:       nameToType,
+		localNameToType:  localNameToType,
+		localNameToTypes: localNameToTypes,
+		typeInfoMap:      typeInfoMap,
 	}
 }
 
@@ -223,7 +229,24 @@ func (t *localTypeRegistryImpl) GetTypeFromTypeString(typeString string) (types.
 }
 
 func (t *localTypeRegistryImpl) GetSubstraitTypeFromLocalType(localType string) (types.Type, error) {
-	return getTypeFromTypeString(localType, t.localNameToType, t)
+	// a local name may itself contain parentheses or end in a question mark
+	for _, typ := range t.localNameToTypes[localType] {
+		if typ, err := getTypeWithParameters(typ, nil); err == nil {
+			return typ.WithNullability(types.NullabilityRequired), nil
+		}
+	}
+	typ, err := getTypeFromTypeString(localType, t.localNameToType, t)
+	if !errors.Is(err, substraitgo.ErrInvalidType) {
+		return typ, err
+	}
+	// the parameters are not those of the type found: another one with the same local name may take them
+	baseType, _, _ := extractTypeAndParameters(localType, t)
+	for _, candidate := range t.localNameToTypes[strings.TrimSuffix(baseType, "?")] {
+		if typ, err := getTypeFromTypeString(localType, map[string]types.Type{strings.TrimSuffix(baseType, "?"): candidate}, t); err == nil {
+			return typ, nil
+		}
+	}
+	return nil, err
 }
 
 func (t *localTypeRegistryImpl) GetLocalTypeFromSubstraitType(typ types.Type) (string, error) {
-- 
2.43.0


From 9ad9ccfc1f4ea57a6ef6341725b01ce65e54e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:58 +0000
Subject: [PATCH 092/122] fix: characters that form no token were dropped from
 test files

---
 testcases/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/testcases/parser/parse.go b/testcases/parser/parse.go
index 42e0e2b..14544cf 100644
--- a/testcases/parser/parse.go
+++ b/testcases/parser/parse.go
@@ -35,9 +35,10 @@ func ParseTestCasesFromString(input string) (*TestFile, error) {
 
 func parseTestCasesFromStream(is *antlr.InputStream, debugStr string) (*TestFile, error) {
 	lexer := baseparser.NewFuncTestCaseLexer(is)
+	errorListener := util.NewSimpleErrorListener()
+	lexer.AddErrorListener(errorListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := baseparser.NewFuncTestCaseParser(stream)
-	errorListener := util.NewSimpleErrorListener()
 	p.AddErrorListener(errorListener)
 	p.GetInterpreter().SetPredictionMode(antlr.PredictionModeSLL)
 
-- 
2.43.0


From 48ad9889bd5414237cd11485b3b267fb3b307750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:03 +0000
Subject: [PATCH 093/122] fix: test files whose first group has no description
 were refused

---
 testcases/parser/visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index d2b07e1..2885b36 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -96,8 +96,16 @@ func (v *TestCaseVisitor) VisitInclude(ctx *baseparser.IncludeContext) interface
 	return getRawStringFromStringLiteral(ctx.StringLiteral(0).GetText())
 }
 
+// getGroupDescription returns the description of a test group, empty if it has none.
+func (v *TestCaseVisitor) getGroupDescription(ctx baseparser.ITestGroupDescriptionContext) string {
+	if ctx == nil {
+		return ""
+	}
+	return v.Visit(ctx).(string)
+}
+
 func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllTestCase()))
 	if v.testFuncType != ScalarFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got scalar function testcase", v.testFuncType))
@@ -113,7 +121,7 @@ func (v *TestCaseVisitor) VisitScalarFuncTestGroup(ctx *baseparser.ScalarFuncTes
 }
 
 func (v *TestCaseVisitor) VisitAggregateFuncTestGroup(ctx *baseparser.AggregateFuncTestGroupContext) interface{} {
-	groupDesc := v.Visit(ctx.TestGroupDescription()).(string)
+	groupDesc := v.getGroupDescription(ctx.TestGroupDescription())
 	groupTestCases := make([]*TestCase, 0, len(ctx.AllAggFuncTestCase()))
 	if v.testFuncType != AggregateFuncType {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("expected %v testcase based on test file header, but got aggregate function testcase", v.testFuncType))
-- 
2.43.0


From 1cfd73369ffe8071135f371bbd6fc87da68584b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:09 +0000
Subject: [PATCH 094/122] fix: numbers out of range of their type were wrapped
 around or made infinite in test files, snan refused

---
 testcases/parser/visitor.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 2885b36..eaab196 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -545,8 +546,16 @@ func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, valu
 }
 
 func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseFloat(floatStr, 64)
-	if err != nil {
+	bitSize := 64
+	if _, ok := floatType.(*types.Float32Type); ok {
+		bitSize = 32
+	}
+	var value float64
+	var err error
+	if strings.EqualFold(floatStr, "snan") {
+		// Go has no notation for a signaling NaN.
+		value = math.NaN()
+	} else if value, err = strconv.ParseFloat(floatStr, bitSize); err != nil {
 		return nil, err
 	}
 	nullable := floatType.GetNullability() == types.NullabilityNullable
@@ -561,7 +570,16 @@ func getFloatLiteral(floatStr string, floatType types.Type) (expr.Literal, error
 }
 
 func getIntLiteral(integerStr string, intType types.Type) (expr.Literal, error) {
-	value, err := strconv.ParseInt(integerStr, 10, 64)
+	bitSize := 64
+	switch intType.(type) {
+	case *types.Int8Type:
+		bitSize = 8
+	case *types.Int16Type:
+		bitSize = 16
+	case *types.Int32Type:
+		bitSize = 32
+	}
+	value, err := strconv.ParseInt(integerStr, 10, bitSize)
 	if err != nil {
 		return nil, err
 	}
@@ -595,7 +613,7 @@ func (v *TestCaseVisitor) VisitFloatArg(ctx *baseparser.FloatArgContext) interfa
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid float arg %v", err))
 	}
-	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: floatLiteral.GetType()}
+	return &CaseLiteral{Value: floatLiteral, ValueText: ctx.NumericLiteral().GetText(), Type: typ}
 }
 
 func (v *TestCaseVisitor) VisitStringArg(ctx *baseparser.StringArgContext) interface{} {
@@ -1065,7 +1083,7 @@ func (v *TestCaseVisitor) VisitDecimalType(ctx *baseparser.DecimalTypeContext) i
 }
 
 func (v *TestCaseVisitor) VisitIntegerLiteral(ctx *baseparser.IntegerLiteralContext) interface{} {
-	value, err := strconv.Atoi(ctx.GetText())
+	value, err := strconv.ParseInt(ctx.GetText(), 10, 32)
 	if err != nil {
 		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid int arg %v", err))
 	}
-- 
2.43.0


From 82d4d50a2dfc7f8ec527ea19ba65e9520e39e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 095/122] fix: quotes and backslashes in the strings of test
 files kept their escapes or were lost, and were printed without

---
 testcases/parser/nodes.go   | 4 +++-
 testcases/parser/visitor.go | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 6dfaae9..3e60237 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -52,6 +52,8 @@ func (c *CaseLiteral) String() string {
 	return c.ValueText + "::enum"
 }
 
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+
 func literalToString(literal expr.Literal) string {
 	if literal == nil {
 		panic("literal is nil")
@@ -74,7 +76,7 @@ func literalToString(literal expr.Literal) string {
 	// for these types enclose in single quotes
 	case *types.StringType, *types.FixedCharType, *types.VarCharType,
 		*types.FixedBinaryType, *types.BinaryType, *types.DateType:
-		return fmt.Sprintf("'%s'", literal.ValueString())
+		return fmt.Sprintf("'%s'", stringEscaper.Replace(literal.ValueString()))
 	default:
 		return literal.ValueString()
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index eaab196..7a5d616 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -659,10 +659,15 @@ func (v *TestCaseVisitor) VisitTimestampArg(ctx *baseparser.TimestampArgContext)
 	return &CaseLiteral{Value: value, ValueText: ctx.TimestampLiteral().GetText(), Type: &types.TimestampType{Nullability: nullability}}
 }
 
+// getRawStringFromStringLiteral returns the text between the quotes of a literal, where a quote is written
+// with a backslash or twice and a backslash may be written twice.
 func getRawStringFromStringLiteral(text string) string {
-	return strings.Trim(text, "'")
+	text = strings.TrimSuffix(strings.TrimPrefix(text, "'"), "'")
+	return stringUnescaper.Replace(text)
 }
 
+var stringUnescaper = strings.NewReplacer(`\\`, `\`, `\'`, `'`, `''`, `'`)
+
 func (v *TestCaseVisitor) VisitTimestampTzArg(ctx *baseparser.TimestampTzArgContext) interface{} {
 	nullability := getNullability(ctx.TimestampTZType())
 	value, err := literal.NewTimestampTZFromString(getRawStringFromStringLiteral(ctx.TimestampTzLiteral().GetText()), nullability == types.NullabilityNullable)
-- 
2.43.0


From c4f100cae0e899ba4bf2c16f8fe733b2af1777f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 096/122] fix: scalar arguments of aggregate functions in test
 files did not take their declared type

---
 testcases/parser/visitor.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 7a5d616..88a8848 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -211,12 +211,18 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArgs(ctx *baseparser.Qualif
 	return args
 }
 
+// getScalarAggregateArgument returns an argument of an aggregate function that is a literal, with its declared type.
+func (v *TestCaseVisitor) getScalarAggregateArgument(ctx baseparser.IArgumentContext) *AggregateArgument {
+	arg := v.Visit(ctx).(*CaseLiteral)
+	if err := arg.updateLiteralType(); err != nil {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid argument %v", err))
+	}
+	return &AggregateArgument{Argument: arg, IsScalar: true}
+}
+
 func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.QualifiedAggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
-		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
-			IsScalar: true,
-		}
+		return v.getScalarAggregateArgument(ctx.Argument())
 	}
 	arg, err := newAggregateArgument(ctx.Identifier().GetText(), ctx.ColumnName().GetText(), nil)
 	if err != nil {
@@ -318,10 +324,7 @@ func (v *TestCaseVisitor) VisitAggregateFuncArgs(ctx *baseparser.AggregateFuncAr
 
 func (v *TestCaseVisitor) VisitAggregateFuncArg(ctx *baseparser.AggregateFuncArgContext) interface{} {
 	if ctx.Argument() != nil {
-		return &AggregateArgument{
-			Argument: v.Visit(ctx.Argument()).(*CaseLiteral),
-			IsScalar: true,
-		}
+		return v.getScalarAggregateArgument(ctx.Argument())
 	}
 	argType := v.Visit(ctx.DataType()).(types.Type)
 	arg, err := newAggregateArgument("", ctx.ColumnName().GetText(), argType)
-- 
2.43.0


From 10bed52e6cf3ad914b15e00f4f23a5f248ca1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:05 +0000
Subject: [PATCH 097/122] fix: empty nested lists in test files were refused
 and nested lists ignored their declared nullability

---
 testcases/parser/visitor.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 88a8848..b68cb23 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -804,25 +804,23 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 		// has the element type set to list<i32>. We need to unwrap one level so
 		// that inner literals resolve against i32 instead of list<i32>.
 		parentType := v.getLiteralTypeInContext()
-		if lt, ok := parentType.(*types.ListType); ok {
-			v.setLiteralTypeInContext(lt.Type)
-			defer v.setLiteralTypeInContext(parentType)
+		lt, ok := parentType.(*types.ListType)
+		if !ok {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("nested list in a list of %v", parentType))
+			return nil
 		}
+		v.setLiteralTypeInContext(lt.Type)
+		defer v.setLiteralTypeInContext(parentType)
 
+		nullable := lt.Nullability == types.NullabilityNullable
 		values := v.Visit(ctx.LiteralList()).([]expr.Literal)
 		if len(values) == 0 {
-			// For empty nested lists, use the element type from the parent list context
-			if elemType := v.getLiteralTypeInContext(); elemType != nil {
-				if lt, ok := elemType.(*types.ListType); ok {
-					return expr.NewEmptyListLiteral(lt.Type, false)
-				}
-			}
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("cannot determine element type for empty nested list"))
-			return nil
+			return expr.NewEmptyListLiteral(lt.Type, nullable)
 		}
-		value, err := literal.NewList(values, false)
+		value, err := literal.NewList(values, nullable)
 		if err != nil {
 			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid nested list %v", err))
+			return nil
 		}
 		return value
 	}
-- 
2.43.0


From e5a6bd1d2d28590cd75c2b43a76b0686630232a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:11 +0000
Subject: [PATCH 098/122] fix: values of another type than declared were
 accepted in the lists and columns of test files, strings that read like dates
 were dates

---
 testcases/parser/visitor.go | 42 +++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index b68cb23..5314867 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -829,9 +829,51 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 }
 
 func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface{} {
+	value, ok := v.visitLiteral(ctx).(expr.Literal)
+	if !ok {
+		return nil
+	}
+	if literalType := v.getLiteralTypeInContext(); literalType != nil && !isLiteralOfType(value, literalType) {
+		v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid %s literal %s", literalType, ctx.GetText()))
+		return nil
+	}
+	return value
+}
+
+// isLiteralOfType returns whether a literal parsed from its text alone has the given type. Literals of precision
+// types are kept as the corresponding type without precision.
+func isLiteralOfType(value expr.Literal, literalType types.Type) bool {
+	switch literalType.(type) {
+	case *types.PrecisionTimeType:
+		literalType = &types.TimeType{}
+	case *types.PrecisionTimestampType:
+		literalType = &types.TimestampType{}
+	case *types.PrecisionTimestampTzType:
+		literalType = &types.TimestampTzType{}
+	}
+	if _, ok := value.(*expr.NullLiteral); ok {
+		return true
+	}
+	nullability := literalType.GetNullability()
+	return value.GetType().WithNullability(nullability).Equals(literalType.WithNullability(nullability))
+}
+
+func isStringLike(t types.Type) bool {
+	switch t.(type) {
+	case *types.StringType, *types.FixedCharType, *types.VarCharType, *types.BinaryType, *types.FixedBinaryType:
+		return true
+	}
+	return false
+}
+
+func (v *TestCaseVisitor) visitLiteral(ctx *baseparser.LiteralContext) interface{} {
 	nullable := false
 	if literalType := v.getLiteralTypeInContext(); literalType != nil {
 		nullable = literalType.GetNullability() == types.NullabilityNullable
+		if text := ctx.GetText(); strings.HasPrefix(text, "'") && isStringLike(literalType) {
+			// a string that reads like a date, a time or an interval is a string still
+			return v.getLiteralFromString(ctx, getRawStringFromStringLiteral(text), literalType)
+		}
 	}
 	if ctx.BooleanLiteral() != nil {
 		flag := strings.ToLower(ctx.BooleanLiteral().GetText()) == "true"
-- 
2.43.0


From 04491af74f2ab208c53d8d3899ef096f0a8b9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 099/122] fix: tables of aggregate test files lost the
 nullability of their values, uneven or empty ones and column indexes out of
 range panicked or were cut

---
 testcases/parser/nodes.go   |  2 +-
 testcases/parser/visitor.go | 83 +++++++++++++++++++++----------------
 2 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 3e60237..b8ae55b 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -475,7 +475,7 @@ func (a *AggregateArgument) GetType() types.Type {
 }
 
 func newAggregateArgument(tableName string, columnName string, columnType types.Type) (*AggregateArgument, error) {
-	index, err := strconv.ParseInt(columnName[3:], 10, 64)
+	index, err := strconv.ParseInt(columnName[3:], 10, 32)
 	if err != nil {
 		return nil, err
 	}
diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 5314867..57e2a80 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -155,24 +155,33 @@ func (v *TestCaseVisitor) VisitSingleArgAggregateFuncCall(ctx *baseparser.Single
 }
 
 func (v *TestCaseVisitor) VisitCompactAggregateFuncCall(ctx *baseparser.CompactAggregateFuncCallContext) interface{} {
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	var args []*AggregateArgument
 	if ctx.AggregateFuncArgs() != nil {
 		args = v.Visit(ctx.AggregateFuncArgs()).([]*AggregateArgument)
 	}
 
-	numberOfColumns := int32(len(rows[0]))
-	columnTypes := make([]types.Type, numberOfColumns)
+	var columnTypes []types.Type
+	if rows := ctx.TableRows().(*baseparser.TableRowsContext).AllColumnValues(); len(rows) > 0 {
+		columnTypes = make([]types.Type, len(rows[0].(*baseparser.ColumnValuesContext).AllLiteral()))
+	} else {
+		// the table has no rows, its columns are the ones the arguments use
+		for _, arg := range args {
+			if !arg.IsScalar && int(arg.ColumnIndex) >= len(columnTypes) {
+				columnTypes = append(columnTypes, make([]types.Type, int(arg.ColumnIndex)+1-len(columnTypes))...)
+			}
+		}
+	}
 	for _, arg := range args {
-		if arg.ColumnIndex >= numberOfColumns {
-			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
+		if arg.IsScalar {
 			continue
 		}
-		if arg.ColumnType != nil {
-			columnTypes[arg.ColumnIndex] = arg.ColumnType
+		if int(arg.ColumnIndex) >= len(columnTypes) {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(columnTypes)))
+			continue
 		}
+		columnTypes[arg.ColumnIndex] = arg.ColumnType
 	}
-	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
+	columns, newColumnTypes := v.getColumnsFromRows(ctx.TableRows(), columnTypes)
 	return &TestCase{
 		FuncName:      ctx.Identifier().GetText(),
 		Columns:       columns,
@@ -197,6 +206,10 @@ func (v *TestCaseVisitor) VisitMultiArgAggregateFuncCall(ctx *baseparser.MultiAr
 			}
 		}
 		if !arg.IsScalar {
+			if int(arg.ColumnIndex) >= len(testcase.ColumnTypes) {
+				v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid column index %d, expected less than %d", arg.ColumnIndex, len(testcase.ColumnTypes)))
+				continue
+			}
 			arg.ColumnType = testcase.ColumnTypes[arg.ColumnIndex]
 		}
 	}
@@ -233,12 +246,11 @@ func (v *TestCaseVisitor) VisitQualifiedAggregateFuncArg(ctx *baseparser.Qualifi
 
 func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) interface{} {
 	columnTypes := make([]types.Type, 0, len(ctx.AllDataType()))
-	rows := v.Visit(ctx.TableRows()).([][]expr.Literal)
 	for _, dataType := range ctx.AllDataType() {
 		columnType := v.Visit(dataType).(types.Type)
 		columnTypes = append(columnTypes, columnType)
 	}
-	columns, newColumnTypes := v.getColumnsFromRows(ctx, rows, columnTypes)
+	columns, newColumnTypes := v.getColumnsFromRows(ctx.TableRows(), columnTypes)
 	return &TestCase{
 		Columns:     columns,
 		TableName:   ctx.GetTableName().GetText(),
@@ -246,22 +258,35 @@ func (v *TestCaseVisitor) VisitTableData(ctx *baseparser.TableDataContext) inter
 	}
 }
 
-func (v *TestCaseVisitor) getColumnsFromRows(ctx antlr.ParserRuleContext, rows [][]expr.Literal, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
+// getColumnsFromRows returns the columns of a table with a value of the column's type for every row. The type is nil
+// for a column that has no declared type.
+func (v *TestCaseVisitor) getColumnsFromRows(ctx baseparser.ITableRowsContext, columnTypes []types.Type) ([][]expr.Literal, []types.Type) {
+	rows := ctx.(*baseparser.TableRowsContext).AllColumnValues()
 	columns := make([][]expr.Literal, 0, len(columnTypes))
-	retColumnTypes := make([]types.Type, 0, len(columnTypes))
-	for i, columnType := range columnTypes {
-		newColumnType := columnType
-		column := make([]expr.Literal, 0, len(rows))
-		for _, row := range rows {
-			cell := v.getLiteral(ctx, row[i], columnType)
-			if _, ok := cell.(*expr.NullLiteral); ok {
-				newColumnType = columnType.WithNullability(types.NullabilityNullable)
-				cell = expr.NewNullLiteral(newColumnType)
+	for range columnTypes {
+		columns = append(columns, make([]expr.Literal, 0, len(rows)))
+	}
+	retColumnTypes := append([]types.Type{}, columnTypes...)
+	for _, row := range rows {
+		cells := row.(*baseparser.ColumnValuesContext).AllLiteral()
+		if len(cells) != len(columnTypes) {
+			v.ErrorListener.ReportVisitError(row, fmt.Errorf("expected %d values in row, got %d", len(columnTypes), len(cells)))
+			continue
+		}
+		for i, cellCtx := range cells {
+			v.setLiteralTypeInContext(columnTypes[i])
+			cell, ok := v.Visit(cellCtx).(expr.Literal)
+			v.clearLiteralTypeInContext()
+			if !ok {
+				// Child visitor already reported the error via ErrorListener.
+				continue
+			}
+			if _, ok := cell.(*expr.NullLiteral); ok && columnTypes[i] != nil {
+				retColumnTypes[i] = columnTypes[i].WithNullability(types.NullabilityNullable)
+				cell = expr.NewNullLiteral(retColumnTypes[i])
 			}
-			column = append(column, cell)
+			columns[i] = append(columns[i], cell)
 		}
-		retColumnTypes = append(retColumnTypes, newColumnType)
-		columns = append(columns, column)
 	}
 	return columns, retColumnTypes
 }
@@ -465,18 +490,6 @@ func (v *TestCaseVisitor) VisitBooleanArg(ctx *baseparser.BooleanArgContext) int
 	return &CaseLiteral{Value: boolLiteral, ValueText: ctx.BooleanLiteral().GetText(), Type: &types.BooleanType{Nullability: nullability}}
 }
 
-func (v *TestCaseVisitor) getLiteral(ctx antlr.ParserRuleContext, value expr.Literal, elementType types.Type) expr.Literal {
-	strLiteral, ok := value.(*expr.PrimitiveLiteral[string])
-	if !ok {
-		return value
-	}
-	ret := v.getLiteralFromString(ctx, strLiteral.Value, elementType)
-	if ret == nil {
-		return value
-	}
-	return ret
-}
-
 func (v *TestCaseVisitor) getLiteralFromString(ctx antlr.ParserRuleContext, value string, elementType types.Type) expr.Literal {
 	switch elementType := elementType.(type) {
 	case *types.Int8Type, *types.Int16Type, *types.Int32Type, *types.Int64Type:
-- 
2.43.0


From 5c4477ae6db1af85796080a2ea0e771b4bc059ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:10 +0000
Subject: [PATCH 100/122] fix: arguments of an aggregate test case referred to
 the wrong columns of its table

---
 testcases/parser/nodes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index b8ae55b..8c5c743 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -276,6 +276,10 @@ func (tc *TestCase) getAggregateFuncArgTypes() []types.Type {
 }
 
 func (tc *TestCase) getAggregateFuncTableSchema() []types.Type {
+	if len(tc.ColumnTypes) > 0 {
+		// the arguments may use the columns of the table in any order
+		return tc.ColumnTypes
+	}
 	schemaTypes := make([]types.Type, len(tc.AggregateArgs))
 	for i, arg := range tc.AggregateArgs {
 		if !arg.IsScalar {
-- 
2.43.0


From 0ae7d5b947f52c2fbd8625f458998bdcc2ba539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 101/122] fix: options of a test case were printed and passed
 on in random order

---
 testcases/parser/nodes.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 8c5c743..4b9ab14 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -226,6 +227,16 @@ func (tc *TestCase) getAggregateFuncTableString() string {
 	return b.String()
 }
 
+// getOptionNames returns the names of the options in a fixed order.
+func (tc *TestCase) getOptionNames() []string {
+	names := make([]string, 0, len(tc.Options))
+	for name := range tc.Options {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (tc *TestCase) getOptionString() string {
 	if len(tc.Options) == 0 {
 		return ""
@@ -233,8 +244,8 @@ func (tc *TestCase) getOptionString() string {
 	var b strings.Builder
 	b.WriteString(" [")
 	var options []string
-	for k, v := range tc.Options {
-		options = append(options, fmt.Sprintf("%s:%s", k, v))
+	for _, name := range tc.getOptionNames() {
+		options = append(options, fmt.Sprintf("%s:%s", name, tc.Options[name]))
 	}
 	b.WriteString(strings.Join(options, ","))
 	b.WriteByte(']')
@@ -246,10 +257,10 @@ func (tc *TestCase) GetFunctionOptions() []*types.FunctionOption {
 		return nil
 	}
 	funcOptions := make([]*types.FunctionOption, 0)
-	for key, value := range tc.Options {
+	for _, name := range tc.getOptionNames() {
 		funcOptions = append(funcOptions, &types.FunctionOption{
-			Name:       key,
-			Preference: []string{value},
+			Name:       name,
+			Preference: []string{tc.Options[name]},
 		})
 	}
 	return funcOptions
-- 
2.43.0


From 1a8324acb65e238046d4864108c59f11525dca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:21 +0000
Subject: [PATCH 102/122] fix: lists and empty tables of test cases were
 printed in a form that cannot be read

---
 testcases/parser/nodes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/testcases/parser/nodes.go b/testcases/parser/nodes.go
index 4b9ab14..b95677c 100644
--- a/testcases/parser/nodes.go
+++ b/testcases/parser/nodes.go
@@ -61,6 +61,12 @@ func literalToString(literal expr.Literal) string {
 	}
 
 	switch lit := literal.(type) {
+	case *expr.ListLiteral:
+		elements := make([]string, 0, len(lit.Value))
+		for _, element := range lit.Value {
+			elements = append(elements, literalToString(element))
+		}
+		return "[" + strings.Join(elements, ", ") + "]"
 	case *expr.NullLiteral:
 		return literal.ValueString()
 	case types.IsoValuePrinter:
@@ -206,7 +212,7 @@ func (tc *TestCase) needCompactAggregateFuncCall() bool {
 func (tc *TestCase) getAggregateFuncTableString() string {
 	var b strings.Builder
 	if len(tc.Columns) == 0 {
-		return ""
+		return "()"
 	}
 	b.WriteByte('(')
 	numRows := len(tc.Columns[0])
-- 
2.43.0


From c6f54304d575552e6e7934887526a7c8d4815020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:42 +0000
Subject: [PATCH 103/122] fix: numbers in a column of a test file whose type
 has no such values were dropped

---
 testcases/parser/visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index 57e2a80..b657ed1 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -954,6 +954,9 @@ func (v *TestCaseVisitor) visitLiteral(ctx *baseparser.LiteralContext) interface
 			return literal.NewString(ctx.NumericLiteral().GetText(), false)
 		}
 		value := v.getLiteralFromString(ctx, ctx.NumericLiteral().GetText(), v.getLiteralTypeInContext())
+		if value == nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid %s literal %s", v.getLiteralTypeInContext(), ctx.GetText()))
+		}
 		return value
 	}
 
-- 
2.43.0


From 4227d998746d6d48e9e2d4030faff61c5fbbf6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 104/122] fix: values of precision types in the lists of test
 files lost their precision

Elements of a list of precision times or timestamps were kept as plain times and
timestamps, so the list was of another type than written, and one with nulls or
empty lists in it was refused.
---
 testcases/parser/visitor.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/testcases/parser/visitor.go b/testcases/parser/visitor.go
index b657ed1..fe96a5f 100644
--- a/testcases/parser/visitor.go
+++ b/testcases/parser/visitor.go
@@ -810,6 +810,12 @@ func (v *TestCaseVisitor) VisitLiteralList(ctx *baseparser.LiteralListContext) i
 
 func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) interface{} {
 	if ctx.Literal() != nil {
+		if value, err := v.getPrecisionLiteral(ctx.Literal()); err != nil {
+			v.ErrorListener.ReportVisitError(ctx, fmt.Errorf("invalid list element %v", err))
+			return nil
+		} else if value != nil {
+			return value
+		}
 		return v.Visit(ctx.Literal())
 	}
 	if ctx.LiteralList() != nil {
@@ -841,6 +847,27 @@ func (v *TestCaseVisitor) VisitListElement(ctx *baseparser.ListElementContext) i
 	return nil
 }
 
+// getPrecisionLiteral returns the literal of the precision type in context that ctx stands for, or nil if there is no
+// such type in context or ctx is not a time or timestamp.
+func (v *TestCaseVisitor) getPrecisionLiteral(ctx baseparser.ILiteralContext) (expr.Literal, error) {
+	text := getRawStringFromStringLiteral(ctx.GetText())
+	switch t := v.getLiteralTypeInContext().(type) {
+	case *types.PrecisionTimeType:
+		if ctx.TimeLiteral() != nil {
+			return literal.NewPrecisionTimeFromString(t.Precision, text, t.Nullability == types.NullabilityNullable)
+		}
+	case *types.PrecisionTimestampType:
+		if ctx.TimestampLiteral() != nil {
+			return literal.NewPrecisionTimestampFromString(t.Precision, text, t.Nullability == types.NullabilityNullable)
+		}
+	case *types.PrecisionTimestampTzType:
+		if ctx.TimestampTzLiteral() != nil {
+			return literal.NewPrecisionTimestampTzFromString(t.Precision, text, t.Nullability == types.NullabilityNullable)
+		}
+	}
+	return nil, nil
+}
+
 func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface{} {
 	value, ok := v.visitLiteral(ctx).(expr.Literal)
 	if !ok {
@@ -854,7 +881,7 @@ func (v *TestCaseVisitor) VisitLiteral(ctx *baseparser.LiteralContext) interface
 }
 
 // isLiteralOfType returns whether a literal parsed from its text alone has the given type. Literals of precision
-// types are kept as the corresponding type without precision.
+// types in tables are kept as the corresponding type without precision.
 func isLiteralOfType(value expr.Literal, literalType types.Type) bool {
 	switch literalType.(type) {
 	case *types.PrecisionTimeType:
-- 
2.43.0


From 126f29ab43664424dbe95ccd7338cf8bd9bc20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:08 +0000
Subject: [PATCH 105/122] fix: a relation message without an input relation is
 an error, not a panic

---
 plan/plan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plan/plan.go b/plan/plan.go
index e5505e8..028149e 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -447,7 +447,7 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 }
 
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
-	switch rel := rel.RelType.(type) {
+	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
 		switch readType := rel.Read.ReadType.(type) {
-- 
2.43.0


From 4c74a98684a8d9e5e2d15b441b0e0ceb19389c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:39 +0000
Subject: [PATCH 106/122] fix: a named struct message without a struct is an
 empty schema, not a panic

---
 types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/types.go b/types/types.go
index c8e69c4..d5c35e4 100644
--- a/types/types.go
+++ b/types/types.go
@@ -1702,16 +1702,16 @@ func NewNamedStructFromProto(n *proto.NamedStruct) NamedStruct {
 		return NamedStruct{}
 	}
 
-	fields := make([]Type, len(n.Struct.Types))
-	for i, f := range n.Struct.Types {
+	fields := make([]Type, len(n.Struct.GetTypes()))
+	for i, f := range n.Struct.GetTypes() {
 		fields[i] = TypeFromProto(f)
 	}
 
 	return NamedStruct{
 		Names: n.Names,
 		Struct: StructType{
-			Nullability:      Nullability(n.Struct.Nullability),
-			TypeVariationRef: n.Struct.TypeVariationReference,
+			Nullability:      Nullability(n.Struct.GetNullability()),
+			TypeVariationRef: n.Struct.GetTypeVariationReference(),
 			Types:            fields,
 		},
 	}
-- 
2.43.0


From 3f890a45f94a5a025fc548b826aa29e8d4d3b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:01 +0000
Subject: [PATCH 107/122] fix: a literal message without a value or a type is
 an unsupported literal, not a panic

---
 expr/literals.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 7404b8c..38d7515 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1208,6 +1208,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Null:
+		if lit.Null == nil {
+			return nil
+		}
 		return &NullLiteral{Type: types.TypeFromProto(lit.Null)}
 	case *proto.Expression_Literal_Struct_:
 		typeList := make([]types.Type, len(lit.Struct.Fields))
@@ -1266,6 +1269,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Type:             ret[0].GetType(),
 			}}
 	case *proto.Expression_Literal_EmptyList:
+		if lit.EmptyList.GetType() == nil {
+			return nil
+		}
 		return &NestedLiteral[ListLiteralValue]{
 			Value: nil,
 			Type: &types.ListType{
@@ -1274,6 +1280,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Type:             types.TypeFromProto(lit.EmptyList.Type),
 			}}
 	case *proto.Expression_Literal_EmptyMap:
+		if lit.EmptyMap.GetKey() == nil || lit.EmptyMap.GetValue() == nil {
+			return nil
+		}
 		return &MapLiteral{
 			Value: nil,
 			Type: &types.MapType{
@@ -1285,7 +1294,12 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_UserDefined_:
 		params := make([]types.TypeParam, len(lit.UserDefined.TypeParameters))
 		for i, p := range lit.UserDefined.TypeParameters {
-			params[i] = types.TypeParamFromProto(p)
+			if params[i] = types.TypeParamFromProto(p); params[i] == nil {
+				return nil
+			}
+		}
+		if lit.UserDefined.Val == nil {
+			return nil
 		}
 
 		return &ProtoLiteral{
@@ -1349,7 +1363,7 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 	case *proto.Expression_Literal_IntervalCompound_:
 		return intervalCompoundLiteralFromProto(l)
 	}
-	panic("unimplemented literal type")
+	return nil
 }
 
 // NewPrecisionTimeLiteral creates a new PrecisionTime from an integer value, representing time since
-- 
2.43.0


From 112ae3cee38ac08fca79492a9b783adcc20a38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:40 +0000
Subject: [PATCH 108/122] fix: an unsupported literal in a virtual table or a
 parameter binding is an error

---
 plan/internal/helper.go | 13 ++++++++++---
 plan/plan.go            | 13 +++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/plan/internal/helper.go b/plan/internal/helper.go
index aa0424b..d9c128c 100644
--- a/plan/internal/helper.go
+++ b/plan/internal/helper.go
@@ -1,6 +1,9 @@
 package internal
 
 import (
+	"fmt"
+
+	substraitgo "github.com/substrait-io/substrait-go/v8"
 	"github.com/substrait-io/substrait-go/v8/expr"
 	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
 )
@@ -17,10 +20,14 @@ func VirtualTableExpressionFromProto(s *proto.Expression_Nested_Struct, reg expr
 	return fields, nil
 }
 
-func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) expr.VirtualTableExpressionValue {
+func VirtualTableExprFromLiteralProto(s *proto.Expression_Literal_Struct) (expr.VirtualTableExpressionValue, error) {
 	fields := make(expr.VirtualTableExpressionValue, len(s.Fields))
 	for i, f := range s.Fields {
-		fields[i] = expr.LiteralFromProto(f)
+		lit := expr.LiteralFromProto(f)
+		if lit == nil {
+			return nil, fmt.Errorf("%w: unsupported literal: %s", substraitgo.ErrInvalidExpr, f)
+		}
+		fields[i] = lit
 	}
-	return fields
+	return fields, nil
 }
diff --git a/plan/plan.go b/plan/plan.go
index 028149e..44744ff 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -261,9 +261,14 @@ func FromProtoWithDecoder(plan *proto.Plan, c *extensions.Collection, decoders m
 	if len(plan.ParameterBindings) > 0 {
 		ret.parameterBindings = make([]DynamicParameterBinding, len(plan.ParameterBindings))
 		for i, pb := range plan.ParameterBindings {
+			value := expr.LiteralFromProto(pb.Value)
+			if value == nil {
+				return nil, fmt.Errorf("%w: unsupported literal for parameter binding %d: %s",
+					substraitgo.ErrInvalidExpr, i, pb.Value)
+			}
 			ret.parameterBindings[i] = DynamicParameterBinding{
 				ParameterAnchor: pb.ParameterAnchor,
-				Value:           expr.LiteralFromProto(pb.Value),
+				Value:           value,
 			}
 		}
 	}
@@ -473,7 +478,11 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			}
 			var values []expr.VirtualTableExpressionValue
 			for _, v := range readType.VirtualTable.Values {
-				values = append(values, internal.VirtualTableExprFromLiteralProto(v))
+				row, err := internal.VirtualTableExprFromLiteralProto(v)
+				if err != nil {
+					return nil, err
+				}
+				values = append(values, row)
 			}
 			for _, v := range readType.VirtualTable.Expressions {
 				row, err := internal.VirtualTableExpressionFromProto(v, reg)
-- 
2.43.0


From 90b4f171c8d2516a28988c32a5ad32b0666b72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 109/122] fix: a dynamic parameter message without a type is an
 error, not a panic

---
 expr/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index fa97186..b8910b0 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -342,6 +342,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 		if et.DynamicParameter == nil {
 			return nil, fmt.Errorf("%w: dynamic parameter is nil", substraitgo.ErrInvalidExpr)
 		}
+		if et.DynamicParameter.Type == nil {
+			return nil, fmt.Errorf("%w: dynamic parameter missing type", substraitgo.ErrInvalidExpr)
+		}
 		return &DynamicParameter{
 			OutputType:         types.TypeFromProto(et.DynamicParameter.Type),
 			ParameterReference: et.DynamicParameter.ParameterReference,
-- 
2.43.0


From 531ec980ab8f8d1aaa20844479246a51a5edffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:34 +0000
Subject: [PATCH 110/122] fix: a switch message without cases is refused as
 NewSwitch refuses it

---
 expr/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index b8910b0..f08dc4a 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -195,6 +195,9 @@ func ExprFromProto(e *proto.Expression, baseSchema *types.RecordType, reg Extens
 			}
 		}
 
+		if len(et.SwitchExpression.Ifs) == 0 {
+			return nil, fmt.Errorf("%w: must have at least one switch case", substraitgo.ErrInvalidExpr)
+		}
 		ifs := make([]struct {
 			If   Literal
 			Then Expression
-- 
2.43.0


From 25d2d41b3b5e8c54d4bf4573c7f1c7e33577117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:00 +0000
Subject: [PATCH 111/122] fix: a measure without an aggregate function is an
 error, not a panic

---
 expr/functions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/functions.go b/expr/functions.go
index 04d0a05..4466a7c 100644
--- a/expr/functions.go
+++ b/expr/functions.go
@@ -859,7 +859,7 @@ func NewCustomAggregateFunc(
 func NewAggregateFunctionFromProto(
 	agg *proto.AggregateFunction, baseSchema *types.RecordType, reg ExtensionRegistry,
 ) (*AggregateFunction, error) {
-	if agg.OutputType == nil {
+	if agg.GetOutputType() == nil {
 		return nil, fmt.Errorf("%w: missing output type", substraitgo.ErrInvalidExpr)
 	}
 
-- 
2.43.0


From b912c101039e6cbf553c48e941368646668d5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:50 +0000
Subject: [PATCH 112/122] fix: a reference segment with an ill-formed child is
 refused, not shortened

---
 expr/field_reference.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 4bfde54..082a925 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -57,22 +57,31 @@ func RefSegmentFromProto(p *proto.Expression_ReferenceSegment) ReferenceSegment
 	switch seg := p.ReferenceType.(type) {
 	case *proto.Expression_ReferenceSegment_MapKey_:
 		key := LiteralFromProto(seg.MapKey.MapKey)
-		if key == nil {
+		child := RefSegmentFromProto(seg.MapKey.Child)
+		if key == nil || (child == nil && seg.MapKey.Child != nil) {
 			return nil
 		}
 		return &MapKeyRef{
 			MapKey: key,
-			Child:  RefSegmentFromProto(seg.MapKey.Child),
+			Child:  child,
 		}
 	case *proto.Expression_ReferenceSegment_StructField_:
+		child := RefSegmentFromProto(seg.StructField.Child)
+		if child == nil && seg.StructField.Child != nil {
+			return nil
+		}
 		return &StructFieldRef{
 			Field: seg.StructField.Field,
-			Child: RefSegmentFromProto(seg.StructField.Child),
+			Child: child,
 		}
 	case *proto.Expression_ReferenceSegment_ListElement_:
+		child := RefSegmentFromProto(seg.ListElement.Child)
+		if child == nil && seg.ListElement.Child != nil {
+			return nil
+		}
 		return &ListElementRef{
 			Offset: seg.ListElement.Offset,
-			Child:  RefSegmentFromProto(seg.ListElement.Child),
+			Child:  child,
 		}
 	}
 
-- 
2.43.0


From f48f50b26034de361926bfeb97624c408faef887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:16 +0000
Subject: [PATCH 113/122] fix: a field reference message without a reference is
 an error

---
 expr/field_reference.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 082a925..0784990 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -841,7 +841,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		err       error
 	)
 
-	switch rt := p.RootType.(type) {
+	switch rt := p.GetRootType().(type) {
 	case *proto.Expression_FieldReference_Expression:
 		if root, err = ExprFromProto(rt.Expression, baseSchema, reg); err != nil {
 			return nil, err
@@ -854,7 +854,7 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		root = LambdaParameterReference{StepsOut: rt.LambdaParameterReference.StepsOut}
 	}
 
-	switch rt := p.ReferenceType.(type) {
+	switch rt := p.GetReferenceType().(type) {
 	case *proto.Expression_FieldReference_DirectReference:
 		refseg := RefSegmentFromProto(rt.DirectReference)
 		if refseg == nil {
@@ -877,6 +877,9 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 
 	case *proto.Expression_FieldReference_MaskedReference:
 		ref = MaskExpressionFromProto(rt.MaskedReference)
+
+	default:
+		return nil, fmt.Errorf("%w: field reference without a reference", substraitgo.ErrInvalidExpr)
 	}
 
 	return &FieldReference{Root: root, Reference: ref, knownType: knownType}, nil
-- 
2.43.0


From 8fc0723fa24e2bad2d570b352bbd134957d87bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:15 +0000
Subject: [PATCH 114/122] fix: an aggregate whose grouping references a missing
 expression is refused

---
 plan/plan.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 44744ff..9c58e50 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -614,6 +614,15 @@ func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 			groupingExpressions, groupingReferences = groupingExprs(groups)
 		}
 
+		for i, refs := range groupingReferences {
+			for _, ref := range refs {
+				if int(ref) >= len(groupingExpressions) {
+					return nil, fmt.Errorf("%w: grouping %d for AggregateRel references expression %d of %d",
+						substraitgo.ErrInvalidRel, i, ref, len(groupingExpressions))
+				}
+			}
+		}
+
 		measures := make([]AggRelMeasure, len(rel.Aggregate.Measures))
 		for i, m := range rel.Aggregate.Measures {
 			measures[i].measure, err = expr.NewAggregateFunctionFromProto(m.Measure, &base, reg)
-- 
2.43.0


From d899f05afeb30631a63d602bccc759d4979f71a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:31 +0000
Subject: [PATCH 115/122] fix: an output mapping to a field the relation does
 not have is refused when reading

---
 plan/plan.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 9c58e50..806e424 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -452,6 +452,23 @@ func decodeExtensionDef(reg expr.ExtensionRegistry, detail *anypb.Any) (Extensio
 }
 
 func RelFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
+	out, err := relFromProto(rel, reg)
+	if err != nil {
+		return nil, err
+	}
+
+	if mapping := out.OutputMapping(); len(mapping) > 0 && isRecordTypeSupported(out) {
+		direct := out.directOutputSchema()
+		for _, m := range mapping {
+			if m < 0 || m >= direct.FieldCount() {
+				return nil, fmt.Errorf("%w: %w", substraitgo.ErrInvalidRel, errOutputMappingOutOfRange)
+			}
+		}
+	}
+	return out, nil
+}
+
+func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 	switch rel := rel.GetRelType().(type) {
 	case *proto.Rel_Read:
 		var out ReadRel
-- 
2.43.0


From 03ef5124bcd543ffd3f2ab684cd8150cfe80f5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:31 +0000
Subject: [PATCH 116/122] fix: a mask expression message without a selection is
 refused, not a panic

---
 expr/field_reference.go | 30 ++++++++++++++++++++++++------
 plan/relations.go       |  4 +++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/expr/field_reference.go b/expr/field_reference.go
index 0784990..f6d1076 100644
--- a/expr/field_reference.go
+++ b/expr/field_reference.go
@@ -400,12 +400,18 @@ func (e *MaskExpression) Select() MaskStructSelect {
 	return slices.Clone(e.sel)
 }
 
+// MaskExpressionFromProto returns nil if the message does not say what is selected.
 func MaskExpressionFromProto(p *proto.Expression_MaskExpression) *MaskExpression {
+	if p.GetSelect() == nil {
+		return nil
+	}
 	sel := make(MaskStructSelect, len(p.Select.StructItems))
 	for i, item := range p.Select.StructItems {
 		sel[i].field = item.Field
 		if item.Child != nil {
-			sel[i].child = maskSelectFromProto(item.Child)
+			if sel[i].child = maskSelectFromProto(item.Child); sel[i].child == nil {
+				return nil
+			}
 		}
 	}
 	return &MaskExpression{sel: sel, maintainSingular: p.MaintainSingularStruct}
@@ -418,7 +424,9 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 		for i, item := range s.Struct.StructItems {
 			items[i].field = item.Field
 			if item.Child != nil {
-				items[i].child = maskSelectFromProto(item.Child)
+				if items[i].child = maskSelectFromProto(item.Child); items[i].child == nil {
+					return nil
+				}
 			}
 		}
 		return items
@@ -430,17 +438,23 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 				selection[i] = (*MaskListElement)(s.Item)
 			case *proto.Expression_MaskExpression_ListSelect_ListSelectItem_Slice:
 				selection[i] = (*MaskListSlice)(s.Slice)
+			default:
+				return nil
 			}
 		}
 		ret := &MaskListSelect{selection: selection}
 		if s.List.Child != nil {
-			ret.child = maskSelectFromProto(s.List.Child)
+			if ret.child = maskSelectFromProto(s.List.Child); ret.child == nil {
+				return nil
+			}
 		}
 		return ret
 	case *proto.Expression_MaskExpression_Select_Map:
 		var ret MaskMapSelect
 		if s.Map.Child != nil {
-			ret.child = maskSelectFromProto(s.Map.Child)
+			if ret.child = maskSelectFromProto(s.Map.Child); ret.child == nil {
+				return nil
+			}
 		}
 
 		switch sk := s.Map.Select.(type) {
@@ -453,7 +467,7 @@ func maskSelectFromProto(p *proto.Expression_MaskExpression_Select) MaskSelect {
 		}
 		return &ret
 	}
-	panic("unimplemented mask select type")
+	return nil
 }
 
 type MaskSelect interface {
@@ -876,7 +890,11 @@ func FieldReferenceFromProto(p *proto.Expression_FieldReference, baseSchema *typ
 		ref = refseg
 
 	case *proto.Expression_FieldReference_MaskedReference:
-		ref = MaskExpressionFromProto(rt.MaskedReference)
+		mask := MaskExpressionFromProto(rt.MaskedReference)
+		if mask == nil {
+			return nil, fmt.Errorf("%w: mask expression without a selection", substraitgo.ErrInvalidExpr)
+		}
+		ref = mask
 
 	default:
 		return nil, fmt.Errorf("%w: field reference without a reference", substraitgo.ErrInvalidExpr)
diff --git a/plan/relations.go b/plan/relations.go
index a0ba360..e9416c2 100644
--- a/plan/relations.go
+++ b/plan/relations.go
@@ -84,7 +84,9 @@ func (b *baseReadRel) fromProtoReadRel(rel *proto.ReadRel, reg expr.ExtensionReg
 	}
 
 	if rel.Projection != nil {
-		b.projection = expr.MaskExpressionFromProto(rel.Projection)
+		if b.projection = expr.MaskExpressionFromProto(rel.Projection); b.projection == nil {
+			return fmt.Errorf("%w: mask expression without a selection", substraitgo.ErrInvalidExpr)
+		}
 	}
 
 	b.advExtension = rel.AdvancedExtension
-- 
2.43.0


From ef114563d695a6a5086cde54603bff1b7c3efdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:09 +0000
Subject: [PATCH 117/122] fix: an extended expression reference without an
 expression or measure is refused

---
 expr/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/expression.go b/expr/expression.go
index f08dc4a..4dc4ca4 100644
--- a/expr/expression.go
+++ b/expr/expression.go
@@ -1713,6 +1713,8 @@ func ExtendedFromProto(ex *proto.ExtendedExpression, c *extensions.Collection) (
 				return nil, err
 			}
 			refs[i].SetMeasure(agg)
+		default:
+			return nil, fmt.Errorf("%w: expression reference without an expression or a measure", substraitgo.ErrInvalidExpr)
 		}
 	}
 
-- 
2.43.0


From 21ccc453814f55e33638e0a2c3cb9efc78bdd3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:12 +0000
Subject: [PATCH 118/122] fix: a decimal literal message whose value is not 16
 bytes is an unsupported literal, not a panic

---
 expr/literals.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/literals.go b/expr/literals.go
index 38d7515..24e11e0 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1184,6 +1184,9 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				Nullability:      nullability,
 			}}
 	case *proto.Expression_Literal_Decimal_:
+		if len(lit.Decimal.Value) != 16 {
+			return nil
+		}
 		return &ProtoLiteral{
 			Value: lit.Decimal.Value,
 			Type: &types.DecimalType{
-- 
2.43.0


From 4562003828be39606e58686a1c72f4c340c0e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 119/122] fix: a user-defined literal message with an
 unsupported field is an unsupported literal

---
 expr/literals.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr/literals.go b/expr/literals.go
index 24e11e0..2dc2b1d 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -1301,8 +1301,15 @@ func LiteralFromProto(l *proto.Expression_Literal) Literal {
 				return nil
 			}
 		}
-		if lit.UserDefined.Val == nil {
+		switch val := lit.UserDefined.Val.(type) {
+		case nil:
 			return nil
+		case *proto.Expression_Literal_UserDefined_Struct:
+			for _, f := range val.Struct.GetFields() {
+				if LiteralFromProto(f) == nil {
+					return nil
+				}
+			}
 		}
 
 		return &ProtoLiteral{
-- 
2.43.0


From f09a6a43c1f2bf24850248e82d65f4353db04486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:09 +0000
Subject: [PATCH 120/122] fix: a write message without a table is an error

---
 plan/plan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plan/plan.go b/plan/plan.go
index 806e424..8417fba 100644
--- a/plan/plan.go
+++ b/plan/plan.go
@@ -962,6 +962,8 @@ func relFromProto(rel *proto.Rel, reg expr.ExtensionRegistry) (Rel, error) {
 				out.advExtension = writeType.NamedTable.AdvancedExtension
 			case *proto.WriteRel_ExtensionTable:
 				return nil, fmt.Errorf("%w: ExtensionTable not supported for WriteRel", substraitgo.ErrInvalidRel)
+			default:
+				return nil, fmt.Errorf("%w: WriteRel without a table", substraitgo.ErrInvalidRel)
 			}
 		default:
 			return nil, fmt.Errorf("%w: WriteRel not supported for optype %v", substraitgo.ErrInvalidRel, rel.Write.Op)
-- 
2.43.0


From 4a1faee5ff6783787748cef9dfa2a4eb826e3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:15 +0000
Subject: [PATCH 121/122] fix: the type of precision_timestamp_tz is itself,
 not precision_timestamp

---
 types/precison_timestamp_types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types/precison_timestamp_types.go b/types/precison_timestamp_types.go
index ae650bf..d03f5bd 100644
--- a/types/precison_timestamp_types.go
+++ b/types/precison_timestamp_types.go
@@ -206,6 +206,8 @@ func (m *PrecisionTimestampTzType) Equals(rhs Type) bool {
 	return false
 }
 
+func (m *PrecisionTimestampTzType) GetType() Type { return m }
+
 func (m *PrecisionTimestampTzType) GetNullability() Nullability {
 	return m.Nullability
 }
-- 
2.43.0


From efdf8cec022a82ad424fff94bf9f26f15bd07649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:28 +0000
Subject: [PATCH 122/122] fix: giving a literal another type refuses a struct
 as a list, and a value that is not 16 bytes as a uuid

---
 expr/literals.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/expr/literals.go b/expr/literals.go
index 2dc2b1d..4fdd7b7 100644
--- a/expr/literals.go
+++ b/expr/literals.go
@@ -341,10 +341,12 @@ func (*NestedLiteral[T]) IsScalar() bool { return true }
 func (t *NestedLiteral[T]) WithType(newType types.Type) (Literal, error) {
 	switch newType.(type) {
 	case *types.ListType:
-		return &NestedLiteral[ListLiteralValue]{
-			Value: ListLiteralValue(t.Value),
-			Type:  newType,
-		}, nil
+		if list, ok := any(t.Value).(ListLiteralValue); ok {
+			return &NestedLiteral[ListLiteralValue]{
+				Value: list,
+				Type:  newType,
+			}, nil
+		}
 	}
 	return nil, fmt.Errorf("invalid type %T for nested literal", newType)
 }
@@ -494,6 +496,9 @@ func (t *ByteSliceLiteral[T]) WithType(newType types.Type) (Literal, error) {
 			Type:  newType,
 		}, nil
 	case *types.UUIDType:
+		if len(t.Value) != 16 {
+			return nil, fmt.Errorf("literal value of %d bytes is not a uuid", len(t.Value))
+		}
 		return &ByteSliceLiteral[types.UUID]{
 			Value: types.UUID(t.Value),
 			Type:  newType,
-- 
2.43.0

