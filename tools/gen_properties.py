#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Every data type survives the protobuf round trip",
  "Converting a data type from its Substrait protobuf message to the library's representation and back yields an identical message, for every supported kind of type (bool, integers, floats, string, binary, uuid, dates, times and timestamps of any precision, intervals, fixed and variable length types, decimal, struct, list, map, function and user-defined types), every nullability, type variation, length, precision, scale, type reference and type parameter, at any nesting depth (an interval_day without a precision denotes microseconds and is written so). Converting a library type to protobuf and back yields a type equal to the original.",
  ["inputs"],"all type messages (every kind, attribute value, nesting) a plan may carry",
  "Tests round-trip a hand-picked list of types, mostly one attribute setting per kind; the claim is over the product of kind, attributes and nesting.",
  ["types/types.go","types/any_type.go","types/interval_compound_type.go","types/interval_year_to_month_type.go","types/interval_day_type.go","types/precison_timestamp_types.go"],
  [("TypeFromProto/TypeToProto","types/types.go")],observe=["types.TypeFromProto","types.TypeToProto"])

p("P02","Type equality is structural, and a derived type never changes its source",
  "Two data types compare equal exactly when their kind, nullability, type variation, parameters and component types all agree, so equality is reflexive, symmetric and transitive. Deriving a type with another nullability yields a type that differs from the source in nullability only, and never changes the source or any other type already handed out, including types handed out by type registries.",
  ["inputs","histories"],"all pairs of types; all sequences of derivations and registry look-ups over shared types",
  "Tests compare a few equal and unequal pairs and never look at the source again after deriving; aliasing shows only in a sequence (derive, then look at an older value).",
  ["types/types.go","types/interval_day_type.go","types/interval_compound_type.go","types/precison_timestamp_types.go","types/any_type.go","functions/types.go"],
  [("Equals methods","types/*.go"),("WithNullability methods","types/*.go"),("type registry","functions/types.go")])

p("P03","Type expression text parses and prints consistently",
  "Text that denotes a type expression in a function definition parses to exactly the expression it denotes (kind, nullability, parameters, nesting, arithmetic precedence, conditionals), and printing the parsed expression gives text that parses to the same expression again. Text that is not a type expression is rejected with an error rather than a crash or a partial result.",
  ["inputs"],"all type expression texts over the grammar, nested to any depth",
  "Tests parse a fixed table of strings; the grammar is recursive and the interplay of nullability, nesting and parameters is unbounded.",
  ["types/parser/parse.go","types/parser/visitor.go","types/parameterized_single_integer_param_type.go","types/type_derivation.go"],
  [("TypeVisitor","types/parser/visitor.go"),("ParseType","types/parser/parse.go"),("String methods","types/*.go")])

p("P04","Function signatures accept exactly the argument lists they declare",
  "A function implementation accepts a list of concrete argument types exactly when the argument count is allowed by its parameter list and variadic declaration, every argument type fits its parameter under the declared nullability handling, and all arguments bound to one shared type variable or shared integer parameter agree. Checking one argument position gives the same answer as the whole-list check gives for that position alone, no argument list makes the check crash, and the minimum and maximum argument counts a function reports are those of the lists it accepts.",
  ["inputs"],"all signatures (parameters, variadic bounds, consistency, nullability handling) and all argument type lists, of any length",
  "Tests check individual signatures with a few argument lists; the property is over the product of variadic bounds, list length, nullability mode and type-variable bindings.",
  ["extensions/variants.go","types/any_type.go","types/types.go","types/integer_parameters/integer_parameters.go","types/parameterized_list_type.go","types/parameterized_decimal_type.go"],
  [("matchArguments/matchArgumentAtCommon","extensions/variants.go"),("MatchWithNullability / MatchWithoutNullability","types/*.go"),("VariadicBehavior","extensions/simple_extension.go")])

p("P05","Return types are derived as the function definition declares",
  "For accepted arguments the resolved return type is the one the definition's return expression denotes: type variables and integer parameters take the values bound by the arguments, arithmetic and conditionals are evaluated as written, and nullability follows the declared handling (under mirroring the result is nullable exactly when some argument is nullable; otherwise as declared). Resolution depends on nothing but the definition and the arguments, never alters the definition, and reports an error instead of inventing a type when the arguments do not bind what the expression needs.",
  ["inputs","histories"],"all definitions and argument lists; all orders of repeated resolutions on one definition",
  "Tests resolve one or two argument lists per shape; derived integer arithmetic and mutation of a shared definition only show across argument values and repeated use.",
  ["extensions/variants.go","types/type_derivation.go","types/any_type.go","types/parameterized_decimal_type.go"],
  [("EvaluateTypeExpression","extensions/variants.go"),("ReturnType","types/*.go"),("OutputDerivation/BinaryExpr/IfExpr","types/type_derivation.go")])

p("P06","Extension files load all-or-nothing and stay retrievable exactly as declared",
  "Loading an extension definition either fails and leaves the collection exactly as it was, or succeeds and makes every declared function implementation, type and type variation retrievable under its namespace and signature, once and with its declared attributes. A file is refused when its namespace is already loaded, when it is malformed, or when it depends on or refers to a namespace or type that has not been loaded; a plain function name resolves only when it denotes exactly one implementation.",
  ["histories","inputs"],"all sequences of load attempts, valid and invalid, over one collection, with look-ups in between",
  "Tests load one or two files each; atomicity and isolation between files are statements about every history of successful and failed loads.",
  ["extensions/extension_mgr.go","extensions/simple_extension.go","extensions/validation.go","extensions/extension_id.go"],
  [("Collection.Load","extensions/extension_mgr.go"),("validation","extensions/validation.go")],
  state=[("loaded namespaces and function/type tables","what has been loaded so far","extensions/extension_mgr.go Collection")])

p("P07","Extension references inside a plan are unambiguous, stable and fully declared",
  "Within one plan an anchor denotes at most one extension function, type or type variation, asking again for the same entity gives the same anchor, and an anchor once handed out or read from a plan keeps its meaning for the life of the set, whatever anchors the plan already used. The declarations written out list exactly the entities in use, in an order that depends only on the set, every declaration refers to a namespace listed with it, and reading them back restores the same meaning of every anchor.",
  ["histories","inputs"],"all sequences of anchor requests, look-ups, serialisations and re-reads, starting from any plan's declarations including sparse and large anchors",
  "Tests take a few anchors from an empty set; collisions appear only when requests follow particular pre-existing anchors, and order instability only when several kinds of declaration are mixed.",
  ["extensions/extension_mgr.go","expr/utils.go"],
  [("set.Get*Anchor / addOrGetURN","extensions/extension_mgr.go"),("GetExtensionSet / ToProto","extensions/extension_mgr.go")],
  state=[("urns, types, typeVariations, funcs","anchor tables","extensions/extension_mgr.go set")])

p("P08","Literals keep their value and type across construction and protobuf",
  "A literal built from a value denotes that value with the type that value implies, and converting it to protobuf and back yields an equal literal of the same type, for every literal kind including nulls, nested and empty collections, user-defined values and compound intervals. Reading a literal message and writing it again yields the same message, deprecated encodings excepted. Giving a literal another type keeps its value and yields that type, or is refused; it never yields a literal of a type that cannot hold the value.",
  ["inputs"],"all literal kinds, values, nullability and nesting",
  "Tests pick a few values per kind; boundary values and nesting form an unbounded product.",
  ["expr/literals.go","expr/interval_compound_literal.go","expr/interval_year_to_month.go","literal/utils.go"],
  [("LiteralFromProto / ToProtoLiteral","expr/literals.go"),("NewLiteral","expr/literals.go")])

p("P09","Decimal and time conversions are numerically exact",
  "A decimal written as text is stored as exactly that number with the smallest precision and scale that hold it and prints back as the same number; changing precision and scale keeps the number or fails, and never changes it. Converting a time or timestamp between text, wall-clock value and any sub-second precision keeps the instant exactly when the target precision can express it and otherwise rounds towards the past, including for instants before the epoch.",
  ["inputs"],"all decimals up to the maximum precision, all instants, all pairs of precisions",
  "Tests use a few positive samples; sign, boundary digits, exponents and pre-epoch instants are only reachable by systematic enumeration.",
  ["expr/decimal_util.go","expr/literals.go","types/precison_timestamp_types.go","types/types.go","literal/utils.go"],
  [("DecimalStringToBytes / modifyDecimalPrecisionAndScale","expr/decimal_util.go"),("GetTimeValueByPrecision / ToPrecisionTime","types/precison_timestamp_types.go")])

p("P10","Every expression survives the protobuf round trip",
  "Reading an expression message and writing it again yields the same message for every kind of expression (literals, references, scalar, window and aggregate functions, conditionals, membership tests, casts, nested constructors, parameters, lambdas, subqueries), whatever its options, arguments and nesting. The expression read reports the same type, function identity and arguments that the message states.",
  ["inputs"],"all valid expression messages over all kinds, optional parts present or absent, nested to any depth",
  "Tests round-trip one example per kind; dropped or swapped optional fields depend on which combination of parts is present.",
  ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","plan/subquery.go"],
  [("ExprFromProto / ToProto","expr/expression.go"),("FieldReferenceFromProto","expr/field_reference.go"),("SubqueryFromProto","plan/subquery.go")])

p("P11","Expression rewriting replaces exactly what was asked and keeps the original",
  "Visiting an expression presents each of its child expressions exactly once (function arguments, partitions, sort keys, conditions, branches, options, operands, lambda bodies and subquery needles; a field reference counts as a leaf), and rewriting with a substitution yields the expression in which exactly the substituted children are replaced, in place, with everything else unchanged. The original expression is never modified, and a rewrite that changes nothing returns the original itself.",
  ["inputs","histories"],"all expression trees and all choices of which children are replaced, repeated on shared subtrees",
  "Tests rewrite one child of a few kinds; the copying logic differs per kind and per position of the first replaced child.",
  ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/lambda.go","plan/subquery.go"],
  [("Visit methods","expr/*.go, plan/subquery.go")])

p("P12","Expression equality distinguishes exactly different expressions",
  "Two expressions compare equal exactly when they denote the same expression: same kind, same function, arguments in the same order and number, same options, bounds, phases, types and literal values. Equality is symmetric and never crashes, whatever two expressions are compared. (Subqueries, whose relations have no equality of their own, may compare unequal although they denote the same; literals that are not a number are not covered.)",
  ["inputs"],"all pairs of expressions, including pairs that differ in exactly one attribute or in argument count",
  "Tests compare an expression with itself and a few others; an ignored attribute shows only for a pair differing in precisely that attribute.",
  ["expr/expression.go","expr/functions.go","expr/field_reference.go","expr/literals.go","expr/lambda.go"],
  [("Equals methods","expr/*.go")])

p("P13","References resolve to the referenced type or are refused",
  "A field reference built or read against a schema has the type of exactly the field it denotes, through any nesting of structs, lists, maps and root expressions, and is refused with an error when it denotes nothing. A lambda parameter reference built with the expression builder resolves to the parameter of the lambda that many scopes out, is refused when no such scope or parameter exists, and a failed or finished build leaves no trace in later builds. (Lambda parameter references read from messages are documented as not resolved yet.)",
  ["inputs","histories"],"all schemas and reference paths; all nestings and build sequences of lambdas on one builder",
  "Tests resolve a few paths; scope handling after failures and off-by-one bounds need systematic paths and build histories.",
  ["expr/field_reference.go","expr/builder.go","plan/builders.go"],
  [("ReferenceSegment.GetType / NewFieldRef","expr/field_reference.go"),("lambda context stack","expr/builder.go"),("RootFieldRef / JoinedRecordFieldRef","plan/builders.go")],
  state=[("lambda context","enclosing lambda parameter structs","expr/builder.go ExprBuilder.lambdaContext")])

p("P14","Plans and relations survive the protobuf round trip",
  "Reading a plan message and writing it again yields the same plan for every kind of relation and every optional part it may carry (emit mappings, hints, extensions, filters, projections, keys, options, write and DDL parts), in any composition, deprecated encodings being replaced by their current equivalents. Plans and relations obtained from the builder serialise to messages that read back to the same plan.",
  ["inputs"],"all valid plan messages over all relation kinds, optional parts present or absent, composed to any depth",
  "Tests round-trip selected sample plans; a field dropped for one relation kind is only visible when precisely that field is present.",
  ["plan/plan.go","plan/common.go","plan/relations.go"],
  [("RelFromProto / ToProto","plan/plan.go, plan/relations.go"),("RelCommon","plan/common.go"),("FromProto","plan/plan.go")])

p("P15","Every relation reports the output schema its semantics imply",
  "The output columns reported by a relation are, in order, type and nullability, those its operation produces from its inputs (for example nullable sides for outer joins, one side only for semi and anti joins, grouping keys then measures for aggregates, appended expressions for projections), selected and reordered by its output mapping if it has one. The same relation built through the builder or read from a message reports the same schema, and asking for the schema never changes any relation.",
  ["inputs","histories"],"all relation trees over all relation and join kinds with all output mappings; all orders of schema queries over shared subtrees",
  "Tests check the schema of a few trees; combinations of join kind, nullability and mapping on inputs that already carry mappings are not sampled, nor repeated queries on shared inputs.",
  ["plan/relations.go","plan/common.go","plan/builders.go","types/types.go"],
  [("RecordType / directOutputSchema","plan/relations.go"),("RecordType.Concat","types/types.go"),("mapping","plan/common.go")])

p("P16","Remapping composes and never alters an existing relation",
  "Remapping a relation yields a relation whose columns are those of the original picked in the requested order, so that successive remaps compose, and a mapping that names a column outside the original's output is refused. Neither remapping, copying with new inputs, rewriting expressions, nor building on top of a relation changes the schema or serialised form of any relation that existed before.",
  ["histories","inputs"],"all sequences of build, remap, copy and rewrite operations over a pool of shared relations",
  "Tests remap a fresh relation and look only at the result; aliasing shows when an older relation is looked at again after later operations.",
  ["plan/common.go","plan/relations.go","plan/builders.go"],
  [("RemapHelper","plan/common.go"),("Copy","plan/relations.go"),("setMapping","plan/common.go")],
  state=[("mapping","output mapping of a relation","plan/common.go RelCommon")])

p("P17","Copying or rewriting a relation changes only what was requested",
  "Copying a relation with new inputs yields the same operation, with every other property kept, over exactly those inputs, and is refused when the number of inputs is wrong. Rewriting its expressions applies the rewrite exactly once to each expression the relation carries and to nothing else, keeps every other property, propagates errors, and returns the relation itself when neither expressions nor inputs change.",
  ["inputs"],"all relation kinds with all optional parts, all rewrites and input replacements",
  "Tests rewrite a few relation kinds with one expression; forgetting a field or an expression position in a kind-specific copy is not sampled.",
  ["plan/relations.go"],
  [("Copy / CopyWithExpressionRewrite","plan/relations.go")])

p("P18","The plan builder refuses invalid relations instead of producing them",
  "Every relation, subquery or plan the builder returns without an error is exactly the one asked for and well formed: the column indices, grouping references and output mappings it is given lie within the columns they refer to, conditions and measure filters are boolean, rows of a virtual table all have the same length and types and its names count its columns depth-first, set operations agree in shape, subqueries have the number of columns their kind requires, offsets, counts, join types and operations are legal, no part is missing, and root names match the output. Arguments that would break this are refused with an error, never with a crash and never by returning an ill-formed relation, and a builder that reported an error can be used further as if the failed step had not happened.",
  ["inputs","histories"],"all builder calls with boundary and out-of-range arguments, all sequences of aggregate-builder steps including failing ones",
  "Tests assert selected error messages; boundary indices (exactly one past the end, negative, remapped inputs) and step sequences are not enumerated.",
  ["plan/builders.go","plan/internal/helper.go","plan/plan.go"],
  [("builder","plan/builders.go"),("AggregateRelBuilder","plan/builders.go")],
  state=[("grouping expressions, grouping sets, measures","accumulated aggregate","plan/builders.go AggregateRelBuilder")])

p("P19","Parameter bindings always match the parameters a plan uses",
  "The builder accepts parameter bindings for a plan exactly when each binding has a value, names a parameter no other binding names and that occurs somewhere in the plan (the root relation or a further one, any expression of any relation kind, relations inside subqueries), and its value has that parameter's type up to nullability. Accepted bindings are preserved exactly when the plan is written and read.",
  ["inputs"],"all plans with parameters at any position in any relation kind, all binding sets",
  "Tests place a parameter in a filter or projection only; the search must reach every expression position of every relation kind.",
  ["plan/plan.go","plan/builders.go"],
  [("ValidateParameterBindings","plan/plan.go"),("PlanWithBindings","plan/builders.go")])

p("P20","Column names line up with the fields they name",
  "The names of a virtual table are accepted exactly when they count its fields depth-first through nested structures, and a plan root, built or read, is accepted exactly when its names count the columns of its output in the same way. Schemas and roots keep the order of names and fields when built, written and read, every relation of a plan stays in its place, and building on or combining relations never changes the schemas they came from.",
  ["inputs","histories"],"all nested schemas and name lists; sequences of schema combinations over shared schemas",
  "Tests use flat schemas and one nested sample; counts through list, map and struct nesting and aliasing of combined schemas are not enumerated.",
  ["types/types.go","plan/plan.go","plan/builders.go","plan/internal/helper.go"],
  [("NamedStruct","types/types.go"),("Root","plan/plan.go"),("RecordType","types/types.go")])

p("P21","A dialect exposes exactly the functions and types it declares",
  "Localising a function registry to a dialect yields exactly the declared function implementations, each under its Substrait name and its local name with its declared notation and options, and fails when a declared implementation does not exist. A function call is accepted by the dialect exactly when its implementation (of that kind) and its argument types are declared and each of its options lists a declared value, and types translate to their local names with parameters and back without loss, up to nullability, which local names do not carry. The answers do not depend on map iteration order.",
  ["inputs","configurations"],"all dialect definitions over a set of functions and types; all function calls and type names against them",
  "Tests use one dialect; whether a variant is listed depends on which kernels share names across namespaces and kinds, and on map iteration order.",
  ["functions/dialect.go","functions/local_functions.go","functions/registries.go","functions/types.go"],
  [("LocalizeFunctionRegistry","functions/dialect.go"),("getFunctionVariantByInvocation","functions/local_functions.go"),("local type registry","functions/types.go")])

p("P22","Function test files parse to the cases they state",
  "A function test file parses to exactly the test cases it contains, each with the function, argument values and types, options, and expected result or error written in the text, inheriting the group and header it appears under. Printing a parsed case and parsing it again yields the same case, and malformed files are rejected with an error.",
  ["inputs"],"all test files over the test-case grammar, all argument types and values",
  "Tests parse sample files; value/type combinations and groupings are an unbounded product.",
  ["testcases/parser/parse.go","testcases/parser/visitor.go","testcases/parser/nodes.go"],
  [("TestCaseVisitor","testcases/parser/visitor.go"),("TestCase.String","testcases/parser/nodes.go")])

p("P23","Ill-formed messages are refused, wherever the fault lies",
  "Reading a relation, expression, measure, extended-expression or plan message either succeeds or returns an error, never panics. A message that lacks a part it cannot do without (an input, a condition, a function argument, a type, a literal's value), names a function or type that is not declared, uses an unsupported or unspecified alternative where one is required, or carries an impossible scalar (an output mapping or reference to a field that is not there, a decimal of the wrong length, a grouping reference to no expression) is refused, however deep in the tree the fault is and whatever surrounds it; a message without such a fault is read. Whatever was read can be written, read back, copied, rewritten, visited and compared without a panic, and printed and typed when all its references are typed.",
  ["inputs"],"all relation and expression trees with one or more faults of every kind at every depth",
  "Tests omit one part of a few top-level messages; an error that is dropped, or a missing part that is dereferenced, two levels inside another expression or relation is not sampled.",
  ["plan/relations.go","plan/plan.go","plan/common.go","expr/expression.go","expr/literals.go","expr/functions.go","expr/field_reference.go","types/types.go"],
  [("RelFromProto","plan/plan.go"),("ExprFromProto","expr/expression.go"),("LiteralFromProto","expr/literals.go"),("NewAggregateFunctionFromProto","expr/functions.go"),("FieldReferenceFromProto","expr/field_reference.go"),("ExtendedFromProto","expr/expression.go")])

p("P24","Expressions built through the expression API say exactly what was asked for",
  "Building an expression with the builders and constructors of the expression package (functions of the three kinds by builder, by name or custom; casts, conditionals, switches, lists, lambdas, references, dynamic parameters; nested in one another) either yields an expression whose message holds exactly the parts, options, arguments, sort fields, partitions, bounds, phase and invocation asked for, with the type the declarations imply (an aggregate used as a window function included), or is refused: when a part cannot be built, no declared function takes the arguments, branch types differ, a switch has no case or a missing part, or a phase or bounds type is impossible. Function accessors report the same; the message reads back as itself; setters replace what they set and never alter what was built before.",
  ["inputs","histories"],"all graphs of expression parts and all histories of builder setters and builds",
  "Tests build a few expressions once; the combination of kinds, arguments, options and settings, a failing part below another, and building twice around a setter are not sampled.",
  ["expr/builder.go","expr/functions.go","expr/expression.go","expr/field_reference.go","extensions/variants.go"],
  [("ExprBuilder","expr/builder.go"),("NewWindowFunc","expr/functions.go"),("NewSwitch","expr/expression.go"),("NewIfThen","expr/expression.go"),("resolveVariant","expr/functions.go")])

p("P25","The accessors of relations and expressions tell what the plan says",
  "For every relation and expression read from a message, its accessors and exported fields report exactly that part of the message they name: inputs (left and right, and GetInputs in the same order), base schema, filters, projection, expressions, grouping expressions and references, measures and their filters, sort fields, join conditions, types, keys and both key lists, offset and count, set operation, table names, files, details, output mapping, hint and the advanced extension of its own level, the arms, arguments, options (by name too), bounds, partitions, references and roots of expressions and the parts of masks and subqueries. An absent filter after a join or on a measure reads as true.",
  ["inputs"],"all relation trees and expressions, of any kind and depth",
  "Tests read a few plans and compare whole messages; accessors of the many relation and expression kinds are hardly called, and a swapped or shadowed one needs two parts that differ.",
  ["plan/relations.go","plan/common.go","plan/subquery.go","expr/expression.go","expr/functions.go","expr/field_reference.go"],
  [("PostJoinFilter","plan/relations.go"),("leftJoinKeys/rightJoinKeys","plan/relations.go"),("GetInputs","plan/relations.go"),("OutputMapping","plan/common.go"),("GetOption","expr/functions.go")])

for x in P: print(json.dumps(x))
