"""What each property's check runs."""
EXTSET_CFG = """INIT Init
NEXT Next
INVARIANT Inv
INVARIANT RoundTrip
PROPERTY Stable
PROPERTY Repeatable
CONSTANT Anchors <- %s
CONSTANT Urns = {"u1", "u2"}
CONSTANT Names = {%s}
VIEW View
"""
SUITES = {
    "types": dict(
        exec="types", judge="TypesJudge",
        gens=[dict(module="TypesGen", n=dict(quick={"*": 6000}, thorough={"*": 120000}))],
    ),
    "extset": dict(
        exec="extset", judge="ExtSetJudge",
        mc=[dict(module="ExtSetMC", cfg_quick=EXTSET_CFG % ("A2", '"n1", "n2"'), cfg_thorough=EXTSET_CFG % ("A3", '"n1", "n2"'))],
        gens=[dict(module="ExtSetGen", n=dict(quick=3000, thorough=60000))],
    ),
    "text": dict(
        exec="text", judge="TypeTextJudge",
        gens=[dict(module="TypeTextGen", n=dict(quick=8000, thorough=120000))],
    ),
    "funcs": dict(
        exec="funcs", judge="FuncsJudge",
        gens=[dict(module="FuncsGen", n=dict(quick=4000, thorough=60000))],
    ),
    "coll": dict(
        exec="coll", judge="CollectionJudge",
        gens=[dict(module="CollectionGen", n=dict(quick=2400, thorough=40000)),
              dict(module="CollectionDefault", n=dict(quick=20, thorough=20), shards=1)],
    ),
    "lits": dict(
        exec="lits", judge="LiteralsJudge",
        gens=[dict(module="LiteralsGen", n=dict(quick=6000, thorough=100000))],
    ),
    "numeric": dict(
        exec="numeric", judge="NumericJudge",
        mc=[dict(module="CalendarMC", cfg="INIT Init\nNEXT Next\nINVARIANT Inv\n")],
        gens=[dict(module="NumericGen", n=dict(quick=10000, thorough=200000))],
    ),
}
SUITES["exprs"] = dict(
    exec="exprs", judge="ExprsJudge",
    gens=[dict(module="ExprsGen", n=dict(quick={"P10": 4000, "P11": 3000, "P12": 4000, "P25": 2000}, thorough={"P10": 60000, "P11": 50000, "P12": 60000, "P25": 40000}))],
)
SUITES["rels"] = dict(
    exec="rels", judge="RelsJudge",
    gens=[dict(module="RelsGen", n=dict(quick={"P16": 3000, "P25": 3000, "*": 4000}, thorough={"P16": 30000, "*": 50000}))],
)
SUITES["refs"] = dict(
    exec="refs", judge="RefsJudge",
    gens=[dict(module="RefsGen", n=dict(quick=3000, thorough=50000))],
)
SUITES["build"] = dict(
    exec="build", judge="BuildJudge",
    gens=[dict(module="BuildGen", n=dict(quick={"P18": 2400, "P19": 2000, "P20": 1500, "*": 600}, thorough={"P18": 30000, "P19": 30000, "P20": 20000, "*": 8000}))],
)
SUITES["dialect"] = dict(
    exec="dialect", judge="DialectJudge",
    gens=[dict(module="DialectGen", n=dict(quick=2000, thorough=30000))],
)
SUITES["testfile"] = dict(
    exec="testfile", judge="TestFileJudge",
    gens=[dict(module="TestFileGen", n=dict(quick=3000, thorough=50000))],
)
SUITES["flaw"] = dict(
    exec="flaw", judge="FlawJudge",
    gens=[dict(module="FlawGen", n=dict(quick=4000, thorough=60000))],
)
SUITES["make"] = dict(
    exec="make", judge="MakeJudge",
    gens=[dict(module="MakeGen", n=dict(quick=3000, thorough=40000))],
)
PROPS = {
    "P01": dict(suites=["types"], note="Every kind x attributes x nesting drawn from the TypesGen grammar (TLC simulation), specification operator NormT; random sampling of an infinite space, seeds fixed per run"),
    "P02": dict(suites=["types"], note="Pairs (equal, one mutation apart, unrelated) judged by SameType; derivation histories over a pool of handed-out types compared with the Derive machine after each step"),
    "P07": dict(suites=["extset"], note="ExtSetMC: the anchor-table machine explored exhaustively (2-3 anchors, 2 URNs, 2 names); ExtSetGen behaviours replayed on the real extension set, whole decode tables compared after each step"),
    "P03": dict(suites=["text"], note="Texts rendered from a grammar-generated syntax tree (all constructs, spacing, case and parenthesis styles) must parse to that tree and survive printing; token-level malformed texts must be refused"),
    "P04": dict(suites=["funcs"], note="Definitions (parameters, variadic, nullability handling) and argument lists instantiated from them, then mutated; Match and MatchAt at every position (and outside) judged by the Match relation"),
    "P05": dict(suites=["funcs"], note="Return expressions incl. derivations evaluated by the specification; definition and registry compared before and after"),
    "P06": dict(suites=["coll"], note="Histories of loads (valid files over all attributes, duplicates, missing dependencies and types, malformed documents) against the Collection machine; the whole collection observed after each load; shipped extension files compared with their YAML"),
    "P08": dict(suites=["lits"], note="Type-directed literals of every kind and nesting: messages read and written, every constructor of expr and literal packages called with the value, TypeOfLit and NormLit as specification"),
    "P09": dict(suites=["numeric"], note="Decimal texts and conversions as digit sequences, instants as (day, second, nanosecond) with calendar arithmetic model-checked over more than 400 years (CalendarMC); values, types, printed texts compared"),
    "P10": dict(suites=["exprs"], note="Type-directed expressions of every alternative under a random base schema with known and unknown functions; NormE, TypeOfE and IsScalarE as specification; declarations compared before and after"),
    "P11": dict(suites=["exprs"], note="Single-level, pre-order and post-order rewriting with replacements chosen among the sub-expressions; MapCh/Post/Pre as specification, original compared afterwards"),
    "P12": dict(suites=["exprs"], note="Pairs equal, one mutation apart or unrelated; equality of normal forms as specification, both directions"),
    "P13": dict(suites=["refs"], note="Paths through structs, lists, maps and root expressions (meaningful and next to meaningful) built in six ways and read; columns by index over relations whose schemas share storage; graphs of builders with nested lambdas, failing and panicking bodies built repeatedly on one builder; ResT and Bld as specification, every result compared again at the end"),
    "P14": dict(suites=["rels", "build"], note="Relations of every kind nested up to 3 deep with all attributes, and whole plans, read and written; NormR (documented deprecated forms folded) as specification; written form, its re-reading, declarations, accessors and input compared"),
    "P15": dict(suites=["rels", "build"], note="Schema of every relation of a read tree, before and after asking and after a second reading, judged by SchemaR (direct schema per relation kind, join type, grouping sets, then the emit)"),
    "P16": dict(suites=["rels", "build"], note="Histories over a pool of relations (remap valid/invalid, copy, fetch, cross, schema reads) against the Remap machine: every member of the pool observed after each step, so sharing shows"),
    "P17": dict(suites=["rels"], note="Copy and CopyWithExpressionRewrite with same, new, too few, too many inputs, with replacements and with a failing rewrite; MapExprs/WithInputs/ExprsOf as specification, inputs and original compared afterwards"),
    "P18": dict(suites=["build"], note="Histories of builder calls (every relation kind, aggregate builders, subqueries; arguments right and next to right) against the Build machine: accepted exactly as specified, the relation made, its schema, and everything made before unchanged"),
    "P19": dict(suites=["build"], note="Relations of every kind with dynamic parameters anywhere, built or read, bound with right and disturbed bindings; ParamsIn over the whole plan as specification"),
    "P21": dict(suites=["dialect"], note="Dialects over random collections (names shared across namespaces and kinds, local names colliding, missing implementations, malformed texts) localised repeatedly; every list, look-up, option, call and type name judged by the Dialect machine"),
    "P20": dict(suites=["build"], note="Plans over histories of relations with root names counting the output depth-first or nearly, names of virtual tables; what is written and read back compared"),
    "P22": dict(suites=["testfile"], note="Files generated from the syntax tree (scalar and aggregate, every literal and type spelling, escapes, options, comments, layout), with and without one flaw; SemFile as specification; parsed cases, invocations in two registries and printed forms compared"),
    "P23": dict(suites=["flaw"], note="Well-formed messages (relations, expressions, measures, extended expressions, plans) damaged at one place drawn from all places the specification knows (165+ kinds of damage, any depth), at any place at all, or not; Flaws (what every kind of message needs) decides what must be refused, and whatever was accepted is written, read again, copied, rewritten, visited, compared, typed and printed"),
    "P25": dict(suites=["rels", "exprs"], note="Relations of every kind nested up to 3 deep and expressions of every kind read, and their messages put together again from accessors and exported fields alone; the message read (normal form, absent filters standing for true) as specification. Random sampling (TLC simulation), seeds fixed per run"),
    "P24": dict(suites=["make"], note="Graphs of expression-API parts (every builder and constructor of the expression package, shared and nested, in lambda scopes) built at several points of a history of setters; Mk says what each build must give: the message, its type, or a refusal; functions resolved and typed by Funcs among 27 declarations in two files. Random sampling (TLC simulation), seeds fixed per run"),
}
