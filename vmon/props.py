"""What is claimed, and which monitored workloads decide it.  tools/emit.py writes
properties.jsonl and MANIFEST.json from this file."""

TRUST_PY = "CPython's execution of the contract (with opshin's own Python prelude) is the reference semantics; both sides are compared through our own encoder of Plutus data"
TRUST_CEK = "the UPLC machine is our reimplementation of the evaluator of the uplc package (vmon/cek.py); every disagreement is re-executed on the stock machine before it is reported"
TRUST_SUBSET = "programs are drawn from the subset of Python that opshin documents as supported; divergences that opshin documents or that DESIGN.md lists as excluded are kept out of the generators"
TRUST_COPY = "copying of the pluthon/uplc trees is accelerated in the workers (vmon/fastcopy.py); C10 compares against unpatched subprocesses"

PROPS = {}


def prop(id, title, statement, over, text, tests, files, mechanism, observe, families, rule, min, assumptions=(), technique="", note=""):
    PROPS[id] = dict(
        id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
        mechanism=mechanism, observe=observe, families=families, rule=rule, min=min,
        assumptions=list(assumptions), technique=technique, note=note,
    )


CORE_FILES = ["opshin/compiler.py", "opshin/type_inference.py", "opshin/type_impls.py", "opshin/typed_util.py",
              "opshin/fun_impls.py", "opshin/util.py", "opshin/rewrite/", "opshin/optimize/"]
DIFF = "differential runtime monitoring: compiled program on the UPLC machine against CPython"
DNOTE = ("Exploration: every generated program and input is executed on both sides and the outcome, value and "
         "(where stated) trace are compared; no claim beyond the executions counted in the evidence file.")
ASM = (TRUST_PY, TRUST_CEK, TRUST_SUBSET, TRUST_COPY)

prop(
    "C01",
    "A compiled contract computes what the Python source computes",
    "For every program in the supported subset that the compiler accepts with its default settings, and for every "
    "argument, the compiled contract fails exactly when running the source in Python raises, and otherwise returns "
    "the same value. A program in the supported subset is accepted by the compiler.",
    ["programs", "inputs"],
    "all well-typed programs of the documented subset (functions, closures, recursion, records, unions, containers, "
    "loops, comprehensions, assertions) and all argument values",
    "The suite compiles hand-written programs one feature at a time; miscompilations arise from combinations of "
    "features (a rewrite, a type cast and an optimisation meeting) that only a generator of whole programs reaches.",
    CORE_FILES,
    [
        {"name": "pipeline of rewrites, type inference, optimisations and code generation", "where": "opshin/compiler.py:compile"},
        {"name": "code generation per syntax node", "where": "opshin/compiler.py:PlutoCompiler"},
        {"name": "type inference", "where": "opshin/type_inference.py:AggressiveTypeInferencer"},
    ],
    ["returned value, failure of opshin.builder.compile's output on the UPLC machine"],
    [
        ("random_programs", dict(n=240, levels=["default"], tag="C01")),
        ("curated", dict(corpus="control", levels=["default"], n=6, trace=False)),
        ("curated", dict(corpus="unions", levels=["default"], n=6, trace=False)),
        ("curated", dict(corpus="records", levels=["default"], n=6, trace=False)),
        ("operators", dict(levels=["default"], combos=12, literal=False)),
        ("containers", dict(n=40, levels=["default"], tag="C01")),
    ],
    "A case is one program, compiled with default settings, on one tuple of arguments, observed on the UPLC machine "
    "and under CPython. Programs come from a type-directed generator of whole modules, from a hand-written corpus of "
    "feature combinations and from an enumeration of operators, builtins and methods over types. Counted distinct by "
    "(program, arguments); programs whose reference run is not encodable are not counted.",
    {"evaluations": 1500, "outcome_ok": 500, "outcome_err": 50},
    ASM, DIFF, DNOTE,
)
prop(
    "C02",
    "Optimisation levels and flags never change what a contract does",
    "Compiling the same program with any optimisation level and any combination of optimisation flags yields "
    "contracts that fail on the same arguments and return the same values. Unless trace removal or constant "
    "folding is enabled, they also emit the same trace messages.",
    ["programs", "inputs", "configurations"],
    "all programs of the subset, all arguments, all optimisation levels O0 to O3 and single flag deviations from them",
    "The suite runs almost everything at one level and never compares levels with each other.",
    ["opshin/compiler_config.py", "opshin/compiler.py", "opshin/optimize/", "opshin/util.py"],
    [
        {"name": "constant folding", "where": "opshin/optimize/optimize_const_folding.py"},
        {"name": "dead code elimination", "where": "opshin/optimize/optimize_remove_deadvars.py"},
        {"name": "union expansion", "where": "opshin/optimize/optimize_union_expansion.py"},
        {"name": "list and field access with precomputed skips", "where": "opshin/typed_util.py, opshin/type_impls.py"},
    ],
    ["value, failure and trace log per configuration"],
    [("flags", dict(n=60)), ("recgen", dict(n=16, flags=2, tag="C02")), ("partial", dict(n=48, levels=["O0", "O1", "O2", "O3"], flags=2, tag="C02")), ("operators", dict(levels=["O0", "O1", "O3"], combos=6, literal=True))],
    "A case is one program under one configuration (levels O0, O1, O2, O3 and about twenty single-flag deviations) on "
    "one tuple of arguments, compared with CPython's run of the same source (hence with every other configuration). "
    "Counted distinct by (program, arguments, configuration).",
    {"evaluations": 1500, "config_O0": 60, "config_O3": 60},
    ASM, DIFF + ", across optimisation configurations", DNOTE,
)
prop(
    "C03",
    "Printed and formatted text equals Python's",
    "Everything a contract prints, in order, and every string it builds with str(), f-strings or the string form of "
    "records, containers, integers, bytes, booleans and None is identical to what Python prints and builds, both "
    "when the text is only traced and when it is part of the computed result.",
    ["programs", "inputs"],
    "all values of printable types, nested records, lists, dicts and unions, in print, str and f-strings",
    "Tests compare a few literals; representation code recurses over types, signs, digits, quotes and separators.",
    ["opshin/type_impls.py", "opshin/fun_impls.py", "opshin/compiler.py"],
    [
        {"name": "stringify of each type", "where": "opshin/type_impls.py:stringify"},
        {"name": "print", "where": "opshin/fun_impls.py:PrintImpl"},
        {"name": "str and formatted values", "where": "opshin/type_impls.py:StrImpl; opshin/compiler.py:visit_JoinedStr"},
    ],
    ["trace log of the UPLC machine against CPython's stdout; returned bytes of encoded text"],
    [("stringify", dict()), ("operators", dict(levels=["O1"], combos=10, literal=False, only_ret="str"))],
    "A case is one program printing and formatting generated values of generated types, compared line by line. "
    "Quotes inside of byte strings are normalised (opshin always uses one quote style), strings inside of containers "
    "avoid characters that need escaping. Counted distinct by (program, arguments, level).",
    {"evaluations": 400, "trace_events": 1000},
    ASM, DIFF + ", trace comparison", DNOTE,
)
prop(
    "C04",
    "Operators, builtins and methods compute Python's results on all operand values",
    "Every supported operator, comparison, conversion, builtin function and method of int, bool, str, bytes, list, "
    "dict and data computes, for every operand value, exactly Python's result, and fails exactly when Python raises. "
    "This holds alike for operands known at compile time and at run time.",
    ["inputs", "programs"],
    "all operand values, including zero, negative, huge, empty and boundary operands, all operand type combinations "
    "accepted by the compiler, literal and runtime operands",
    "Tests use property based inputs for a minority of operators and mostly at one type combination; the code has one "
    "implementation per operator and type combination.",
    ["opshin/type_impls.py", "opshin/fun_impls.py", "opshin/rewrite/rewrite_inject_builtins.py", "opshin/compiler.py"],
    [
        {"name": "operator implementations per type", "where": "opshin/type_impls.py:binop, cmp, attribute, unop"},
        {"name": "builtin functions", "where": "opshin/fun_impls.py"},
        {"name": "slices and indexing", "where": "opshin/compiler.py:visit_Subscript"},
    ],
    ["returned value or failure per operand tuple"],
    [("operators", dict(levels=["O0", "O2", "O3"], combos=40, maybe=True)), ("containers", dict())],
    "A case is one expression over typed operands at one level on one tuple of operand values (boundary values and "
    "random values), with the operands passed as arguments or written as literals (then subject to constant "
    "folding). Counted distinct by (expression, operands, level).",
    {"evaluations": 5000},
    ASM, DIFF + " over operand values", DNOTE,
)
prop(
    "C05",
    "Control flow, scoping and evaluation order follow Python",
    "Branches, loops, early returns, short-circuit evaluation, comprehensions, assertions, nested functions, closures, "
    "shadowing and recursion execute the same statements and evaluate the same operands in the same order as Python, "
    "as observed through the result, failure and trace messages.",
    ["programs", "inputs"],
    "all nestings of the supported statements, expressions and function definitions, and all inputs",
    "Tests check single constructs; order and scope errors need nestings and shadowing in combination, and are only "
    "visible when side effects are observed.",
    ["opshin/compiler.py", "opshin/rewrite/rewrite_scoping.py", "opshin/rewrite/rewrite_function_closures.py",
     "opshin/rewrite/rewrite_annotate_fallthrough.py", "opshin/optimize/optimize_fold_if_fallthrough.py", "opshin/optimize/optimize_remove_unreachable.py"],
    [
        {"name": "statement sequencing and loops", "where": "opshin/compiler.py:visit_For, visit_While, visit_If, visit_Return"},
        {"name": "scoping", "where": "opshin/rewrite/rewrite_scoping.py"},
        {"name": "closures", "where": "opshin/rewrite/rewrite_function_closures.py"},
    ],
    ["result, failure, ordered trace"],
    [("curated", dict(corpus="control", levels=["O0", "O2", "O3"])), ("skeleton", dict(n=140)), ("callgraph", dict(n=120)), ("partial", dict(n=120)), ("random_programs", dict(n=90, levels=["O0"], trace=True, tag="C05"))],
    "A case is one program (hand-written combinations of control constructs that trace every evaluated operand, and "
    "generated modules) on one tuple of arguments at one level; results and, at levels that keep traces, the whole "
    "trace are compared. Counted distinct by (program, arguments, level).",
    {"evaluations": 700, "trace_events": 500},
    ASM, DIFF + " including event order", DNOTE,
)
prop(
    "C06",
    "Union values are distinguished and narrowed exactly",
    "A value of a union type is classified by isinstance, including negations, conjunctions, disjunctions and early "
    "returns, exactly as Python classifies it, and every use of the narrowed value - fields, methods, arithmetic, "
    "storing, passing on, returning - sees the unchanged value.",
    ["programs", "inputs"],
    "all unions of records, integers, bytes, lists and dicts, all narrowing conditions and all values",
    "Each narrowing changes the run-time representation; the errors found here needed a narrowing combined with an "
    "assignment, container or call that no test combines.",
    ["opshin/type_inference.py", "opshin/type_impls.py", "opshin/optimize/optimize_union_expansion.py", "opshin/rewrite/rewrite_cast_condition.py", "opshin/typed_util.py"],
    [
        {"name": "type checks from conditions", "where": "opshin/type_inference.py:TypeCheckVisitor"},
        {"name": "isinstance on data", "where": "opshin/fun_impls.py, opshin/type_impls.py"},
        {"name": "conversion between representations", "where": "opshin/type_impls.py:transform_ext_params_map, transform_output_map"},
    ],
    ["result, failure, trace"],
    [("curated", dict(corpus="unions", levels=["O0", "O2", "O3"])), ("recgen", dict(n=24, tag="C06")), ("merges", dict(n=40, tag="C06")), ("random_programs", dict(n=90, levels=["O2"], tag="C06", weights=dict(recs=(2, 4), depth=2)))],
    "A case is one program that narrows and uses union values in one combination of condition, use and union, on one "
    "value. Counted distinct by (program, arguments, level).",
    {"evaluations": 700},
    ASM, DIFF, DNOTE,
)
prop(
    "C07",
    "Records and methods behave as in Python and encode to the declared data",
    "Constructing, accessing, comparing, printing and serialising records, and calling methods, class-level features "
    "and supported special methods on them, give the results Python gives, and a record's on-chain encoding is the "
    "constructor with its declared identifier and its fields in declared order.",
    ["programs", "inputs"],
    "all record declarations (field types, constructor identifiers, nesting, methods) and all field values",
    "Tests declare a handful of records; field access, equality and method calls are generated per declaration.",
    ["opshin/type_impls.py", "opshin/rewrite/rewrite_import_dataclasses.py", "opshin/rewrite/rewrite_import_plutusdata.py", "opshin/type_inference.py", "opshin/typed_util.py"],
    [
        {"name": "record layout and field access", "where": "opshin/type_impls.py:RecordType, InstanceType"},
        {"name": "methods and special methods", "where": "opshin/type_inference.py"},
    ],
    ["result, failure, trace, returned data"],
    [("curated", dict(corpus="records", levels=["O0", "O2", "O3"])), ("recgen", dict(n=44)), ("callgraph", dict(n=48, tag="C07")), ("random_programs", dict(n=60, levels=["O2"], tag="C07", weights=dict(recs=(2, 4), depth=2)))],
    "A case is one program using records and methods on one tuple of arguments at one level; counted distinct by "
    "(program, arguments, level). Keyword argument evaluation order is a recorded known finding.",
    {"evaluations": 700},
    ASM, DIFF, DNOTE,
)
prop(
    "C08",
    "Arguments and results cross the contract boundary losslessly",
    "For every supported parameter or return type and every value, the contract sees exactly the value encoded by the "
    "data passed to it and returns data that decodes to exactly the value it computed, whether the boundary uses "
    "Plutus data or (for library functions with wrapping switched off) builtin values.",
    ["inputs", "programs", "configurations"],
    "all nestings of int, bytes, str, bool, None, lists, dicts, records, unions and untyped data; all values; both "
    "settings of input unwrapping and output wrapping",
    "Tests pass a few types through; conversions recurse over the type and differ per setting.",
    ["opshin/compiler.py", "opshin/type_impls.py", "opshin/bridge.py", "opshin/compiler_config.py"],
    [
        {"name": "conversion of parameters and results", "where": "opshin/type_impls.py:transform_ext_params_map, transform_output_map"},
        {"name": "wrapping of the entry point", "where": "opshin/compiler.py:visit_Module, wrap_validator_double_function"},
    ],
    ["data and builtin values entering and leaving the UPLC machine"],
    [("abi", dict())],
    "A case is one value of a generated type crossing the boundary (returned unchanged, rebuilt element by element, "
    "or passed as builtin values); compared with the encoding by our own encoder. Counted distinct by (program, value, "
    "setting).",
    {"evaluations": 800},
    ASM, DIFF + " at the boundary", DNOTE,
)
prop(
    "C09",
    "Programs with no faithful on-chain meaning are rejected, never miscompiled",
    "Source that is ill-typed or uses a Python feature outside of the supported subset is rejected with an error at "
    "compile time wherever it appears in the program, rather than compiled to something that behaves differently "
    "from Python; the same program without the offending construct is accepted.",
    ["programs"],
    "all documented unsupported constructs and type errors, in every syntactic position",
    "Tests check one position per construct; checks live in many separate passes and a position can slip past them.",
    ["opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite/", "opshin/optimize/"],
    [
        {"name": "rejection of unsupported syntax", "where": "opshin/compiler.py, opshin/rewrite/rewrite_forbidden_overwrites.py, opshin/rewrite/rewrite_forbidden_return.py"},
        {"name": "type errors", "where": "opshin/type_inference.py"},
    ],
    ["compiler error or acceptance"],
    [("rejects", dict())],
    "A case is one (offending, legal) pair of statements or programs placed in one context; the offending one must "
    "raise a compiler error, the legal twin must compile. Counted distinct by (construct, context).",
    {"evaluations": 600},
    (TRUST_SUBSET,), "monitored compiler acceptance and rejection over generated placements",
    "Exploration: constructs times contexts are sampled; evidence counts the placements observed.",
)

prop(
    "C10",
    "Compiling is deterministic",
    "Compiling the same source with the same configuration produces the same script, byte for byte, in every process: "
    "independent of hash randomisation, of the working directory, of what was compiled before, of how often it is "
    "compiled, and of the entry point (compile, cached static compile, build). A rejected program is rejected every time.",
    ["histories", "programs", "configurations"],
    "all programs, configurations, hash seeds and sequences of compilations in one process",
    "Each test compiles once in one process with one hash seed; script hashes (addresses) are only reproducible if no "
    "set order, cache or left-over state reaches the output.",
    ["opshin/builder.py", "opshin/compiler.py", "opshin/type_inference.py", "opshin/rewrite/", "opshin/optimize/"],
    [
        {"name": "ordered collections of names and types", "where": "opshin/type_inference.py, opshin/typed_util.py, opshin/rewrite/rewrite_scoping.py (OrderedSet)"},
        {"name": "caches and module-level state", "where": "opshin/builder.py:_static_compile; opshin/type_impls.py; opshin/fun_impls.py"},
    ],
    ["digest of the flat encoding of every compiled script"],
    [("determinism", dict())],
    "A case is one program with one configuration, compiled in three fresh processes with different hash seeds, orders "
    "and working directories and once in a long-lived worker; all digests must agree. Counted distinct by (source, "
    "configuration).",
    {"evaluations": 30, "processes": 20, "kind_random": 8},
    (TRUST_SUBSET,), "monitored repeated compilation in fresh processes and one long-lived process",
    "Exploration: digests are compared for the programs, hash seeds and orders counted in the evidence file.",
)

prop(
    "C11",
    "Applying parameters equals passing them as leading arguments",
    "A script parameterized with values behaves exactly like the unparameterized one called with these values as its "
    "first arguments. Applying them while building, all at once, one by one or in groups gives the same script; the "
    "original contract is unchanged, and the result keeps all metadata, lists exactly the remaining parameters and "
    "rejects surplus ones.",
    ["inputs", "programs", "histories"],
    "all parameter types and values (as Python values or as data), numbers of parameters and orders of application",
    "Tests apply one or two parameters once; order, sharing of lists between contracts and encodings vary with every "
    "combination.",
    ["opshin/builder.py", "opshin/util.py"],
    [
        {"name": "application of parameters to scripts", "where": "opshin/builder.py:_apply_parameters, apply_parameters, _compile"},
        {"name": "application to contracts with metadata", "where": "opshin/builder.py:PlutusContract.apply_parameter"},
    ],
    ["script bytes, behaviour on the UPLC machine, contract attributes and blueprint after each step"],
    [("artifacts", dict(mode="apply", n=64))],
    "A case is one generated contract with one to four parameters and one tuple of values; five ways to apply them are "
    "compared byte for byte, three are executed and compared with CPython and with the unapplied script. Counted "
    "distinct by (program, values).",
    {"evaluations": 800, "programs": 40},
    (TRUST_PY, TRUST_CEK, TRUST_SUBSET), "runtime monitoring of sequences of parameter applications against a reference execution",
    "Exploration: generated contracts, values and orders of application counted in the evidence file.",
)
prop(
    "C12",
    "Dumped artifacts identify the script and load back unchanged",
    "The files written for a contract contain exactly its script, its hash (blake2b-224 of the language tag and the "
    "script), its main and test network addresses and its metadata. Loading the directory, the blueprint, the cbor "
    "file, the plutus file or a UPLC text gives the same script and, where the format carries them, the same "
    "metadata, purposes, parameters and types.",
    ["inputs", "configurations"],
    "all scripts of all sizes, metadata, purposes, datum, redeemer and parameter types, all supported file formats",
    "Tests dump and load one contract; formats are told apart by trying to decode them, which depends on the bytes.",
    ["opshin/builder.py"],
    [
        {"name": "artifacts of a contract", "where": "opshin/builder.py:PlutusContract"},
        {"name": "loading", "where": "opshin/builder.py:load"},
    ],
    ["contents of dumped files, attributes of loaded contracts"],
    [("artifacts", dict(mode="dump", n=240, per=10))],
    "A case is one contract with random script bytes (sizes around every CBOR length boundary), metadata and types, "
    "dumped and loaded in six ways; hashes, addresses and CBOR are recomputed independently. Counted distinct by "
    "(script, purposes, parameters).",
    {"evaluations": 5000, "loaded_directory": 200, "loaded_script.cbor": 150},
    (), "runtime monitoring of dump and load round trips against independently computed hashes and addresses",
    "Exploration: generated contracts counted in the evidence file.",
)
prop(
    "C13",
    "Blueprint schemas describe exactly the data of the declared types",
    "The schema generated for a datum, redeemer or parameter type accepts every value of the type and rejects all "
    "other data. Converting the schema back gives a type that accepts the same data, has the same schema, and decodes "
    "and encodes values like the original.",
    ["inputs", "programs"],
    "all types built from int, bytes, lists, dicts, unions, records and untyped data; all data",
    "Tests compare a few schemas with literals; off-chain tools rely on schemas for types nobody tested.",
    ["opshin/builder.py", "opshin/util.py"],
    [
        {"name": "type to schema", "where": "opshin/builder.py:to_plutus_schema"},
        {"name": "schema to type", "where": "opshin/builder.py:from_plutus_schema"},
    ],
    ["generated schemas, reconstructed types, and their verdict on data"],
    [("artifacts", dict(mode="schema", n=240, per=10))],
    "A case is one generated type and one datum (a value of the type or a mutation of one); validity under the schema "
    "(our own CIP-57 validator) is compared with membership in the type (our own oracle). Counted distinct by (type, "
    "data).",
    {"evaluations": 8000, "conforming": 3000, "nonconforming": 3000},
    (), "runtime monitoring of schema conversions with an independent validator",
    "Exploration: generated types and data counted in the evidence file.",
)
prop(
    "C14",
    "Imported modules behave as under Python's import",
    "A contract that is split over modules and packages, imported in any supported way (chains, diamonds, cycles, "
    "repeated and relative imports), compiles to a script that behaves like Python running the same files. Modules are "
    "found where Python finds them relative to the contract, no matter which contracts and modules of the same name "
    "were compiled before, and compiling leaves the module search path unchanged.",
    ["programs", "histories"],
    "all ways of distributing definitions over modules, all layouts, all sequences of compilations in one process",
    "Tests import single library modules; shared names, diamonds and earlier compilations need several files and contracts.",
    ["opshin/rewrite/rewrite_import.py", "opshin/builder.py"],
    [
        {"name": "resolution and inlining of imports", "where": "opshin/rewrite/rewrite_import.py:RewriteImport"},
    ],
    ["result, failure and trace of the compiled contract; module search path"],
    [("modules", dict())],
    "A case is one program distributed over modules on one tuple of arguments, compared with Python importing the same "
    "files, or one build in a sequence of builds of contracts with equally named modules. Counted distinct by (files, "
    "arguments, level).",
    {"evaluations": 150, "programs": 25, "history_builds": 9},
    (TRUST_PY, TRUST_CEK, TRUST_SUBSET), "differential runtime monitoring of multi-module programs and build histories",
    "Exploration: generated distributions over modules counted in the evidence file.",
)
prop(
    "C15",
    "check_integrity passes exactly for data of the declared type",
    "check_integrity(x) fails for every datum that is not exactly of the static type of x - wrong constructor, missing, "
    "surplus or ill-typed fields at any depth - and passes unchanged for every datum that is, at every optimisation "
    "level and wherever it is called.",
    ["inputs", "programs", "configurations"],
    "all record and union types, all data, all places of the call and all optimisation levels",
    "Tests check a few data of two records; an accepted malformed datum lets an attacker past every later check, and "
    "this has no equivalent in Python to compare with.",
    ["opshin/std/integrity.py", "opshin/rewrite/rewrite_import_integrity_check.py", "opshin/type_impls.py"],
    [
        {"name": "integrity check", "where": "opshin/rewrite/rewrite_import_integrity_check.py:IntegrityCheckImpl"},
        {"name": "copies by type", "where": "opshin/type_impls.py:copy_only_attributes"},
    ],
    ["success or failure of the compiled contract per datum"],
    [("integrity", dict())],
    "A case is one datum (random data of the type or a mutation of it) given to one generated contract that calls "
    "check_integrity in one of seventeen ways at one level; the verdict is compared with our own membership oracle. "
    "Counted distinct by (program, level, data).",
    {"evaluations": 1200, "conforming": 400, "nonconforming": 400},
    (TRUST_CEK,), "runtime monitoring of the check's verdict against an independent membership oracle",
    "Exploration: generated types, programs and data counted in the evidence file.",
)
prop(
    "C16",
    "Library arithmetic, fractions, bitmaps and intervals are exact",
    "The functions and operators of the standard library for integers, fractions, bitmaps and time intervals give "
    "mathematically exact results for all arguments (fractions with non-zero denominators of any sign, bits inside of "
    "the bitmap, non-empty intervals), fail where documented, and give the same results compiled as in Python.",
    ["inputs", "programs"],
    "all arguments of all functions, nested expressions of fractions and integers, sequences of bitmap operations",
    "Tests sample single operations with property based values in Python only; signs of denominators, reflected "
    "operators and the compiled versions are hardly observed.",
    ["opshin/std/fractions.py", "opshin/std/math.py", "opshin/std/bitmap.py", "opshin/ledger/interval.py"],
    [
        {"name": "fractions", "where": "opshin/std/fractions.py:Fraction"},
        {"name": "integers", "where": "opshin/std/math.py"},
        {"name": "bitmaps", "where": "opshin/std/bitmap.py"},
        {"name": "intervals", "where": "opshin/ledger/interval.py:contains"},
    ],
    ["result or failure compiled, in Python and of the exact oracle"],
    [("stdlib", dict(mode="arith"))],
    "A case is one expression or sequence of operations on one tuple of arguments, observed compiled and in Python and "
    "compared with fractions.Fraction, math, a list of booleans or sets of points. Counted distinct by (program, level, "
    "arguments).",
    {"evaluations": 700, "fraction": 8, "bitmap": 1, "interval": 1},
    (TRUST_PY, TRUST_CEK), DIFF + " and an exact oracle", DNOTE,
)
prop(
    "C17",
    "Wrapped builtins, hash functions and curve operations do what they document",
    "Every function of the builtins library, every supported hashlib function and every BLS12-381 operation gives the "
    "documented result for all arguments, fails exactly where documented, and behaves alike compiled, folded at "
    "compile time and called in Python.",
    ["inputs", "programs"],
    "all builtins and all arguments, including out of range ones",
    "Tests call few builtins, mostly in one of the two worlds only; names, argument order, types and conversions are "
    "mapped by hand per builtin.",
    ["opshin/std/builtins.py", "opshin/bridge.py", "opshin/std/hashlib.py", "opshin/std/bls12_381.py",
     "opshin/rewrite/rewrite_import_uplc_builtins.py", "opshin/rewrite/rewrite_import_hashlib.py", "opshin/rewrite/rewrite_import_bls12_381.py"],
    [
        {"name": "wrapped builtins", "where": "opshin/bridge.py:wraps_builtin; opshin/rewrite/rewrite_import_uplc_builtins.py"},
        {"name": "hashlib", "where": "opshin/rewrite/rewrite_import_hashlib.py"},
        {"name": "curves", "where": "opshin/std/bls12_381.py; opshin/rewrite/rewrite_import_bls12_381.py"},
    ],
    ["result or failure compiled, in Python and of the oracle"],
    [("stdlib", dict(mode="builtins"))],
    "A case is one builtin (or random expression of curve operations) on one tuple of arguments, observed compiled and "
    "in Python and compared with an independent oracle (Python integers, bytes and hashlib, CIP-122/123 bit operations, "
    "pyblst). Counted distinct by (program, level, arguments).",
    {"evaluations": 2000, "builtins": 40},
    (TRUST_PY, TRUST_CEK), DIFF + " and an independent oracle", DNOTE,
)
prop(
    "C18",
    "Every notation of a datum is read and written as that datum",
    "A contract parameter or datum given in any valid JSON or CBOR notation (definite or indefinite lists, chunked bytes, "
    "big integers, all constructor encodings) is read as exactly that datum, both as the constant that is applied to the "
    "script and as the Python value of the annotated type; data that does not have the structure of the annotated type "
    "and text that is no datum is refused, never read as something else; datum_to_cbor and datum_to_json write the "
    "datum the contract sees.",
    ["inputs"],
    "all Plutus data, all valid notations, all annotated types (fields of records within what pycardano reads)",
    "Tests parse a few literals in the canonical notation; misreadings depend on the notation, the nesting and the order "
    "of the alternatives of a union.",
    ["opshin/__main__.py", "opshin/util.py"],
    [
        {"name": "parameters as constants", "where": "opshin/__main__.py:parse_uplc_param"},
        {"name": "parameters as Python values", "where": "opshin/__main__.py:plutus_data_from_json,plutus_data_from_cbor"},
        {"name": "datums", "where": "opshin/util.py:data_from_json,datum_to_cbor,datum_to_json"},
    ],
    ["the constant, the Python value or the exception of each reader; the bytes or text of each writer"],
    [("conversion", dict())],
    "A case is one datum (of the type, a mutation of it or of another type) in one random notation written by our own "
    "encoder, read for one annotated type; the result is compared through our own canonical form. Counted distinct by "
    "(type, datum, notation).",
    {"evaluations": 15000, "read_back": 4000, "must_refuse": 1500, "broken_refused": 15000, "written": 250},
    ("data of the fields of records is read by pycardano, whose limits (bools, unions in JSON, long bytes) are left out",),
    "runtime monitoring of the readers and writers against an independent codec",
    "Exploration: generated types, data and notations counted in the evidence file.",
)
prop(
    "C19",
    "The command line does what the library does, and reports what happened",
    "opshin eval and eval_uplc report the outcome, the result, the trace and the Python result of exactly the exported "
    "function on exactly the given arguments; compile, compile_pluto and build produce the program the library makes "
    "for the configuration the flags stand for, with the given parameters applied in order; wrong numbers or notations "
    "of parameters, missing functions and missing files are refused with a non-zero exit code before anything is "
    "written; lint points at the line of the offending statement, in well-formed output, and at nothing in a correct "
    "program.",
    ["programs", "inputs", "configurations"],
    "all programs, arguments, combinations of flags, file names, and standard input as source",
    "Tests run a fixed set of commands on the examples and mostly check that no exception is raised.",
    ["opshin/__main__.py", "opshin/compiler_config.py", "opshin/builder.py", "opshin/util.py"],
    [
        {"name": "commands", "where": "opshin/__main__.py:perform_command"},
        {"name": "flags", "where": "opshin/__main__.py:parse_args; opshin/compiler_config.py:ARGPARSE_ARGS"},
        {"name": "linter", "where": "opshin/__main__.py:main"},
        {"name": "source locations", "where": "opshin/util.py:custom_fix_missing_locations; opshin/rewrite/"},
    ],
    ["exit code, printed output and files of every command"],
    [("cli", dict(mode="eval", n=60)), ("cli", dict(mode="build", n=90)), ("cli", dict(mode="lint", n=75))],
    "A case is one invocation of the entry point (in a forked process) on one generated program, one tuple of arguments "
    "in random notations and one combination of flags. Outcome and result are compared with CPython, programs and "
    "artifacts with the library called directly, reported lines with the known line of the injected error. Counted "
    "distinct by (program, command line).",
    {"evaluations": 500, "eval_runs": 50, "python_results": 25, "compile": 8, "build": 8, "lint_bad": 50, "lint_good": 30},
    (TRUST_PY, TRUST_SUBSET), "runtime monitoring of the command line against CPython and the library",
    "Exploration: generated programs, arguments and flags counted in the evidence file.",
)
prop(
    "C20",
    "Contracts see the ledger's transaction and prelude helpers decide as documented",
    "The ledger types have exactly the encoding of the ledger, every part of a script context that a contract reads is "
    "the part the ledger wrote, in Python as on chain; the helpers of the prelude return what they document (tokens "
    "locked, unlocked and present, the spent output, its datum attached inline or by hash, own policy and address) and "
    "fail where documented; and whole validators accept and reject exactly the transactions that Python accepts and "
    "rejects.",
    ["programs", "inputs"],
    "all transactions: inputs, outputs, values, datums, certificates, votes, proposals, purposes, and all reads of them",
    "Tests use a handful of hand-made contexts for the examples; most ledger types and helpers never see a transaction "
    "that they should refuse, or two outputs that differ in one part only.",
    ["opshin/ledger/api_v3.py", "opshin/prelude.py", "opshin/ledger/interval.py", "opshin/compiler.py"],
    [
        {"name": "script context types", "where": "opshin/ledger/api_v3.py"},
        {"name": "token and datum helpers", "where": "opshin/prelude.py"},
        {"name": "typed access to nested records", "where": "opshin/compiler.py:visit_Attribute; opshin/type_impls.py:RecordType"},
    ],
    ["value, failure and trace of every call on a transaction"],
    [("ledger", dict())],
    "A case is one call of a helper, of a random typed access, or of an example contract on one random transaction "
    "(small pools of hashes, so that owners, references and tokens coincide or differ in one part only). The oracle is "
    "the ledger's format and the documentation of the helpers, written down independently (vmon/ledger.py), and CPython. "
    "Counted distinct by (call, transaction, level).",
    {"evaluations": 1200, "helper_results": 400, "helper_fails": 100, "paths": 100, "accepted_gift": 5, "refused_gift": 1, "accepted_marketplace": 3, "refused_marketplace": 3, "accepted_vesting": 2, "refused_vesting": 2},
    (TRUST_PY, "the format of transactions in vmon/ledger.py follows the documentation in api_v3.py where that deviates from the ledger (Spending, Withdrawing, certificates)"),
    "runtime monitoring of contracts on generated transactions against the ledger format and CPython",
    "Exploration: generated transactions and accesses counted in the evidence file.",
)
prop(
    "C21",
    "Compile effort, script size and execution cost never explode",
    "Repeating a construct once more, or nesting it one level deeper, never multiplies the work of the compiler, the size "
    "of the script, or the number of machine steps of an execution: all three grow at most polynomially with the size of "
    "the program (execution: where the steps CPython takes do), at every optimization level, and a program that compiles "
    "stays acceptable when a construct in it is repeated or nested further.",
    ["programs", "configurations"],
    "all programs, for every construct and combination of constructs, at all optimization levels",
    "Tests compile small programs; none nests or repeats a construct more than a few times, and an exponential factor is "
    "invisible on small programs.",
    ["opshin/compiler.py", "opshin/type_inference.py", "opshin/builder.py", "opshin/rewrite/rewrite_cast_condition.py", "opshin/optimize/optimize_fold_if_fallthrough.py"],
    [
        {"name": "type inference visits every node once", "where": "opshin/type_inference.py:AggressiveTypeInferencer"},
        {"name": "fixpoints of rewriting and optimizing passes", "where": "opshin/compiler.py:compile; opshin/optimize/; opshin/rewrite/"},
        {"name": "code generated once per statement", "where": "opshin/compiler.py:PlutoCompiler"},
    ],
    ["calls made while compiling (counted by sys.monitoring)", "bytes of the script", "steps of the machine"],
    [("growth", dict())],
    "A case is one construct, or one random composition of constructs, at one size and level. Calls of the compiler, bytes "
    "of the script and machine steps are counted and compared with the counts at the next smaller size; nothing is timed. "
    "Counted distinct by (construct, level, size).",
    {"evaluations": 1500, "compiled": 1000, "executed": 800, "scaled": 200},
    ("record types that contain two records of the next smaller type each are excluded: their type alone has exponentially many parts",),
    "runtime monitoring: events of the compiler and of the machine counted on scaled programs",
    "Exploration: constructs and compositions counted in the evidence file; growth judged up to size 18 (24 in the thorough tier).",
)
