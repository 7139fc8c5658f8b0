#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing; both are committed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "schemars/src/generate.rs"
def m(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe, "hook_needed": None}})

ST = [
    {"name": "SchemaGenerator.definitions", "meaning": "schemas generated so far, by assigned name", "where": G},
    {"name": "SchemaGenerator.schema_id_to_name / used_schema_names", "meaning": "names assigned so far, kept across drains", "where": G},
    {"name": "SchemaGenerator.pending_schema_ids / root_schema_id_stack", "meaning": "types being generated right now", "where": G},
]

prop("C01", "Every reference resolves, to the schema of the type it was made for",
     "In every schema the library returns, taken together with the definitions held or embedded when it is returned, every $ref is a correctly encoded JSON pointer that resolves to a finished schema, and following it leads to the schema of exactly the type (and contract) the reference stands for. This holds for all type graphs (shared, recursive, mutually recursive, generic, same-named types), all schema names (any Unicode, '/', '~', '%', control characters, numeric suffixes), all dialects, contracts and definition locations, and whatever the generator was asked before.",
     ["inputs", "programs", "histories", "configurations", "fault_sequences"],
     "for all type graphs, names, settings, request histories of a generator (including drained, cloned, re-entered and migrated ones)",
     "Tests pin the output for a few dozen fixed types on brand-new generators, almost always one root schema per generator and ASCII names; wrong resolutions appear only for combinations of names, recursion, settings and earlier requests.",
     [G, "schemars/src/encoding.rs", "schemars/src/json_schema_impls/maps.rs", "schemars/src/_private/mod.rs", "schemars/src/transform.rs", "schemars_derive/src/schema_exprs.rs"],
     [m("subschema_for / find_ref / insert_new_subschema_for", G), m("encode_ref_name", "schemars/src/encoding.rs"), m("add_definitions", G), m("map key schema lookup", "schemars/src/json_schema_impls/maps.rs")],
     ["return values of subschema_for, root_schema_for, into_root_schema_for, root_schema_for_value", "definitions()", "take_definitions()"], ST)

prop("C02", "A type keeps one name, and a name stands for one type, for a generator's life",
     "Over the whole life of a generator - across drained or cleared definitions, clones, re-entrant requests and moves between threads - each referenced type (same schema id) is given one definition name for good, and no name ever stands for two different types, however many types want the same name and whatever numeric suffixes are already taken. What a name's definition says does not change from one appearance to the next.",
     ["inputs", "programs", "histories"],
     "for all sets of clashing schema names and all request, drain, clear and clone histories",
     "Tests check one name clash in one document; stability over a lifetime needs multi-step histories mixing drains and clones with clashing names.",
     [G, "schemars_derive/src/name.rs", "schemars_derive/src/lib.rs"],
     [m("name assignment in find_ref", G), m("Clone for SchemaGenerator", G), m("derived schema_name and schema_id", "schemars_derive/src/name.rs")],
     ["$ref strings returned over time", "keys of definitions()"], ST)

prop("C03", "A used generator produces what a brand-new one would",
     "Whatever a generator was asked before (any mix of requests, drains, clones, inferences, failures and re-entrant calls), the schema it returns for a type means the same as the one a brand-new generator with the same settings returns: up to the choice of definition names and extra unrelated definitions, and with references compared by what they lead to, the two documents are equal. A schema kept from an earlier request is never made wrong by later ones.",
     ["histories", "inputs", "programs", "configurations"],
     "for all histories before the request, all type graphs and settings",
     "Tests use brand-new generators; history dependence needs the right sequence of earlier requests and there is no reference to compare with in the test suite.",
     [G, "schemars/src/json_schema_impls/maps.rs", "schemars/src/_private/mod.rs"],
     [m("root_schema_for pushes and pops the root; definitions that outlive a root never refer to it", G), m("pending_schema_ids restored after each type", G)],
     ["return values of subschema_for, root_schema_for, into_root_schema_for, compared with a fresh process"], ST)

prop("C04", "Definitions are conserved: none lost, none unasked-for, drained exactly once",
     "After each request the generator holds a finished definition for every reference it handed out since the last drain, and a returned root document carries a definition for each of its references; definitions never describe types that nobody needed, are never dropped except by draining or clearing, and are never left as placeholders. Taking the definitions returns exactly what was held and leaves none; clones start with equal definitions and are independent from then on.",
     ["histories", "inputs", "programs", "configurations", "fault_sequences"],
     "for all request histories, type graphs and settings",
     "Tests look at definitions after one or two requests; lost, stale or leftover definitions need particular interleavings of requests, re-entrance, drains and clones.",
     [G],
     [m("insert_new_subschema_for placeholder protocol", G), m("take_definitions / definitions_mut / Clone", G), m("add_definitions", G)],
     ["definitions() after every request", "take_definitions(bool)", "definitions part of root documents"], ST)

prop("C05", "A failed value inference reports the value's error and leaves no trace",
     "When serializing the example value fails at any point while its schema is being inferred, the inference returns exactly that error and never a partial schema, and the generator behaves afterwards - in every later request - as if the failed inference had never been asked for. An inference that succeeds returns the same schema whatever faults came before, and carries the value as its example (only if serializing that copy fails is the example left out).",
     ["fault_sequences", "histories", "inputs"],
     "for every value over the serde data model, every failure position and attempt, and every later history",
     "Tests only infer from values that serialize successfully; a failing Serialize at a chosen step and a differential continuation are not in reach of fixed unit tests.",
     ["schemars/src/ser.rs", G],
     [m("root_schema_for_value / into_root_schema_for_value", G), m("Serializer and its compound serializers", "schemars/src/ser.rs")],
     ["Result returned by root_schema_for_value / into_root_schema_for_value", "all later return values and definitions()"], ST)

prop("C06", "Generators do not influence one another, under any schedule",
     "Any number of generators used at the same time - on different threads under any interleaving, moved between threads, nested inside each other's callbacks, or next to one whose callback crashes - each return byte for byte what they would have returned had they been alone in the process. No schedule deadlocks.",
     ["schedules", "histories", "crash_points", "programs"],
     "for all interleavings at callback and allocation granularity, all placements of crashes in callbacks, all client histories",
     "Tests run generators one at a time in each test thread and never compare runs; shared state corrupts results only for particular interleavings or nestings.",
     [G, "schemars/src/_private/mod.rs", "schemars/src/schema.rs", "schemars/src/transform.rs", "schemars/src/ser.rs"],
     [m("all state is owned by the generator; no globals", G), m("GenTransform is Send, settings cloned deeply", G)],
     ["all return values, per client"], ST)

prop("C07", "Schemas are reproducible byte for byte",
     "The same requests in the same order give the same bytes in every run of the program: results do not depend on hash seeds, heap addresses, the clock, the threads used, or how many processes and threads ran before.",
     ["configurations", "schedules", "inputs", "histories"],
     "for all hash seeds, heap layouts, clock readings and thread placements, over all request histories",
     "A test process samples one hash seed and one layout per run and cannot control either; ordering by hash or address shows only when they are varied under the same history.",
     [G, "schemars/src/schema.rs", "schemars/src/transform.rs", "schemars/src/json_schema_impls/maps.rs", "schemars/src/ser.rs"],
     [m("BTreeMap / BTreeSet and ordered maps throughout", G), m("keyword ordering on serialization", "schemars/src/schema.rs")],
     ["serialized bytes of all return values"], ST)

prop("C08", "Writing a schema is complete, or gives an error and leaves a clean prefix",
     "Serializing a schema to any sink or format writes exactly the schema's content, keyword by keyword, or returns the sink's own error with at most a prefix of the output written: short writes and interruptions lose or repeat nothing, no failure is swallowed or replaced, announced lengths match what is written, and the schema is unaltered and can be written again. Concurrent writers of one schema do not influence each other.",
     ["fault_sequences", "inputs", "schedules"],
     "for all schemas, all positions and kinds of write faults, all interleavings of writers, human-readable and binary-like formats",
     "Tests serialize to in-memory strings and values that never fail.",
     ["schemars/src/schema.rs"],
     [m("Serialize for Schema with ordered keywords", "schemars/src/schema.rs")],
     ["bytes that reached the sink", "Result of serialization", "the schema afterwards"])

prop("C09", "Reading a schema yields the document that was sent, or an error",
     "Deserializing a schema from any source yields exactly the JSON object or boolean the source holds, or an error: anything else is rejected, truncated, failing or corrupted streams are never read as a (partial) schema, short reads and interruptions change nothing, lying size hints are harmless, and a failed read does not spoil the documents before it.",
     ["fault_sequences", "inputs"],
     "for all documents, all positions and kinds of read faults, truncations and bit flips",
     "Tests deserialize a handful of in-memory values.",
     ["schemars/src/schema.rs"],
     [m("Deserialize for Schema, TryFrom<Value>", "schemars/src/schema.rs")],
     ["Result of deserialization", "content of the schema read"])

prop("C10", "Transforms run once per result, in order, on the finished document",
     "Each schema document returned to the user (and each definition drained with transforms on) has been passed through the generator's transforms exactly once each, in the configured order, after title, meta-schema and definitions are in place; a request that fails runs none of them, and one that only returns a subschema runs none either. Recursive transforms reach every subschema under a JSON Schema keyword exactly once, and the definitions a generator keeps are never altered by them.",
     ["histories", "configurations", "fault_sequences", "inputs"],
     "for all settings with any sequence of transforms (stateful ones included), all request histories and failures",
     "Tests apply the built-in, idempotent transforms to single documents, where a second application, a missed subschema or leaked state does not show.",
     [G, "schemars/src/transform.rs"],
     [m("apply_transforms", G), m("take_definitions", G), m("transform_subschemas / RecursiveTransform", "schemars/src/transform.rs")],
     ["stamps left in documents by tracing transforms", "transforms_mut()", "definitions()"], ST)

prop("C11", "Generation terminates, building each definition at most once",
     "Every request on finite, possibly recursive type graphs terminates; between two drains each referenced type's schema is built at most once by a generator for its definitions, no matter how often or from where it is referenced, plus once for each document in which it is the root. The work of a request is bounded by the types not yet defined.",
     ["programs", "histories", "configurations"],
     "for all type graphs, settings and request histories",
     "Tests have a few recursive types and never count how often a type's schema is built; exponential or repeated work does not fail them.",
     [G, "schemars/src/json_schema_impls/maps.rs", "schemars/src/_private/mod.rs"],
     [m("placeholder inserted before generation; pending_schema_ids with inlining", G)],
     ["number of json_schema callbacks per type"], ST)

prop("C12", "A default or example that fails to serialize costs only that keyword",
     "When a field's default value or a type's example fails to serialize while a schema is generated, only that default or example is missing: everything else in the schema, its definitions and all later results are as if nothing had failed, and a keyword whose value serialized is always present with the full value. A failure never panics, loops or poisons the generator.",
     ["fault_sequences", "histories", "inputs"],
     "for every failing position and attempt of every default/example, over all request histories",
     "Test types have defaults and examples that always (or never) serialize; transient failures and positions inside a value are not exercised.",
     ["schemars/src/_private/mod.rs", "schemars_derive/src/schema_exprs.rs"],
     [m("MaybeSerializeWrapper / insert_metadata_property", "schemars/src/_private/mod.rs"), m("default and example expressions in derived code", "schemars_derive/src/schema_exprs.rs")],
     ["default and examples keywords of derived schemas", "all later results"])

prop("C13", "A derive expands the same way, whatever was expanded before or beside it",
     "What #[derive(JsonSchema)] or #[derive(JsonSchema_repr)] expands to - the generated code, or the compile errors and their order - depends on the annotated item alone: not on the compiler process's hash seeds, addresses, clock or threads, and not on which other items, valid or not, were expanded earlier or are being expanded at the same time in that process. An item that has an error expands to nothing but errors.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "for all derive inputs (including erroneous ones), all sequences and interleavings of expansions in one compiler process",
     "Trybuild-style and snapshot tests expand each item once in one order, under whatever hash seed the process got; state carried from one expansion to the next, and unstable iteration order, stay invisible.",
     ["schemars_derive/src/lib.rs", "schemars_derive/src/attr/mod.rs", "schemars_derive/src/attr/schemars_to_serde.rs", "schemars_derive/src/bound.rs", "schemars_derive/src/name.rs", "schemars_derive/src/schema_exprs.rs"],
     [m("derive_json_schema", "schemars_derive/src/lib.rs"), m("process_serde_attrs / attribute contexts and error collection", "schemars_derive/src/attr/schemars_to_serde.rs"), m("bounds and format-name parameters kept in ordered sets", "schemars_derive/src/bound.rs")],
     ["token stream returned by the derive macros", "compile errors"])

NA = [
 ("C20", "Derived schemas accept exactly what serde reads and writes",
  "For every type that derives both JsonSchema and the serde traits, a document conforms to the schema generated for deserialization whenever serde can read it with the schema's required fields, and whatever serde writes conforms to the schema generated for serialization.",
  ["programs", "inputs"], "for all derivable types, serde attributes and values",
  ["schemars_derive/src/schema_exprs.rs", "schemars/src/json_schema_impls/mod.rs", "schemars/src/_private/mod.rs"], "derive expansion",
  "a pure function from type definition to document, with no schedule, clock, I/O, peer or crash to simulate: it calls for program generation and a JSON Schema validator as the oracle"),
 ("C21", "Validation attributes appear as the matching keywords",
  "Every supported validation, range, length, pattern, contains, inner and extend attribute adds exactly the matching JSON Schema keywords to the annotated schema and to nothing else.",
  ["programs"], "for all types and attribute combinations",
  ["schemars_derive/src/attr/validation.rs", "schemars/src/_private/mod.rs"], "attribute expansion",
  "a pure compile-time mapping with no nondeterminism or fault for a simulator to control"),
 ("C22", "Flattening merges schemas as serde merges fields",
  "The schema of a type with flattened fields accepts exactly the documents that satisfy the own fields and the flattened ones together, for all combinations of closed, open and optional parts.",
  ["programs", "inputs"], "for all pairs of object schemas",
  ["schemars/src/_private/mod.rs"], "flatten",
  "a pure function of two schemas; nothing in it depends on time, order, I/O or faults"),
 ("C23", "Dialect transforms keep a schema's meaning",
  "Documents generated for draft-07, 2019-09, 2020-12 and OpenAPI 3.0 accept the same values, expressed with the keywords of their dialect only.",
  ["inputs", "configurations"], "for all schemas and dialects",
  ["schemars/src/transform.rs", G], "built-in transforms",
  "a pure rewriting of one document, decided by a validator over generated schemas, not by schedules or faults (how often and when transforms run is C10)"),
 ("C24", "An inferred schema accepts the value it was inferred from",
  "A schema inferred from an example value accepts every value of the same shape, the example included.",
  ["inputs"], "for all values over the serde data model",
  ["schemars/src/ser.rs"], "schema inference",
  "for a value that serializes successfully this is a pure function of the value (the failing side is C05)"),
 ("C25", "JSON pointer encoding round-trips",
  "Encoding a name as part of a reference and resolving it gives back the name, for every string.",
  ["inputs"], "for all strings",
  ["schemars/src/encoding.rs"], "encode_ref_name / percent_decode",
  "a pure string function without nondeterminism; its observable effect, that references resolve, is part of C01"),
 ("C26", "Doc comments become titles and descriptions faithfully",
  "Titles and descriptions taken from doc comments and attributes contain the documentation text with formatting rules applied and nothing else.",
  ["inputs", "programs"], "for all doc comments",
  ["schemars/src/_private/rustdoc.rs", "schemars_derive/src/attr/doc.rs"], "doc comment processing",
  "a pure string function evaluated at compile time"),
 ("C27", "Invalid attributes are rejected at compile time",
  "Every unknown, conflicting or misplaced attribute is a compile error that points at it, and never silently ignored.",
  ["programs"], "for all malformed derive inputs",
  ["schemars_derive/src/attr/mod.rs", "schemars_derive/src/attr/validation.rs"], "attribute parsing",
  "a pure function from tokens to diagnostics in the compiler; there is no execution to simulate"),
]
why_na = "Tests sample a fixed set of inputs."
for id, title, st, over, text, files, mech, reason in NA:
    prop(id, title, st, over, text, why_na, files, [m(mech, files[0])], ["generated documents" if id != "C27" else "compiler diagnostics"])

TECH = {
 "C01": "deterministic simulation of generator request histories with re-entry, crash and migration faults; graph-isomorphism oracle against the simulated type world",
 "C02": "deterministic simulation of generator histories (drain, clear, clone, re-entry); name-registry reference model",
 "C03": "deterministic simulation of generator histories; differential oracle against a brand-new generator in a pristine process",
 "C04": "deterministic simulation of generator histories; conservation invariants against a reference model after every step",
 "C05": "deterministic simulation with injected serialization failures; differential twin that never saw the failed request",
 "C06": "deterministic simulation of concurrent, nested, migrating and crashing clients under a seeded scheduler; refinement against solo runs",
 "C07": "deterministic simulation of the environment (hash seeds, heap addresses, clock, threads); byte comparison across environments",
 "C08": "deterministic simulation of failing sinks and formats with concurrent writers under a seeded scheduler",
 "C09": "deterministic simulation of failing, short, truncated and corrupted sources; reference reader on the same faulty stream",
 "C10": "deterministic simulation of generator histories with tracing stateful transforms and injected failures; exact expected-trace model",
 "C11": "deterministic simulation of generator histories with step counting; bounded-progress model",
 "C12": "deterministic simulation with injected serialization failures in defaults and examples; differential twin",
 "C13": "deterministic simulation of a compiler process: derive expansions (some failing) on several threads under a seeded scheduler, hash seeds, addresses and clock; differential against each item alone in a pristine process",
}
CLAIMED = list(TECH)
NOTE = ("Seeded search over many simulated runs, each exactly repeatable from its seed: evidence, not proof. "
        "Trusts the harness's reference model and the seams (hash seeds, clock, heap, scheduler). See DESIGN.md for the bounds of the generated worlds and histories.")
man = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "none", "enable": "no hooks: the library's own seams (user types, Serialize, transforms, io::Write/Read) and libc/allocator symbols of the harness process suffice", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"VERIF_TIER=quick ./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
             "evidence_file": f"evidence/{p}.json", "technique": TECH[p], "level": "exploration", "level_note": NOTE} for p in CLAIMED],
 "not_applicable": [{"property": id, "reason": reason} for id, _, _, _, _, _, _, reason in NA],
 "notes": "Two harnesses: /verif/sim, built twice (default features and preserve_order), and /verif/derive_sim (C13); ./check.sh replay FILE runs a replay file again.",
}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
for p in P: assert len(p["title"]) <= 80, p["title"]
