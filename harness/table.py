#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run it by hand after editing)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

TRUST = "Trusts the Go toolchain, go/parser and go/types, and the reference model in the harness; exhaustive only within the bounds given in DESIGN.md."

prop("C01", "RBAC output grants exactly the permissions the markers declare",
 "For every set of RBAC markers, each generated role permits a request (verb, API group, resource, object name, or verb and URL) if and only if one of the markers written for that role's namespace permits it. Rules without a namespace end up in the cluster role with the configured name, the others in a role of that name in their namespace, and nothing is lost, widened or moved between roles.",
 ["inputs", "programs"], "all marker sets over the bounded vocabulary of groups, resources, verbs, names, URLs, namespaces and role names; all requests of the request universe",
 "The tests compare one golden role.yaml; merging and normalising rules (groups with equal resources, resources with equal groups, verbs, core group, wildcards) has combinatorially many interactions.",
 ["pkg/rbac/parser.go"], [("rule merging and normalisation", "pkg/rbac/parser.go"), ("role assembly per namespace", "pkg/rbac/parser.go")],
 "bounded exhaustive enumeration of marker sets against a request-permission model",
 "Every marker set up to the bound goes through the real marker parser and generator; the generated roles are read back and evaluated on the whole request universe.")
prop("C02", "RBAC output is canonical: independent of marker, file and package order",
 "The generated role documents depend only on the set of markers, never on the order in which they are written, on their distribution over files and packages, on duplicates, or on any in-process iteration order. The lists inside a rule are sorted and free of duplicates, rules are in a fixed order, and no two rules of a role are for the same groups, resources, names and URLs.",
 ["inputs", "programs", "schedules"], "all permutations and distributions of bounded marker sets; all map iteration orders within the deviation bound",
 "A golden file pins one input order; the order of Go maps differs from run to run, so a passing test says nothing about the next run.",
 ["pkg/rbac/parser.go"], [("sorting of rules, groups, resources, verbs", "pkg/rbac/parser.go")],
 "exhaustive enumeration of permutations and of controlled map iteration orders",
 "Map iteration in the generator is owned by the harness (source-instrumented), so the orders are enumerated and not sampled.")
prop("C03", "Marker arguments reach the program with exactly the value that was written",
 "A marker written in any of the documented forms (anonymous or named arguments, bare or quoted or raw strings, numbers, booleans, lists with braces or semicolons, maps, any nested combination) is parsed to exactly the value written, for every supported argument type. A marker with a missing required argument, an unknown argument, trailing text, a value of the wrong type or out of the range of its type is reported as an error and never yields a silently altered value.",
 ["inputs"], "all value trees up to the depth bound times all their renderings, for every argument type; all mutations of the listed error classes",
 "Unit tests list a few dozen literal markers; the grammar is recursive and its lookahead (guessing of types, bare strings, separators) makes the outcome depend on the surrounding text.",
 ["pkg/markers/parse.go", "pkg/markers/doc.go"], [("argument parser and type guesser", "pkg/markers/parse.go"), ("definition building from struct types", "pkg/markers/parse.go")],
 "exhaustive generation of value trees and renderings, compared with the generating tree",
 "Generative oracle: the expected value is the tree the text was rendered from.")
prop("C04", "Parsing any marker text terminates with a value or an error, never a crash",
 "For every comment text and every registered marker, looking the marker up and parsing it ends with a value or a returned error; it never panics, loops, or exhausts memory. The same text always gives the same result, and a text that is accepted is accepted with a value of the declared type.",
 ["inputs"], "all strings up to a length bound over the marker alphabet, for every argument shape and for every marker the tool registers",
 "Tests only feed well-formed markers and a handful of malformed ones; users type arbitrary text.",
 ["pkg/markers/parse.go", "pkg/markers/reg.go"], [("scanner-driven parser with error recovery by side effect", "pkg/markers/parse.go")],
 "exhaustive enumeration of all strings up to a length bound on the real parser",
 "Every string over the alphabet up to the bound, no sampling; a watchdog turns non-termination into a violation.")
prop("C05", "Every marker comment is associated with exactly the node the documentation says",
 "Each marker comment in a package is delivered exactly once, to the type, field or package that the documented association rules name for its position (doc comment, the closest non-godoc comment directly above, the package clause or a free-standing comment), and to nothing else. Which definition applies is decided by marker name and target kind only, and the values of repeated markers keep their source order.",
 ["inputs", "programs"], "all file layouts up to the bound: sequences of comment blocks, blank lines, declarations, grouped declarations and fields, with markers of each kind in each position",
 "The collector tests use one hand-written file; the rules depend on relative comment positions, of which there are combinatorially many.",
 ["pkg/markers/collect.go", "pkg/markers/zip.go", "pkg/markers/doc.go", "pkg/markers/reg.go"], [("comment association visitor", "pkg/markers/collect.go"), ("marker lookup by target", "pkg/markers/reg.go")],
 "exhaustive enumeration of source layouts against a reference association model",
 "Layouts are generated from an abstract sequence, so the model knows the position of every marker.")
prop("C06", "Descriptions are the documentation text, cleaned and shortened as documented",
 "The description generated for a type or field is its Go documentation with marker lines, TODO lines and everything after a line of three dashes removed, and with the line structure that the rest of the text has; nothing else is dropped or added. With a maximum length, a longer description is cut to a prefix no longer than the maximum, at a sentence end where there is one, else at a word end and marked with an ellipsis, stays valid text, and is absent with maximum zero; shorter ones are unchanged.",
 ["inputs"], "all documentation comments up to a number of lines over a line vocabulary, in both comment styles; all texts up to a length over an alphabet with every maximum",
 "Tests check a few comments and limits; the result depends on the interleaving of line kinds and on byte positions of sentence ends and multi-byte characters.",
 ["pkg/markers/zip.go", "pkg/crd/desc_visitor.go", "pkg/crd/schema.go"], [("doc extraction", "pkg/markers/zip.go"), ("description truncation", "pkg/crd/desc_visitor.go")],
 "exhaustive enumeration of comment line sequences and texts against a reference model",
 "Both comment styles are rendered from the same abstract line list.")
prop("C07", "The generated schema describes exactly the JSON form of the Go type",
 "For every supported Go type, the generated structural schema has a property for each JSON key the type can encode to and no other, with the JSON type, format, nesting, map and list shape that encoding produces; embedded and inlined structs contribute their fields, and omitted fields contribute none. A property is required exactly if neither an omit tag nor an optionality marker makes it optional under the documented precedence, and types that cannot be expressed are reported as errors and not given some schema.",
 ["programs"], "all type graphs up to the depth bound over the type constructors, field tags, embedding forms and optionality markers",
 "The golden CRD covers one hand-written type; every combination of tag, embedding, alias, named type, pointer, package and marker takes its own path.",
 ["pkg/crd/schema.go", "pkg/crd/known_types.go", "pkg/crd/parser.go", "pkg/crd/gen.go"], [("schema construction from syntax", "pkg/crd/schema.go"), ("known type overrides", "pkg/crd/known_types.go")],
 "exhaustive enumeration of bounded Go type graphs against a reference model of JSON encoding",
 "The reference works on the abstract type that was rendered to Go, and is itself cross-checked against encoding/json.")
prop("C08", "Validation and topology markers take effect exactly where they are written",
 "Each validation, defaulting or list/map topology marker sets exactly the schema keyword it documents, with exactly the written value, on exactly the field, type or list item it is written for, whichever other markers are present and in whichever order. A marker on a type it does not apply to, or with an impossible value, is reported as an error instead of being dropped or changed; of several values for one keyword the last one written counts.",
 ["programs", "inputs"], "all single markers and all pairs (and triples of interacting ones) of schema markers on every target type and every target position, in all orders",
 "The golden CRD shows each marker once on a suitable field; interactions (type override, int-or-string, items, pattern with quoting, priority ordering) are not tested.",
 ["pkg/crd/markers/validation.go", "pkg/crd/markers/topology.go", "pkg/crd/schema.go"], [("marker application with priorities", "pkg/crd/schema.go"), ("ApplyToSchema of each marker", "pkg/crd/markers/validation.go")],
 "exhaustive enumeration of marker pairs, targets and orders against a keyword table",
 "The table of markers and their documented effect is written from the documentation, not from the code.")
prop("C09", "Flattening references yields a self-contained schema with the same meaning",
 "A flattened schema contains no references, and describes exactly the documents that the referenced type schemas and the constraints next to each reference describe together; descriptions, defaults and constraints written at the reference win or add but are never lost. The result does not depend on which types were flattened earlier or on the order of requests, and recursive types or references that cannot be resolved give a reported error and never a hang or a silently truncated schema.",
 ["programs", "histories"], "all reference graphs up to the bound over two packages (chains, sharing, cycles), all sibling constraints, all orders of flattening requests",
 "Tests flatten a few fixed graphs once; caching across requests and sibling constraints multiply.",
 ["pkg/crd/flatten.go", "pkg/crd/parser.go", "pkg/crd/schema_visitor.go"], [("flattener with cache", "pkg/crd/flatten.go")],
 "exhaustive enumeration of reference graphs and request histories against substitution semantics",
 "Two independent oracles: structural expansion and evaluation of all documents of a small universe.")
prop("C10", "Merging allOf keeps the meaning of the schema and reports what it cannot merge",
 "After allOf branches are merged into their parent, the schema accepts exactly the documents the conjunction accepted and no allOf that could be merged remains. Where two branches cannot be merged into one structural schema, an error is reported; no constraint is silently dropped, weakened or strengthened.",
 ["inputs"], "all pairs and triples of branches over the keyword values, nested up to the depth bound, in every order",
 "Tests cover one hand-picked conflict or merge per keyword; combinations such as exclusive bounds, nested allOf or several branches are not.",
 ["pkg/crd/flatten.go"], [("allOf flattening per keyword", "pkg/crd/flatten.go")],
 "exhaustive enumeration of bounded schemas, evaluated before and after on all documents of a universe",
 "The evaluator implements JSON-schema conjunction independently of the merge.")
prop("C11", "Each kind yields one CRD that carries its versions and markers faithfully",
 "Every root kind found in the given packages yields exactly one CustomResourceDefinition in a file of its own, with one version entry per declaring package, sorted by name, each with the schema of its own package. The storage, served, deprecation, scope, names, short names, categories, subresource, column, selectable field, label and annotation settings are exactly as its markers declare, or defaulted from the Go type name; where versions declare different resource settings the later version wins. Skipped versions appear nowhere and a kind without versions yields nothing. Invalid or contradictory declarations (no storage version or several of them, no served version, the same version twice, malformed labels or annotations, two kinds with one file) are reported as errors.",
 ["programs", "configurations"], "all bounded combinations of versions, version markers, resource markers, subresources and generator options",
 "The golden CRDs show a few combinations; multi-version interactions are mostly untested.",
 ["pkg/crd/spec.go", "pkg/crd/markers/crd.go", "pkg/crd/conv.go", "pkg/crd/gen.go"], [("CRD assembly over versions", "pkg/crd/spec.go"), ("marker application to the CRD", "pkg/crd/markers/crd.go")],
 "exhaustive enumeration of bounded version and marker configurations against a reference CRD",
 "The reference computes the whole expected spec from the abstract configuration.")
prop("C12", "CRD generation is deterministic and order-independent",
 "The generated CRDs and the success or failure of generation are a function of the source code alone: they do not depend on map iteration order, on the order in which packages or files are given, on which other kinds or packages are processed in the same run, or on repeated runs. Markers that set the same thing resolve the same way every time.",
 ["schedules", "programs", "histories"], "all map iteration orders within the deviation bound at every iteration of the real code, and all package orders, for a corpus of bounded multi-version APIs with interacting markers",
 "One run of a test sees one random iteration order out of thousands; a golden comparison passes with high probability even when order matters.",
 ["pkg/crd/spec.go", "pkg/crd/schema.go", "pkg/crd/gen.go", "pkg/crd/parser.go"], [("sorting of versions, kinds and markers", "pkg/crd/gen.go, pkg/crd/schema.go, pkg/crd/spec.go")],
 "systematic exploration of owned map iteration orders (deviation bounded) on the real generator",
 "Every map range in the repository's non-test code is instrumented at build time.")
prop("C13", "Type references survive the trip through their textual form",
 "The reference generated for any Go type of any package resolves back to that same package and type name, distinct types never share a reference, and references inside the local package and across packages name the same type.",
 ["inputs"], "all package paths and type names up to the bound over an alphabet containing every separator the encoding uses",
 "Tests use ordinary import paths; import paths may contain dots, tildes, dashes and slashes that collide with the escaping.",
 ["pkg/crd/schema.go"], [("reference escaping and splitting", "pkg/crd/schema.go")],
 "exhaustive enumeration of package paths and type names; round trip and injectivity",
 "All strings over the separator alphabet, plus end-to-end flattening with such paths.")
prop("C14", "Written YAML artifacts parse back to exactly the generated objects",
 "Every artifact written is the header text followed by one YAML document per object, in order, and parsing the documents gives back exactly the objects (same keys, values, numbers and strings, whatever characters they contain), apart from the fields documented as removed. The header file's text is reproduced with the requested year substituted, and writing to a directory, to standard output or per generator changes only the destination.",
 ["inputs", "configurations"], "all objects up to a bound over scalar, string and nesting vocabularies that YAML treats specially; all header and year and output-rule combinations",
 "Goldens contain tame strings; YAML gives special meaning to many (numbers, booleans, nulls, colons, comments, multi-line, unicode).",
 ["pkg/genall/genall.go", "pkg/genall/output.go", "pkg/crd/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go"], [("YAML writing", "pkg/genall/genall.go"), ("output rules", "pkg/genall/output.go")],
 "exhaustive enumeration of bounded objects and output rules; round trip through an independent decoder",
 "Read back with a different YAML decoder from the one that writes.")
prop("C15", "Command-line options select exactly the generators, paths and outputs named",
 "Every list of option strings is either rejected with an error or yields exactly the named generators (once each, in order, with the given settings), all given paths in order, and for each generator the output rule given for it, else the given default rule, else its own directory under the default configuration directory. Unknown options, duplicate generators and output rules for generators that are not invoked are rejected, and no option string crashes the tool.",
 ["inputs", "configurations"], "all option lists up to the length bound over the vocabulary of generators, output rules, paths and malformed options, with and without the leading plus",
 "Tests run two or three option lists; precedence between default and per-generator rules depends on the combination and order.",
 ["pkg/genall/options.go", "pkg/genall/output.go", "cmd/controller-gen/main.go"], [("option parsing into a runtime", "pkg/genall/options.go")],
 "exhaustive enumeration of option lists against a reference model",
 "The registry is the one the command builds (same generators and rules).")
prop("C16", "Every failure is reported: success means everything was generated and written",
 "If opening, reading, writing or closing any file fails at any point, if any package has errors, or if any generator fails, the run reports failure (message and non-zero result) and goes on with the other generators. A run that reports success has written every artifact completely, and a failing generator never makes another generator's artifacts wrong.",
 ["fault_sequences", "inputs"], "every single I/O operation of a run (open, each write, close, read) failing, including short writes, for every generator and pairs of generators; every generator error; every package error",
 "No test injects a fault.",
 ["pkg/genall/genall.go", "pkg/genall/output.go", "pkg/loader/visit.go", "pkg/loader/errors.go", "pkg/crd/gen.go", "pkg/deepcopy/gen.go", "pkg/rbac/parser.go", "pkg/webhook/parser.go", "pkg/schemapatcher/gen.go"], [("error aggregation of a run", "pkg/genall/genall.go"), ("artifact writing", "pkg/genall/genall.go")],
 "exhaustive fault injection at every I/O operation of real runs",
 "Faults are injected through the public output and input rules; the fault points are enumerated from a fault-free run.")
prop("C17", "Webhook markers become exactly the webhook configurations they describe",
 "Each webhook marker yields exactly one entry in the mutating or validating webhook configuration, sorted by name (equal names keep their order), carrying exactly the written rules, operations, policies, client configuration, timeout and versions, with documented defaults for what is left out and documented spellings normalised. Invalid or contradictory markers (both or neither of path and URL, unsupported versions, side effects or timeouts that the API forbids, duplicate configuration markers) are reported as errors, and for markers with names of their own the result does not depend on marker or package order.",
 ["inputs", "programs"], "all single markers over the product of the attribute values, and all bounded combinations of several markers, configuration markers and packages",
 "Tests cover about a dozen fixed markers.",
 ["pkg/webhook/parser.go"], [("conversion to API objects", "pkg/webhook/parser.go"), ("validation of the result", "pkg/webhook/parser.go")],
 "exhaustive enumeration of attribute products and marker combinations against a reference model",
 "The reference builds the expected manifest from the abstract markers.")
prop("C18", "Schema patching changes only the schemas, and makes them the generated ones",
 "After patching a directory of CRD manifests, in every manifest that lists a version of its kind which the Go code has, each version has exactly the schema the CRD generator would give that version, and no schema if the code does not have that version; everything else in every document (other fields, comments, key order) is as it was. Files that are not CRD manifests and CRDs with no version found in the code are left as they are, unsupported CRD manifests are reported (if the code has any Kubernetes types), and patching the result again changes nothing.",
 ["inputs", "histories"], "all manifests over a vocabulary of versions, per-version and global schemas, extra fields, key orders and comments; several files; repeated runs",
 "Tests patch a handful of fixed manifests.",
 ["pkg/schemapatcher/gen.go", "pkg/schemapatcher/internal/yaml"], [("YAML node surgery", "pkg/schemapatcher/internal/yaml"), ("matching manifests to types", "pkg/schemapatcher/gen.go")],
 "exhaustive enumeration of manifests on the real generator, node-level comparison outside schemas",
 "Documents are compared as YAML node trees with comments.")
prop("C19", "Loading and type-checking gives the same result under every interleaving",
 "Parsing the files of a package, type-checking packages that reference each other, and recording errors from several goroutines never deadlocks, never races, and gives the same syntax, the same types of the declarations that pass the filter, and the same errors about them under every schedule; where whole packages are checked, a package is marked ill-typed exactly if it, or a package that it imports, has errors. Import cycles are reported.",
 ["schedules"], "all interleavings up to the preemption bound of concurrent parsing, type checking and error recording, over bounded package graphs and file sets",
 "A test run sees one schedule.",
 ["pkg/loader/loader.go", "pkg/loader/refs.go"], [("parallel parsing", "pkg/loader/loader.go"), ("per-package locks", "pkg/loader/loader.go")],
 "stateless model checking: controlled scheduler enumerating interleavings up to a preemption bound on the real code, plus exhaustive schedules under the race detector",
 "Goroutines and locks of the loader are replaced at build time by controlled ones.")
prop("C20", "Every matched package is loaded once, and reference filtering loses nothing",
 "Loading path patterns yields each matched package exactly once, across modules, directories and repeated or overlapping patterns, as if each pattern had been loaded on its own, and a matched package that others import is the same package for them. Type-checking only the declarations that pass the filter, together with everything they reference, gives those declarations the same types as checking the whole package would.",
 ["inputs", "configurations", "programs"], "all lists of patterns up to the bound over a layout of nested modules, from several directories; all declarations up to the bound with every reference form to other packages, under every filter the generators use",
 "Tests cover some pattern combinations and no reference graphs.",
 ["pkg/loader/loader.go", "pkg/loader/refs.go", "pkg/loader/paths.go"], [("root resolution over nested modules", "pkg/loader/loader.go"), ("reference collection", "pkg/loader/refs.go")],
 "exhaustive enumeration of pattern lists over a module layout, and of reference graphs, against models",
 "Module layouts are real directories in a scratch folder, loaded through the go command.")
prop("C21", "Generated deep-copy code copies everything and shares nothing",
 "For every supported type, the generated code compiles, and the copy it makes of any value is equal to the original (nil and empty kept apart) and shares no mutable memory with it, so that changing one never changes the other. Types are given copy methods exactly as the package and type markers enable, hand-written methods are used rather than duplicated, and types for which no correct copy can be generated are reported as errors (types of the package for which generation is disabled, or that are not exported, are expected to bring the methods others need). The code compiles whatever the packages it refers to are called.",
 ["programs", "inputs"], "all bounded types over the type constructors, cross-references and markers; for each, all values up to the bound",
 "The golden test compares text for one file; whether the text is right for other type combinations is not tested.",
 ["pkg/deepcopy/gen.go", "pkg/deepcopy/traverse.go"], [("copy code traversal", "pkg/deepcopy/traverse.go"), ("selection of types", "pkg/deepcopy/gen.go")],
 "exhaustive enumeration of bounded types, markers and import names; generated code is compiled and executed on all bounded values, with copies compared and checked for shared memory",
 "The oracle is reflective: deep equality, nil-ness and address disjointness, and is independent of the generator.")
prop("C22", "Marker collection is repeatable, isolated per package and safe to share",
 "Asking for a package's markers or types again, in any order, interleaved with other packages, other generators or other goroutines, always gives the same values, and what one generator does with them never changes what another sees. Results and artifacts of a generator are the same whether it runs alone or after or before any others in one run.",
 ["histories", "schedules"], "all sequences of queries up to the bound over several packages; all orders of generators in one run; all interleavings of concurrent queries up to the preemption bound",
 "Tests query each package once with one generator.",
 ["pkg/markers/collect.go", "pkg/markers/zip.go", "pkg/genall/genall.go", "pkg/crd/parser.go"], [("per-package cache under a lock", "pkg/markers/collect.go")],
 "exhaustive enumeration of query histories, generator orders and interleavings on the real code",
 "Results are compared deeply with those of a fresh collector.")
prop("C23", "Marker help lists every marker and argument, truthfully and in a stable order",
 "The help output lists every registered marker exactly once under its category, with its target and each of its arguments with name, type, optionality and documentation as declared, in an order that depends only on the registered set. Help in text and in JSON form agree.",
 ["inputs", "configurations", "schedules"], "all registries of up to a bounded number of definitions over argument shapes, categories and sort options; all map orders",
 "No test covers the help output.",
 ["pkg/genall/help", "pkg/markers/help.go", "pkg/markers/reg.go"], [("help conversion and sorting", "pkg/genall/help")],
 "exhaustive enumeration of registries and map orders against the definitions",
 "Checked also on the real registry of the command.")
prop("C24", "Scaffolded types are valid, complete input for the generators",
 "For every valid kind name and option combination, the scaffolded file compiles once the boilerplate around it is added, declares the kind, its spec, status and list with matching resource name and scope, has markers for generated clients exactly if they are asked for, and is accepted by the other generators, which produce the CRD for exactly that kind and resource. Invalid names are rejected with an error and produce no output.",
 ["inputs", "configurations"], "all kind names up to the bound over letter case patterns and suffixes, times namespaced and explicit resource names and options",
 "The test scaffolds one kind.",
 ["pkg/typescaffold/scaffold.go", "pkg/typescaffold/resource.go", "cmd/type-scaffold/main.go"], [("template rendering and validation", "pkg/typescaffold")],
 "exhaustive enumeration of names and options; output fed through the real CRD generator",
 "Output is parsed, type-checked and sent through the CRD generator.")
prop("C25", "Help generation reproduces marker documentation from the source comments",
 "For every marker type with documentation, the generated help has the type's category, summary and details, and those of each of its fields under the field's name, exactly as written in the comments, and the generated code compiles. Types without the generation marker get none. Malformed markers are reported, and so is help that cannot be written, without keeping other packages from getting theirs.",
 ["programs", "inputs"], "all bounded marker type declarations over documentation shapes, categories, quoting and field layouts",
 "No test covers the helper generator.",
 ["cmd/helpgen/main.go", "pkg/markers/help.go"], [("help code generation", "cmd/helpgen/main.go")],
 "exhaustive enumeration of documented declarations; generated code is evaluated and compared",
 "The generated Go is evaluated syntactically.")

prop("C26", "Apply configurations are generated for exactly the enabled types",
 "Apply-configuration code is generated for a package exactly if its package marker enables it, and has an entry point of its own for exactly the types with object metadata that are marked as custom resources or enabled by a type marker, and not disabled by one, in the output package the marker names. Any failure of the generation is reported.",
 ["configurations", "programs"], "all combinations of package marker, type markers and output marker over bounded packages",
 "Tests compare one generated tree.",
 ["pkg/applyconfiguration/gen.go"], [("selection by markers", "pkg/applyconfiguration/gen.go")],
 "exhaustive enumeration of marker combinations on real modules",
 "Runs the real generator on scratch modules.")

CLAIMED = set(open(os.path.join(here, "claimed.txt")).read().split())
NA = {}
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./harness/setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks enumerate bounded behaviours of the real code exhaustively; the instrumentation (owned map order, controlled goroutines) is applied to a copy of the sources at build time through go build -overlay, so /repo carries no hooks. See DESIGN.md."}
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"] + " --thorough",
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking",
            "level_note": p["note"] + " " + TRUST})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check yet: model checking applies (see DESIGN.md), the harness for it is not built")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
