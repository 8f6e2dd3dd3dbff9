#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os

V = "src/vss_tools/vspec/"
E = V + "vssexporters/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })


p("C01", "Includes and prefixes flatten to exactly the specified signal set",
  "For every specification split over any graph of nested include statements, with or without prefixes and include directories, the loaded model contains exactly the nodes of all reached files, each under the concatenation of the prefixes on its include path, and carries for every key the value of the last file that states it. How the same content is split over files never changes the exported model, and an include that cannot be found is an error rather than a silently smaller model.",
  ["inputs", "configurations"],
  "All include graphs (nesting depth, repeated includes under different prefixes, -I search order, sibling-relative lookup) over all file contents.",
  "The include test data has one fixed two-file layout; prefix concatenation, lookup precedence and multi-level nesting over arbitrary splits are never varied.",
  [V + "vspec.py", V + "main.py"],
  [("include parsing, prefixing and depth-first file order", V + "vspec.py: VSpec, Include, get_vspecs, load_vspec"),
   ("tree construction from dotted names", V + "tree.py: build_tree")],
  ["exported YAML/JSON of vspec export", "exit code and log"])

p("C02", "Overlays merge per attribute, later wins, nothing else changes",
  "Applying any sequence of overlays yields, for every node and attribute, the value from the last overlay (in command-line order) that states it, else the base value; nodes and attributes no overlay mentions are exactly as without overlays, also where the base states them by YAML anchors and aliases. Nodes an overlay adds appear, and an overlay that is empty or restates the base changes nothing.",
  ["inputs", "histories"],
  "All base models and all finite sequences of overlays that add, change and re-change nodes, including attributes set to falsy values, nested extra attributes and changes of datatype or node type.",
  "The overlay tests compare a handful of golden files with one or two overlays; order, idempotence, disjointness and non-interference are universally quantified.",
  [V + "vspec.py", V + "main.py", V + "tree.py"],
  [("sequential deep merge of the loaded files", V + "vspec.py: load_vspec, deep_update"),
   ("adding overlay nodes without stated parents", V + "tree.py: VSSNode.connect")],
  ["exported YAML/JSON with and without overlays"])

p("C03", "Instance expansion creates exactly the specified set of instance paths",
  "Expanding a branch with instances produces exactly the paths denoted by its labels, ranges and lists (a range or list opens a new level, plain labels are siblings), each deepest instance carrying a faithful copy of every instantiated child and subtree, nested instances included, while children marked as not instantiated stay once, un-instantiated, on the branch itself. Nothing of the un-expanded form remains, and with expansion disabled the instance declaration is kept and no path is added or lost. A declaration with entries that are no labels (descending ranges, nested too deep, empty, no text, with a path separator) is rejected.",
  ["inputs", "configurations"],
  "All instance declarations (string, list, list of lists, ranges with prefix/suffix text, nested instance branches, non-instantiated children) and all subtrees below them.",
  "Existing tests enumerate a few declarations and compare with fixed strings; the cross product of declaration forms, nesting and children is unbounded.",
  [V + "tree.py"],
  [("expansion loop and copy of children", V + "tree.py: VSSNode.expand_instances, expand_instance, add_expanded_instance_children"),
   ("range syntax", V + "tree.py: expand_string")],
  ["exported YAML/JSON/CSV with --expand and --no-expand"])

p("C04", "An override of one expanded instance changes that instance only",
  "If an overlay or the model itself states a node by its expanded instance path, then after expansion exactly that instance carries the stated attributes with precedence over the un-expanded definition, its unstated attributes are inherited, and every other instance is identical to what it is without the statement. A node added under one instance path appears under that instance only.",
  ["inputs", "histories"],
  "All combinations of instance declarations and statements on expanded paths at every depth (instance branch, instantiated leaf, new leaf), in any order and number.",
  "Tests check three golden overlays; isolation of the other instances and precedence at every depth is a statement over all instance/override combinations.",
  [V + "tree.py"],
  [("merge of pre-stated instance nodes into generated ones", V + "tree.py: add_expanded_instance_children, VSSNode.merge"),
   ("incomplete nodes kept raw until merged", V + "model.py: get_vss_raw, resolve_vss_raw")],
  ["exported YAML/JSON"])

p("C05", "A model is accepted exactly when every attribute value is consistent",
  "A specification is exported if and only if each node has a known type and a description, each leaf a known datatype, array size only with an array, a default that is a (finite) value of the datatype (element-wise and with the stated size for arrays) and a member of the allowed values, allowed values that are values of the datatype and are not combined with min or max, a known unit that permits the datatype, and a well-formed constant UID. Any violation makes the command fail before output is produced, whatever else the model contains.",
  ["inputs"],
  "All node attribute combinations, boundary values of every datatype, scalar and array forms, falsy defaults, and violations placed anywhere in arbitrarily large models, overlays and instances.",
  "Tests list some thirty accepted and rejected snippets; the predicate is over all value/datatype pairs, including exact integer bounds and falsy values, at every place in a model.",
  [V + "model.py", V + "datatypes.py", V + "main.py"],
  [("attribute validators", V + "model.py: VSSData, VSSDataBranch, VSSDataDatatype"),
   ("value checks per datatype", V + "datatypes.py: is_xintx, is_float, is_string, is_bool, Datatypes")],
  ["exit code and output file of vspec export"])

p("C06", "Only well-formed trees are accepted",
  "A model is accepted only if it has a single root, every node is reachable through stated or instance-generated ancestors, signals and branches sit below branches, properties below structs and structs below branches or structs. Every other arrangement is rejected with a non-zero exit and no output, and every accepted arrangement is exported without losing or inventing a node.",
  ["inputs"],
  "All arrangements of node types over all tree shapes, several roots, missing intermediate branches, and statement orders.",
  "Tests cover single handmade malformed trees; arrangements and statement orders are combinatorial.",
  [V + "tree.py", V + "main.py"],
  [("root/orphan detection and connection", V + "tree.py: build_tree, VSSNode.connect"),
   ("parent checks", V + "main.py: get_invalid_node_msgs, validate_tree")],
  ["exit code, exported YAML"])

p("C07", "Deleting a node removes exactly its subtree",
  "Marking a node for deletion in the base or an overlay removes that node and everything below it from every export and changes nothing else: siblings, ancestors and other instances keep all attributes. A deletion stated on an un-expanded node removes it from every instance, one stated on an expanded instance path only from that instance, and a later overlay that revokes the mark restores the node.",
  ["inputs", "histories"],
  "All models and all sets of deletion marks (leaf, branch, instance branch, single instance, nested marks), placed in any layer and possibly revoked by a later one.",
  "Tests delete one node, one branch and one instance in fixed files.",
  [V + "tree.py", V + "main.py"],
  [("removal after expansion", V + "tree.py: VSSNode.delete_nodes; " + V + "main.py: get_trees")],
  ["exported YAML/JSON with and without the mark"])

p("C08", "Unit and quantity definitions are enforced as declared",
  "A unit may be used exactly when some loaded unit file declares it by key or by its unit name, and only with the datatypes that declaration lists, including narrower integer types and arrays of them; every declared unit must name a declared quantity and known datatypes. Redefining a unit or quantity in any of the loaded files is an error, explicitly given files replace the default ones next to the specification, and the order of the files is irrelevant.",
  ["inputs", "configurations"],
  "All unit/quantity file sets, orders, datatype lists and all unit/datatype combinations of signals and struct properties.",
  "Tests use one units file with a few datatypes; unit x datatype x file-order combinations and redefinitions across files are not swept.",
  [V + "units_quantities.py", V + "main.py", V + "model.py", V + "datatypes.py"],
  [("loading and redefinition check", V + "units_quantities.py: load_units_or_quantities"),
   ("default file lookup", V + "main.py: load_quantities_and_units"),
   ("unit checks", V + "model.py: VSSUnit, VSSDataDatatype; " + V + "datatypes.py: Datatypes.is_subtype_of")],
  ["exit code of vspec export"],
  [{"name": "known units and quantities", "meaning": "units that signals may use with their permitted datatypes", "where": V + "datatypes.py: dynamic_units, dynamic_quantities"}])

p("C09", "User-defined struct types resolve to exactly the declared type",
  "A datatype that names a struct, by full path or from within the same namespace by its short name, with or without array brackets, resolves to the one struct visible under that name, and the export shows its full path; a name that no visible declaration matches is rejected. Type definitions spread over several type files form one tree in which references between files resolve, a later file's definition of a type replacing the earlier one.",
  ["inputs", "configurations"],
  "All struct type trees (nested structs, branches, names that are prefixes of each other, same short name in different namespaces), reference forms and splits over type files.",
  "Tests use one small type tree with unambiguous names; name-prefix relations, ambiguity and file splits are never varied.",
  [V + "datatypes.py", V + "main.py", V + "model.py", V + "tree.py"],
  [("namespaced lookup", V + "datatypes.py: get_fqn_namespaced_datatypes, resolve_datatype"),
   ("type tree construction", V + "main.py: get_types_root")],
  ["exported YAML/JSON datatype values, exit code"])

p("C10", "Strict mode and attribute whitelisting reject exactly what they promise",
  "With strict mode or the matching abort option a model is rejected exactly if some node name is not camel case starting with a capital (or a boolean leaf not starting with Is or Has), respectively some attribute is neither a core attribute nor whitelisted; without them it is accepted. By default exports contain, beyond the core attributes, exactly the whitelisted extra attributes, and all of them when all extended attributes are requested.",
  ["inputs", "configurations"],
  "All names and attribute sets on all nodes (root, inner, leaf, instance, struct) and all combinations of strict, abort and whitelist options.",
  "Tests use a few names on one leaf; the rule must hold for every node position and option combination.",
  [V + "main.py", V + "tree.py", V + "model.py", V + "cli_options.py", E + "vss2json.py", E + "vss2yaml.py", E + "vss2jsonschema.py"],
  [("name and attribute checks", V + "tree.py: get_naming_violations, get_extra_attributes; " + V + "main.py: check_name_violations, check_extra_attribute_violations"),
   ("attribute filtering", V + "model.py: VSSRaw.as_dict")],
  ["exit code, exported JSON/YAML"])

p("C11", "JSON export is a faithful image of the model",
  "The JSON export is a valid JSON document whose nesting is the tree and whose every node carries exactly the attributes and values of the model node (tool-internal marks such as instantiate and delete aside), falsy values, arrays, unicode and whitespace included; types appear under the dedicated key or in the separate file. Pretty printing changes only whitespace.",
  ["inputs", "configurations"],
  "All models, attribute values and output options.",
  "Golden-file tests use ASCII models with few attributes; losslessness for all values is not sampled.",
  [E + "vss2json.py", V + "model.py"],
  [("recursive conversion", E + "vss2json.py: get_data"), ("attribute dump", V + "model.py: VSSRaw.as_dict")],
  ["output file(s) of vspec export json"])

p("C12", "YAML export reloads to the same model (export is a fixed point)",
  "The YAML export states every node of the expanded model with exactly its attributes and values, and is itself a valid specification: loading it again with the same options and exporting yields the identical YAML, JSON and CSV. Repeating the export from its own output never drifts.",
  ["inputs", "histories"],
  "All models and attribute values, with struct types, units and options; export/reload chains of any length.",
  "Tests compare golden files and never reload an export.",
  [E + "vss2yaml.py", V + "tree.py", V + "model.py"],
  [("flat conversion", V + "tree.py: VSSNode.as_flat_dict"), ("YAML emitter settings", E + "vss2yaml.py: export_yaml, NoAliasDumper")],
  ["output file(s) of vspec export yaml, first and second generation"])

p("C13", "CSV and tree exports list every node once with its own attributes",
  "The CSV export is well-formed CSV with one row per node, parents before children, whose columns hold that node's own metadata, for signals and types alike, quoting preserved for separators, quotes, line breaks and unicode. The tree export shows the same nodes at their depth with each requested attribute.",
  ["inputs", "configurations"],
  "All models, attribute values and column-affecting options (UUID, no expansion, separate types output).",
  "Golden files never contain separators, quotes or line breaks and few falsy values.",
  [E + "vss2csv.py", E + "vss2tree.py", V + "utils/misc.py"],
  [("row construction", E + "vss2csv.py: add_rows, get_header"), ("rendering", E + "vss2tree.py: get_rendered_tree")],
  ["output of vspec export csv / tree"])

p("C14", "JSON schema accepts conforming documents and rejects others",
  "The exported JSON schema mirrors the tree: each branch lists exactly its children as properties, each leaf states JSON type, range, enumeration and default as the model does (of its elements for arrays), struct signals are objects, with required and closed properties as requested by the options. A document built from values the model permits validates, and one with a value outside the model's type, range or enumeration does not.",
  ["inputs", "configurations"],
  "All models, leaf constraints (including zero, false and empty values), options, and documents conforming or violating at any one leaf.",
  "Golden files only; no document is ever validated against a generated schema.",
  [E + "vss2jsonschema.py"],
  [("schema construction", E + "vss2jsonschema.py: export_node and type map")],
  ["output of vspec export jsonschema, independent schema validation"])

p("C15", "Binary export decodes to the same tree",
  "The binary file is a self-delimiting depth-first encoding: decoding it with the documented layout consumes every byte and yields each node with its name, type, UUID, description, datatype, min, max, unit, allowed values, default, access-control marking and exact number of children, in tree order. What cannot be represented in the format is rejected, never silently corrupted.",
  ["inputs"],
  "All models, including non-ASCII text, long texts, numeric and boolean allowed values, wide and deep trees.",
  "The test only checks that a file is produced from one tiny ASCII model.",
  [E + "vss2binary.py", "binary/README.md"],
  [("node encoding", E + "vss2binary.py: export_node, length bytes")],
  ["binary output file, decoded independently"])

p("C16", "C parser is memory safe and agrees with the binary tree",
  "Reading any file the binary exporter produces, searching it with any path, listing leaves or identifiers and writing it back performs no invalid memory access, use of uninitialised data or other undefined behaviour. The tree it exposes, the leaf and UUID lists and the written-back file equal the encoded tree, and a search finds exactly the nodes whose path matches, wildcards and match limit respected.",
  ["inputs", "histories"],
  "All exporter-produced files (wide, deep, long texts, many enumeration values, access-control markings) and all sequences of read, search, list and write operations.",
  "The tests compile the parser without sanitizers and grep a menu session for one signal.",
  ["binary/c_parser/cparserlib.c", "binary/c_parser/cparserlib.h"],
  [("recursive reader and fixed buffers", "binary/c_parser/cparserlib.c: readNode, populateNode"), ("search and list", "binary/c_parser/cparserlib.c: VSSsearchNodes, VSSGetLeafNodesList, VSSGetUuidList"), ("writer", "binary/c_parser/cparserlib.c: writeNode, VSSWriteTree")],
  ["sanitizer reports, dump of the parsed tree, search results, written file"],
  [{"name": "parser globals", "meaning": "search context, output stream and list flags shared between calls", "where": "binary/c_parser/cparserlib.c"}])

p("C17", "Go parser agrees with the binary tree and never panics",
  "The Go parser reads every file the binary exporter produces into the encoded tree, answers searches and lists exactly as the tree implies, repeatedly and in any order within one process, and writes back a file that decodes to the same tree. No operation panics.",
  ["inputs", "histories"],
  "All exporter-produced files and all sequences of read, search, list and write operations in one process.",
  "The tests run one menu session on one small file.",
  ["binary/go_parser/parserlib/parser.go", "binary/go_parser/datamodel/datamodel.go"],
  [("recursive reader", "binary/go_parser/parserlib/parser.go: readNode/populateNode"), ("search", "binary/go_parser/parserlib/parser.go: VSSsearchNodes"), ("writer", "binary/go_parser/parserlib/parser.go: VSSWriteTree")],
  ["dump of the parsed tree, search results, lists, written file"])

p("C18", "Static identifiers are unique, stable and depend only on identity fields",
  "Every node of an accepted identifier export has a 32-bit identifier, unique over the export and equal to the documented FNV-1 hash of path, unit, type, datatype and value constraints, or of its former path, or its fixed constant if stated. Changing descriptions, comments, or anything about other nodes, or the order of statements, never changes a node's identifier; when two nodes would share one the export fails.",
  ["inputs", "histories"],
  "All models, edits of a model, case-sensitivity options, former-name and constant attributes.",
  "Tests hash a few fixed nodes; uniqueness and independence are relations over all pairs of models and nodes.",
  [E + "vss2id.py", V + "utils/idgen_utils.py"],
  [("hashed node string", V + "utils/idgen_utils.py: get_node_identifier_bytes, fnv1_32_hash"), ("assignment and collision check", E + "vss2id.py: generate_split_id, export_node")],
  ["output of vspec export id"])

p("C19", "Identifier validation reports every change with the right class",
  "Comparing a model with a previous identifier export reports each difference and only real differences: changes to the identifier-relevant fields (path, type, datatype, unit, range, allowed values) and paths taken over by another node as breaking, additions and deletions as such, renames announced by a former name (or a constant UID) that reproduces the old identifier as a non-breaking name change naming the old path, and description and deprecation changes in their own class; comparing a model with its own export reports nothing. The written result always holds the current identifiers.",
  ["inputs", "histories"],
  "All pairs of model versions connected by arbitrary sets of edits.",
  "Tests apply one edit at a time to a two-node model.",
  [E + "vss2id.py", V + "utils/vss2id_val.py"],
  [("comparison", V + "utils/vss2id_val.py: validate_static_uids")],
  ["log output and file of vspec export id --validate-static-uid"])

p("C20", "Protobuf export is valid and lossless for names and types",
  "For every accepted model the generated .proto files are syntactically valid proto3, each branch and struct becomes exactly one message, each child exactly one field of the mapped type, repeated for arrays, and field numbers are unique within a message and in the legal range. Every referenced message is defined or imported, branches or structs whose joined names coincide are rejected instead of merged, and with static numbers a field keeps its number when other signals are added or removed.",
  ["inputs", "configurations", "histories"],
  "All models with and without struct types and static identifiers; repeated exports into the same place.",
  "Golden files for two models only.",
  [E + "vss2protobuf.py"],
  [("message and field emission", E + "vss2protobuf.py: traverse_signal_tree, print_message_body, traverse_data_type_tree")],
  ["generated .proto files parsed independently"])

p("C21", "GraphQL export is a valid schema covering every signal",
  "The generated schema parses and builds as GraphQL, has one object type per leaf and per branch with at least one leaf below it, each branch's fields are exactly those children, and each leaf offers its value with the mapped scalar type (a list for arrays), a timestamp, a unit field if it has a unit, and the requested extra fields, with description and deprecation as modelled. Distinct nodes never share a type or field: siblings whose field names coincide are rejected, not dropped.",
  ["inputs", "configurations"],
  "All accepted models, name shapes, descriptions with quotes and line breaks, and extra field options.",
  "One golden file.",
  [E + "vss2graphql.py", V + "utils/misc.py"],
  [("schema construction", E + "vss2graphql.py: to_gql_type, field, leaf_fields, branch_fields")],
  ["generated schema parsed with a GraphQL implementation"])

p("C22", "Go export is compilable code with one member per child",
  "The generated Go source compiles, declares exactly one struct type per branch (instances sharing one) and user struct, and each struct has exactly one member per child, of the mapped Go type, slices for arrays. Every referenced type is declared, with and without expansion and package options.",
  ["inputs", "configurations"],
  "All accepted models, instance declarations, struct types and name shapes.",
  "Golden files for two models; the output is never compiled.",
  [E + "vss2go.py"],
  [("struct collection and naming", E + "vss2go.py: get_struct_name, get_datatype, add_children_map_entries, GoStruct")],
  ["go build and go/ast dump of the generated file"])

p("C23", "DDS-IDL export is well-formed and covers every leaf",
  "The generated IDL is syntactically well-formed with one struct per leaf and user struct, in the module path of its branch, each member with the mapped IDL type, sequence for arrays, and for leaves with allowed strings an enumeration with one distinct literal per allowed value; reserved words are escaped and strings cannot break out of their literal or comment. Every type it references is declared in the same file before use and resolves under the IDL scoping rules; type, unit, description, range and default are stated with --all-idl-features, and only as comments or not at all without.",
  ["inputs", "configurations"],
  "All accepted models, names equal to keywords, allowed values of any form, struct types and option combinations.",
  "A few golden files.",
  [E + "vss2ddsidl.py"],
  [("module/struct emission", E + "vss2ddsidl.py: export_node, StructExporter, getAllowedName")],
  ["generated IDL parsed independently"])

p("C24", "ApiGear export defines every type it references, once",
  "The generated modules are valid YAML in which every branch becomes one interface with one property per leaf child of the mapped type, every user struct one struct and every enumeration lists the allowed values as distinct identifiers, integers with their value; the solution lists the requested layers with their paths. Every type name a property refers to is either primitive or defined in the generated modules, and no name is defined twice in a module: nodes whose joined names coincide are rejected.",
  ["inputs"],
  "All accepted models with enumerations, arrays, struct types and deprecations.",
  "One golden directory.",
  [E + "vss2apigear.py"],
  [("property and struct mapping", E + "vss2apigear.py")],
  ["generated module files"])

p("C25", "SAMM export is valid Turtle covering exactly the selected signals",
  "Every generated file parses as Turtle with exactly one aspect, every element is declared once and every reference to a generated element resolves to a declaration. Following the root aspect through properties, characteristics and entities reaches, by payload names, exactly the selected nodes of the expanded tree (a signals file selects a listed node and what is below it; deprecated nodes and aspects with nothing but deprecated children are left out by design), with description, datatype, unit, enumeration, scalar default of every leaf and range of every sensor and actuator.",
  ["inputs", "configurations"],
  "All accepted models, signal selections, split options, instances and descriptions with any characters.",
  "The repository has no tests for this exporter's content.",
  [E + "vss2samm/vss2samm.py", E + "vss2samm/helpers/ttl_builder_helper.py", E + "vss2samm/helpers/vss_helper.py"],
  [("graph construction", E + "vss2samm/helpers/ttl_builder_helper.py"), ("signal selection", E + "vss2samm/helpers/vss_helper.py")],
  ["generated .ttl files parsed as RDF"])

p("C26", "Franca export lists every node once with its metadata",
  "The Franca export is a well-formed constant array with exactly one entry per node in tree order, each carrying the node's name, type, description, datatype, unit, range and enumeration, with list separators only between entries. No value can break out of its string.",
  ["inputs"],
  "All accepted models and attribute values.",
  "One golden file with plain values.",
  [E + "vss2franca.py"],
  [("entry emission", E + "vss2franca.py: print_franca_content")],
  ["generated .fidl parsed independently"])

p("C27", "Every export is deterministic",
  "Exporting the same files with the same options yields byte-identical output in every format on every run, independent of hash randomisation, locale and other environment, working directory, file location and previously existing output. Restating the same content in a different statement order within a file never changes the exported set of nodes and their metadata.",
  ["inputs", "configurations", "schedules"],
  "All models, all exporters, all hash seeds, working directories and prior outputs.",
  "Tests run with one hash seed and compare once.",
  [V + "datatypes.py", V + "model.py", E + "vss2protobuf.py", E + "vss2go.py"],
  [("iteration over sets of types and attributes", V + "datatypes.py, " + V + "model.py"), ("writing of outputs", E)],
  ["output bytes of repeated runs in fresh processes"],
  [{"name": "registered datatypes", "meaning": "process-wide set of known struct types", "where": V + "datatypes.py: dynamic_datatypes"}])

p("C28", "A failed export leaves no output and no export touches its inputs",
  "If a specification, type, unit or quantity file is rejected or cannot be read, every exporter exits non-zero, writes no new output and leaves an existing output file as it was. No export, successful or not, modifies any input file or writes anywhere but to the named outputs.",
  ["inputs", "fault_sequences", "configurations"],
  "All exporters, all classes of invalid input, all positions of the fault, with and without pre-existing output.",
  "Tests check the exit code for some invalid inputs with one exporter and never the file system.",
  [V + "main.py", V + "cli.py", E],
  [("validation before writing", V + "main.py: get_trees"), ("output opening after conversion", E)],
  ["exit code and before/after snapshot of the case directory"])

p("C29", "UUIDs are the documented function of the node path",
  "When UUIDs are requested every exported node of the signal tree of every supporting exporter carries, as 32 hexadecimal digits, the RFC 4122 version 5 UUID of its full path in the namespace derived from the specification's name, so equal paths always get equal and distinct paths distinct UUIDs, across exporters, overlays and expansion. Without the option no UUID is present.",
  ["inputs", "configurations"],
  "All models, node paths (instances included) and UUID-supporting exporters.",
  "Golden files hold the UUIDs of a few fixed names.",
  [V + "tree.py", E + "vss2json.py", E + "vss2csv.py", E + "vss2yaml.py", E + "vss2franca.py", E + "vss2binary.py"],
  [("computation", V + "tree.py: VSSNode.add_uuids")],
  ["exports with --uuid"])

p("C30", "All exporters describe the same set of signals",
  "For any accepted model and options, the sets of leaf signals (and of branches, where the format shows them) contained in the outputs of all exporters are equal to those of the model (SAMM models leave out deprecated nodes by design). No exporter drops, duplicates or renames a signal because of its metadata, position or name.",
  ["inputs", "configurations"],
  "All accepted models that every exporter supports, all exporters.",
  "Golden files are per exporter and per model; no test relates exporters to each other.",
  [E],
  [("shared tree and per-exporter traversal", V + "main.py: get_trees; " + E)],
  ["output files of all exporters for one model"])

p("C31", "The parser tools answer any session from the tree and survive any input",
  "The interactive command line tools of the C and the Go binary parser answer every session over a binary tree from that tree: they state its number of nodes and levels, up, down, left and right move as their help says and show the reached node and child as encoded, searches and subtree listings report exactly the matching nodes with their types, datatypes, paths and access control, the list commands write the leaf and UUID lists, and writing back leaves the tree file unchanged. Whatever is typed - paths without a match, words longer than any buffer, absurd depths, no numbers, an input that ends anywhere - and whatever file argument is missing or unreadable, they end or go on without invalid or uninitialised memory access, panic or endless loop.",
  ["inputs", "histories"],
  "All trees the exporter writes and all finite command sequences, ended by a quit command or by the end of the input at any point.",
  "No test compiles or runs the tools.",
  ["binary/c_parser/testparser.c", "binary/go_parser/testparser.go", "binary/c_parser/cparserlib.c", "binary/go_parser/parserlib/parser.go"],
  [("command loop and node display", "binary/c_parser/testparser.c: main, showNodeData; binary/go_parser/testparser.go: main, showNodeData"),
   ("search, lists and write-back used by the commands", "binary/c_parser/cparserlib.c; binary/go_parser/parserlib/parser.go")],
  ["standard output, exit status and sanitizer reports of the tools", "nodelist.txt, uuidlist.txt and the rewritten tree file"],
  [{"name": "current node and child", "meaning": "position of the session", "where": "testparser.c, testparser.go: currentNode, currentChild"}])

p("C32", "The common options mean the same to every exporter, however they are written",
  "Every exporter accepts or rejects the same model under the same common options: strictness and --aborts kinds, whitelisted attributes (and refused whitelist entries), overlays in their order, include directories for main, overlay and type files, several unit, quantity and type files, and the default unit and quantity files beside the vspec. How an option is written - long or short, joined or separate, in any order that keeps the order of repeated values, with relative or absolute paths - and how verbosely the tool logs, to the terminal or to a log file, changes neither verdict nor a byte of output.",
  ["inputs", "configurations"],
  "All models, all exporters that take the option, all combinations and spellings of the common options.",
  "Tests exercise each option with one or two exporters and one spelling.",
  [V + "main.py", V + "cli_options.py", V + "cli.py", E + "*.py"],
  [("option declarations", V + "cli_options.py"), ("options handed to the loader by each exporter", E + "*.py: cli"), ("loader", V + "main.py: get_trees, load_quantities_and_units, get_types_root, check_*")],
  ["exit status and output files of every exporter"])

p("C33", "Exit status zero means complete outputs",
  "Whenever an exporter exits with 0, every output it was asked for is there, complete and new, byte for byte what an undisturbed run writes to a fresh place: if an output can not be opened, created or written to its end - a full device, a size limit, an I/O or permission error at any of its files, something else in its place, a missing directory that is not created - the exporter exits non-zero. Existing output (older, longer, shorter, damaged) is replaced, never mixed with the new, or refused as a whole.",
  ["inputs", "fault_sequences"],
  "All models, exporters, outputs (multi-file ones and separate type outputs included), kinds of write faults and places at which they strike.",
  "Tests never let a write fail and always start with an empty place.",
  [E + "*.py", E + "vss2samm/helpers/file_helper.py"],
  [("writing of the outputs", E + "*.py: cli"), ("SAMM files", E + "vss2samm/helpers/file_helper.py: write_graph_to_file"), ("ApiGear files", E + "vss2apigear.py: export_yaml"), ("protobuf package files", E + "vss2protobuf.py")],
  ["exit status and bytes of every output file under injected write faults"])

p("C34", "A rejection names its cause",
  "Whatever the tool rejects or warns about in a model, it names: under strictness every node whose name breaks the rules, in every mode every attribute that is neither core nor whitelisted, every orphan and every wrongly placed node, by full (expanded) path and no node that is fine; a rejected value, datatype, unit or missing attribute by the path of a node that really has one; second roots, statements that are no mapping, includes that are not found or malformed, bad unit and quantity entries by their name. The same goes for type files.",
  ["inputs", "configurations"],
  "All models with any number of offenders at any place, stated in any file, for any instance.",
  "Tests look for one message in one model.",
  [V + "main.py", V + "tree.py", V + "model.py", V + "vspec.py", V + "units_quantities.py"],
  [("violation lists", V + "tree.py: get_naming_violations, get_extra_attributes, build_tree"), ("reports", V + "main.py: check_*, get_invalid_node_msgs, get_trees"), ("validation errors", V + "model.py: ModelValidationException; " + V + "tree.py: resolve"), ("files", V + "vspec.py; " + V + "units_quantities.py")],
  ["nodes, files and entries named in the log at level WARNING and above"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=True) + "\n")
    print(len(P), "properties")
