IN = ["inputs", "configurations"]
T1 = "The tests compare a handful of fixed trees with stored files; "
N = "Randomised search, no proof: the property held on the generated cases counted in the evidence. Trusts the reference model in vv/ and that the documentation in /repo/docs states the intended behaviour."

prop("P01", "Include files compose to the model of one flat file",
     "A model split over include files (with or without prefix, nested, repeated, from the include directories or next to the including file) yields exactly the export of the equivalent single flat file, and a later definition of the same node merges over an earlier one. Of several candidate files the documented search order decides, and a missing file or a broken include line fails the run.",
     IN, "every way of splitting a model over include files, prefixes, directories and include options",
     T1 + "include tests use a few fixed layouts and cannot cover splits, prefixes, search order and repetitions together.", ["vspec", "main", "tree"], N)
prop("P02", "Overlays are merged attribute by attribute and the last one wins",
     "The model exported with a list of overlays is the base model with every overlay applied in the order given: an attribute an overlay gives replaces the earlier value, attributes it does not mention stay, unknown nodes are added. A missing intermediate branch is created only as documented, and otherwise the run fails.",
     ["inputs", "histories"], "every base model and every sequence of overlays with partial or full redefinitions, resets and additions",
     T1 + "the overlay tests merge one or two fixed overlays; sequences and attribute-level combinations are unbounded.", ["vspec", "tree", "main", "model"], N)
prop("P03", "Instances expand to exactly the declared tree",
     "A branch with instance declarations expands to one branch per declared instance (in order, over all levels, for ranges, lists and mixtures), every non-excluded descendant appears below every instance exactly once and excluded ones stay on the branch itself. Without expansion the tree is exported as written.",
     IN, "every combination of instance declarations, nesting, instantiate flags and expansion options",
     T1 + "the stored expansions cover a few shapes; nesting, levels and edge ranges multiply.", ["tree", "model", "main"], N)
prop("P04", "Entries for one instance refine that instance only and win",
     "An entry whose path addresses a concrete instance overrides or extends the common definition for that instance only, attribute by attribute, and every other instance keeps the common data. This holds independent of where (base or overlay) and in which order common and specific entries are given.",
     ["inputs", "histories"], "every instantiated model and every set of entries addressing concrete instances at any level",
     T1 + "only a few fixed instance overlays are tested.", ["tree", "model", "vspec"], N)
prop("P05", "delete removes exactly the marked subtrees",
     "A node marked for deletion, in the base or an overlay, common or for one instance, disappears with its whole subtree from every export, whatever its place in the tree. No other node or attribute changes.",
     ["inputs", "configurations"], "every model, every set of deleted nodes (branches, leaves, common nodes of instances, single instances) and exporter",
     T1 + "deletion is tested on single nodes of one tree.", ["tree", "main", "model"], N)
prop("P06", "Attribute values are accepted exactly if they are consistent",
     "A signal definition is accepted exactly if its default, allowed, min, max, arraysize, unit, constUID, fka and datatype are consistent with each other as documented (range of the datatype, kind of value, array lengths, membership). An accepted definition is exported with those values; a rejected one fails the run.",
     IN, "every combination of attribute values, including boundary, falsy, wrong-kind and array values and struct datatypes",
     T1 + "datatype tests enumerate some values per datatype, not the combination of attributes.", ["model", "dt", "tree"], N)
prop("P07", "Malformed trees are rejected and well-formed ones are not",
     "A model that violates a structural rule (single root, existing parents, children only below branches, mandatory attributes, core attributes only where allowed, properties only in structs) fails the run, wherever in the tree the defect lies. The same model without the defect is accepted.",
     IN, "every well-formed model and every structural defect at any node",
     T1 + "each rule is tested at one place in one small tree, if at all.", ["tree", "model", "vspec", "main"], N)
prop("P08", "strict, aborts and the attribute whitelist decide exactly as documented",
     "With the strictness options a model with a non-conforming name or an unknown, not whitelisted attribute fails the run, and exactly then; without them the export is complete. Unknown attributes are reported in any case, forbidden names if they are the reason to fail.",
     ["inputs", "configurations"], "every model with conforming and deviating names and attributes, times every combination of the options",
     T1 + "a few names and one option at a time are tested.", ["tree", "main", "model", "opts"], N)
prop("P09", "Units and quantities come from the right files and are checked",
     "Units and quantities given by option, or else found next to the vspec, are used together, whatever their number, order and place. A signal is accepted exactly if its unit (key or name) is defined and allows the datatype, and repeated, incomplete or inconsistent definitions fail the run.",
     IN, "every set of unit and quantity files, their locations and options, and every signal using them",
     T1 + "fixed unit files are tested with few signals.", ["units", "main", "model"], N)
prop("P10", "Struct types resolve and merge as documented",
     "A reference to a struct type, by full name or by a shortened name where allowed, with or without array suffix, resolves to exactly the documented struct. Types spread over several files merge like overlays, references that do not resolve fail the run, and the exported types are complete.",
     IN, "every type tree, its split over files, and every reference from signals and structs",
     T1 + "a small set of type trees with distinct names is tested.", ["tree", "main", "model", "dt"], N)
prop("P11", "Invalid input gives a non-zero exit and no output, for every exporter",
     "Whatever is wrong with the input or the options, each exporter ends with a non-zero status, and neither creates an output nor changes an existing one.",
     ["inputs", "configurations", "fault_sequences"], "every kind of defect at any place, times every exporter and its options, with and without existing output",
     T1 + "failing runs are tested for a few exporters and never for what they leave behind.", ["main", "tree", "model", "vspec", "units", "json", "yaml", "csv", "id", "binary", "protobuf", "go", "graphql", "jsonschema", "ddsidl", "franca", "apigear", "samm", "xtree"], N)
prop("P12", "The JSON export is a faithful image of the model",
     "The JSON export contains every node with every attribute and value of the model, and nothing else, under every combination of its options; pretty printing changes only white space. Struct types are embedded or written to their own file, as asked.",
     IN, "every model (texts, numbers, arrays, instances, structs, extended attributes) and every combination of exporter options",
     T1 + "attribute values and option combinations are sampled by fixed files only.", ["json", "tree", "model", "main"], N)
prop("P13", "The YAML export equals the model and can be loaded again",
     "The YAML export contains every node with every attribute and value of the model. Loaded again as a vspec (with its types file) it gives the same model and the same export.",
     IN, "every model and option combination, and every text that needs quoting",
     T1 + "no test loads an export again.", ["yaml", "tree", "model", "vspec", "main"], N)
prop("P14", "The CSV export has one faithful row per node",
     "The CSV export parses as CSV with one row per node in tree order, and each cell holds the attribute of the model, whatever separators, quotes or line breaks the texts contain.",
     IN, "every model and option combination", T1 + "texts with separators, quotes and line breaks are not sampled.", ["csv", "tree", "main"], N)
prop("P15", "Extended attributes are exported exactly as selected",
     "Attributes outside the core model appear in an export exactly if all of them or the particular one was asked for, on every node that carries them, with their original value. Core attributes do not depend on the selection.",
     IN, "every model with extended attributes of any value at any node, times every selection",
     T1 + "one attribute at one node is tested.", ["json", "yaml", "tree", "model", "main"], N)
prop("P16", "UUIDs are the documented name-based UUIDs, in every exporter",
     "With the UUID option every node is exported with the version 5 UUID of its full path in the documented namespace, the same in all exporters, after instances are expanded or not. Without it no UUID appears.",
     IN, "every model and every exporter that offers UUIDs", T1 + "UUIDs are compared for fixed trees only.", ["tree", "main", "json", "yaml", "csv", "binary", "franca", "jsonschema", "ddsidl"], N)
prop("P17", "Static UIDs are the documented hash of exactly the documented attributes",
     "Each static UID is the documented 32 bit hash of the documented attributes of the node, or its pinned value, in every run. Changing anything else leaves it unchanged, and changing a documented attribute of a node changes no other node's UID but those below it as documented.",
     ["inputs", "histories"], "every model, every attribute change, and both case modes", T1 + "a few nodes with stored hashes are tested.", ["id", "idgen", "main"], N)
prop("P18", "Static UIDs of one export are unique or the export aborts",
     "An ID export never contains the same UID twice: whenever two nodes would get the same UID, for whatever reason and in whatever spelling, the run fails and writes nothing. Without a collision it succeeds.",
     IN, "every model, with collisions by pinning, renaming, letter case or true hash collisions at any pair of nodes",
     T1 + "one collision kind is tested.", ["id", "idgen"], N, technique="property-based testing with real hash collisions found by birthday search")
prop("P19", "Validation against an earlier UID file classifies every change",
     "Validating a model against the UID file of an earlier version reports exactly the changes made in between: added, deleted, renamed, moved and semantically changed nodes and changed descriptions, each once and as the documented class. An unchanged model reports nothing.",
     ["histories", "inputs"], "every model and every sequence of changes between two versions", T1 + "each class is tested alone with one fixed change.", ["idval", "id", "idgen", "misc"], N,
     technique="property-based testing over evolution histories")
prop("P20", "The binary export decodes to exactly the model",
     "Decoded by the documented format, the binary file holds exactly the nodes of the model with their texts, datatypes, bounds, enums, UUIDs, access control and child counts. A model that does not fit into the format is rejected.",
     IN, "every model, text lengths and child counts around the limits, and every option", T1 + "the tests only check that a file is written.", ["binary", "main", "tree"], N,
     technique="property-based testing (independent decoder)")
prop("P21", "The C parser answers what the model says and writes back what it read",
     "Given an exported binary file the C library returns for every path, wildcard search, scope and list request exactly the nodes of the model with their attributes, without reading or writing memory it does not own. Writing the tree again reproduces the file, also over an existing longer one.",
     ["inputs", "histories"], "every exported model and every sequence of searches, lists and rewrites", "There are no tests for the parsers at all.", ["cparser", "binary"], N + " Memory errors are found by AddressSanitizer and UBSan on the executed paths.",
     technique="model-based random testing of operation scripts under ASan/UBSan")
prop("P22", "The Go parser answers what the model says and writes back what it read",
     "Given an exported binary file the Go library returns for every path, wildcard search, scope and list request exactly the nodes of the model with their attributes. Writing the tree again reproduces the file, also over an existing longer one.",
     ["inputs", "histories"], "every exported model and every sequence of searches, lists and rewrites", "There are no tests for the parsers at all.", ["goparser", "binary"], N,
     technique="model-based random testing of operation scripts")
prop("P23", "The protobuf export is valid proto3 with one faithful message per branch",
     "The protobuf files parse as proto3 with every type resolved through the imports, and hold one message per branch and struct whose fields mirror name, type and repetition of the children, with unique field numbers that with static UIDs depend on nothing but the UID. Repeating the export gives the same files.",
     IN, "every model, struct namespaces and option combinations", T1 + "nothing checks that the text is proto3.", ["protobuf", "main"], N, technique="property-based testing (independent strict proto3 parser)")
prop("P24", "The Go export type checks and mirrors the tree",
     "The generated Go file type checks, and the struct of the root mirrors the expanded tree field by field, down to leaves and struct properties, with and without shortened names. Instances share a struct only if they are equal.",
     IN, "every model with instance-specific changes, structs and option combinations", T1 + "nothing compiles the generated code.", ["go", "main", "tree"], N, technique="property-based testing (Go type checker as oracle)")
prop("P25", "The GraphQL export is a valid schema that mirrors the tree",
     "The GraphQL export parses and validates as a schema, and walking it from the query reaches exactly the branches and leaves of the expanded model with their types, descriptions, deprecations and requested additional fields. If no valid schema can be generated the run fails without output.",
     IN, "every model (also names equal up to letter case, empty branches, any text) and every set of additional fields", T1 + "one tree is compared, nothing is validated.", ["graphql", "misc", "main"], N,
     technique="property-based testing (GraphQL parser and validator as oracle)")
prop("P26", "The JSON schema accepts exactly the documents the model allows",
     "The exported JSON schema is valid and accepts a document exactly if it conforms to the model: every node at its place, datatypes, limits, enumerations, array elements and struct members, and with the respective options nothing missing and nothing additional. Its annotations carry the attributes of the model.",
     IN, "every model, every option combination, and every conforming or single-defect document", T1 + "no test validates a document against the schema.", ["jsonschema", "main"], N,
     technique="property-based testing with conforming and mutated documents (independent validator)")
prop("P27", "The DDS-IDL export is valid IDL that mirrors the tree and the types",
     "The DDS-IDL export parses as IDL with every name resolved and defined before use, and holds exactly the modules, structs, members, enumerations and struct types of the model with their datatypes, limits and annotations. If the IDL cannot be generated the run fails without output.",
     IN, "every model, also with keywords as names, any texts and struct types in any order and namespace, with and without all IDL features", T1 + "nothing parses the IDL.", ["ddsidl", "main"], N,
     technique="property-based testing (independent strict IDL parser)")
prop("P28", "The Franca export holds one faithful entry per node",
     "The Franca export is a well-formed list with exactly one entry per node of the expanded tree, in tree order, whose fields give the path, type, datatype, unit, limits, enumeration, description and UUID of the node, whatever the texts contain.",
     IN, "every model and option combination", T1 + "texts that need escaping and boundary numbers are not sampled.", ["franca", "main", "tree"], N, technique="property-based testing (independent parser)")
prop("P29", "The ApiGear export is one consistent module holding the whole tree",
     "The ApiGear module holds one interface per branch with exactly its signals, one enumeration per enumerated signal and one struct per struct type, each with the values and datatypes of the model, and defines every type it refers to. The solution names every requested template with its output path, and a failing run leaves no output directory.",
     IN, "every model with deprecations, enumerations and struct types, and every set of template options", T1 + "one tree is compared with stored files.", ["apigear", "main"], N)
prop("P30", "The SAMM export holds valid aspect models mirroring the tree",
     "The Turtle files of the SAMM export parse, and walked from their aspects describe exactly the selected, not deprecated nodes of the model with their instances, datatypes, units, limits, enumerations, defaults and texts, once each, whether split into several aspects or not and named by namespace and version of the model.",
     IN, "every model, namespace, split depth and list of selected paths", "There are no tests for this exporter.", ["samm", "sammh", "main"], N + " Names are words that camel case leaves unchanged.",
     technique="property-based testing (RDF parser and graph walk as oracle)")
prop("P31", "The tree export draws exactly the model",
     "The drawing of the tree has one line per node at its place, followed by exactly the requested attributes the node has with their values, for the model and for the struct types, in a file or in the log.",
     IN, "every model and every list of requested attributes", T1 + "one or two trees with one attribute are compared.", ["xtree", "tree", "main"], N)
prop("P32", "An export depends on nothing but the model and its options",
     "Exporting the same model with the same options gives the same files byte for byte: in every process, directory, locale and time zone, with any log level, over existing output, however the options are given, and whatever the order of attributes, the YAML spelling or redundant overlays it was written with.",
     ["configurations", "histories"], "every model, exporter and option set, and every equivalent way of running it or of writing the model",
     T1 + "no test runs an export twice.", ["main", "vspec", "tree", "json", "yaml", "csv", "id", "binary", "protobuf", "go", "graphql", "jsonschema", "ddsidl", "franca", "apigear", "samm", "xtree"], N,
     technique="property-based testing (metamorphic relations)")
prop("P33", "The log options select what is reported and nothing else",
     "With a log level exactly the messages of that level and above are reported, on the console and in the log file, if there is one, which is written anew. Exit status and output are those of any other level, and a failing run reports a reason while a successful one reports no error.",
     ["inputs", "configurations"], "every model, valid or not, exporter, level and log file", "No test compares log output between levels.", ["cli", "opts", "main"], N,
     technique="property-based testing (metamorphic relation between log levels)")
prop("P34", "Whatever the input files contain, there is one verdict and no half way",
     "For every text of the vspec, overlay, include, types, unit and quantity files the JSON, YAML, CSV, tree, JSON schema and Franca exporters all accept it or all reject it. A rejected input leaves no output, and an accepted one gives the same nodes in every format and the same model again when its YAML export is loaded.",
     ["inputs"], "every content of the input files, also broken YAML, any type of value anywhere, any bytes", "The tests feed a few well-formed files and single defects.", ["main", "vspec", "model", "tree", "units", "json", "yaml", "csv"],
     N + " Numbers that JSON cannot represent (not a number, infinity) and attributes named children are excluded.",
     technique="fuzzing (structure-aware and byte-level mutation, differential and round-trip oracles)")
