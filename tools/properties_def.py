"""The properties, and which runs decide which property.  tools/gen.py writes properties.jsonl and MANIFEST.json from here."""

MODEL = ("atelier_core", "traitq.vc")
SHAPES = MODEL


def P(title, statement, over, quant, why, files, mechanism, **kw):
    d = {"title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    d.update(kw)
    return d


PROPS = {
    "C01": P("Identity grammar and text round trip",
             "A string is accepted as an identifier, a namespace or an absolute shape id exactly when it matches the Smithy grammar for that kind, "
             "and printing any accepted value gives a string that parses back to an equal value with the same namespace, shape name and member name. "
             "Values composed from parts (namespace plus name, shape id plus member) print as, and equal, what parsing the composed text gives.",
             ["inputs"], "every string, and every combination of valid parts",
             "The tests parse about 40 literal strings; the grammar has to hold for every string, including non-ASCII, empty and separator-only ones.",
             ["atelier-core/src/model/identity.rs"],
             [("identifier grammar", "atelier-core/src/model/identity.rs Identifier::is_valid / FromStr"),
              ("namespace grammar", "atelier-core/src/model/identity.rs NamespaceID::is_valid / FromStr"),
              ("shape id grammar", "atelier-core/src/model/identity.rs ShapeID::is_valid / FromStr")]),
    "C02": P("Equality, hashing and ordering of identities agree",
             "Identifiers, namespaces and shape ids compare equal exactly when they differ at most in the ASCII case of their letters; "
             "equal values hash equally and order as equal, and the order is total and antisymmetric with that equality. "
             "So a value put into a hash or tree collection is found again under every spelling that equals it.",
             ["inputs"], "every pair and triple of identities",
             "The tests compare a few literals for equality; none of them hashes or orders two spellings of one id.",
             ["atelier-core/src/model/identity.rs"],
             [("case-insensitive equality, hash and order", "atelier-core/src/model/identity.rs impl PartialEq/Hash/Ord for Identifier, NamespaceID")]),
    "C03": P("Membership and lookup queries tell the truth",
             "Every membership query of a model, a shape, a member container or a trait holder (has/contains/is-empty style, for shapes, metadata, members, "
             "traits, operations, resources, rename entries and identifiers) answers true exactly when the corresponding lookup or enumeration yields such an element. "
             "Lookups return the element most recently stored under that key, and nothing else changes by asking.",
             ["inputs", "histories"], "every model, shape and key, after every sequence of additions and removals",
             "Tests query one or two present keys of one model; several negated answers survived them (fixed here) because no test asks about an absent key.",
             ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs", "atelier-core/src/model/shapes/aggregate.rs",
              "atelier-core/src/model/shapes/service.rs", "atelier-core/src/macros.rs"],
             [("model queries", "atelier-core/src/model/mod.rs impl Model"), ("member containers", "atelier-core/src/macros.rs"),
              ("trait queries", "atelier-core/src/model/shapes/mod.rs trait HasTraits")],
             runs=[MODEL], level="proof"),
    "C04": P("Metadata merge follows the conflict rules",
             "Adding a metadata entry whose key is absent stores it; when the key is present, two arrays concatenate in order, equal values are ignored, and any other pair is "
             "reported as an error that names the key and leaves the stored metadata unchanged. "
             "No other metadata entry is ever touched.",
             ["inputs", "histories"], "every model, key and pair of values, and every sequence of additions",
             "Tests merge one metadata pair per rule; the rule must hold for every pair of value kinds and every existing content.",
             ["atelier-core/src/model/mod.rs", "atelier-core/src/model/values.rs"],
             [("metadata merge", "atelier-core/src/model/mod.rs Model::add_metadata, Model::merge")],
             runs=[MODEL], level="proof"),
    "C05": P("Trait conflict resolution",
             "Applying a trait that is absent stores it with the given value; applying one that is present succeeds exactly when both values are arrays (they concatenate, existing first) "
             "or both values are equal, and otherwise reports a conflict naming the trait and leaves the applied traits as they were. "
             "A member id is never accepted as a trait, and no other trait of the shape or member, and nothing but its traits, changes.",
             ["inputs", "histories"], "every shape or member, trait id, pair of values and sequence of applications",
             "Tests apply a handful of literal traits once; the conflict rules are a case split over two values of seven kinds each.",
             ["atelier-core/src/model/shapes/mod.rs", "atelier-core/src/model/shapes/aggregate.rs", "atelier-core/src/model/values.rs"],
             [("trait application", "atelier-core/src/model/shapes/mod.rs HasTraits::apply_with_value, append_traits"),
              ("conflict rule", "atelier-core/src/model/shapes/mod.rs merge_traits")],
             runs=[SHAPES], level="proof"),
    "C06": P("Shape conflict resolution",
             "Adding a shape whose id is already defined succeeds exactly when both definitions have the same kind, the same members, properties and targets, and compatible traits; "
             "it otherwise reports a conflict, and it never panics. "
             "A definition replaces an unresolved placeholder of the same id and keeps the placeholder's traits; a placeholder never replaces a definition; a member id is refused for a defined shape.",
             ["inputs"], "every pair of shapes of every kind",
             "Tests merge a few structures; a panic on differing member names survived them (fixed here).",
             ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs", "atelier-core/src/model/shapes/aggregate.rs",
              "atelier-core/src/model/shapes/service.rs"],
             [("reconciliation", "atelier-core/src/model/mod.rs Model::add_shape"),
              ("structural equality", "NonTraitEq::equal_without_traits for every shape kind")],
             runs=[MODEL], level="proof"),
    "C07": P("Merging models is complete and independent of order",
             "Merging models that do not conflict yields a model that contains exactly the shapes, members, traits and metadata of its parts, with nothing lost and nothing invented. "
             "Whether a merge succeeds, and its result up to the order of elements within concatenated arrays, does not depend on the order of the parts; models of different versions are refused.",
             ["inputs", "histories"], "every collection of models, split and merged in every order",
             "Tests merge two small models one way round; loss of member traits survived them (fixed here).",
             ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs"],
             [("merge", "atelier-core/src/model/mod.rs Model::merge, add_shape, copy_traits")],
             runs=[MODEL], level="proof"),
    "C08": P("Completeness and the partition of shape names",
             "Every shape name of a model is either defined or unresolved and is listed by exactly one of the two name enumerations; "
             "a model is complete exactly when the unresolved enumeration is empty, and its namespaces are exactly those of its defined names.",
             ["inputs", "histories"], "every model, after every sequence of additions and removals",
             "Tests look at complete models and one unresolved shape.",
             ["atelier-core/src/model/mod.rs"],
             [("name enumerations", "atelier-core/src/model/mod.rs Model::shape_names, unresolved_shape_names, namespaces, is_complete")],
             runs=[MODEL], level="proof"),
}
PLANNED = {
    "C09": P("Building a model keeps everything given to the builder",
             "Building a model from a model builder yields a model with the builder's version, exactly its metadata and exactly the shapes given to it, each with the kind, members, targets, properties, references and traits given, "
             "plus one unresolved placeholder for each shape that is referred to, or named by a trait, by relative name without being known. "
             "Every call records exactly what it is given, and a shorthand what the prelude shape or trait it is named after stands for (numbers up to the largest i64). A definition, member, identifier or rename given again under the same name replaces the earlier one, except that traits applied to a shape by reference or apply, before or after its definition, are kept; a trait "
             "applied more than once is merged by the rule for trait conflicts, and a conflict or an unresolvable name is an error.",
             ["programs", "inputs"], "every program of builder calls",
             "Tests build a few fixed models and look at parts of the result; sets that became lists, repeated traits and traits applied before the definition were lost unnoticed (fixed here).",
             ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/shapes.rs", "atelier-core/src/builder/traits.rs"],
             [("conversion of builders to shapes", "atelier-core/src/builder/mod.rs impl TryFrom<&mut ModelBuilder> for Model, make_shape and what it calls"),
              ("collecting what is given", "atelier-core/src/builder/mod.rs ModelBuilder::insert, apply_to; atelier-core/src/builder/shapes.rs")]),
    "C10": P("Name resolution in a model builder",
             "When a model is built, an absolute name given as the name of a shape, the target of a member, a trait or a reference of a service, operation or resource means itself; the id of a member there is an error. "
             "A relative name means, in this order: the shape of that name that the builder refers to by absolute id without defining it (by uses, reference or apply; if there are several it is an error); the shape of that "
             "name in the builder's namespace, if the builder defines it under its relative or its absolute name; the prelude shape, or for a trait the prelude trait, of that name; else the shape of that name in the "
             "builder's namespace, which the model then lists as unresolved. Names are compared without regard to case, except with those of the prelude, and nothing else affects what a name means.",
             ["inputs", "programs"], "every name, in every place a name can stand, and every program of builder calls",
             "Tests resolve a few literal names without imports or definitions that shadow one another; a shape defined under its absolute name was not found (fixed here).",
             ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/id.rs", "atelier-core/src/prelude.rs"],
             [("resolution", "atelier-core/src/builder/mod.rs ModelBuilder::resolve_shape_name, reference_names"),
              ("names of the prelude", "atelier-core/src/prelude.rs defined_prelude_shapes, defined_prelude_traits")]),
    "C11": P("JSON AST round trip",
             "Writing a model as JSON AST never fails and yields the document that the Smithy JSON AST prescribes: version, metadata, and every shape under its id with its type, traits, members, targets and properties, empty collections left out. "
             "Reading that document back gives an equal model, whose shapes, members, traits and metadata are the same and whose lists keep their order, for every model that JSON can express: its shapes and members are stored "
             "under their own valid ids, every service has a version, its numbers are finite, its values nest less than 100 deep, a structure shape is no member id and no trait is one; a trait without a value is written, and read, as the value `{}`.",
             ["inputs"], "every model: every kind of shape and every combination of its optional parts, traits and metadata of every shape and depth",
             "Tests round-trip two example models and compare texts; most kinds of shape, optional parts and values never occur.",
             ["atelier-json/src/writer.rs", "atelier-json/src/reader.rs", "atelier-json/src/syntax.rs"],
             [("writer", "atelier-json/src/writer.rs model_to_json, JsonWriter"), ("reader", "atelier-json/src/reader.rs JsonReader::model")]),
    "C12": P("The JSON reader accepts exactly the models and never panics",
             "Reading any byte sequence as JSON AST yields a model or an error, never a panic. A JSON document is accepted exactly when it is an object whose `smithy` is \"1\" or \"1.0\" and each of its shapes has a known type, well-formed ids "
             "and names, and everything its type requires in the form the JSON AST prescribes (a target for each member, a version for a service). "
             "The model then holds exactly what the document says: its shapes, members, targets, traits and metadata with the same ids, names, order and values; of ids in one object that differ only in case either may win.",
             ["inputs"], "every byte sequence, every JSON document", "Tests read a few well-formed documents; almost no test reads a malformed one.",
             ["atelier-json/src/reader.rs", "atelier-json/src/syntax.rs"], [("reader", "atelier-json/src/reader.rs JsonReader")]),
    "C13": P("Smithy IDL text means the model it was written from",
             "Writing a model as Smithy IDL and reading the text back gives an equal model.",
             ["inputs"], "every model within one namespace", "Tests parse fixed files.",
             ["atelier-smithy/src/parser/smithy.rs", "atelier-smithy/src/writer.rs"], [("parser", "atelier-smithy/src/parser/smithy.rs"), ("writer", "atelier-smithy/src/writer.rs")]),
    "C14": P("The line-oriented form is the documented lines, in order",
             "The line-oriented form of a model consists of exactly the lines its documentation prescribes, and each as often as it arises: one for each shape, under its type and id, one for each member, target, identifier, rename and service "
             "version under that, and one for each trait without a value and for each leaf of the value of a trait or of metadata, with the indices and keys that lead to it (`()`, `[]`, `{}`, numbers and booleans in their natural form, "
             "strings in double quotes as they are, a service version quoted and escaped). "
             "The lines are in ascending order of their text, so that models with the same content have the same form, however they were built. The writer writes these lines, each ended by a newline, and fails if writing does.",
             ["inputs"], "every model: every kind of shape, every optional part, traits and metadata of every shape and depth, built in any order",
             "Tests compare the form of a few example models; most kinds of shape, parts and values never occur.",
             ["atelier-core/src/io/lines.rs"], [("lines", "atelier-core/src/io/lines.rs make_line_oriented_form, LineOrientedWriter")]),
    "C15": P("The visitor reaches every shape exactly once",
             "Walking a model calls the visitor once for each metadata entry and then, for each shape exactly once, the method for the shape's kind with that shape's own id, traits and body, and never a method of another kind. "
             "When the visitor supplies a member visitor, that call is followed at once by exactly one member call for each member of an aggregate shape (with its name, target and traits) and for each target of a service, operation or "
             "resource (under the name of its property, without traits), in the documented order of the properties; without one there are no member calls. "
             "The first error any of these methods returns ends the walk at once and is the walk's result; otherwise the walk succeeds.",
             ["inputs", "programs"], "every model and every visitor, wherever it fails", "The one test walks one model with a visitor that overrides few methods and never fails.",
             ["atelier-core/src/model/visitor.rs"], [("walk", "atelier-core/src/model/visitor.rs walk_model")]),
    "C16": P("Validators report exactly the defects they name",
             "CorrectTypeReferences reports, at the shape that holds the reference, one error for each reference to a shape of the model that does not fit its place (a service, operation or resource as the type of a "
             "member, identifier, input, output or error; anything but an operation in an operation place; anything but a resource in a resource place), one warning for each reference to a shape that is neither in "
             "the model nor in the prelude namespace, one informational issue for each simple shape without traits, and nothing else. "
             "NoUnresolvedReferences reports one error for each unresolved shape of the model and nothing else.",
             ["inputs"], "every model: every kind of shape, every place a reference can stand, and every target",
             "The tests run the two validators on one or two models; most places a reference can stand in are never exercised.",
             ["atelier-core/src/action/validate/mod.rs", "atelier-core/src/model/shapes/mod.rs", "atelier-core/src/prelude.rs"],
             [("type references", "atelier-core/src/action/validate/mod.rs CorrectTypeReferences::validate, check_type_only, check_operation_only, check_resource_only"),
              ("unresolved shapes", "atelier-core/src/action/validate/mod.rs NoUnresolvedReferences::validate")]),
    "C17": P("Action runners and fail-fast",
             "Running a list of validators or linters over a model runs them in order and returns exactly the issues they report, in that order, and leaves none behind in them. "
             "An action that fails (returns an error) makes the run fail with that error; with fail-fast the run stops after the first action that reports an issue of error level, and its issues are still returned; "
             "without fail-fast, and for informational issues and warnings, every action runs.",
             ["programs", "inputs"], "every list of actions, whatever each reports and wherever it fails, with and without fail-fast",
             "No test uses fail-fast with more than one action, or an action that fails.",
             ["atelier-core/src/action/mod.rs", "atelier-core/src/action/validate/mod.rs", "atelier-core/src/action/lint/mod.rs"],
             [("validation runner", "atelier-core/src/action/validate/mod.rs run_validation_actions"), ("linter runner", "atelier-core/src/action/lint/mod.rs run_linter_actions")]),
    "C18": P("Naming convention linter",
             "One run of the naming linter over a model always succeeds and adds, after the issues it already had, exactly one informational issue, reported by NamingConventions, for each of these and for nothing else: a shape "
             "whose name is not in UpperCamelCase, at the shape, or, if the shape has the trait smithy.api#trait (in any case), whose name is not in lowerCamelCase, at the shape; a trait applied to a shape, or to a member of a "
             "structure or union, whose name is not in lowerCamelCase, at the trait's id; a member of a structure or union whose name is not in lowerCamelCase, at the shape; and the target of such a member, if its shape name is not in "
             "UpperCamelCase, at the target. Each occurrence is reported, a name that breaks the convention twice included, and the message gives the name in its convention. The conventions are heck's: a name is in one if its conversion "
             "leaves it as it is.",
             ["inputs"], "every model, whatever the names, traits and members, and whatever the order of its maps", "Tests lint one model.",
             ["atelier-core/src/action/lint/mod.rs"], [("linter", "atelier-core/src/action/lint/mod.rs NamingConventions")]),
    "C19": P("Shape URNs are a bijection",
             "The URN of a valid shape id NS#NAME or NS#NAME$MEMBER is the IRI `urn:smithy:NS:NAME` or `urn:smithy:NS:NAME/MEMBER`: making it never fails, turning it back gives the id with the same text, and two ids have the same URN "
             "exactly when they have the same text. Conversely an IRI reads as a shape id, and is_shape_iri says it does, exactly when it is the URN of a valid shape id (the scheme in any case); every other IRI, one with an "
             "authority, query or fragment included, is refused with an error.",
             ["inputs"], "every valid shape id and every IRI", "Tests convert six literals; none with a query or fragment, which were dropped silently (fixed here).",
             ["atelier-rdf/src/urn.rs"], [("URN", "atelier-rdf/src/urn.rs shape_to_iri, iri_to_shape, is_shape_iri")]),
    "C21": P("Selector expression text round trip",
             "A selector made of at least one expression, whose lists of values, assertions, arguments, relationship names and context paths are not empty, whose texts are not empty, hold no `\\`, no character below U+0020 and not both "
             "kinds of quote, whose ids name no member and whose numbers are finite, prints as its text: expressions joined by a space, `[key op values i]`, `[@key: a op values && ..]`, `@{path}`, `-[a, b]->`, `<-[a, b]-`, `>`, `<`, `~>`, "
             "`:name(args)`, `$name(selector)`, `${name}`, lists joined by `, `, paths by `|`, a text in double quotes, or in single ones if it holds a double quote. Reading that text, or another spelling of it (white space, the other quotes, "
             "an exponent), gives a selector equal to the first (a float of integral value as the integer). Reading any other string gives an error or a selector that again has such a text, never a panic, and reading writes nothing to stdout. "
             "A comparison made by a named constructor has the operator of that name and the value given; accessors and setters of the parts touch just the part named.",
             ["inputs"], "every selector expression, every spelling of it, every string", "Tests parse some fixed literals and compare none with what was meant; none reads back what was printed.",
             ["atelier-smithy/src/parser/selector.rs", "atelier-smithy/src/selector.pest", "atelier-core/src/model/selector/mod.rs"],
             [("printing", "atelier-core/src/model/selector/mod.rs the Display impls"), ("reading", "atelier-smithy/src/parser/selector.rs parse_selector and the functions it calls"),
              ("constructors", "atelier-core/src/model/selector/mod.rs AttributeComparison, ScopedAttributeAssertion")]),
    "C22": P("Querying by shape type",
             "Evaluating a selector made of shape types over a model whose shapes are stored under their own ids yields the names of exactly those defined shapes of the model whose kind matches every one of "
             "the shape types, each name once. `*` matches every kind, `number` the eight numeric kinds, `simpleType` every simple kind, `collection` lists and sets, `member` no shape, and every other shape "
             "type its own kind alone; the empty selector selects every defined shape. Unresolved shapes are never selected, and the model is only read.",
             ["inputs"], "every model and every sequence of shape types", "No test evaluates a selector at all.",
             ["atelier-query/src/evaluate.rs", "atelier-query/src/projection.rs", "atelier-core/src/model/mod.rs"],
             [("evaluation", "atelier-query/src/evaluate.rs query, query_one, query_by_shape_type, match_by_shape_type"),
              ("initial selection", "atelier-query/src/projection.rs Projection::from")]),
    "C23": P("File types and files of the assembler",
             "The registry finds for an extension, and for a MIME type, whatever the case of its letters, the file type registered last under it (and not removed since), and nothing for any other; membership and the "
             "list of extensions agree with that, and registering or removing one entry changes no other. Given paths, the assembler picks exactly the files whose extension is registered, each path itself or "
             "anything below it when it is a directory, reads each with the file type of its extension, and assembles exactly the shapes of the models read.",
             ["inputs", "histories"], "every history of registrations and removals, every spelling of an extension, every tree of files",
             "Tests look up a few literal extensions and assemble two fixed directories.",
             ["atelier-assembler/src/lib.rs"],
             [("registry", "atelier-assembler/src/lib.rs impl FileTypeRegistry"),
              ("files", "atelier-assembler/src/lib.rs ModelAssembler::expand_file_paths, expand_path, read_model, impl TryFrom<&mut ModelAssembler> for Model")]),
    "C24": P("Selector builders",
             "A selector made with SelectorBuilder holds, in the order of the calls and nothing else, the expression that each call names: a shape type, a neighbour, a reference to or definition of a variable, an attribute, a scoped "
             "attribute or a function, with the name, arguments, path and values that the call was given (the functions of fixed name under that name), and never becomes empty. AttributeBuilder and ScopedAttributeBuilder make an attribute with "
             "the key of the constructor called, the path set last and the segments added to it since, and the comparison given last or, in order, every assertion given, with the operator, values and case rule of the call; "
             "a call about the path leaves the comparisons alone and the reverse. A number stays a number, a truth value is the text `true` or `false`. The named constructors of comparisons and assertions in the model do the same. "
             "Converting a builder, by value or by reference, into an expression, an attribute, another builder or a selector gives what it holds, and by reference leaves it as it was.",
             ["histories", "inputs"], "every sequence of calls, nested to any depth, with any arguments",
             "Tests print some fixed selectors; most of the two hundred calls are made by no test, those of the scoped attribute builder among them.",
             ["atelier-core/src/builder/selector.rs", "atelier-core/src/model/selector/mod.rs"],
             [("builders", "atelier-core/src/builder/selector.rs SelectorBuilder, AttributeBuilder, ScopedAttributeBuilder"),
              ("constructors", "atelier-core/src/model/selector/mod.rs AttributeComparison, ScopedAttributeAssertion")]),
    "C25": P("Collections of a shape behave as sets and maps",
             "Adding, appending or removing members, operations, resources, errors, renames and identifiers changes exactly the named element of the named collection of that shape and nothing else, and where the call returns an element, that is the one replaced or removed.",
             ["inputs", "histories"], "every shape and sequence of changes", "Tests add once and count.",
             ["atelier-core/src/model/shapes/service.rs", "atelier-core/src/model/shapes/aggregate.rs", "atelier-core/src/macros.rs"],
             [("mutators", "atelier-core/src/macros.rs")]),
    "C26": P("Keyword vocabularies round trip",
             "Every simple shape kind, selector shape type, selector comparator, error source and Smithy version prints as its keyword, that keyword reads back as the same value, "
             "distinct values have distinct keywords, and no other string (other case, added or missing characters) reads as any of them.",
             ["inputs"], "every string and every value of each vocabulary", "Tests read a few keywords and no string that is not one.",
             ["atelier-core/src/model/shapes/simple.rs", "atelier-core/src/model/selector/mod.rs", "atelier-core/src/builder/traits.rs", "atelier-core/src/lib.rs"],
             [("simple shape keywords", "atelier-core/src/model/shapes/simple.rs Display/FromStr for Simple"),
              ("selector keywords", "atelier-core/src/model/selector/mod.rs Display/FromStr for ShapeType, Comparator"),
              ("other vocabularies", "Display/FromStr for ErrorSource, Version")]),
    "C27": P("Unwelcome terms linter",
             "One run of the terms linter over a model always succeeds and examines the identifiers of the model: the parts of the namespace, the name and the member name, if any, of the ids of its shapes, of the traits applied to "
             "shapes and to members of structures and unions, and of the targets of such members, and the names of these members. An identifier, compared without case, that the linter has examined before, in this run or an earlier "
             "one of the same linter, is passed over; any other is examined where it is first met, going through shapes, traits and members in the order in which the model yields them. "
             "For each of its words (those of heck's snake case) that is one of blacklist, kill, master, slave and whitelist the run adds one warning, reported by UnwelcomeTerms, at the shape id in which the "
             "identifier stands, which for the name of a member is the id of its shape. It adds nothing else, and keeps the issues it already had.",
             ["inputs", "histories"], "every model and every identifier in it, and every sequence of runs of one linter", "Tests lint one model once.",
             ["atelier-core/src/action/lint/mod.rs", "atelier-core/src/action/lint/terms.rs"],
             [("linter", "atelier-core/src/action/lint/mod.rs UnwelcomeTerms"), ("words", "atelier-core/src/action/lint/terms.rs")]),
}


def claim(prop, **kw):
    PROPS[prop] = PLANNED.pop(prop)
    PROPS[prop].update(kw)


claim("C25", runs=[MODEL], level="proof")
claim("C26", runs=[("atelier_core", "keywords.vc")], level="proof")
PROPS["C01"].update(runs=[("atelier_core", "grammar.vc")], level="proof")
PROPS["C02"].update(runs=[("atelier_core", "ids.vc")], level="proof")
claim("C14", runs=[("atelier_core", "lines.vc")], level="proof",
      bounded=["LineOrientedWriter::write, and the texts std makes of numbers and of a quoted string (uninterpreted functions in lines.vc): the harness, over generated models and writers"])
claim("C15", runs=[("atelier_core", "visitor.vc")], level="proof")
claim("C16", runs=[("atelier_core", "validate.vc")], level="proof")
claim("C17", runs=[("atelier_core", "actions.vc")], level="proof")
claim("C18", runs=[("atelier_core", "naming.vc")], level="proof",
      bounded=["what heck makes of a name (the conventions are uninterpreted functions of the text in naming.vc), and the texts of the messages: the harness, over generated models"])
claim("C27", runs=[("atelier_core", "terms.vc")], level="proof",
      bounded=["what heck makes of an identifier, which words are unwelcome (uninterpreted functions of the text in terms.vc), and the texts of the messages: the harness, over generated models and sequences of runs"])
claim("C22", runs=[("atelier_core", "selectors.vc"), ("atelier_query", "query.vc", ("atelier_core", "selectors.vc"))], level="proof")
claim("C23", runs=[("atelier_assembler", "registry.vc")], level="proof",
      bounded=["reading the picked files with their file type (a call through a function pointer, which Verus has no notion of), merging what was read, the default registry, and adding paths: the harness, "
               "over generated trees of files"])
claim("C10", runs=[("atelier_core", "builder.vc")], level="proof",
      bounded=["the names of the prelude: compared, each in eight spellings, with the list in the harness; the places from which resolution is called (C09): the harness, over generated programs of builder calls"])
claim("C19", runs=[("atelier_core", "grammar.vc"), ("atelier_rdf", "urn.vc", ("atelier_core", "grammar.vc"))], level="proof",
      bounded=["how rdftk_iri splits and compares IRIs (assumed in urn.vc for paths of letters, digits, `_`, `.`, `:` and `/`): the harness, over URNs of generated ids and texts one or two edits away"])
claim("C21", runs=[("atelier_core", "seltext.vc"), ("atelier_smithy", "selparse.vc", ("atelier_core", "seltext.vc"))], level="proof",
      bounded=["what pest makes of a text by selector.pest (selparse.vc assumes that it yields trees of the grammar's shape, and starts from the tree), and how std writes and reads numbers: the harness, over generated selectors in "
               "their own and in other spellings, and damaged texts"])
claim("C24", runs=[("atelier_core", "selbuild.vc")], level="proof",
      bounded=["the conversions of ScopedAttributeBuilder, which refuse a builder without assertions by a panic, the three conversions into a SelectorBuilder (its own `from` hides the trait's, which Verus' macro then calls), and the case of "
               "the letters of the ids held: the harness, over generated programs of calls, against selectors made by the model's own constructors"])
claim("C09", runs=[("atelier_core", "calls.vc"), ("atelier_core", "grammar.vc")], level="proof",
      bounded=["`external_documentation` and `tagged` (a collection made by mapping a slice), and the four `TryFrom` methods that call the contracted bodies: the harness, over generated programs of builder calls, with every shorthand",
               "the text of the names given, whose case the contracts do not see: the harness"])
JSON = [("atelier_core", "json_core.vc"), ("atelier_json", "json.vc", ("atelier_core", "json_core.vc"))]
claim("C11", runs=JSON, level="proof",
      bounded=["the text layer (serde_json's parser and printer, and the calls of JsonReader and JsonWriter that use it), and the text of ids, whose case the contracts do not see: the harness, over generated models written and read back",
               "integers beyond i64, which JSON reads as floats, and the digits of floats (see known-findings.txt): the harness"])
claim("C12", runs=JSON, level="proof",
      bounded=["the text layer (serde_json's parser, and JsonReader's `read`), how deep values nest, and the text of ids, whose case the contracts do not see: the harness, over generated documents, documents with one or two fields "
               "replaced, and damaged texts"])
NA = {"C13": "reading Smithy IDL back from what the IDL writer prints cannot hold on this tree: the reader refuses or changes services without version, quoted keys, escapes, text blocks, numbers with exponents and more (a known defect of the "
             "unfinished IDL support, not small to repair), and both directions run through pest's generated parser and a writer of formatted text that this verifier has no contracts for; the parts of the IDL crate within reach are claimed as C21 and C26"}
for _k, _v in PLANNED.items():
    NA.setdefault(_k, "no contracts written yet")
