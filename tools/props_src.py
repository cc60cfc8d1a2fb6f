"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props_src.py)."""
import json, os, sys

CORE = "databind/src/databind/core/"
JSON = "databind/src/databind/json/"
CONV = JSON + "converters.py"
MODULE = CORE + "converter.py"
SET = CORE + "settings.py"
SCH = CORE + "schema.py"
CTX = CORE + "context.py"
UNI = CORE + "union.py"
MAP = CORE + "mapper.py"
DCX = CORE + "dataclasses.py"
JMOD = JSON + "module.py"
JINIT = JSON + "__init__.py"
JSET = JSON + "settings.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe or [], state=state or [], technique=technique, na=na))


prop("C01", "Payload and value errors surface only as ConversionError",
     "When a built-in JSON converter is asked for a type it supports and the payload (deserialization) or value (serialization) does not fit, the caller gets a ConversionError (NoMatchingConverter included); the content of a payload or value never makes a ValueError, KeyError, IndexError, TypeError, AttributeError, AssertionError, OverflowError or decimal error escape. Exceptions raised by user code (constructors, __post_init__, custom converters, callbacks) are not covered.",
     ["inputs"], "every hint supported by a built-in converter, every payload or value, both directions",
     "Tests feed a handful of malformed payloads; the claim is about every raising operation reachable on every path of every converter.",
     [CONV, MODULE, SET, UNI, SCH], [("try/except -> ConversionError around each fallible call; guards before subscripts", CONV)],
     technique="interprocedural exception-escape analysis (path-sensitive abstract interpretation of the syntax tree)")

prop("C02", "Serialization rejects values that are not of the declared type",
     "Serializing a value as a declared scalar, bytes, decimal, date/time, enum, collection, tuple, mapping, dataclass, NamedTuple, UUID, path or duration type yields output only if the value is an instance of that type (scalars and enums: exactly that type, apart from the lossless int/float pair; for mapping types any mapping); any other value is rejected with a ConversionError and nothing is emitted for it.",
     ["inputs"], "every value of any runtime type against every declared type handled by a built-in converter",
     "Tests check a few mismatches per converter; a path that forgets or weakens the check shows only for the right odd value (bool for int, datetime for date, list for tuple).",
     [CONV], [("isinstance / type(...) guards and the adapter table before producing output", CONV)],
     technique="must-pass-through type guards on every returning path (path-sensitive abstract interpretation)")

prop("C03", "Deserialization accepts only the payload kind the type calls for",
     "Deserializing yields a value only from a payload of the kind the declared type calls for: a string for dates, enums, decimals (strict), UUIDs, paths and bytes; an int for IntEnum; a mapping for dataclasses, TypedDicts, mappings and discriminated unions; a non-string, non-mapping collection for collections and tuples, of exactly the declared length for fixed tuples. A date/time payload that already is an instance of the declared type is passed through; everything else is a ConversionError.",
     ["inputs"], "every payload of any runtime kind against every declared type handled by a built-in converter",
     "Each converter is tested with one or two wrong kinds; strings are collections, bools are ints and mappings are collections, so a weakened guard only misbehaves for unsampled kinds.",
     [CONV], [("isinstance guards on ctx.value dominating every conversion", CONV)],
     technique="must-pass-through payload guards on every returning path (path-sensitive abstract interpretation)")

prop("C04", "Dispatch tries converters in order and aggregates failures faithfully",
     "Converters are consulted in registration order (first=True before existing ones, nested modules expanded in place) and the first one that returns decides the result, whatever that result is. A NotImplementedError means skip, a ConversionError is remembered and the next converter is tried, any other exception propagates at once. If nothing converts, the only remembered ConversionError is re-raised itself, otherwise NoMatchingConverter is raised carrying every remembered error in order.",
     ["configurations", "inputs"], "every sequence of registered converters/modules and every combination of decline, failure, success and foreign exception",
     "Tests register at most a few converters and never combine declines, several failures and foreign exceptions.",
     [MODULE], [("Module.register / get_converters / convert", MODULE)],
     technique="loop-summary and exception-flow analysis of the dispatcher (abstract interpretation to a fixpoint)")

prop("C05", "A converter declines unsupported hints before touching the value",
     "For a type hint outside a built-in converter's supported types the converter always declines with NotImplementedError, without reporting an error, returning a value or converting anything; for a supported hint every path returns an explicit result or raises - a converter never falls off the end and returns an accidental None.",
     ["inputs", "configurations"], "every type hint kind against every built-in converter, both directions, any value",
     "Tests pair each converter with hints it supports; what it does with the other kinds decides whether later converters are ever reached.",
     [CONV, MODULE], [("raise NotImplementedError guards at the top of convert()", CONV)],
     technique="decline-before-effect path rule and implicit-return check (path-sensitive abstract interpretation)")

prop("C06", "Annotated metadata never changes which types are supported",
     "Wrapping a supported type hint in Annotated[...] with any metadata leaves it supported by the same built-in converters: each of them, including literals, plain unions, optionals and classmethod delegation, decides by the wrapped hint rather than by the Annotated shell.",
     ["inputs"], "every supported hint, wrapped in Annotated with arbitrary metadata, both directions",
     "Only a few hint kinds are tested under Annotated, mostly inside dataclass fields.",
     [CONV, MODULE], [("_unwrap_annotated() and equivalents", CONV)],
     technique="sibling agreement: outcome sets for a wrapped and an unwrapped hint compared by abstract interpretation")

prop("C07", "Settings resolve by priority, then by documented proximity",
     "Looking up a setting returns the matching instance with the highest priority; among equal priorities the first in this order wins: Annotated metadata, class decorator, settings added for that type, conditional/provider settings, global settings, then the parent provider. Settings given per call layer over the mapper's settings rather than replacing them, every sub-context sees the same settings as its parent context, and nothing of another setting type is ever returned.",
     ["configurations", "inputs"], "every combination of sources providing a setting and of their priorities, at any depth of the payload",
     "No existing test looks up a setting that is provided by more than one source or with a non-default priority.",
     [SET, CTX, MAP], [("Settings.get_setting, get_highest_setting, get_class_settings", SET), ("Context.spawn", CTX), ("ObjectMapper.convert", MAP)],
     technique="order-of-sources dataflow over the lookup generator (abstract interpretation)")

prop("C08", "Settings and registrations never leak to other classes, mappers or calls",
     "A setting attached to a class applies to that class only, never to its base classes, subclasses or siblings, and one in Annotated metadata to that hint only, not to its parts or other fields; a copied mapper or settings object can be changed without affecting the original; settings passed for one call are neither stored nor altered by it; one setting instance cannot decorate two classes.",
     ["histories", "configurations"], "every sequence of decorating classes in a hierarchy, copying, adding and converting",
     "Leakage needs a second class, mapper or call after the first; tests build a fresh mapper per case and never copy one.",
     [SET, MAP, JINIT], [("ClassDecoratorSetting.__call__, Settings.__init__/copy", SET), ("ObjectMapper.copy", MAP)],
     technique="alias/ownership analysis of mutable containers (abstract interpretation)")

prop("C09", "No payload key is dropped silently when a schema is deserialized",
     "Every key of a mapping payload deserialized into a structured type is consumed by exactly the fields that claim it, or handed to the remainder field, or reported through the ExtraKeys setting that applies to that structure; without such a setting, or with one that disallows, extra keys raise a ConversionError, and a recorder is called with the full set of extra keys when they are allowed.",
     ["inputs", "configurations"], "every payload key set, with plain, aliased, flattened and remainder fields",
     "The extra-key logic is covered by no active test (the schema-converter test is commented out).",
     [CONV, SET], [("SchemaConverter.deserialize_from_schema: used/unused key accounting", CONV), ("ExtraKeys.inform", SET)],
     technique="must-pass-through path rule with provenance of the key set (abstract interpretation)")

prop("C10", "Missing fields take their default or are reported",
     "A field absent from the payload raises a ConversionError naming it if it is required; otherwise the constructor receives its declared default - a fresh result of the default factory each time, if there is one - or, without a default, is not given the field at all. A present field is always taken from the payload, even when its value is falsy or equals the default.",
     ["inputs"], "every presence/absence pattern of fields and every (falsy) value",
     "Tests cover one default; falsy payload values and shared mutable defaults are not sampled.",
     [CONV, SCH], [("_extract_field / get_default", CONV), ("Field.has_default / get_default", SCH)],
     technique="decision-table conformance on all paths (abstract interpretation)")

prop("C11", "Readers and writers agree on field and member aliases",
     "A structured field is written under its first alias and read from the first of its aliases present in the payload, in declared order; the alias setting is looked up the same way for both directions and a field without one uses its own name. An enum member with aliases is written as its first alias and read from any of them, and a member without aliases is written and read by its name.",
     ["inputs", "configurations"], "every alias list, any priority/source of the alias setting, both directions",
     "Round trips through multiple aliases are not tested for fields, and only a single alias for enums.",
     [CONV, SET], [("_get_alias_setting in both directions", CONV), ("EnumConverter", CONV)],
     technique="reader/writer agreement by provenance comparison (abstract interpretation)")

prop("C12", "Serializing a structured value emits every field exactly once",
     "Every schema field of a structured value appears in the serialized mapping under its own key, or merged in if it is flattened or the remainder field; it is left out only when serializing defaults is disabled and the value equals the field's default, or when a non-required TypedDict key is absent. Two fields that would write the same key raise a ConversionError rather than overwriting one another.",
     ["inputs", "configurations"], "every schema and value, any SerializeDefaults setting, flattened and remainder fields",
     "The only test of flattening/default suppression is commented out; collisions are never tested.",
     [CONV], [("SchemaConverter.serialize_from_schema", CONV)],
     technique="per-iteration path rule over the field loop plus guarded-write analysis (abstract interpretation)")

prop("C13", "Discriminated unions read back the layout they write",
     "For each of the nested, flat and keyed styles, the discriminator key, nesting key and member position that serialization writes are the ones deserialization reads; the member name written is the registered id of the value's exact type and the member type used for the body is the one registered under that name. The discriminator is never passed on to the member, and an unknown style, a missing or non-string discriminator, or an unknown member is a ConversionError.",
     ["inputs", "configurations"], "every union definition (custom discriminator and nesting keys included), member and style, both directions",
     "Tests use the default keys with one style per test and never a custom nesting key.",
     [CONV, SET], [("UnionConverter.convert", CONV), ("Union setting", SET)],
     technique="writer/reader key-set agreement per style (abstract interpretation)")

prop("C14", "Plain unions try members in order and take the first success",
     "A plain union (or best-match style) converts with the members in declared order, each given the unmodified value, and returns the first member's success whatever it is, including None or falsy results. Only ConversionErrors move on to the next member; if all fail, one ConversionError carries every member's error.",
     ["inputs", "configurations"], "every member list, value, and success/failure pattern",
     "Tests use a two-member union whose first member matches.",
     [CONV], [("UnionConverter BEST_MATCH branch", CONV)],
     technique="loop-summary and exception-flow analysis (abstract interpretation)")

prop("C15", "Scalar conversion is strict by default and never lossy",
     "In strict mode (the default) and always during serialization, scalars convert only to the same type, from float to int when nothing is lost, from int to float unless it is out of range, and between bytes and base64 text; bools are never taken for ints. Only when deserializing with Strict disabled are strings, numbers and bools converted into each other; a float with a fractional part never becomes an int and the words for false never become True.",
     ["inputs", "configurations"], "every pair of runtime and declared scalar type, every strictness setting, both directions",
     "About 5 of the 5x5x2x2 combinations are tested, none with bools or fractional floats.",
     [CONV], [("PlainDatatypeConverter adapter tables", CONV), ("DecimalConverter strictness", CONV)],
     technique="exhaustive type-level evaluation of the adapter tables (constant propagation + abstract interpretation)")

prop("C16", "Each scalar codec decodes with the inverse of what it encodes with",
     "For bytes, decimals, dates/times, enums, UUIDs, paths and durations the text produced on serialization is made by the counterpart of what deserialization applies: base64 encode/decode, str/Decimal, format/parse of the same resolved DateFormat, name/lookup by name, value/lookup by value, formatter/parser of the same registration; the declared type selects the codec in both directions, and settings such as Precision and DateFormat reach it.",
     ["inputs"], "every value of these types, with and without the relevant settings",
     "Tests check a few literal texts; that both directions resolve the same codec under settings is not tested.",
     [CONV, SET, JMOD], [("paired branches in the scalar converters", CONV)],
     technique="paired-codec agreement by provenance of the returned terms (abstract interpretation)")

prop("C17", "Conversion never modifies its inputs and keeps no state",
     "Converting never changes the payload, the value, the type, the schema defaults or the settings it is given, and leaves no trace in converters, modules, mappers or other shared objects: the result of a conversion never depends on earlier conversions. Only idempotent caches of resolved union members are kept.",
     ["histories", "inputs"], "every payload (nested and shared sub-objects), every sequence of conversions on the same mapper",
     "Tests convert each literal payload once and never look at it again.",
     [CONV, SET, SCH, MODULE, MAP, UNI, CTX], [("copies before mutation (e.g. dict(ctx.value)), result containers created per call", CONV)],
     technique="whole-program effect analysis: every mutation site's receiver must be freshly allocated (abstract interpretation)")

prop("C18", "Errors locate the offending value in the payload",
     "Every sub-value is converted in a context whose parent is the enclosing context and whose key is the field name, mapping key or index it was found under (none for pass-through), with direction and file name inherited; every reported error carries the context it occurred in. Formatting the error lists the path from the root to that context, one entry per level, for keys of any type, and never raises.",
     ["inputs"], "every depth and shape of payload, key types, failing position",
     "One test formats a two-level trace with string keys.",
     [CTX, CONV, MODULE, "databind/src/databind/core/utils.py"], [("Context.spawn, iter_hierarchy_up, format_context_trace", CTX), ("ConversionError", MODULE)],
     technique="provenance rule on every spawn and error-construction site (abstract interpretation)")

prop("C19", "A dataclass schema mirrors the constructor's fields",
     "The schema of a dataclass has exactly its init fields, each with the type, default and default factory of the most derived definition, forward references evaluated in the defining module and type parameters substituted; a field is required unless it has a default or is optional, with the Required setting overriding both, and only fields marked Flattened are flattened.",
     ["programs"], "every dataclass hierarchy (generic, multiple inheritance, non-init fields, overrides)",
     "Tests enumerate a dozen hand-written hierarchies; diamonds and non-init fields are not among them.",
     [SCH], [("convert_dataclass_to_schema, _is_required, _is_flat, get_fields_expanded", SCH)],
     technique="per-field path rule with provenance (abstract interpretation)")

prop("C20", "TypedDict and NamedTuple schemas mirror their declarations",
     "The schema of a TypedDict has every declared key in declaration order; a key is required exactly if the TypedDict requires it and it has neither a declared default nor an optional type, and attributes of dict are never mistaken for defaults. A NamedTuple is converted like a structured type with every field, required unless it has a declared default; TypedDicts are never treated as plain mappings.",
     ["programs"], "every TypedDict (total or not, inherited, any key names) and every NamedTuple with fields",
     "Tests cover three TypedDicts, none inherited or with keys named like dict methods, and one NamedTuple without defaults.",
     [SCH, CONV], [("convert_typed_dict_to_schema", SCH), ("CollectionConverter NamedTuple branch", CONV)],
     technique="per-field path rule with provenance (abstract interpretation)")

prop("C21", "Results do not depend on hash or address order",
     "The order of fields in schemas and serialized mappings, of items in serialized lists, of union members tried and of constructor arguments is a function of declarations and payloads alone; it never comes from iterating a set or depends on object identity (a serialized set keeps the set's own iteration order), so the same program gives the same output in every process.",
     ["programs", "inputs"], "every schema, payload and process (hash seed)",
     "The test run pins PYTHONHASHSEED=0, so no test can observe it.",
     [SCH, CONV, UNI, SET, MODULE], [("dict-ordered iteration throughout", SCH)],
     technique="taint analysis: unordered iteration must not reach ordered results")

prop("C22", "Union member registries are consistent name/type maps",
     "Every union member registry maps ids to types and types to ids consistently: the id found for a type resolves to that type (for types importable under their own name, in import registries), an unknown id or type is always a ValueError, changes to a static registry take effect at once, and deferred members are evaluated through their function. A chain asks its delegates in order, moves on only when one does not know the member, and lists all delegates' ids once each, in order.",
     ["histories", "inputs", "configurations"], "every registry content and sequence of registrations and lookups, every id string",
     "No test touches entry-point, import or chained registries, or alters a static one after use.",
     [UNI, SET], [("StaticUnionMembers, EntrypointUnionMembers, ImportUnionMembers, ChainUnionMembers", UNI), ("Union.register", SET)],
     technique="sibling-implementation contract and exception-escape analysis (abstract interpretation)")

prop("C23", "Containers convert every element with its declared type",
     "Converting a collection, tuple or mapping converts every element, key and value exactly once with its own declared item, key or value type, in order, and none is copied unconverted or dropped; the result is built from exactly those converted items as the JSON container type when serializing and as the declared type (falling back to list/dict only if that type cannot be built from them) when deserializing. A container without a single determinable item type is an error, never treated as Any.",
     ["inputs"], "every container type, length and nesting",
     "Tests use lists and mappings of up to three plain items.",
     [CONV], [("CollectionConverter, MappingConverter", CONV)],
     technique="element-wise dataflow: provenance of container contents (abstract interpretation)")

prop("C24", "Entry points pass every argument through unchanged",
     "load/loads/dump/dumps and ObjectMapper.serialize/deserialize/convert run one conversion with the direction their name says, of the given value, as the given type, with the given file name as location and the given settings, and return its result as is; a settings list layers over the mapper's settings, any other provider is used as given, and without one the mapper's own are used. A mapper from get_object_mapper has the JSON converters and the settings object it was given.",
     ["inputs", "configurations"], "every combination of arguments",
     "Tests use filename nowhere and settings lists rarely.",
     [JINIT, MAP], [("ObjectMapper.convert and the wrappers", MAP), ("databind.json functions", JINIT)],
     technique="argument-provenance analysis through the call chain (abstract interpretation)")

prop("C25", "The JSON module offers every documented converter in a sound order",
     "The JSON module always includes a converter for every documented type; a JsonConverter setting on the hint or class is consulted before any built-in, and where one value type matches several converters the more specific comes first: unions and string-like types before structured types, Path before PurePath.",
     ["configurations"], "every type documented as supported, every combination of overlapping converters",
     "Most tests build their own mapper with one or two converters, so order and completeness of the module are rarely exercised.",
     [JMOD, JSET], [("JsonModule.__init__, JsonConverterSupport.get_converters", JMOD), ("JsonConverter", JSET)],
     technique="abstract evaluation of the registration sequence and ordering constraints")

prop("C26", "The dataclass extension only relaxes default ordering",
     "A class decorated with the extended dataclass accepts fields without default after fields with one, still requires a value for each of them (TypeError if missing, whatever other values are), runs the class's own __post_init__ with its usual arguments exactly once after that check, and treats ClassVar, InitVar and init=False fields as the standard library does.",
     ["programs"], "every class definition and call",
     "There is no test for this module.",
     [DCX], [("_process_class, field", DCX)],
     technique="must-pass-through path rules on the generated hook (abstract interpretation)")

prop("C27", "Date formats: first one formats, any one parses",
     "A DateFormat formats with the first of its formats that applies to the value's kind and parses with the first, in order, that accepts the text; only a ValueError of one format moves on to the next, and when none fits a ValueError is raised, never a wrong or empty result. Each kind (date, time, datetime) uses its own format kind and method; an unknown built-in name is a ValueError.",
     ["inputs", "configurations"], "every list of formats and value",
     "Only the default ISO format is tested.",
     [SET], [("DateFormat.parse / format / __iter_formats", SET)],
     technique="loop-summary, exception-flow and table-consistency analysis (abstract interpretation)")

prop("C28", "Classmethod delegation checks types and calls the named methods",
     "With a converter configured by method names, serializing calls the named method of the declared class on a value verified to be its instance and returns the result unchanged; deserializing calls the named method with a payload verified to be of the configured serialized type, if any. A direction without a method name declines, so other converters apply.",
     ["inputs", "configurations"], "every class, method name combination, payload and direction",
     "Tests use one class with both methods and matching values.",
     [MODULE, JSET], [("DelegateToClassmethodConverter", MODULE), ("JsonConverter.using_classmethods", JSET)],
     technique="decision-table conformance on all paths (abstract interpretation)")

prop("C29", "Serialized output consists of JSON types only",
     "With the default converters, everything serialization emits is built from str, int, float, bool, None, lists and string-keyed results of converted keys: no converter returns the raw Python value of a non-JSON type, a set, tuple, bytes, decimal, date, enum member or lazy iterator. Values declared Any or object and custom converters are exempt.",
     ["inputs"], "every value of every supported type",
     "Tests compare with ==, which cannot tell an IntEnum member from an int, a str subclass from str, or a tuple built lazily.",
     [CONV], [("result construction in each converter", CONV)],
     technique="result-kind inference over all serialization paths (abstract interpretation)")

prop("C30", "Optional accepts None and otherwise defers to the wrapped type",
     "For an optional type None converts to None in both directions, and only None does; every other value, falsy ones included, is converted as the type without None, with that conversion's result or error passed through. Literal types accept exactly the listed values and return them unchanged, and Any/object return any value unchanged.",
     ["inputs"], "every optional, literal or Any hint and every value, both directions",
     "Tests use one truthy value; falsy values (0, '', [], False) are where a shortcut goes wrong.",
     [CONV], [("OptionalConverter, LiteralConverter, AnyConverter", CONV)],
     technique="decision-table conformance on all paths (abstract interpretation)")

prop("C31", "DeserializeAs replaces the type of the hint it is attached to",
     "A structured hint that carries a DeserializeAs setting is converted exactly as the type the setting names: same fields, defaults, extra-key handling, result class and errors. The setting affects nothing else: not other fields or uses of the declared class, not the fields of the named type, and not the containers around the hint.",
     ["inputs", "configurations"], "every declared type, named type, payload and position of the hint",
     "One test with one subclass; which other hints are affected, and what happens for failing payloads, is not sampled.",
     [CONV, SET], [("SchemaConverter._get_schema", CONV), ("DeserializeAs", SET)],
     technique="sibling cross-check of two conversions and non-interference on all paths (abstract interpretation)")

prop("C32", "Settings carry exactly the arguments they are built with",
     "Every setting stores each constructor argument under its own name, with the documented default otherwise, priority included; each parameter of a Precision reaches the decimal context under the same name; abstract settings cannot be built. A boolean setting switched off (Remainder, Flattened, Required, Strict, SerializeDefaults) behaves like the absence of the behaviour, never like its presence.",
     ["configurations"], "every setting class and combination of arguments",
     "Tests build settings with one or two arguments; swapped or dropped parameters and explicit False show only for the combination concerned.",
     [SET, CONV, SCH], [("setting constructors, Precision.to_decimal_context", SET), ("uses of .enabled", CONV)],
     technique="argument-to-attribute flow and decision-table conformance (abstract interpretation)")

prop("C33", "Checking helpers return the value or raise the documented error",
     "check_not_none, check_instance_of and check_subclass_of hand back the very object exactly when the condition holds (falsy objects included) and otherwise raise ValueError or TypeError with the caller's message - a message function is called once, and only then - or with a text naming the expected and the actual type. exception_safe_str hands on what the method returns and turns only its Exceptions into text. ConversionError, NoMatchingConverter and ConversionError.expected carry exactly the origin, context, message and causes they are made from.",
     ["inputs"], "every object, type or tuple of types, and kind of message",
     "Tests do not call the helpers directly; falsy values, tuples of types and lazily built messages are met only in combinations no test reaches.",
     [CORE + "utils.py", MODULE], [("check_not_none, check_instance_of, check_subclass_of, exception_safe_str", CORE + "utils.py"), ("ConversionError.__init__, expected", MODULE)],
     technique="decision-table conformance and argument identity (path-sensitive abstract interpretation)")

# ---- not applicable -------------------------------------------------------------------------------------------------
prop("N01", "Round trip: deserializing what was serialized gives an equal value",
     "For every supported type without lossy settings, deserializing the serialized form of a value yields an equal value, and re-serializing yields the same form.",
     ["inputs"], "every type expression and value", "Tests check some literals.",
     [CONV, SCH], [("pairing of both directions", CONV)],
     na="Equality of runtime values across two conversions (and equality of user types) is not visible in the shape of the code; its structural parts - reader/writer agreement on aliases, union layout, codecs, element-wise conversion - are claimed as C11, C13, C16 and C23.")
prop("N02", "Concurrent conversions on a shared mapper do not interfere",
     "Any number of threads converting with the same mapper get the results they would get alone.",
     ["schedules"], "every interleaving", "Tests are single-threaded.",
     [MODULE, UNI], [("no shared mutable state", MODULE)],
     na="A verdict over interleavings also needs the thread-safety of the lazily filled union caches, entry-point loading, imports and user callbacks; the structural core (conversion writes no shared state outside the named caches) is decided by C17.")
prop("N03", "Conversion terminates and handles deep payloads",
     "Conversion of any finite payload terminates without exhausting the stack.",
     ["inputs"], "every nesting depth and recursive type", "Tests nest three levels.",
     [CONV, MODULE], [("structural recursion on the payload", CONV)],
     na="The recursion is unbounded by design (Python recursion limit) and termination depends on runtime nesting and user-defined recursive unions; no sound static bound exists.")
prop("N04", "Generic parameters are substituted correctly at any depth",
     "Every type variable of a generic dataclass hierarchy is replaced by the argument given at the use site.",
     ["programs"], "every generic hierarchy", "Tests cover a handful.",
     [SCH], [("TypeHint.parameterize / get_parameter_map (typeapi)", SCH)],
     na="The substitution itself is done by the third-party typeapi package at run time on arbitrary user class graphs; only that the schema code requests it for every field is visible here, and that is part of C19.")
prop("N05", "Date, duration and decimal texts follow ISO 8601 and keep all digits",
     "Texts for dates, durations and decimals conform to their formats and lose no precision.",
     ["inputs"], "every value", "A few literals.",
     [SET, CONV], [("nr.date format sets, decimal", SET)],
     na="Formatting and parsing are done by nr.date and decimal on runtime numbers; which codec is called is decided by C16 and C27, the digits are not decidable here.")


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            rec = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "hook_needed": None,
                },
            }
            if p["observe"]:
                rec["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(rec, ensure_ascii=False) + "\n")
    sys.path.insert(0, root)
    try:
        from sa.rules import REGISTRY
        have = set(REGISTRY)
    except Exception:
        have = set()
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in have:
            na.append({"property": p["id"], "reason": "check not built yet"})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"python3 -B -m sa.check {p['id']}",
                "thorough_cmd": f"env VERIF_TIER=thorough python3 -B -m sa.check {p['id']}",
                "technique": "static analysis: " + p["technique"],
                "level": "other",
                "level_note": NOTE,
            })
    man = {"version": 1, "setup_cmd": "python3 -B -m sa.check --self-test" if have else "true", "checks": checks, "not_applicable": na,
           "notes": "All checks parse /repo/databind/src/databind on every run; nothing of it is imported or executed. See DESIGN.md."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


NOTE = ("Decided from the syntax tree of the current source by a fixpoint abstract interpreter that covers all paths of the "
        "anchored functions with repository helpers inlined. Trusted: the interpreter, its models of builtins, typeapi, nr.date and "
        "nr.stream calls, and the rule tables in sa/rules; behaviour inside those libraries and user code is assumed.")

if __name__ == "__main__":
    main()
