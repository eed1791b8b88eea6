#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so statements are reviewable as prose)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=[observe],hook_needed=None)))

p("P01","Conflicts between providers resolve by the documented strategy table",
 "For every sequence of join, adjoin, merge and admerge of providers, every key of the combined configuration holds exactly the value the documented table dictates: dictionaries are unioned and resolved key by key at every depth under the strategy in use, arrays are kept (join), replaced (merge) or concatenated existing-first (adjoin, admerge), and any other pair, including values of different kinds, keeps the existing value (join, adjoin) or takes the incoming one (merge, admerge). No key is lost, invented or altered, whatever the number, order, size and depth of providers, and combining through nested figments or references to providers gives the same result as their data dictates. Values of different profiles never mix during combination.",
 ["histories","inputs"],"all finite sequences of the four combination operations over arbitrary provider data",
 "Doc tests show one short chain per strategy; deep, wide, mixed-kind, mixed-strategy and repeated histories are unbounded.",
 ["src/figment.rs","src/coalesce.rs","src/provider.rs"],[("per-kind conflict resolution","src/coalesce.rs Coalescible for Value / Map"),("provider combination","src/figment.rs Figment::provide")],
 "extracted values, raw per-profile data of the figment")
p("P02","Profiles layer as default, then selected, then global",
 "Extraction yields, for every figment and selected profile, the default profile's data overlaid with the selected profile's data (when it is neither default nor global) overlaid with the global profile's data, later layers replacing conflicting non-dictionary values and dictionaries being unioned, and no value of any other profile is visible. Profile names compare case-insensitively everywhere. The selected profile is the last one selected explicitly or set by a merged or admerged provider that carries one (joined and adjoined providers never change it, unset means default), and the reported profiles are exactly those some successful provider supplied.",
 ["histories","inputs"],"all histories of combine/select operations, all profile names (any case) and all per-profile data",
 "Tests use two or three fixed profiles with a handful of scalar keys; case variants, global/default selection and dict-deep layering over long histories are not covered.",
 ["src/figment.rs","src/profile.rs","src/coalesce.rs"],[("layering","src/figment.rs merged"),("selection","src/figment.rs provide/select"),("case-insensitive names","src/profile.rs")],
 "extracted values, profile(), profiles()")
p("P03","Every value is traceable to the provider and profile that supplied it",
 "Every leaf value and array element obtained from a figment, by whatever route (whole extraction, raw lookup, tagged wrapper, metadata lookup by key), carries a tag resolving to the metadata of exactly the provider whose data the winning value came from, and that tag names the profile (default, global or custom) the value came from. For a dictionary supplied by several providers the tag is that of one of them. This survives every sequence of combination, nesting of figments, cloning, focusing, selecting and re-extraction, and metadata is listed in the order in which providers were added.",
 ["histories","inputs"],"all combination histories, including nested, cloned and focused figments, and all value shapes",
 "Existing tests look up metadata for a few top-level keys after one or two merges; concatenated arrays, nested figments and interleaved profiles are open-ended.",
 ["src/figment.rs","src/value/tag.rs","src/value/value.rs","src/value/magic.rs","src/value/de.rs"],[("tagging of provided values","src/figment.rs provide"),("tag encoding","src/value/tag.rs"),("tag preservation in extraction","src/value/de.rs")],
 "tags, get_metadata/find_metadata/metadata()")
p("P04","Extraction errors name the offending key, its provider and its profile",
 "When extraction into a type fails because of one value, the returned error's path is exactly the full key path (dictionary keys and array indices, from the root of the figment extracted from) of the offending value, its metadata and profile are those of the provider and profile that supplied that value, and its kind states the actual value found. This holds at every depth, through options, sequences, maps, enums, newtypes, tagged and relative-path wrappers, for whole and partial extraction, strict and lossy, and after nesting, cloning and focusing. A missing field is reported as missing, with the field's name, and extraction never fails when every value conforms.",
 ["inputs","histories"],"all configurations with an ill-typed, ill-ranged, unknown or missing value at any position, against all target types",
 "Tests check a few flat error messages; the position, depth, wrapper type and origin of the bad value are unbounded.",
 ["src/error.rs","src/value/de.rs","src/value/magic.rs","src/figment.rs"],[("path prefixing","src/value/de.rs MapDe/SeqDe"),("tag/metadata resolution","src/error.rs retagged/resolved"),("partial extraction path","src/figment.rs extract_inner")],
 "Error fields path, metadata, profile, kind")
p("P05","No provider failure is ever lost or masked",
 "If any provider of a figment fails to produce data, every later extraction, lookup or focus of the figment fails, no matter which providers succeed before or after and however the figment is nested, cloned, focused or re-selected. The returned error contains every failure exactly once, in the order the failing providers were added, each with its provider's metadata, and counting, iterating and displaying it agree. A figment without failing providers never fails in this way, and chaining errors in general preserves every error of both operands.",
 ["fault_sequences","histories"],"all placements of any number of failing providers in a history, and all ways to chain errors",
 "Tests chain at most two or three single errors; longer chains and chains of chains are not exercised.",
 ["src/figment.rs","src/error.rs"],[("error accumulation","src/figment.rs provide"),("chaining and iteration","src/error.rs chain/IntoIter/count/Display")],
 "errors from extraction, error iteration")
p("P06","Serialized values round-trip through a figment",
 "Any serializable value supplied to a figment, whole or under a key path, is extracted back into its own type equal to the original: integers of every width, floats, strings, characters, options, sequences, tuples, maps with string keys, structs, newtypes, units, byte strings and every kind of enum variant, at any nesting. A value whose root is not a dictionary and has no key, or a map with a non-string key, is rejected with an error rather than altered. Converting a value to the dynamic value type and back, without a figment, behaves in the same way.",
 ["inputs","programs"],"all values of all serde data-model shapes (excluding the inherently ambiguous nesting of options/units)",
 "Tests round-trip a few structs; the data model is closed under composition and unbounded.",
 ["src/value/ser.rs","src/value/de.rs","src/providers/serialized.rs"],[("serializer","src/value/ser.rs"),("deserializers","src/value/de.rs"),("keyed provider","src/providers/serialized.rs")],
 "extracted typed values")
p("P07","All ways of addressing a key path agree",
 "For every configuration and dotted key path, looking up the raw value, testing whether it exists, looking it up by reference, looking up its metadata, extracting just that path, and walking the wholly extracted value key by key all agree on whether the path exists and on the value found; an absent path is reported as a missing field naming the path. Supplying a value under a key path makes exactly that value appear at exactly that path, with nothing else added. The empty path denotes the whole value.",
 ["inputs"],"all configurations and all key paths (existing, absent, through non-dictionaries, empty, with odd characters)",
 "Doc tests check four paths on one value.",
 ["src/figment.rs","src/value/value.rs","src/util.rs"],[("lookup","src/value/value.rs find/find_ref"),("nesting","src/util.rs nest"),("partial extraction","src/figment.rs")],
 "find_value, find_ref, contains, find_metadata, extract_inner, extract")
p("P08","A focused figment is exactly the sub-configuration at its key",
 "Focusing a figment on a key path yields a figment in which looking up any sub-path gives the same value, metadata and profile as looking up the key path extended by that sub-path in the original, for every selected profile, and which holds exactly the profiles in which the key path is a dictionary, even an empty one. Focusing repeatedly equals focusing once on the joined path, keeps the selected profile, leaves the original untouched, and a focused figment can be combined further or used as a provider like any other.",
 ["inputs","histories"],"all figments (in which no profile masks a dictionary at or above the key with a non-dictionary), key paths and sub-paths",
 "The doc test focuses one single-profile figment.",
 ["src/figment.rs"],[("focus","src/figment.rs focus")],"find_value on focused and original figments")
p("P09","Environment values parse exactly as documented, else stay verbatim",
 "Every environment value (and string parsed as a configuration value) is interpreted by the documented grammar: booleans, unsigned and negative integers, floats containing a dot, double-quoted strings and keys with the documented escapes, single-quoted characters, bracketed arrays and braced dictionaries, with surrounding whitespace ignored and nesting allowed. Anything else, including malformed or unterminated structures and strings with invalid escapes, is the whole text as a string, trimmed but otherwise exactly as written. Rendering any value in this syntax and parsing it gives the value back, and no input whatsoever makes parsing fail, panic or lose text.",
 ["inputs"],"all strings, in particular non-ASCII, deeply nested, malformed and very long ones",
 "About fifty fixed ASCII strings are tested.",
 ["src/value/parse.rs","src/value/escape.rs","src/providers/env.rs"],[("parser","src/value/parse.rs"),("unescaping","src/value/escape.rs")],
 "parsed values, values extracted from environment providers")
p("P10","Environment keys are selected and mapped exactly as configured",
 "An environment provider yields exactly the variables that pass its whole chain of prefix, filter, only, ignore, map, filter-map and split adapters applied in order, all key comparisons being case-insensitive, with whitespace around names trimmed, names with empty dotted components dropped and names lowercased unless disabled. The lowercase and profile settings apply wherever in the chain they are given, and building the provider never reads or changes the environment. Each variable's value appears under the dotted path its mapped name denotes, in the configured profile, and iteration, emitted data and single-variable lookup agree: emitted data is the iterated pairs put together in the order of iteration, a later one prevailing where two conflict.",
 ["inputs","configurations"],"all environments and all compositions of adapters in any order",
 "Tests use one adapter at a time on two or three variables.",
 ["src/providers/env.rs","src/profile.rs","src/util.rs"],[("adapter chain","src/providers/env.rs"),("nesting","src/util.rs nest")],
 "iteration and data of the environment provider, extracted values")
p("P11","TOML, JSON and YAML sources mean what the formats say",
 "Any document in a supported format yields exactly the data it denotes, whatever its style, nesting, size, escapes and whitespace, so the same data written as TOML, JSON or YAML, from a string or a file, gives the same configuration, and extended YAML additionally resolves merge keys with explicit keys winning. Without nesting all of it goes to the one configured profile, with nesting each top-level dictionary goes to the profile of that name, and setting a profile undoes nesting. A malformed document, or one whose root (or nested top level) is not a dictionary, makes the provider fail with the parser's message and contributes nothing.",
 ["inputs","configurations"],"all documents in each format and all nested/profile settings",
 "Tests parse a few small documents per format.",
 ["src/providers/data.rs","src/value/de.rs"],[("format providers","src/providers/data.rs Format/Data"),("value construction","src/value/de.rs ValueVisitor")],
 "extracted values and errors")
p("P12","File sources resolve to the documented path and report it",
 "A relative file source with searching enabled reads the file found at the nearest directory from the current directory upward, a source with searching disabled or an absolute path reads only that exact path, and directories never match. If none exists the source contributes nothing unless it is required, in which case extraction fails naming the file. The metadata's source is the path of the file actually read, or the configured path if none was, and the options can be given in any order.",
 ["configurations","inputs"],"all directory layouts, current directories, configured paths and option combinations",
 "Tests cover one parent search and one required file.",
 ["src/providers/data.rs"],[("resolution","src/providers/data.rs resolve"),("required handling","src/providers/data.rs data")],
 "extracted values, metadata source, errors")
p("P13","Sources are read once when added; reading a figment changes nothing",
 "A provider's data is captured when it is added to a figment: later changes to files, environment, current directory or the provider's own state never affect that figment or its clones, and each provider is asked for its data exactly once. Extracting, looking up, focusing, cloning or inspecting never changes a figment, so any sequence of read operations gives the same results as each on its own. Combining or selecting on a clone never affects the original.",
 ["histories","schedules"],"all interleavings of source mutation, combination, cloning and reading",
 "Tests build, extract once and finish.",
 ["src/figment.rs","src/provider.rs"],[("eager reads","src/figment.rs provide"),("immutability of reads","src/figment.rs")],
 "results of repeated reads, provider call counts")
p("P14","Lossy extraction adds exactly the documented conversions",
 "Whenever strict extraction of a configuration succeeds, lossy extraction succeeds with the same result. Beyond that it additionally accepts, for booleans, the case-insensitive strings true/yes/1/on and false/no/0/off and the integers 1 and 0, and for numbers, strings holding an integer or a decimal number with the exact same numeric value, at every depth, and nothing else: any other mismatch fails just as in strict extraction, and no other kind of target is affected. Whole and partial extraction agree on this.",
 ["inputs"],"all values and targets at all positions",
 "Doc tests check about a dozen strings at top level.",
 ["src/value/value.rs","src/value/de.rs","src/figment.rs"],[("lossy interpretation","src/value/value.rs to_bool_lossy/to_num_lossy"),("interpreter dispatch","src/value/de.rs")],
 "results of strict and lossy extraction")
p("P15","Numbers are never silently changed",
 "Extracting a number of any width and signedness into a numeric target of any width and signedness, strictly or lossily, either yields the mathematically same integer (or the nearest representable float when the target is a float) or fails; it never wraps, truncates, saturates or changes sign, and succeeds whenever the value fits an integer target and either the source is at most 64 bits wide or the target is 128 bits wide. Conversions and comparisons on dynamic numbers obey the same rule: they answer only for variants they document and always with the same mathematical value.",
 ["inputs"],"all pairs of numeric source and target types and all values, boundaries in particular",
 "Tests convert a handful of small numbers.",
 ["src/value/value.rs","src/value/de.rs","src/value/ser.rs","src/value/parse.rs"],[("number deserializer","src/value/de.rs Num"),("conversions","src/value/value.rs Num")],
 "extracted numbers, conversion results")
p("P16","Relative paths resolve against the file that declared them",
 "A relative-path value extracted from a figment resolves to its text joined onto the directory of the file that declared it (or onto the declaring source itself if that is a directory), to itself if it is absolute, and to itself unresolved if it did not come from a file; the original text and the declaring file are always available unchanged. This holds per value when several files in different directories contribute, wherever in the configuration the path sits, and it survives being wrapped in options, sequences and tagged values and being serialized into another figment and extracted again.",
 ["inputs","histories"],"all sets of contributing files and other sources, all positions of path values, and re-serialization chains",
 "Tests resolve a few paths from one or two files.",
 ["src/value/magic.rs","src/value/de.rs"],[("magic deserialization","src/value/magic.rs RelativePathBuf"),("metadata lookup","src/figment.rs get_metadata")],
 "relative(), original(), metadata_path()")
p("P17","Tagged and either wrappers are transparent",
 "Extracting any type through a tagged wrapper yields the same value, or fails in the same cases, as extracting it directly, plus the tag of the value extracted, at every position and nesting; serializing a tagged value into a figment and extracting it again preserves value and tag. An either wrapper yields its left alternative exactly when that alternative can be extracted, otherwise its right one with the same value as direct extraction, and fails only when both do.",
 ["inputs","histories"],"all values, wrapped types and positions, and re-serialization chains",
 "Tests wrap a few strings and integers.",
 ["src/value/magic.rs","src/value/de.rs"],[("magic deserialization","src/value/magic.rs Tagged/Either")],
 "wrapped and direct extraction results")
p("P18","Jails isolate and restore environment, directory and files",
 "After a jail ends, whether its closure returns, errs or panics, every environment variable the closure set or cleared through the jail has its previous value or absence back, the current directory is the previous one and the jail's directory is gone; its result or panic reaches the caller. Jails never overlap in time, each starts in its own empty directory, and inside one all relative configuration lookups see what was created. The jail's file operations create exactly the requested content under the jail's directory, never anywhere else, and reject paths outside it.",
 ["histories","schedules","fault_sequences"],"all sequences of jail operations, endings and concurrently started jails",
 "Tests mostly run one jail per test and never check restoration after errors, panics or repeated operations, nor concurrent jails.",
 ["src/jail.rs"],[("restoration on drop","src/jail.rs Drop"),("global lock","src/jail.rs LOCK"),("path confinement","src/jail.rs dedot/safe_jailed_path")],
 "process environment, current directory, file system",[("saved environment","original value per touched variable","src/jail.rs saved_env_vars")])
p("P19","Figments are safe and deterministic under concurrency",
 "Figments built concurrently on any number of threads and then combined resolve every value to its own provider's metadata: no two added providers ever share an identity. A figment read from many threads at once gives every reader the result a single reader gets, and there are no data races in any of it.",
 ["schedules"],"all interleavings of concurrent building, combining, cloning and reading",
 "No existing test uses threads.",
 ["src/value/tag.rs","src/figment.rs"],[("identity counter","src/value/tag.rs Tag::next"),("shared immutable reads","src/figment.rs")],
 "metadata of values from concurrently built figments, results of concurrent reads, race detector reports")
p("P20","Computed relative paths lead from the base to the path",
 "For all paths and bases, the computed relative path, followed lexically from the base, leads to the path, and it is the identity-free shortest form for bases without parent components; nothing is returned when one is absolute and the other is not or when the base's parent components make it impossible. A file source is displayed as a path that leads from the current directory to that file, never longer (in components) than its full path.",
 ["inputs"],"all pairs of path and base, all current directories and source paths",
 "Doc tests check a dozen pairs.",
 ["src/util.rs","src/metadata.rs"],[("relative paths","src/util.rs diff_paths"),("source display","src/metadata.rs Source Display")],
 "returned paths, displayed sources")
p("P21","No undefined behaviour or memory error is reachable",
 "No sequence of safe calls to the library (parsing, combining, extracting, formatting, jailing, from one or several threads) causes undefined behaviour, an out-of-bounds or use-after-free access, a data race or a leak of the memory of dropped figments.",
 ["inputs","schedules"],"all workloads of the other properties",
 "The test suite runs without any sanitizer or interpreter.",
 ["src/lib.rs","src/value/value.rs","src/value/escape.rs","src/value/parse.rs","src/figment.rs","src/jail.rs"],[("safe Rust throughout","src/lib.rs")],
 "Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer reports")
p("P22","Deserialization helpers accept exactly what they document",
 "The flexible boolean helper accepts booleans, the case-insensitive strings true and false and the integers 1 and 0 of any width, yields the boolean they denote, and rejects every other value. The tuple-map helper reads any map into pairs holding exactly its entries and writes pairs back to an equal map, for every key and value type an ordinary map may have, and both report errors at the right key.",
 ["inputs"],"all values and maps",
 "Doc tests check eight booleans and one map.",
 ["src/util.rs"],[("bool helper","src/util.rs bool_from_str_or_int"),("pairs helper","src/util.rs vec_tuple_map")],
 "extracted values and errors")
p("P23","Metadata and error text identify the source precisely",
 "The metadata of an added provider has the name and source its provider documents (format and file or string, environment with its uppercased prefix, serialized type with its code location, custom as given) and the code location of the exact call that added it. Interpolating a key path gives the documented native key: profile and dotted path by default, uppercased dotted path for the environment, and the custom function's result otherwise. A displayed error contains, for each of its errors, the kind's text, the interpolated native key and the source and name of its provider.",
 ["inputs","configurations"],"all providers, call sites, profiles, key paths and errors",
 "Tests compare a few complete messages.",
 ["src/metadata.rs","src/error.rs","src/figment.rs","src/providers/env.rs","src/providers/data.rs","src/providers/serialized.rs"],[("metadata construction","src/providers/*.rs metadata()"),("location tracking","src/figment.rs provide"),("error display","src/error.rs Display")],
 "metadata fields, interpolation results, displayed errors")
p("P24","No input crashes or hangs the library",
 "For arbitrary bytes as documents, environment names and values, key paths, profile names and file names, and arbitrary values against arbitrary target types, every library operation returns a result or an error in time bounded by a small polynomial in the input size; none panics, aborts, overflows the stack or hangs.",
 ["inputs"],"all inputs of all public entry points; nesting up to what the format parsers themselves accept",
 "Tests feed only well-formed or mildly malformed fixed inputs.",
 ["src/value/parse.rs","src/value/escape.rs","src/value/de.rs","src/providers/data.rs","src/providers/env.rs","src/util.rs","src/error.rs"],[("infallible parsing","src/value/parse.rs"),("error propagation","src/value/de.rs")],
 "process outcome under coverage-diverse fuzzing")
p("P25","Profile names are one case-insensitive name everywhere, spelled as given",
 "A profile name is compared, ordered, hashed, looked up as a map key, matched by prefix and selected without regard to ASCII case, in every form of comparison the library offers (profile with profile, string, borrowed string, uncased string, either way round) and through every provider, while the spelling it was created with is what is displayed, converted to a string, serialized and reported by the figment. Exactly the names default and global, in any case, are the built-in profiles; every other name is custom. A profile read from an environment variable has that variable's value verbatim, the variable being found in any case, or else the documented default. Collecting data under a profile yields exactly that profile with exactly that data, and only strings deserialize into profiles.",
 ["inputs","configurations"],"all profile names and pairs of names, in all spellings, all comparison forms, and all environments",
 "Doc tests compare a handful of ASCII names with string literals.",
 ["src/profile.rs","src/figment.rs","src/providers/env.rs","src/providers/data.rs","src/providers/serialized.rs"],[("profile identity","src/profile.rs Profile, uncased comparison"),("built-in profiles","src/profile.rs is_custom, Profile::Default/Global"),("environment lookup","src/profile.rs from_env, from_env_or")],
 "comparisons, hashes, map lookups, displays, serializations, selected profiles")
p("P26","A dynamic value is exactly what it was made from",
 "Every conversion into a value (booleans, characters, strings, every integer and float width, arrays, vectors, slices, maps with any string-like key) and every serialization into one yields a value of the corresponding kind, width and signedness that holds exactly the source's data under the default tag. Each accessor and consuming conversion answers exactly for values of its own kind and returns that data unchanged, numeric accessors exactly for the unsigned, signed or floating widths they document, and the reported actual kind is the value's. Equality ignores tags and integer or float width but never confuses kinds, signedness or contents, at every depth; cloning keeps data and tags. Serializing a value with any serializer shows the same data.",
 ["inputs"],"all values, all source types, all accessors",
 "Tests convert a few literals and check one accessor each.",
 ["src/value/value.rs","src/value/ser.rs"],[("conversions","src/value/value.rs impl From"),("accessors","src/value/value.rs as_/to_/into_"),("serialization","src/value/ser.rs, impl Serialize for Value")],
 "converted values, accessor results, serialized documents")
p("P27","Errors raised by types, providers or by hand keep every detail",
 "An error made by hand, from text, from a failing type's own Deserialize implementation at any depth, or returned by a provider reaches the caller with its kind and that kind's details (message, actual and expected values, names and lists of alternatives) unchanged, with the path extended by exactly the components the extraction went through and the metadata and profile of the value at fault where there is one. Chained errors keep every error exactly once, in documented order, whatever the nesting of the chains; counting, iterating and is-missing agree with that list, and the displayed text contains every detail of every error.",
 ["inputs","fault_sequences"],"all error kinds, details, depths of failing types and shapes of error chains",
 "Tests cover the built-in kinds at one depth and never chain errors by hand.",
 ["src/error.rs","src/value/de.rs","src/figment.rs"],[("error construction","src/error.rs impl de::Error / From"),("chaining","src/error.rs chain, IntoIter"),("path tracking","src/error.rs with_path, resolved")],
 "error kinds, paths, metadata, profiles, iteration and display")
p("P28","Types read from a figment exactly as serde defines them",
 "Whatever a type's serde implementation asks for, and by whatever attributes (renames, aliases, defaults, skipped, flattened and unknown fields, transparent, converted and self-describing types; externally, internally, adjacently and untagged enums; options, tuples, maps, sets, newtypes and standard library types), it receives from a figment or a value what any self-describing data source holding the same data gives it: the same value, or a failure where that fails, of the same kind and naming the same field, variant or expectation. Whole, partial, focused and by-value reading agree, and no data is ever substituted, coerced, reordered or skipped.",
 ["inputs"],"all types and all data, conforming or not",
 "Tests derive about twenty types and read one conforming document into each.",
 ["src/value/de.rs","src/value/magic.rs","src/figment.rs","src/error.rs"],[("deserializers","src/value/de.rs ConfiguredValueDe, MapDe, SeqDe"),("enum access","src/value/de.rs deserialize_enum"),("errors","src/error.rs impl de::Error")],
 "extracted values and errors next to serde_json's for the same data")
p("P29","Convenience forms equal their documented expansions",
 "Every shorthand is indistinguishable from what it is documented to stand for, in emitted data, selected profile, provenance, errors and native keys, whatever is done next: serialized defaults, globals and keyed forms, pairs as providers, exact, required and searched files, nested and profile settings, environment prefix, only, ignore, map, split and global adapters, references and clones of providers, and building a figment from a provider. Likewise what one reading operation says follows from another: containment, lookup, metadata lookup, partial extraction, focusing and searching the extracted whole agree, joining is merging the other way round, and adding the same figment again or an empty one changes nothing.",
 ["inputs","histories","configurations"],"all figments, providers and data to which two equivalent forms apply",
 "Tests use each shorthand once and do not compare it with its expansion.",
 ["src/figment.rs","src/providers/serialized.rs","src/providers/data.rs","src/providers/env.rs","src/provider.rs","src/profile.rs"],[("serialized forms","src/providers/serialized.rs"),("environment adapters","src/providers/env.rs"),("file forms","src/providers/data.rs"),("reading operations","src/figment.rs")],
 "everything observable of figments built by both forms")
p("P30","User code called by the library may use the library, and may panic",
 "All user code that the library calls — provider methods, destructors and clones, environment filters and mappers, serializers, deserializers and visitors, interpolaters, formats, consumers of its iterators — may itself build, combine, read, display and drop figments, values and errors, nested to any depth, without blocking, panicking or changing either's outcome. A panic in such code propagates to the caller and leaves every existing figment, and the library on every thread, as usable as before.",
 ["inputs","histories","call nestings","panics"],"all user code reached from library operations, whatever it does with the library or however it ends",
 "Test providers, filters and types return constants; none uses figment again or panics.",
 ["src/figment.rs","src/providers/env.rs","src/providers/data.rs","src/value/de.rs","src/value/ser.rs","src/metadata.rs","src/error.rs"],[("providers","src/figment.rs provide"),("closures","src/providers/env.rs iter, src/util.rs cloneable_fn_trait"),("visitors","src/value/de.rs"),("interpolaters","src/metadata.rs interpolate")],
 "outcomes of outer and nested operations, panics, and operations that do not return")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
