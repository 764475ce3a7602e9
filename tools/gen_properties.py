#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
T="src/thing.rs"; B="src/builder.rs"; A="src/builder/affordance.rs"; D="src/builder/data_schema.rs"; H="src/builder/human_readable_info.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("P01","A built Thing survives JSON serialisation and parsing unchanged",
 "Whatever Thing Description the builder accepts, serialising the resulting Thing to JSON (as text or as an in-memory value) and parsing it back yields a Thing equal to the original, with every part (metadata, affordances, forms, links, schemas at any nesting, security schemes, extension data) intact. The serialised text is well-formed JSON in which no object repeats a member name, and serialising the parsed Thing again gives the same JSON. Built data schemas do the same on their own.",
 ["inputs","programs"],"every sequence of builder calls that builds successfully, with finite numbers, with and without extensions, through text, bytes, pretty text and serde_json values",
 "The unit tests compare a few dozen hand-written Things with hand-written JSON, mostly in one direction, and mostly with one optional member set at a time; the space of member combinations, nestings and values is unbounded.",
 [T,B,A,D,"src/hlist.rs"],[("derived and hand-written Serialize/Deserialize impls, flatten and OneOrMany adapters",T),("conversion of builders into Thing parts",D+", "+A)],
 ["serde_json::to_string / to_value / from_str / from_slice / from_value on Thing"])

p("P02","Parsing a conforming Thing Description loses nothing",
 "Every document that follows the Thing Description 1.1 grammar is accepted, and serialising the parsed Thing gives the same document back up to spelling that the specification calls equivalent (a lone value or a one-element array, a member left out or written with its default value). No known member is dropped, renamed, moved or altered, at any place or depth. Members from vocabularies the program has no extension for are ignored and do not change how the rest is read.",
 ["inputs"],"every conforming TD 1.1 document over the vocabulary the library models (JSON numbers in the ranges its types cover), arbitrary extra members included",
 "The tests parse a handful of fixed documents; whether any of the hundred or so members is lost in some position or combination needs many generated documents.",
 [T,"src/protocol/http.rs","src/protocol/coap.rs","src/protocol/mqtt.rs"],[("serde attributes: rename, default, flatten, untagged, OneOrMany",T)],
 ["serde_json::from_str::<Thing> followed by serde_json::to_value"])

p("P03","Everything told to the builder appears in the TD under its standard term",
 "The JSON of a built Thing contains exactly what the builder calls said: every given value appears once, unaltered, under the member name and in the shape the Thing Description 1.1 vocabulary assigns to it, in the place it was given for. Nothing else appears except what the specification or the documentation makes implicit (the TD context, mandatory empty members, default-valued flags).",
 ["inputs","programs"],"every sequence of builder calls that builds successfully, for all parts of the description and any nesting of data schemas",
 "Tests check single builder methods on fixed strings; a value dropped or misplaced only for a certain combination (for example a schema setting made before and another after specialisation) is not sampled.",
 [B,A,D,H,T],[("builder setters and the conversions into final structures",B+", "+A+", "+D),("member names given by serde attributes",T)],
 ["ThingBuilder::build followed by serde_json::to_value"])

p("P04","The builder never produces an invalid Thing Description",
 "If any part of a description breaks a rule the builder enforces (duplicate affordance or security-definition names, missing or disallowed form operations, references to undefined security or schema definitions, impossible or NaN value limits, non-positive multipleOf, object or array URI variables, malformed language tags, icon sizes on a link that is not an icon), building fails, wherever in the description the fault is and whatever else it contains. A fault is never masked by other content or by other faults.",
 ["inputs","programs"],"every description with one or more rule violations, at any position, depth, list index and combination",
 "Each rule is tested at one or two fixed positions with tiny descriptions; a check skipped for the second element, the nested schema or a particular affordance kind goes unnoticed.",
 [B,A,D],[("ThingBuilder::build and the check functions it calls",B),("CheckableInteractionAffordanceBuilder, CheckableDataSchema",A+", "+D)],
 ["Result of ThingBuilder::build"])

p("P05","The builder accepts every valid description and blames only real faults",
 "A description that breaks none of the documented rules always builds. When building fails, the error names a fault that is really present, and its payload (name, operation, context, language tag) identifies the offending item and is quoted by its message.",
 ["inputs","programs"],"every description, valid or not, including values exactly on the limits of each rule",
 "Tests have few positive cases, almost none on rule boundaries (equal limits, mixed inclusive/exclusive limits, shared names across affordance kinds), and check error payloads in one place each.",
 [B,A,D],[("ThingBuilder::build and the check functions it calls",B),("Error",B)],
 ["Result of ThingBuilder::build"])

p("P06","Value limits of data schemas are enforced at every place and depth",
 "A description builds only if every data schema in it, wherever it is used (property, action input and output, the four event schemas, URI variables of the Thing and of affordances, schema definitions) and however deeply nested (array items, tuples, object members, oneOf alternatives), has satisfiable limits: minimum not above maximum, not equal when one of them is exclusive; minItems not above maxItems; minLength not above maxLength; no NaN limit; multipleOf greater than zero. Schemas whose limits are satisfiable are always accepted.",
 ["inputs"],"all numeric limits including extremes, infinities, NaN and signed zeros; all inclusive/exclusive combinations; all schema locations and nesting paths",
 "Tests exercise a few constant limits and shallow nestings; the walk over nested schemas and the limit comparison have to be right for every path and value.",
 [D,B,A,T],[("check_data_schema_subtype, check_one_of_schema, is_empty_range",D),("calls to CheckableDataSchema::check",B)],
 ["Result of ThingBuilder::build"])

p("P07","Forms only carry operations allowed where they are used",
 "A form is accepted in a description exactly when all its operations belong to the place it is used in: property, action and event affordances admit only their own operations and may leave them out, while Thing-level forms must name at least one and only the all/multiple operations. A rejected form reports the offending operation and the context it was found in, and each operation is written, displayed and parsed with its standard lower-case name.",
 ["inputs","configurations"],"all subsets, orders and repetitions of the 18 operations on any form of any affordance kind, any number of forms and affordances",
 "Tests try one wrong operation per context in first position; acceptance of every allowed set and rejection at any list position is not sampled.",
 [B,A,T],[("build_form_from_builder and the is_allowed_op closures",B),("InteractionAffordanceBuilder::check",A),("FormOperation names",T)],
 ["Result of ThingBuilder::build","serde_json of forms","Display of FormOperation"])

p("P08","References to security and schema definitions always resolve",
 "A built description contains no dangling reference: every security name used by a form at any level or combined in a combo scheme is defined, every schema named by an additional response is defined, and every required security scheme is listed by the Thing under its definition's name. An undefined name makes the build fail naming it (for a combo scheme either as an undefined security or as a missing schema definition), a defined one never does, and definitions may be given before or after their use.",
 ["inputs","programs"],"all definition sets, reference lists, positions of the bad reference, and orders of builder calls",
 "Tests use one definition and one reference; later list elements, other affordance kinds, and order of definition and use are not covered.",
 [B,A],[("build_form_from_builder, check_additional_responses, combo check in build",B),("InteractionAffordanceBuilder::check",A),("security() key naming",B)],
 ["Result of ThingBuilder::build","security and securityDefinitions of the built Thing"])

p("P09","Names are unique, URI variables are scalar, icon sizes only on icons",
 "Two affordances of the same kind, or two security definitions, with the same name are never both accepted and never silently replace each other, while the same name may be used for different kinds. URI variables that are objects or arrays are rejected at Thing level and in every affordance. A link carries sizes only when its relation is exactly icon.",
 ["inputs","programs"],"all name sets with a repetition at any distance, all schema kinds as URI variable at any place, all link lists and relation strings",
 "Tests use two adjacent duplicates and one bad URI variable per place.",
 [B,A,D],[("try_build_affordance, security definition map in build",B),("uri_variables_contains_arrays_objects",D),("TryFrom<UncheckedLink> for Link",B)],
 ["Result of ThingBuilder::build"])

p("P10","Language tags are checked and kept everywhere",
 "In every multi-language title or description (Thing, affordances, data schemas at any depth, security definitions) and in every link language, well-formed BCP 47 tags are accepted and kept as written (up to letter case, which BCP 47 holds insignificant) together with their text, and malformed tags are refused: by the builder with an error naming the tag, and by the parser.",
 ["inputs"],"all tags, well-formed (with script, region, variant, extension, private-use subtags) or malformed, in every place that takes one",
 "Tests use one or two tags in one or two places.",
 [B,H,T,D],[("MultiLanguageBuilder::build, TryFrom<UncheckedLink>, TryFrom<UncheckedDataSchema>, TryFrom<UncheckedSecurityScheme>",B),("MultiLanguage map keys",T)],
 ["Result of ThingBuilder::build","serde_json::from_str::<Thing>","built JSON"])

p("P11","Extension data is carried intact at every extension point",
 "Data of user-defined extensions attached to the Thing, interaction, property, action and event affordances, forms, expected responses, and data, array and object schemas appears in the JSON at that very place, is read back into the same extension, and can be reached there after parsing. Several extensions coexist without disturbing each other or the standard members, whatever other builder calls are made before or after attaching them, and parsing a document without an extension's mandatory data as a Thing with that extension fails.",
 ["inputs","programs","configurations"],"all extension values, all extension points, one or several stacked extensions, all interleavings of extension and standard builder calls, all nesting of schemas",
 "Tests attach constant extension values at single points; losing data already set when the builder changes type is only visible for specific call orders.",
 ["src/extend.rs","src/hlist.rs",B,A,D,T],[("Extend/Extendable and ext/ext_with methods that rebuild the builder field by field",B+", "+A+", "+D),("flattened extension members",T)],
 ["JSON of the built Thing","fields `other` of the parsed Thing"])

p("P12","Heterogeneous lists behave like lists",
 "For heterogeneous lists of any length: prepending then splitting the head gives back the element and the list; splitting the last element gives the last element and the others in order; reversing reverses the order and reversing twice is the identity; views by reference and by mutable reference show the same elements in the same order, and writes through a mutable view change exactly that element. A list of any length, the empty one included, serialises to an object with the union of its elements' members and parses back to an equal list; numbers, texts and booleans are not read as lists.",
 ["inputs","programs"],"all lists of lengths 1 to 6 with arbitrary element values, and all sequences of list operations on them",
 "Tests check one list of three or four constants per operation.",
 ["src/hlist.rs"],[("Cons, Nil, HListRef, HListMut, NonEmptyHList","src/hlist.rs")],
 ["public methods of hlist"])

p("P13","Comparisons between value limits are lawful",
 "Comparing two minimum or two maximum limits agrees with which values they admit: limits of the same kind compare as their numbers do, and an exclusive limit at the same number is stricter than the inclusive one. Of mixed kinds, an inclusive minimum is less than an exclusive one whose number is not below its own, an inclusive maximum is greater than an exclusive one whose number is not above its own, and all other mixed pairs are unordered. A NaN limit is never ordered. Comparison is consistent with equality and antisymmetric, transitive where defined, and comparing a minimum with a maximum is the mirror image of comparing the maximum with the minimum: numeric order for the same kind, and for mixed kinds greater when the minimum's number is not below the maximum's, unordered otherwise.",
 ["inputs"],"all pairs and triples of limits over integers and floats of several widths, including extremes, infinities, signed zeros and NaN",
 "Tests list a few constant pairs; the laws quantify over all pairs and triples.",
 [T],[("PartialOrd/PartialEq impls of Minimum and Maximum, is_nan",T)],
 ["partial_cmp, ==, <, <=, >, >= and is_nan on Minimum and Maximum"])

p("P14","Protocol binding members use the binding vocabularies faithfully",
 "HTTP, CoAP and MQTT binding data on forms and expected responses is written with the terms and values of the respective binding vocabulary (htv:, cov:, mqv:), read back to equal data, and absent data is left out; the bindings can be combined on one form without disturbing each other or the standard members. Every vocabulary value is accepted and a value outside the vocabulary (unknown method, block size, packet or quality) or of the wrong type is refused; a binding member that is null is refused or read as absent, never as some value.",
 ["inputs","configurations"],"all values of all binding fields in all combinations, alone or stacked, on forms and responses anywhere in a Thing; arbitrary out-of-vocabulary values",
 "Tests parse one example per protocol.",
 ["src/protocol/http.rs","src/protocol/coap.rs","src/protocol/mqtt.rs"],[("serde attributes of the binding structures","src/protocol")],
 ["serde_json of Form and ExpectedResponse with protocol extensions"])

p("P15","Members left out take the defaults of the specification",
 "Leaving out a member that has a default in the Thing Description specification, or writing that default explicitly, is read as the same Thing: readOnly, writeOnly, safe, idempotent and success are false; security schemes default to in header (query for apikey), qop auth, alg ES256 and format jwt; a missing context is TD 1.1. Optional members without a default are read as absent, never as some value, and a form without op keeps its context-dependent default.",
 ["inputs","configurations"],"every subset of defaulted and optional members left out, in every place of every document",
 "Tests cover a few defaults in one position each.",
 [T,"src/protocol/http.rs","src/protocol/mqtt.rs"],[("serde default attributes and Default impls of the security schemes",T)],
 ["serde_json::from_str::<Thing>, fields of the parsed Thing"])

p("P16","A lone value and a one-element list are read alike",
 "Wherever the specification allows one value or a list (@type, security, scopes, op, profile, link languages, additional responses, combined security names, MQTT filters), a bare value and a one-element list give equal Things, longer lists keep all elements in order with repetitions, and the written form is read back equal. Array items are the exception: one schema and a one-element list of schemas mean different things and stay distinct.",
 ["inputs"],"every choice of spelling for every such member anywhere in a document, all list lengths and contents",
 "Tests cover one spelling of a member each.",
 [T,"src/protocol/mqtt.rs"],[("OneOrMany adapters, BoxedElemOrVec",T)],
 ["serde_json::from_str::<Thing>, serde_json::to_value"])

p("P17","Reading untrusted input never panics and what is accepted is stable",
 "For any bytes or JSON value whatsoever, parsing a Thing (with or without extensions) returns normally, with a Thing or an error, without panicking, aborting or hanging. When it returns a Thing, that Thing can be serialised, the output parses again to an equal Thing, and text and in-memory parsing agree on acceptance and result.",
 ["inputs","fault_sequences"],"all byte strings and JSON values, in particular mutated, truncated, spliced and deeply nested documents",
 "Tests only parse well-formed documents; the input space is unbounded and adversarial.",
 [T,"src/hlist.rs","src/protocol/http.rs","src/protocol/coap.rs","src/protocol/mqtt.rs"],[("Deserialize and Serialize impls",T)],
 ["serde_json::from_slice::<Thing>, from_value, to_string"])

p("P18","Documents that break the TD grammar are refused",
 "A document that lacks a mandatory member (title, security, securityDefinitions, forms of an affordance, href of a form or link, contentType of a response, instance of a version, scheme of a security definition) or gives a member common to its class a value of the wrong JSON type (null stands for an optional member that is absent) or outside its vocabulary (unknown operation or data type, malformed timestamp or language tag) is refused with an error, wherever the fault is. It is never accepted with the faulty member replaced or ignored.",
 ["inputs","fault_sequences"],"every conforming document with one grammar fault injected at any applicable place",
 "Tests have almost no negative parsing cases.",
 [T],[("required fields and field types of the Deserialize impls",T)],
 ["serde_json::from_str::<Thing>"])

p("P19","The result of building does not depend on the order of independent calls",
 "Calling the builder methods in a different order gives an equal Thing, as long as the calls that append to the same list keep their relative order; list-like members keep the order of the calls. Setting a single-valued member again replaces the earlier value and nothing else, and a call made before extending, finishing or specialising a builder counts as much as one made after.",
 ["programs","histories"],"every sequence of builder calls and every order-preserving permutation of it, on the Thing, affordance, form, link, security and data-schema builders",
 "Tests call methods in one fixed order; state lost when a builder changes its type is visible only in specific orders.",
 [B,A,D,H],[("type-state transitions that rebuild builders field by field (ext, finish_extend, href, specialisations, read_only)",B+", "+A+", "+D)],
 ["Thing built by permuted call sequences"])

p("P20","Equality of Things sees every difference",
 "Two Things parsed from documents that differ in any modelled detail are unequal, and two parsed from equivalent documents are equal; equality is reflexive and symmetric and agrees with equality of the serialised JSON (timestamps compare as instants, numbers as numbers). The same holds for the parts of a Thing.",
 ["inputs"],"all pairs of documents at one elementary difference (member added, removed, changed, reordered, at any place), and all pairs of equivalent spellings",
 "Equality impls are written by hand, field by field, and tests only ever compare equal Things.",
 [T],[("hand-written PartialEq impls of Thing and the affordances, derived ones elsewhere",T)],
 ["== on Thing and its parts"])

p("P21","The JSON-LD context is complete and ordered",
 "A built Thing always declares the TD 1.1 context first, written as a plain string when it is the only one and otherwise as a list that also has every other context and namespace map given, in call order, each exactly as given; giving the TD 1.1 context again adds nothing. A parsed context of any JSON-LD shape is kept verbatim and a missing one is the TD 1.1 context.",
 ["inputs","programs"],"all sequences of context and namespace-map calls interleaved with others, all JSON values as @context of a document",
 "Tests have one example of each kind.",
 [B,T],[("context, context_map and the context assembly in build",B),("default_context",T)],
 ["@context of the built or parsed Thing"])

p("P22","Timestamps keep their instant and offset",
 "Creation and modification times given to the builder or found in a document are written as RFC 3339 strings that denote the same instant to the nanosecond with the same UTC offset, each under its own member; a document's RFC 3339 timestamp is read as exactly the instant and offset it denotes, and a string that is not one is refused.",
 ["inputs"],"all representable instants in years 0 to 9999 with sub-second parts and minute-granular offsets, all RFC 3339 spellings, and malformed strings",
 "Tests use one timestamp.",
 [T,B],[("time::serde::rfc3339::option on created and modified",T)],
 ["created and modified of the built and parsed Thing and its JSON"])

p("P23","Conflicts of a description are refused by the compiler, legal uses compile",
 "The types of the builders refuse descriptions that conflict with the TD model: a form or link without or with two targets, a part that leaves out, repeats, swaps or misplaces an extension of the Thing, parts told before a builder finished extending or extensions after it, a data schema that is not finished, has two types, members of another type or fractional or zero bounds for an integer, one both read-only and write-only or a write-only constant, a security definition without a scheme, with two, or with members of another scheme, members of another kind of affordance. Each such program is refused by the compiler, wherever the misuse is, and every sequence of calls the documentation allows compiles.",
 ["programs"],"all programs that chain builder methods on the Thing, affordance, form, link, security and data-schema builders with stacked mandatory extensions, with and without one misuse at any place",
 "A test that must not compile cannot be written as a unit test, and the combinations of states and methods are many.",
 [B,A,D,"src/extend.rs"],[("type-state parameters (Status, Href, ReadOnly/WriteOnly, ToExtend/Extended), trait bounds of the builder methods",B+", "+A+", "+D)],
 ["whether a program that uses the public builder API compiles"])

p("P24","Copies, hashes, defaults and debug texts are faithful",
 "A clone of any part of a description that can be cloned (data schemas, forms, links, security definitions and schemes, affordances, operations, versions, protocol parts, errors), as well as a clone of that clone or one made over another value, is equal to the original and is written as the same JSON. Equal parts that can be hashed have the same hash. The default value of a part is the part with every optional member absent, equal to what its minimal document is parsed into. The debug text of a Thing or of a part mentions every text it holds, and Things that differ have different debug texts.",
 ["inputs"],"all values of every public part that implements the traits, in particular deeply nested schemas and parts that hold several members at once",
 "Tests clone and print fixed values at most, and never compare the copies.",
 [T,"src/protocol/http.rs","src/protocol/coap.rs","src/protocol/mqtt.rs","src/hlist.rs"],[("Clone, Hash, Default and Debug impls of the model, derived and hand-written",T)],
 ["clone, hash, default, {:?} of the public types"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
