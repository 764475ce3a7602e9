#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N="Random exploration with a fixed amount of work per seed; it finds violations, it does not prove their absence. "
T={
"P01":("stateful generation of builder call sequences; round trip through text, value and bytes",
  "Trusts serde_json (with float_roundtrip) and the harness's strict JSON reader; non-finite limits and deep nesting past the reader's limit are outside."),
"P02":("grammar-based document generation; parse and serialise round trip against the canonical document",
  "The document grammar is the harness's own reading of TD 1.1 for the members wot-td models; two known findings are excluded by exact member."),
"P03":("stateful generation of builder call sequences; reference model renders the expected document",
  "The reference model renders independently of wot-td; one known finding is normalised by exact member name."),
"P04":("fault injection into generated descriptions at every place; every faulty description must be refused",
  "The kinds of fault are those of the builder's error type."),
"P05":("generated valid, boundary and faulty descriptions; independent validator as oracle for acceptance and for the error and its payload",
  "The validator states the documented rules independently of wot-td."),
"P06":("generated limits at and around the boundaries in every place and nesting, plus enumeration of small pools; independent predicate as oracle",
  "multipleOf = +inf and string limits on the root schema of a property (not settable) are outside."),
"P07":("enumeration of every operation in every context and position, generated operation lists; context table as oracle",
  "The table of operations per context is that of the specification."),
"P08":("generated definition and reference graphs with and without dangling references; resolver over the model as oracle",
  "An undefined name in a combo may be reported as either kind of undefined name."),
"P09":("generated name collisions, near-collisions, composite URI variables and link relations; validator and key-set comparison as oracle",
  "URI variables which are composite only inside oneOf are left open."),
"P10":("grammar-based generation of well-formed and malformed language tags in every place, through builder and parser",
  "Well-formedness by a grammar of RFC 5646 in the harness, where it agrees with the tag library."),
"P11":("stateful generation with four extension sets at ten extension points; model comparison and typed access after parsing; removal of mandatory members",
  "Extension types are the harness's."),
"P12":("generated lists and operation histories against a plain vector model; serialisation against the union of members",
  "Lengths one to eight (histories up to five), mixed and equal element types."),
"P13":("enumeration of pairs and triples over pools of extremes, random and adjacent numbers; reference order and algebraic laws",
  "Number types i64, u64, u8, i8, f64, f32, char."),
"P14":("grammar-based generation of binding data, round trip and typed comparison; enumeration and random choice of values outside the vocabulary",
  "Vocabulary as documented by the protocol modules."),
"P15":("metamorphic: random subsets of defaulted members left out or written out must parse equal; field-level comparison",
  "Defaults table of TD 1.1."),
"P16":("metamorphic: random respelling of one-element lists must parse equal; list order and repetition comparison",
  "None beyond the table of such members."),
"P17":("mutation-based fuzzing of bytes, text and JSON values with a stability oracle (serialise, re-parse, compare; text and value agree) in a watched worker process",
  "A crash or abort of the worker counts as a violation and is attributed to its case; so does a case that uses 40 s of processor time alone (typical cases take under a millisecond)."),
"P18":("single and multiple grammar faults injected into generated documents, and enumerated over every member of a document with every part; refusal as oracle",
  "Members particular to one security scheme, and sequences in place of objects, are outside."),
"P19":("metamorphic: order-preserving random permutations of builder calls with overwritten decoy calls must build equal Things",
  "Calls that append to one list keep their order."),
"P20":("metamorphic: pairs of generated documents one elementary difference apart must be unequal, equivalent respellings equal",
  "Differences are of modelled members."),
"P21":("generated context call sequences and @context documents; reference assembly of the context",
  "None."),
"P22":("generated instants, offsets and RFC 3339 spellings; independent calendar arithmetic as oracle; malformed strings refused",
  "Leap seconds, offsets with seconds and years outside 0-9999 are outside."),
"P23":("generated programs of builder calls, valid or with one misuse, given to the compiler; a type-state model tells which compile",
  "The deciding oracle is rustc's type check of each generated program; only misuse that the documentation or the TD model excludes is expected to fail."),
"P24":("generated parts of descriptions; clones compared with originals, hashes of equal parts with each other, defaults with parsed minimal documents, debug texts with the texts held",
  "A debug text is only asked to mention the texts held, in any form of presentation."),
}
checks=[]
for k in sorted(T):
    t,n=T[k]
    checks.append(dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",
      evidence_file=f"evidence/{k}.json",technique="property-based testing: "+t,level="exploration",level_note=N+n))
m=dict(version=1,setup_cmd="./check.sh build",checks=checks,not_applicable=[],
  notes="No hooks: the harness uses the public API only. Known and fixed findings are in known-findings.txt.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w") as f:
    json.dump(m,f,indent=1,ensure_ascii=False); f.write("\n")
