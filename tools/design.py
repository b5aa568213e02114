"""Writes DESIGN.md: tools/design_head.md, a section per property (text below,
bounds from props/plans.py), tools/design_tail.md and the table of planted bugs.
Run by hand; no check runs it."""

import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props.plans import PLANS  # noqa: E402

HOW = {
    "C01": "`to_dict`, `clean_dict`, `alias_dict` and `from_dict` run symbolically on a generated type tree whose sizes, texts and set of attributes are symbolic. Oracle: the harness' own normal form of the tree (`lib.norm`, attribute by attribute, independent of `__eq__`) before and after.",
    "C02": "The same trees and dictionaries are deep-frozen before an operation; after it, and after doing it again, the solver has to show the frozen copy equal to the object and both results equal.",
    "C03": "Dictionary forms whose sizes are *any* integers are read; the solver has to show `accepted <=> all sizes legal`, the legal ranges being those of the specification.",
    "C04": "Two independently symbolic trees; the solver has to show `(a == b) <=> norm(a) = norm(b)` and `(a == b) <=> (b == a)`, `!=` the opposite.",
    "C05": "Alias names are symbolic strings; the grammar of the oracle is written as a formula over the characters, not as a regular expression. Definitions and references occur in every position; overridden attributes are compared with the definition's.",
    "C06": "`make_nullable`, `is_nullable`, `is_optional` on symbolic trees against a normal form computed by the harness.",
    "C07": "Every shorthand with symbolic members is read and compared with the normal form of the long form built by the harness.",
    "C08": "`AvroConverter.from_recap` on symbolic trees; the oracle (`avro.expected`) is a second, declarative description of the documented mapping; decimal precision is checked by `10^p <= 2^b < 10^(p+1)`.",
    "C09": "Avro documents with symbolic names, namespaces, sizes are generated together with the expected normal form; `to_recap` has to produce it, references have to resolve to it, and writing back has to give the document again.",
    "C10": "As C09 for JSON Schema.",
    "C11": "As C08 for JSON Schema; additionally every `$ref` of the document is followed by the harness inside the document.",
    "C12": "`ProtobufConverter.from_recap` on symbolic structs; the syntax tree it hands to the generator is checked field by field: names, types, cardinality, numbers, one declaration per type, every reference declared. In native runs the text is parsed back first.",
    "C13": "Syntax trees of Protobuf files (in native runs: their text) are generated with the expected types; references in all spellings, two files through one converter, round trip through `from_recap`.",
    "C14": "Hive tables as pymetastore objects with symbolic names, comments, sizes and statistics are served by a metastore stand-in; `HiveMetastoreClient` and the converter run on top.",
    "C15": "Rows of `information_schema` (SQLite: `pragma_table_info`) with symbolic names, nullability and defaults, converted twice by one converter.",
    "C16": "As C15 with every documented type name and symbolic sizes; the oracle is the table of documented mappings. Names the table lacks are symbolic strings.",
    "C17": "The SQLite client on a stand-in that interprets its SQL over symbolic tables (native runs: the real SQLite); the affinity oracle is written from SQLite's documentation.",
    "C18": "BigQuery `SchemaField` trees with symbolic attributes served by a stand-in client.",
    "C20": "`safe_urls` of settings with symbolic URLs; the oracle compares each part of the result with the part the URL was built from.",
    "C21": "`RecapSettings.unsafe_url` with symbolic configured and requested URLs; the oracle decides matching on the list of segments the URLs were built from.",
    "C22": "`create_client`/`ls`/`schema` end to end with driver stand-ins that record how they are connected and answer catalog queries.",
    "C23": "Histories of symbolic puts against a list kept by the harness; the file system is a symbolic tree, listed in a symbolic order.",
    "C24": "As C23 with symbolic names of arbitrary characters; the stub file system records every path used, each has to lie under the root.",
    "C25": "One put in which the n-th file system operation (symbolic) is the crash or error point; afterwards the history oracle of C23 has to hold for the state before or after. Readers are run at each point.",
    "C26": "The route functions are run as coroutines by a scheduler whose choices are symbolic; the oracle accepts exactly the results of one of the sequential orders. Sequential histories also run against the ASGI application in native validation.",
    "C27": "The text of the SQL the clients send is parsed and evaluated by a small relational evaluator (`props/minisql.py`) over symbolic catalog tables; names have to arrive as bound parameters.",
    "C28": "Files and subjects with symbolic names next to similarly named ones; the schema has to be that of the right one, read by the right converter.",
    "C29": "The same request through all front ends; the results have to be equal to each other and to the converter's output for the schema of the source.",
}

man = json.load(open(V + "/MANIFEST.json"))
props = {json.loads(x)["id"]: json.loads(x) for x in open(V + "/properties.jsonl")}
cost = json.load(open(V + "/tools/cost.json")) if os.path.exists(V + "/tools/cost.json") else {}
out = [open(V + "/tools/design_head.md").read().rstrip(), "\n## Properties\n"]
for pid in sorted(props):
    q, t = PLANS[pid](True), PLANS[pid](False)
    p = props[pid]
    out.append(f"### {pid} {p['title']}\n")
    out.append(HOW[pid] + "\n")
    out.append(f"*Why tests cannot*: {p['why_tests_cant']}.\n")
    hs = sorted({j[0] for j in t["jobs"]})
    out.append(f"*Harnesses*: {', '.join('`' + h + '`' for h in hs)} ({len(q['jobs'])} jobs quick, {len(t['jobs'])} thorough).\n")
    out.append(f"*Bounds (thorough)*: {t['bounds']}.\n")
    out.append(f"*Outside*: {t['outside']}.\n")
    if t.get("stubs"):
        out.append("*Stubs*: " + "; ".join(t["stubs"]) + ".\n")
    if pid in cost:
        c = cost[pid]
        out.append(f"*Cost*: about {c['quick']} s quick" + (f", {c['thorough']} s thorough" if "thorough" in c else "") + " on 8 cores.\n")
out.append(open(V + "/tools/design_tail.md").read().rstrip() + "\n")
out.append("\n## Planted bugs and which check catches them\n")
res = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
out.append("| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(s, '?')} |")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
