"""What each check runs: (harness, parameters, options), bounds, stubs.
Does not import the code under test."""


def plan(pid, tier):
    return PLANS[pid](tier == "quick")


LEAVES = ["null", "bool", "int", "float", "string", "bytes", "enum", "proxy"]
NEST = ["int", "null", "string", "enum", "proxy"]


def nest1(q=True):
    out = []
    for s in NEST:
        out += [["list", s], ["map", "text", s], ["struct", s], ["union", "null", s]]
        if s in ("int", "enum") or not q:
            out += [["map", s, "bool"], ["union", s], ["union", s, "null"]]
    return out


MULTI = [
    ["struct"],
    ["struct", "int", "text"],
    ["union", "null", "wide", "string"],
    ["union", "int", "null", "text"],
    ["union", "null", "null"],
]

DEEP = [
    ["list", ["union", "null", "int"]],
    ["map", "text", ["struct", ["union", "null", "int"]]],
    ["struct", ["struct", "int"]],
    ["struct", ["list", ["struct", "text"]]],
    ["struct", ["union", "null", "int"], ["union", "null", "text"]],
    ["union", "null", ["struct", ["union", "null", "wide"]]],
    ["union", "null", ["list", "wide"]],
    ["union", "null", ["map", "text", "int"]],
    ["union", "null", ["union", "null", "wide"]],
    ["union", "null", ["union", "int", "text"]],
    ["union", ["struct", "wide"], ["list", "proxy"]],
    ["map", ["struct", "wide"], ["list", "enum"]],
]


def c01(q):
    jobs = []
    for s in LEAVES:
        jobs.append(("c01:roundtrip", {"shape": s, "budget": 2 if q else 4, "rich": True}, {}))
    for s in nest1(q):
        jobs.append(("c01:roundtrip", {"shape": s, "budget": 2 if q else 3}, {}))
    for s in MULTI + DEEP:
        jobs.append(("c01:roundtrip", {"shape": s, "budget": 1 if q else 2}, {}))
    for s in ["int", "string", ["union", "null", "int"], ["struct", ["union", "null", "string"]], ["list", "proxy"]]:
        jobs.append(("c01:text_roundtrip", {"shape": s, "budget": 1 if q else 2}, {}))
    for s in LEAVES + [["union", "null", "int"], ["union", "int", "null"]] + MULTI + DEEP:
        jobs.append(("c01:clean_idempotent", {"shape": s, "budget": 1 if q else 2}, {}))
    for s in ["null", "bool", "wide", "float", "text", "bytes", "enum", ["list", "bool"], ["map", "text", "bool"], ["struct", "bool"], ["union", "bool", "wide"]]:
        for inner in (None, "field") if q else (None, "field", "optional"):
            jobs.append(("c01:extras", {"shape": s, "inner": inner}, {}))
    for f in ("list", "typelist", "union"):
        for n in (1, 2) if q else (1, 2, 3):
            jobs.append(("c03:clean_written", {"form": f, "n": n, "budget": 1 if q else 2}, {}))
    for f in ("int", "bool", "int32", "values", "map", "struct", "enum"):
        jobs.append(("c03:clean_written", {"form": f, "n": 0, "budget": 2 if q else 4}, {}))
    return {
        "jobs": jobs,
        "bounds": "type trees up to depth 4 from the listed shapes; at most "
        + ("2" if q else "4")
        + " optional attributes per tree (any of logical/alias/doc/name/default/extra on any node); "
        "sizes symbolic over their whole legal range, defaults None/False/any int/1-char str/[], strings of one symbolic printable character; all four clean/alias settings; cleaning of hand-written dictionaries with every shorthand, optional flag and up to 2 (thorough 4) attributes",
        "outside": "deeper trees, more simultaneous attributes, longer strings; foreign attribute names are taken from a list (symbolic values), one or two per tree",
        "stubs": ["json.loads(json.dumps(x)) == x is modelled, not encoded"],
        "must_cover": ["c01:roundtrip:end", "c01:text_roundtrip:end", "c01:clean_idempotent:end", "c01:extras:end", "c03:clean_written:end"],
    }


def swap(shape, m):
    if isinstance(shape, str):
        return m.get(shape, shape)
    return [shape[0]] + [swap(x, m) for x in shape[1:]]


def c02(q):
    jobs = []
    two = [[True, True], [False, True]]
    for s in LEAVES:
        jobs.append(("c01:pure", {"shape": s, "budget": 2}, {}))
    for s in nest1(q) + MULTI + DEEP:
        if q:
            s = swap(s, {"int": "wide", "string": "text"})
        jobs.append(("c01:pure", {"shape": s, "budget": 1 if q else 2, "flags": two}, {}))
    for s in [["list", "int"], ["map", "int", "bool"], ["map", "text", "string"], ["struct", "int"], ["union", "null", "bytes"], ["struct", ["list", "int"], ["union", "null", "string"]], ["list", ["struct", ["map", "text", "int"]]]]:
        jobs.append(("c01:pure_alias", {"shape": s}, {}))
    for s in ["narrow", "string", "enum", ["struct", "narrow"], ["union", "null", "narrow"], ["struct", ["union", "null", "text"]]]:
        jobs.append(("avro:write", {"shape": s, "budget": 1}, {}))
        jobs.append(("jsons:write", {"shape": s, "budget": 1}, {}))
    return {
        "jobs": jobs,
        "bounds": "type trees up to depth 4 over the listed shapes, at most "
        + ("1 optional attribute per nested tree (2 on leaves)" if q else "2 optional attributes per tree")
        + ", all sizes symbolic; every operation applied twice to the same objects, two of the clean/alias settings on nested trees; the Avro and JSON Schema writers on six shapes here and on all shapes of C08/C11",
        "outside": "operations interleaved between threads; deeper trees",
        "must_cover": ["c01:pure:end", "c01:pure_alias:end", "avro:write:mapped", "jsons:write:mapped"],
    }


def c03(q):
    leaf = ["int", "float", "string", "bytes"]
    shapes = leaf + [["list", "bool"], ["list", "int"], ["list", ["list", "float"]]]
    for s in leaf + [["list", "bool"]]:
        shapes += [
            ["map", s, "bool"],
            ["map", "string", s],
            ["struct", s],
            ["struct", "bool", s, "int"],
            ["union", s],
            ["union", "null", s],
            ["listunion", "null", s],
            ["typelist", "null", s],
            ["optional", s],
            ["struct", ["optional", s]],
            ["list", ["struct", ["union", "null", ["map", "bool", s]]]],
            ["optional", ["struct", ["list", s]]],
            ["union", ["union", s], "bool"],
        ]
        if not q:
            for o in leaf:
                shapes += [["struct", s, o, ["list", o]], ["map", ["union", s, o], ["struct", o]]]
    jobs = [("c03:limits", {"shape": s}, {}) for s in shapes]
    return {
        "jobs": jobs,
        "bounds": "type trees of depth up to 5 from the listed shapes with up to "
        + ("3" if q else "4")
        + " sizes, each any integer in [-2^80, 2^80], fixed/variable, given/absent",
        "outside": "sizes that are not integers; deeper trees",
        "must_cover": ["c03:limits:ok", "c03:limits:err"],
    }


def c04(q):
    jobs = []
    same = LEAVES + [
        ["list", "int"],
        ["map", "string", "int"],
        ["struct"],
        ["struct", "int"],
        ["struct", "int", "text"],
        ["union", "null", "int"],
        ["list", ["struct", "enum"]],
        ["union", "null", ["union", "null", "wide"]],
    ]
    for s in same:
        b = 1 if q and not isinstance(s, str) else 2
        if not q:
            b += 1
        jobs.append(("c03:equality", {"shape_a": s, "shape_b": s, "budget": b}, {}))
    for i, s in enumerate(LEAVES + same[8:13]):
        for t in (LEAVES + same[8:13])[i + 1 :]:
            jobs.append(("c03:equality", {"shape_a": s, "shape_b": t, "budget": 0}, {}))
    for s, t in (
        (["struct", "int", "text"], ["struct", "text", "int"]),
        (["struct", "int"], ["struct", "int", "int"]),
        (["union", "null", "int"], ["union", "int", "null"]),
        (["map", "text", "wide"], ["map", "wide", "text"]),
    ):
        jobs.append(("c03:equality", {"shape_a": s, "shape_b": t, "budget": 0 if q else 1}, {}))
    return {
        "jobs": jobs,
        "bounds": "pairs of types over the listed shapes (depth up to 3); every size symbolic over its whole range, up to "
        + ("2" if q else "3")
        + " optional attributes on each side, strings of one symbolic character, integer or None defaults",
        "outside": "defaults that mix True/1 (python compares them equal); deeper trees",
        "must_cover": ["c03:equality:equal", "c03:equality:different"],
    }


def c05(q):
    jobs = []
    for k in ("int", "struct", "union", "enum", "nested"):
        for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            jobs.append(("c03:alias_syntax", {"kind": k, "length": n}, {}))
    for k in ("bool", "struct"):
        jobs.append(("c03:alias_foreign", {"kind": k}, {}))
    if not q:
        jobs.append(("c03:alias_syntax", {"kind": "int", "length": 6}, {}))
    for w in ("fields", "nested", "map", "union", "typelist", "shared"):
        jobs.append(("c03:alias_unique", {"where": w}, {}))
    jobs.append(("c03:alias_builtin", {}, {}))
    jobs.append(("c03:alias_unknown", {}, {}))
    for w in ("field", "optional", "list", "map", "union"):
        jobs.append(("c03:alias_later", {"where": w}, {}))
    for s in LEAVES[:7] + [
        ["list", "wide"],
        ["map", "text", "enum"],
        ["struct", "wide"],
        ["union", "null", "text"],
        ["struct", ["list", "enum"]],
    ]:
        jobs.append(("c03:alias_resolve", {"shape": s, "budget": 1 if q else 3}, {}))
    return {
        "jobs": jobs,
        "bounds": "alias names of up to "
        + ("4" if q else "6")
        + " symbolic characters over letters, digits, _ . - space, newline and a non-ASCII letter; two definitions with symbolic names in every nesting position; every built-in alias; one override per reference of any attribute",
        "outside": "longer names, more than two definitions in one document",
        "must_cover": [
            "c03:alias_syntax:accepted",
            "c03:alias_syntax:rejected",
            "c03:alias_unique:distinct",
            "c03:alias_unique:duplicate",
            "c03:alias_builtin:end",
            "c03:alias_unknown:resolved",
            "c03:alias_unknown:unknown",
            "c03:alias_resolve:end",
            "c03:alias_later:end",
        ],
    }


def c06(q):
    jobs = []
    shapes = LEAVES + [
        ["list", "wide"],
        ["map", "text", "wide"],
        ["struct", "wide"],
        ["struct", "wide", "text"],
        ["union", "wide"],
        ["union", "wide", "text"],
        ["union", "null", "wide"],
        ["union", "wide", "null"],
        ["union", "null", "wide", "text"],
        ["union", "null"],
        ["union", ["union", "null", "wide"]],
    ]
    for s in shapes:
        jobs.append(
            ("c03:nullable", {"shape": s, "budget": (3 if isinstance(s, str) else 2) + (0 if q else 1)}, {})
        )
    for ks in (
        ["null"], ["wide"], ["null", "wide"], ["wide", "null"], ["null", "null"],
        ["null", "wide", "text"], ["wide", "text"], ["null", "enum", "null"], ["struct", "null"],
    ):
        jobs.append(("c03:optional_flag", {"kinds": ks, "budget": 1}, {}))
    return {
        "jobs": jobs,
        "bounds": "types of depth up to 3 over the listed shapes, up to "
        + ("3" if q else "4")
        + " optional attributes anywhere in the tree",
        "outside": "deeper trees; null members that carry attributes of their own in is_optional",
        "must_cover": ["c03:nullable:end", "c03:optional_flag:optional", "c03:optional_flag:not"],
    }


def c07(q):
    jobs = []
    for f, n in (
        ("single", 1), ("list", 1), ("list", 2), ("list", 3), ("typelist", 1),
        ("typelist", 2), ("union", 2), ("values", 1), ("field", 2),
    ):
        jobs.append(("c03:shorthand", {"form": f, "n": n}, {}))
    for k in ("int", "string", "bool", "int32", "list", "map", "enum", "struct"):
        jobs.append(("c03:optional_sugar", {"kind": k, "budget": 3 if q else 6}, {}))
    for n in (1, 2) if q else (1, 2, 3):
        jobs.append(("c03:optional_union", {"n": n}, {}))
    jobs.append(("c03:required", {}, {}))
    return {
        "jobs": jobs,
        "bounds": "every shorthand form with up to 3 members drawn from ten member forms; sizes and texts symbolic; up to "
        + ("3" if q else "6")
        + " optional attributes with the optional flag",
        "outside": "more members, deeper nesting than two levels",
        "must_cover": [
            "c03:shorthand:end",
            "c03:optional_sugar:optional",
            "c03:optional_sugar:plain",
            "c03:optional_union:end",
            "c03:required:present",
            "c03:required:missing",
        ],
    }


def c08(q):
    jobs = []
    for s in LEAVES:
        jobs.append(("avro:write", {"shape": swap(s, {"int": "narrow"}), "budget": 2 if q else 4}, {}))
    nest = [["list", s] for s in NEST] + [["map", "string", s] for s in NEST] + [["struct", s] for s in NEST]
    nest += [["map", swap(s, {"proxy": "bproxy"}), "bool"] for s in NEST] + [["union", "null", s] for s in NEST]
    nest += MULTI + DEEP
    for s in nest:
        s = swap(s, {"int": "narrow", "wide": "narrow"})
        jobs.append(("avro:write", {"shape": s, "budget": 1 if q else 2}, {}))
    for w in ("top", "field", "list"):
        jobs.append(("avro:write_int", {"hi": 140 if q else 400, "where": w}, {}))
        jobs.append(("avro:write_int", {"hi": "wide", "where": w}, {}))
    for k in ("int", "bytes", "string"):
        for w in ("top", "field", "optional", "list"):
            jobs.append(("avro:write_logical", {"kind": k, "where": w}, {}))
    for w in ("top", "field", "list", "values", "union"):
        jobs.append(("avro:write_builtin", {"where": w}, {}))
    return {
        "jobs": jobs,
        "bounds": "type trees up to depth 4 over the listed shapes; integer widths symbolic up to "
        + ("140" if q else "400")
        + " bits (64 inside the larger trees), all other sizes over their whole range; every logical type x unit combination with symbolic sizes; every built-in alias in five positions; up to "
        + ("2" if q else "4")
        + " optional attributes",
        "outside": "integers wider than the bound (the decimal precision is computed with 2**bits); user-defined logical types; validity of the generated schema under third-party Avro parsers (the project writes field types inline)",
        "must_cover": ["avro:write:mapped", "avro:write:unmappable", "avro:write_int:mapped", "avro:write_logical:mapped", "avro:write_logical:unmappable", "avro:write_builtin:mapped", "avro:write_builtin:unmappable"],
    }


AVRO_SHAPES = [
    ["record"],
    ["record", "prim"],
    ["record", "prim", "prim"],
    ["record", "null", "int", "string"],
    ["record", ["array", "prim"]],
    ["record", ["map", "prim"]],
    ["record", ["union", "null", "prim"]],
    ["record", ["array", ["union", "null", "prim"]]],
    ["record", ["map", ["union", "null", "string"]]],
    ["record", ["union", "null", ["array", "int"]]],
    ["record", "timelike"],
    ["record", "uuid"],
    ["record", "decimal"],
    ["record", ["union", "null", "timelike"]],
    ["record", ["array", "decimal"]],
    ["record", "enum"],
    ["record", "fixed"],
    ["record", "fixeddec"],
    ["record", ["record", "int"]],
    ["record", ["record", "enum"], "int"],
    ["record", ["array", ["record", "int"]]],
    ["record", ["union", "null", ["record", "string"]]],
]
AVRO_REFS = [
    ["record", "enum", "ref"],
    ["record", "fixed", "ref?"],
    ["record", "fixeddec", "ref"],
    ["record", ["record", "int"], "ref"],
    ["record", ["array", "enum"], "ref"],
    ["record", ["union", "null", "enum"], "ref?"],
]
AVRO_NAMED = [
    ["record", "enum", "enum"],
    ["record", ["array", "enum"], "fixed"],
    ["record", ["map", "enum"], "enum"],
    ["record", ["union", "null", "enum"], "enum"],
    ["record", ["record", "enum"], "enum"],
    ["record", "enum", "fixed", "ref"],
    ["record", ["record", "enum", "ref"], "ref"],
    ["record", "enum", ["record", "ref"]],
]
AVRO_RECURSIVE = [
    ["record", "ref?"],
    ["record", "int", "ref"],
    ["record", ["record", "ref?"]],
    ["record", ["array", ["record", "ref"]]],
    ["record", ["record", "ref"], "ref?"],
]


def c09(q):
    jobs = []
    for s in AVRO_SHAPES:
        jobs.append(("avro:read", {"shape": s, "fieldattrs": 1 if q else 3}, {}))
    for s in AVRO_REFS:
        jobs.append(("avro:read", {"shape": s, "fieldattrs": 1 if q else 2}, {}))
    for s in (["record", "enum", "ref"], ["record", "prim"], ["record", ["record", "enum"]]):
        jobs.append(("avro:read", {"shape": s, "fieldattrs": 0, "outer": True}, {}))
    for s in AVRO_NAMED:
        jobs.append(("avro:read", {"shape": s, "fieldattrs": 0 if q else 1, "typedocs": False}, {}))
    for s in AVRO_RECURSIVE:
        jobs.append(("avro:read", {"shape": s, "fieldattrs": 0 if q else 1, "recursive": True, "typedocs": not q}, {}))
    jobs.append(("avro:read_words", {"shape": ["record", "enum", "prim"], "fieldattrs": 0 if q else 1}, {}))
    jobs.append(("avro:read_invalid", {}, {}))
    jobs.append(("avro:read_scopes", {}, {}))
    for s in AVRO_SHAPES:
        if "decimal" in str(s) or "fixed" in str(s) or "enum" in str(s) or str(s).count("record") > 1:
            continue
        jobs.append(("avro:roundtrip", {"shape": s}, {}))
    return {
        "jobs": jobs,
        "bounds": "record schemas of up to 3 fields and depth 4 over the listed shapes; symbolic one-character names plus a distinct suffix, namespaces given by attribute, dotted name, inheritance or argument; references to any named type defined so far, in and out of the namespace, and of records to themselves; sizes and precisions symbolic; up to "
        + ("1" if q else "3")
        + " field attributes (doc, default)",
        "outside": "Avro aliases; unknown logical types; whether an Avro fixed is read as fixed or variable length (the tests pin variable)",
        "stubs": ["json.loads(json.dumps(x)) == x is modelled, not encoded"],
        "must_cover": ["avro:read:end", "avro:read:ref", "avro:read_invalid:end", "avro:read_scopes:end", "avro:roundtrip:end"],
    }


def c10(q):
    jobs = []
    shapes = [
        ["object"],
        ["object", "prim"],
        ["object", "prim", "prim"],
        ["object", "format"],
        ["object", ["array", "prim"]],
        ["object", ["array", ["multi", 2]]],
        ["object", ["multi", 1]],
        ["object", ["multi", 2]],
        ["object", ["object", "prim"]],
        ["object", ["array", ["object", "format"]]],
        ["object", "string", ["object", "integer"], "boolean"],
    ]
    for s in shapes:
        jobs.append(("jsons:read", {"shape": s, "budget": 1 if q else 3}, {}))
        jobs.append(("jsons:roundtrip", {"shape": s, "budget": 1 if q else 2}, {}))
    jobs.append(("jsons:read_words", {"shape": ["object", "string", ["object", "integer"]], "budget": 0}, {}))
    # lists of types with keywords that describe one of them
    for how in ("array", "object", "format"):
        for n in (1, 2) if q else (1, 2, 3):
            jobs.append(("jsons:read", {"shape": ["object", ["multi", n, how]], "budget": 1 if q or n == 3 else 2}, {}))
    for w in ("field", "array", "required"):
        jobs.append(("jsons:read_ref", {"where": w, "resolve": False}, {}))
    jobs.append(("jsons:read_ref", {"where": "field", "resolve": True}, {}))
    for k in ("object", "integer"):
        jobs.append(("jsons:read_external", {"kind": k}, {}))
    jobs.append(("jsons:read_invalid", {}, {}))
    jobs.append(("jsons:strategy", {}, {}))
    for h in ("example.com", "a.b.c"):
        for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            jobs.append(("jsons:urn", {"host": h, "n": n}, {}))
    for n, f in ((1, 1), (0, 2)) if q else ((1, 1), (0, 2), (2, 2), (1, 3)):
        jobs.append(("jsons:urn", {"host": "ex-a.com", "n": n, "fragment": f}, {}))
    return {
        "jobs": jobs,
        "bounds": "object schemas of up to 3 properties and depth 4 over the listed shapes, lists of up to " + ("2" if q else "3") + " types with the keywords of one of them; symbolic one-character property names plus a distinct suffix; any subset required; up to "
        + ("1" if q else "3")
        + " of description/default/title; $id paths of up to "
        + ("3" if q else "5")
        + " symbolic characters",
        "outside": "keywords the project does not read (enum, additionalProperties, oneOf, $defs); fetching a $ref over the network (references to other documents are read from a registry or a retrieval function; references to parts of documents and to documents without $id are outside)",
        "stubs": ["json.loads(json.dumps(x)) == x is modelled, not encoded", "the referencing library runs natively on concrete $ids"],
        "must_cover": ["jsons:read:end", "jsons:read_ref:end", "jsons:read_external:end", "jsons:read_invalid:end", "jsons:urn:path", "jsons:strategy:strategy", "jsons:roundtrip:end"],
    }


def c11(q):
    jobs = []
    for s in LEAVES[:7]:
        jobs.append(("jsons:write", {"shape": s, "budget": 2 if q else 4}, {}))
    nest = [["list", s] for s in NEST] + [["map", "bool", s] for s in NEST] + [["struct", s] for s in NEST]
    nest += [["union", "null", s] for s in NEST] + [["struct", ["union", "null", s]] for s in NEST]
    nest += MULTI + DEEP
    for s in nest:
        jobs.append(("jsons:write", {"shape": swap(s, {"int": "wide", "string": "text", "proxy": "bproxy"}), "budget": 2 if q and len(str(s)) < 30 else 1 if q else 2}, {}))
    jobs.append(("jsons:write", {"shape": ["struct", "bool"], "budget": 2, "naming": False}, {}))
    jobs.append(("jsons:write_words", {"shape": ["struct", ["list", "bool"], ["struct", "bool"]], "budget": 1}, {}))
    for s in ("wide", "enum", ["struct", "text"], ["list", "wide"], ["union", "null", "text"]):
        for w in ("field", "list", "map", "optional", "union"):
            jobs.append(("jsons:write_refs", {"shape": s, "where": w}, {}))
    for w in ("field", "list", "optional"):
        jobs.append(("jsons:write_recursive", {"where": w}, {}))
    for w in ("top", "field", "list", "optional"):
        jobs.append(("jsons:write_builtin", {"where": w}, {}))
    return {
        "jobs": jobs,
        "bounds": "type trees up to depth 4 over the listed shapes, up to "
        + ("2" if q else "4")
        + " optional attributes anywhere; a definition with a reference before/after it in five positions; self-referencing structs; every built-in alias in four positions; symbolic one-character field names plus a distinct suffix",
        "outside": "references to types defined outside the converted tree or inside map keys; two fields with the same name",
        "must_cover": ["jsons:write:mapped", "jsons:write:unmappable", "jsons:write_refs:ref", "jsons:write_refs:override", "jsons:write_recursive:end", "jsons:write_builtin:mapped"],
    }


def c12(q):
    jobs = []
    leaf = ["null", "bool", "int", "float", "string", "bytes", "builtin", "enum", "self", ["struct", "narrow"]]
    shapes = [[], ["narrow", "text"], ["narrow", "text", "bool"]]
    for s in leaf:
        shapes += [[s], [["list", s]], [["opt", s]], [["map", "text", s]], [["map", s, "bool"]], [["opt", ["list", s]]], [["opt", ["map", "text", s]]]]
        if s != "null":
            shapes += [[["oneof", s, "text"]], [["oneof0", "bool", s], "narrow"]]
    shapes += [
        [["oneof", "narrow", "text"], "bool"],
        ["bool", ["oneof0", "narrow", "text", "bool"], "text", ["oneof", "text", "bool"], "narrow"],
        [["list", ["opt", "narrow"]]],
        [["list", ["list", "narrow"]]],
        [["list", ["opt", ["list", "narrow"]]]],
        [["list", ["map", "text", "bool"]]],
        [["list", ["oneof", "text", "bool"]]],
        [["map", "text", ["list", "narrow"]]],
        [["map", "text", ["map", "text", "bool"]]],
        [["map", "text", ["opt", "narrow"]]],
        [["map", ["opt", "text"], "bool"]],
        [["oneof", ["list", "bool"], "text"]],
        [["oneof", ["map", "text", "bool"], "text"]],
        [["oneof", ["opt", "bool"], "text"]],
        [["struct", ["oneof", "bool", "text"], "narrow"], "bool"],
        [["struct", ["struct", "enum"]], "enum"],
    ]
    for s in shapes:
        jobs.append(("proto:write", {"shapes": s, "unnamed": len(s) > 1 or not q}, {}))
    where = ["sibling", "nested", "undeclarable", "elsewhere"]
    for s in ([["struct", "bool"]], ["enum"], [["struct", ["struct", "bool"]]], [["map", "text", ["struct", "enum"]]], [["list", ["struct", "bool"]], ["opt", "enum"]], [["oneof", ["struct", "bool"], "enum"]]):
        jobs.append(("proto:write", {"shapes": s, "where": where}, {}))
    jobs.append(("proto:write_words", {"shapes": ["bool", ["list", "text"]]}, {}))
    jobs.append(("proto:write_words", {"shapes": [["oneof", "bool", "text"]]}, {}))
    if not q:
        for a in leaf:
            for b in leaf:
                jobs.append(("proto:write", {"shapes": [a, ["oneof0", "bool", b], ["opt", a]], "unnamed": True}, {}))
    return {
        "jobs": jobs,
        "bounds": "structs of up to 5 fields and depth 4 over the listed shapes; widths and lengths symbolic over their whole range; symbolic one-letter field names plus a distinct suffix, at most one field unnamed; every built-in alias; nested structs and enums named in the package, inside their message, in an undeclared package or elsewhere",
        "outside": "references to aliases that are not structs or enums; nullability of list elements and map values (Protobuf cannot express it); logical types, which are written as their physical type; names given both to a list or nullable type and to the type nested in it; unions of null only",
        "must_cover": ["proto:write:mapped", "proto:write:unmappable"],
    }


PROTO_DOCS = [
    [["Root"]],
    [["Root", "scalar"]],
    [["Root", "plain", "plain"]],
    [["Root", ["map", "scalar"]]],
    [["Root", ["oneof", "scalar", "plain"], "plain"]],
    [["Root", ["oneof", "plain"]]],
    [["Root", "@Root", "plain"]],
    [["Root", "@A"], ["A", "plain"]],
    [["Root", "@A", "@A"], ["A", "plain"]],
    [["Root", "plain", "@A", "@B"], ["A", "@B"], ["B", "@Root"]],
    [["Root", ["map", "@A"], "@A"], ["A", "@A"]],
    [["Root", ["oneof", "@A", "@E"]], ["A", "@E"], ["enum", "E"]],
    [["enum", "E"], ["Root", "@E", "@E"]],
    [["Root", ["message", "In", "plain"], "@In"]],
    [["Root", ["enum", "E"], "@E", ["map", "@E"]]],
    [["Root", ["message", "In", ["message", "Deep", "@Root"], "@Deep"], "@In", "@Deep"]],
    [["Root", "plain"], ["Unused", "plain"]],
]


def c13(q):
    jobs = []
    for d in PROTO_DOCS:
        lean = q and (len(d) > 1 or len(d[0]) > 2)
        jobs.append(("proto:read", {"messages": d, "package": True, "lean": lean}, {}))
        jobs.append(("proto:read", {"messages": d, "package": False, "lean": lean}, {}))
    for d in (PROTO_DOCS[7], PROTO_DOCS[13]):
        for p in (True, False):
            jobs.append(("proto:read", {"messages": d, "package": p, "again": True, "lean": q}, {}))
    for d in PROTO_DOCS:
        if d == [["Root", ["oneof", "plain"]]]:
            continue  # written as an optional field
        for p in (True, False):
            jobs.append(("proto:roundtrip", {"messages": d, "package": p, "lean": q and (len(d) > 1 or len(d[0]) > 2)}, {}))
    if not q:
        jobs.append(("proto:read", {"messages": [["Root", "scalar", "scalar"]]}, {}))
        jobs.append(("proto:read", {"messages": [["Root", "scalar", ["map", "scalar"]]]}, {}))
        jobs.append(("proto:read", {"messages": [["Root", ["oneof", "scalar", "scalar"]]]}, {}))
        jobs.append(("proto:read", {"messages": [["Root", "@A", "@B", "@E"], ["A", "@B", "@E"], ["B", "@A", "plain"], ["enum", "E"]]}, {}))
    jobs.append(("proto:read_invalid", {}, {}))
    return {
        "jobs": jobs,
        "bounds": "documents of up to 3 messages/enums with up to 3 fields over the listed shapes; every scalar and supported well-known type, every cardinality, references short, full or rooted, forward, backward and cyclic; package absent, one or two parts, anywhere in the file; symbolic one-letter field names plus a distinct suffix",
        "outside": "two nested messages of the same name and references through the enclosing message (nested types are named after the package, which the tests pin); required fields, one-member oneofs and well-known types in the round trip; imports, options, groups, extensions, services",
        "stubs": ["the proto_schema_parser library (text to syntax tree) is not encoded: symbolic runs start from its syntax tree, native validation runs go through generated text and the real parser"],
        "must_cover": ["proto:read:end", "proto:read:again", "proto:roundtrip:end", "proto:read_invalid:end"],
    }


PG_KINDS = ["int64", "int32", "int16", "float64", "float32", "bool", "varstr", "fixstr", "uuid", "varbytes", "bits", "timestamp", "decimal", "enum", "array", "unknown"]
MY_KINDS = ["int", "float", "bit", "year", "varstr", "fixstr", "varbytes", "fixbytes", "timestamp", "decimal", "unknown"]
SF_KINDS = ["float64", "bool", "decimal", "varstr", "char", "binary", "date", "timestamp", "time", "unknown"]
LITE_KINDS = ["int64", "text", "blob", "float64"]


def c15(q):
    jobs = []
    few = {
        "pg": ["int32", "varstr", "enum", "nested", "decimal"],
        "pgdim": ["nested", "varstr"],
        "mysql": ["int", "varstr", "decimal"],
        "snowflake": ["decimal", "varstr", "timestamp"],
        "sqlite": ["int64", "text", "blob"],
    }
    for d, ks in few.items():
        jobs.append(("sql:columns", {"dialect": d, "kinds": []}, {}))
        jobs.append(("sql:columns_words", {"dialect": d, "kinds": [ks[0]], "few": True}, {}))
        if d == "pg":
            jobs.append(("sql:columns", {"dialect": d, "kinds": ["nested", "nested"], "plain": True}, {}))
        for k in ks:
            jobs.append(("sql:columns", {"dialect": d, "kinds": [k], "again": True, "few": True}, {}))
            for k2 in ks if not q else ks[:3]:
                jobs.append(("sql:columns", {"dialect": d, "kinds": [k, k2], "again": not q}, {}))
        if not q:
            jobs.append(("sql:columns", {"dialect": d, "kinds": [ks[0], ks[1], ks[0]], "again": True}, {}))
    return {
        "jobs": jobs,
        "bounds": "tables of up to " + ("2" if q else "3") + " columns, the same rows converted twice by one converter; symbolic column names of 1-2 printable characters (equal names included) and names that are keywords of the formats, nullability in either case, absent, empty and symbolic defaults",
        "outside": "conversion of the text of defaults to values (documented as missing); NOT NULL columns of NUMERIC affinity in SQLite, which the tests read as unions with null",
        "must_cover": ["sql:columns:end", "sql:columns:again"],
    }


def c16(q):
    jobs = []
    for d, ks in (("pg", PG_KINDS), ("mysql", MY_KINDS), ("snowflake", SF_KINDS)):
        for k in ks:
            jobs.append(("sql:columns", {"dialect": d, "kinds": [k]}, {}))
    jobs.append(("sql:columns", {"dialect": "pgdim", "kinds": ["array"]}, {}))
    for d in ("pg", "mysql", "snowflake"):
        for n in range(1, 9 if q else 15):
            jobs.append(("sql:unknown_names", {"dialect": d, "n": n}, {}))
    return {
        "jobs": jobs,
        "bounds": "every documented type name of PostgreSQL, MySQL and Snowflake in lower, upper and mixed case with symbolic lengths, precisions and scales over the whole range of the database; arrays of every element type, 1-3 dimensions, both array modes; listed unsupported types and any other name of up to " + ("8" if q else "14") + " symbolic letters",
        "outside": "Snowflake's DATETIME_PRECISION (only the parameter of the type name is read); lengths of array elements, which the catalogs do not contain",
        "must_cover": ["sql:columns:end", "sql:columns:unsupported", "sql:unknown_names:end"],
    }


def c17(q):
    jobs = []
    for n in [*range(0, 6), 8] if q else range(0, 11):
        jobs.append(("sql:lite_schema", {"word": "sym", "n": n}, {}))
    # a key of two columns, in either order
    for w in ("integer", "text"):
        jobs.append(("sql:lite_schema", {"word": w, "twocols": True}, {}))
    words = ["integer", "varchar", "character varying", "native character", "double precision", "floating point", "decimal", "blob", "clob", "text", "boolean", "datetime", "real", "bigint unsigned", "charint", "blobtext", "xreal"]
    for w in words:
        for p in ("", "(#)", "(#, 3)", " ( # )", " (#,3 )"):
            if q and w in words[9:] and p in ("(#, 3)", " (#,3 )"):
                continue
            jobs.append(("sql:lite_schema", {"word": w, "params": p, "twocols": w == "varchar" and p == "(#)", "digits": 3 if q else 7}, {}))
    for n in (1, 2) if q else (1, 2, 3):
        jobs.append(("sql:lite_tables", {"n": n}, {}))
    return {
        "jobs": jobs,
        "bounds": "declared types of up to " + ("5 and of 8" if q else "10") + " symbolic letters, the listed type names with a symbolic parameter and spacing; NOT NULL and primary key (of one or two columns) in any combination; symbolic column names; databases of two tables with symbolic names of up to " + ("2" if q else "3") + " printable characters",
        "outside": "parameters with more than 3 (thorough: 7) digits, a sign or a fraction; views, generated columns, attached databases",
        "stubs": ["symbolic runs replace SQLite by a stub that evaluates the catalog queries and PRAGMA table_info; native validation runs use the real SQLite"],
        "must_cover": ["sql:lite_schema:int", "sql:lite_schema:text", "sql:lite_schema:blob", "sql:lite_schema:real", "sql:lite_schema:numeric", "sql:lite_tables:end"],
    }


def c27(q):
    jobs = []
    for d in ("pg", "mysql", "snowflake", "dbapi"):
        n = 2 if q else 3
        jobs.append(("sql:client_schema", {"dialect": d, "ntables": n, "ncols": 2}, {}))
        for l in ("catalogs", "schemas", "tables"):
            if d == "mysql" and l == "catalogs":
                continue
            jobs.append(("sql:client_ls", {"dialect": d, "ntables": 3 if not q or d != "pg" else 2, "level": l}, {}))
        for op in ("schema", "tables", "schemas"):
            if d == "mysql" and op == "schemas":
                continue
            jobs.append(("sql:client_bind", {"dialect": d, "op": op, "n": 1 if q else 2}, {}))
    return {
        "jobs": jobs,
        "bounds": "databases of up to 3 tables with two columns each, symbolic catalog, schema and table names (equal ones in different schemas included), rows stored in either order, symbolic names in the request",
        "outside": "authentication, drivers and the network; permissions",
        "stubs": ["the SQL text of the real queries is evaluated by props/minisql.py (joins, equalities, order, aggregation, bound parameters) over symbolic catalog tables: no database server is available offline"],
        "must_cover": ["sql:client_schema:found", "sql:client_schema:missing", "sql:client_ls:end", "sql:client_bind:end"],
    }


def c14(q):
    jobs = []
    atoms = ["prim", "void", "unknown", "decimal", "varchar", "char"]
    shapes = [[]] + [[a] for a in atoms]
    for a in atoms if not q else ["atom", "void", "unknown", "decimal", "varchar"]:
        shapes += [[["list", a]], [["map", "atom", a]], [["map", a, "atom"]], [["struct", a]], [["union", a]], [["union", "atom", a]]]
    shapes += [
        [["union", "varchar", "varchar"]],
        [["union", "char", "varchar", "atom"]],
        [["union", ["list", "atom"], ["list", "varchar"]]],
        [["union", ["map", "atom", "varchar"], "atom"]],
        [["union", ["struct", "varchar"], ["struct", "atom"]]],
        [["union", ["union", "atom", "varchar"], "varchar"]],
        [["union", ["list", ["union", "atom", "varchar"]]]],
        [["struct", ["struct", "varchar"], ["list", ["map", "atom", "char"]]]],
        [["struct", ["union", "atom", "varchar"], "atom"]],
        [["list", ["list", ["list", "atom"]]]],
        [["map", "atom", ["union", "varchar", ["struct", "atom"]]]],
        ["atom", "varchar"],
        ["atom", ["union", "atom", "varchar"], "atom"],
    ]
    for s in shapes:
        jobs.append(("warehouse:hive_table", {"shapes": s}, {}))
    jobs.append(("warehouse:hive_words", {"shapes": [["struct", "varchar"]]}, {}))
    kinds = ["none", "long", "double", "date", "decimal", "string", "binary", "bool"]
    for k in kinds:
        jobs.append(("warehouse:hive_stats", {"kinds": [k]}, {}))
        for k2 in kinds if not q else ("long", "bool"):
            jobs.append(("warehouse:hive_stats", {"kinds": [k, k2]}, {}))
    jobs.append(("warehouse:hive_ls", {"n": 2 if q else 3}, {}))
    return {
        "jobs": jobs,
        "bounds": "tables of up to 3 columns and types of depth 3 over the listed shapes; every primitive; symbolic varchar/char lengths, decimal precision and scale, names and comments; statistics of up to two columns of every kind in any order, with symbolic values",
        "outside": "partition columns; the Thrift protocol and the parsing of type strings (pymetastore)",
        "stubs": ["the metastore connection is a stub holding symbolic tables and statistics"],
        "must_cover": ["warehouse:hive_table:end", "warehouse:hive_table:unsupported", "warehouse:hive_stats:stats", "warehouse:hive_stats:plain", "warehouse:hive_ls:found"],
    }


def c18(q):
    jobs = []
    shapes = [[], ["any"], ["sized"], [["record", "atom"]], [["record"]], [["record", "sized", "atom"]], [["record", ["record", "sized"]]], ["sized", "atom"], [["record", "atom"], "sized"]]
    if not q:
        shapes += [["any", "atom"], [["record", "any"]], [["record", ["record", "atom"], "atom"]]]
    for s in shapes:
        jobs.append(("warehouse:bq_schema", {"shapes": s, "budget": 4 if len(str(s)) < 12 else 2 if not q or len(str(s)) < 25 else 1}, {}))
    jobs.append(("warehouse:bq_words", {"shapes": [["record", "sized"]], "budget": 1}, {}))
    for n in range(1, 8 if q else 12):
        for nested in (False, True):
            jobs.append(("warehouse:bq_unknown", {"n": n, "nested": nested}, {}))
    jobs.append(("warehouse:bq_client", {"n": 2}, {}))
    return {
        "jobs": jobs,
        "bounds": "schemas of up to 2 fields and records of depth 3 over the listed shapes; every type name, every mode, at most 2-4 optional attributes per schema, symbolic names, descriptions, defaults, max_length, precision and scale; other type names of up to " + ("7" if q else "11") + " symbolic characters; services with two tables and symbolic names",
        "outside": "the scale of NUMERIC without parameters, which the tests set to 0; the BigQuery service itself",
        "stubs": ["the BigQuery service is a stub holding tables with symbolic names"],
        "must_cover": ["warehouse:bq_schema:end", "warehouse:bq_unknown:end", "warehouse:bq_client:found"],
    }


def c23(q):
    jobs = []
    two = ["new", "at"]
    for ops in [[a] for a in two] + [[a, b] for a in two for b in two] + ([["new", "new", "new"], ["at", "new", "at"]] if q else [[a, b, c] for a in two for b in two for c in two]):
        for b in ("local", "memory"):
            if q and b == "memory" and len(ops) > 2:
                continue
            jobs.append(("registry:history", {"ops": ops, "n": 1, "backend": b, "chars": [[97, 98]], "kinds": ["int", "struct"], "probe": len(ops) < 3, "reopen": len(ops) < 3, "vmax": 120 if len(ops) < 3 else 12}, {}))
    jobs.append(("registry:history", {"ops": ["new"], "n": 1, "backend": "local", "chars": [[97, 98]], "kinds": ["list"]}, {}))
    for ops in (["new", "new"], ["at", "new"], ["at", "at"], ["at", "at", "new"], ["new", "at", "new"]):
        jobs.append(("registry:history", {"ops": ops, "n": 1, "backend": "local", "chars": [[97, 98 if len(ops) < 3 else 97]], "probe": False, "shared": True, "vmax": 12}, {}))
    return {"jobs": jobs, "bounds": 'histories of up to 3 puts (next or given version 0 to 120) of symbolic names that may be equal, listed in either order, made and read back through the same, another open and a reopened storage; types of three shapes with symbolic documentation', "outside": 'the empty name; several processes storing at the same time; file systems other than local and memory', "stubs": ["fsspec file systems are a symbolic tree of names and contents (StubFS) in symbolic runs; native validation uses fsspec's local and memory file systems"], "must_cover": ["registry:history:end", "registry:history:missing", "registry:history:same name"]}


def c24(q):
    jobs = []
    for b in ("local", "memory"):
        jobs.append(("registry:history", {"ops": ["new"], "n": 2 if q else 3, "backend": b, "probe": False}, {}))
        jobs.append(("registry:history", {"ops": ["new", "new"], "n": 1, "backend": b, "probe": False}, {}))
        jobs.append(("registry:history", {"ops": ["new"], "n": 1, "backend": b, "probe": True}, {}))
    for chars, n in (([[46, 47]], 3 if q else 4), ([[37, 37], [48, 50], [69, 70], [97, 97]], 3), ([[32, 32], [43, 43], [37, 37], [46, 46]], 2)):
        jobs.append(("registry:history", {"ops": ["new", "new"], "n": n, "backend": "local", "chars": chars, "probe": False}, {}))
    for b in ("local", "memory"):
        jobs.append(("registry:history", {"ops": ["new", "new"], "n": 1, "backend": b, "listed": True, "probe": False}, {}))
    # names beyond the lengths that file systems allow, and below
    for b, k in (("memory", 100), ("memory", 254), ("memory", 255), ("memory", 400), ("local", 100)):
        jobs.append(("registry:history", {"ops": ["new", "new"], "n": 1, "backend": b, "chars": [[97, 98], [65, 65]], "long": k, "probe": False}, {}))
    return {"jobs": jobs, "bounds": 'one or two stored names of up to 2 (thorough 3) symbolic characters of ASCII, Latin-1, box drawing and emoji; names of up to 3 (4) dots and slashes and names of percent signs and hexadecimal digits; listed pairs of names that case folding or a Unicode normalisation would make equal; names of 100 to 400 letters that differ in the last one', "outside": 'the empty name; names longer than the file system allows; lone surrogates', "stubs": ["fsspec file systems are a symbolic tree of names and contents (StubFS) in symbolic runs; native validation uses fsspec's local and memory file systems"], "must_cover": ["registry:history:end"]}


def c25(q):
    jobs = []
    for how in ("crash", "error", "read"):
        for before in (0, 1) if q else (0, 1, 2):
            for op in ("new", "at"):
                jobs.append(("registry:fault", {"how": how, "before": before, "op": op}, {}))
    for op in ("new", "at"):
        for kind in ("bad", "unknown"):
            jobs.append(("registry:fault", {"how": "none", "before": 1, "op": op, "kind": kind}, {}))
    return {"jobs": jobs, "bounds": 'one put at its next or a given version, after up to 1 (thorough 2) earlier puts of symbolic names, interrupted at its first or second mkdirs, open, write, close, commit, move or remove by a crash or an I/O error, or observed there by a reader; a type that JSON cannot express', "outside": 'crashes inside the final rename; partially executed mkdirs; losing data that the operating system has not written', "stubs": ["fsspec file systems are a symbolic tree of names and contents (StubFS) in symbolic runs; native validation uses fsspec's local and memory file systems", "fault points around fsspec's local file system in native runs"], "must_cover": ["registry:fault:stored", "registry:fault:interrupted"]}


def c26(q):
    jobs = []
    bodies = ["int", "struct", "alias", "quoted", "missing", "sizes", "binary", "number", "type", "plain"]
    for m in ("POST", "PUT"):
        for k in bodies:
            jobs.append(("registry:http_history", {"ops": [[m, k]]}, {}))
            jobs.append(("registry:http_history", {"ops": [["PUT", "int"], [m, k]], "vmax": 2, "probe": False}, {}))
        if not q:
            for k in bodies:
                jobs.append(("registry:http_history", {"ops": [["POST", "int"], [m, k], ["PUT", "int"]], "vmax": 3, "probe": False}, {}))
        jobs.append(("registry:http_history", {"ops": [[m, "int"]], "chars": [[32, 46], [48, 126], [160, 255]], "n": 1 if q else 2, "probe": False}, {}))
    for a in ("POST", "PUT"):
        for b in ("POST", "PUT"):
            for e in (0, 1):
                jobs.append(("registry:http_race", {"methods": [a, b], "earlier": e}, {}))
            if not q:
                for c in ("POST", "PUT"):
                    jobs.append(("registry:http_race", {"methods": [a, b, c], "earlier": 0}, {}))
    return {"jobs": jobs, "bounds": 'one, two (thorough three) POST or PUT requests with every kind of valid and invalid body and content type, symbolic names and versions, followed by all reads; two (three) concurrent requests with every schedule of starts and body arrivals', "outside": 'several server processes; the HTTP server and FastAPI routing in symbolic runs (native validation runs the whole ASGI application for sequential requests)', "stubs": ["fsspec file systems are a symbolic tree of names and contents (StubFS) in symbolic runs; native validation uses fsspec's local and memory file systems", "starlette's Request is a stub whose body arrives when the schedule says so"], "must_cover": ["registry:http_history:end", "registry:http_history:rejected", "registry:http_history:conflict", "registry:http_history:missing", "registry:http_race:end", "registry:http_race:conflict"]}


def c20(q):
    jobs = []
    net = ["postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms"]
    for creds in ("", "u", "p", "up", "UP", "U", "P"):
        for host in ("sym", "v6"):
            jobs.append(("urls:safe_urls", {"urls": [{"creds": creds, "host": host, "port": "sym", "schemes": net}]}, {}))
            jobs.append(("urls:safe_urls", {"urls": [{"creds": creds, "host": host, "segments": [0, 1, 2], "slash": [0, 1, 2], "query": True, "fragment": True}]}, {}))
            if not q:
                jobs.append(("urls:safe_urls", {"n": 3, "urls": [{"creds": creds, "host": host, "segments": [0, 1, 2], "slash": [0, 1], "query": True, "schemes": net}]}, {}))
        jobs.append(("urls:safe_urls", {"n": 2 if q else 4, "urls": [{"creds": creds, "schemes": net, "segments": [0, 1]}]}, {}))
        jobs.append(("urls:safe_urls", {"urls": [{"creds": creds}, {"creds": "up"}, {"creds": "", "segments": [0, 1]}][: 2 if q else 3]}, {}))
    jobs.append(("urls:safe_urls", {"urls": []}, {}))
    jobs.append(("urls:safe_urls", {"n": 2, "urls": [{"creds": "", "host": "", "schemes": ["sqlite", "file", "bigquery"], "segments": [1, 2, 3], "slash": [0, 1], "query": True, "fragment": True}]}, {}))
    return {
        "jobs": jobs,
        "bounds": "up to " + ("2" if q else "3") + " configured URLs; every supported scheme; user and password each absent, plain or with one escaped character, up to " + ("2" if q else "4") + " symbolic characters; symbolic host names, IPv6 hosts, no host; every port or none; up to 3 path segments and 2 trailing slashes; a query parameter and a fragment or none",
        "outside": "characters that pydantic's URL type rewrites while loading the settings (its normal form is what the property speaks of); passwords given as query parameters",
        "stubs": ["pydantic's URL type is a stub with the same text in symbolic runs; native validation loads the settings with pydantic"],
        "must_cover": ["urls:safe_urls:end", "urls:safe_urls:credentials"],
    }


def c21(q):
    jobs = []
    for strict in (True, False):
        for k in (0, 1, 2):
            for r in (0, 1, 2, 3):
                jobs.append(("urls:merge", {"confs": [k], "req": r, "strict": strict}, {}))
                if r and (r < 3 or not q):
                    jobs.append(("urls:merge", {"confs": [k], "req": r, "strict": strict, "dots": True}, {}))
        jobs.append(("urls:merge", {"confs": [1], "req": 1, "strict": strict, "ports": [None, "sym"]}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 1, "strict": strict, "schemes": ["postgresql", "mysql", "http+csr", "https+csr"]}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 1, "strict": strict, "hosts": ["sym", "v6"], "ports": [None, 1]}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 1, "strict": strict, "hosts": ["name"], "req_hosts": ["name", ""]}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 0, "strict": strict, "hosts": ["name"], "ports": [None, 1]}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 1, "strict": strict, "hosts": ["sym"], "req_hosts": ["case"]}, {}))
        jobs.append(("urls:merge", {"confs": [1], "req": 2, "strict": strict, "creds": ["", "u", "p", "up"]}, {}))
        jobs.append(("urls:merge", {"confs": [1], "req": 1, "strict": strict, "query": True, "fragment": True}, {}))
        jobs.append(("urls:merge", {"confs": [1], "req": 2, "strict": strict, "own": True}, {}))
        jobs.append(("urls:merge", {"confs": [0], "req": 1, "strict": strict, "slash": [0, 1]}, {}))
        jobs.append(("urls:merge", {"confs": [1], "req": 1, "strict": strict, "slash": [0, 1]}, {}))
        jobs.append(("urls:merge", {"confs": [], "req": 1, "strict": strict}, {}))
        jobs.append(("urls:merge", {"confs": [0, 1], "req": 1, "strict": strict, "schemes": ["postgresql", "mysql"]}, {}))
        jobs.append(("urls:merge", {"confs": [1, 1], "req": 2, "strict": strict, "ports": [None, 1]}, {}))
        if not q:
            jobs.append(("urls:merge", {"confs": [1, 2, 0], "req": 2, "strict": strict, "dots": True}, {}))
            jobs.append(("urls:merge", {"confs": [1, 1], "req": 2, "strict": strict, "query": True, "schemes": ["postgresql", "mysql"]}, {}))
            jobs.append(("urls:merge", {"confs": [2], "req": 4, "strict": strict, "dots": True}, {}))
    return {
        "jobs": jobs,
        "bounds": "up to " + ("2" if q else "3") + " configured URLs of up to 2 path segments, a request of up to " + ("3" if q else "4") + " segments with . , .. and empty segments anywhere; symbolic hosts (up to 3 letters, digits, dots and hyphens; requests in either case or without one) and segments of up to 2 characters, ports, query parameters (equal or different keys) and fragments; strict and lenient",
        "outside": "which of several matching URLs is used; several values of one query parameter; blank query values; request paths that start with two slashes; escaped dots in paths",
        "stubs": ["pydantic's URL type is a stub with the same text in symbolic runs; native validation loads the settings with pydantic"],
        "must_cover": ["urls:merge:merged", "urls:merge:none"],
    }


def c22(q):
    jobs = []
    depth = {"postgresql": 3, "snowflake": 3, "mysql": 2, "thrift+hms": 2, "bigquery": 3, "http+csr": 1, "https+csr": 1}

    def job(scheme, method, nseg, **kw):
        jobs.append(("urls:reach", dict({"scheme": scheme, "method": method, "nseg": nseg, "creds": "up"}, **kw), {}))

    for s, d in depth.items():
        for strict in (True, False):
            for nseg in range(0, d + 2):
                if "csr" in s and nseg > d:
                    continue
                for m in ("ls", "schema"):
                    job(s, m, nseg, strict=strict, port="sym" if s == "thrift+hms" else None)
                    if not q and not (s in ("postgresql", "snowflake") and nseg > 1):
                        job(s, m, nseg, strict=strict, port=1, creds="u", n=2)
            for creds in ("", "u", "p", "UP"):
                if s != "bigquery":
                    job(s, "schema", d, strict=strict, creds=creds, port=1)
            job(s, "schema", d, strict=strict, port="sym")
            if s not in ("bigquery", "thrift+hms"):
                job(s, "ls", 0, strict=strict, port="sym", creds="UP")
                job(s, "ls", 0, strict=strict, host="v6", port=1)
            job(s, "schema", d, strict=strict, slash=1, port=1)
            job(s, "schema", d, strict=strict, port=1, extra="option")
            if s != "bigquery":
                job(s, "schema", d, strict=strict, port=1, extra="component")
                job(s, "ls", 0, strict=strict, port=1, extra="component")
        if "csr" in s:
            for m in ("ls", "schema"):
                for pre in ("/a", "/a/b"):
                    job(s, m, 1, prefix=pre)
    for strict in (True, False):
        for pre in ("", "/", "/."):
            for nseg in (0, 1, 2, 3):
                for m in ("ls", "schema"):
                    if m == "ls" and nseg == 0 or m == "schema" and nseg == 1 or pre == "/." and (strict or nseg == 0):
                        continue
                    job("sqlite", m, nseg, strict=strict, prefix=pre)
                    if nseg == (1 if m == "ls" else 2):
                        job("sqlite", m, nseg, strict=strict, prefix=pre, extra="option")
                        job("sqlite", m, nseg, strict=strict, prefix=pre, extra="component")
    for pre in ("/file:m", "/file:a/b"):
        for strict in (True, False):
            job("sqlite", "ls", 0, strict=strict, prefix=pre, extra="uri")
            job("sqlite", "schema", 1, strict=strict, prefix=pre, extra="uri")
    jobs.append(("urls:unknown", {"n": 4 if q else 9}, {}))
    return {
        "jobs": jobs,
        "bounds": "ls and schema of every scheme with 0 to 4 path segments over a system with one table of symbolic names; URLs with their own credentials (CLI) and with those of the settings (gateway); symbolic host, port, user and password (plain and escaped), option parameters (for SQLite with the values the driver needs, and SQLite's own URIs), and a parameter named like each component of a URL; any other scheme of up to " + ("4" if q else "9") + " letters",
        "outside": "escaped characters in database, schema and table names; connection options of the drivers that redirect them (hostaddr, unix_socket, service); upper case schemes; Hive without a port; the message of errors for Hive and BigQuery URLs with too many or few names",
        "stubs": ["psycopg2.connect, mysql.connector.connect, snowflake.connector.connect, sqlite3.connect, HMS.create, SchemaRegistryClient and bigquery.Client record what they are given and answer with the stub systems of C14, C17, C18 and C27: no server is available offline"],
        "must_cover": ["urls:reach:ls", "urls:reach:schema", "urls:reach:login", "urls:reach:invalid", "urls:reach:uri", "urls:unknown:end"],
    }


def c28(q):
    jobs = []
    known = ["avsc", "avro", "avdl", "avpr", "json", "jsonschema", "jsons", "proto", "protobuf", "protos", "proto3", "proto2"]
    for form in ("url", "path", "relative"):
        for s in known + ["", "sym1", "sym2", "sym3", "sym4", "sym5"] + ([] if q else ["sym6", "sym8"]):
            for deep in (False, True):
                if q and deep and s not in ("avsc", "json", "proto"):
                    continue
                jobs.append(("front:files", {"suffix": s, "form": form, "deep": deep, "n": 1 if q else 2}, {}))
    for k in ("avro", "json", "proto", "other"):
        jobs.append(("front:subjects", {"kind": k, "n": 4 if q else 7}, {}))
    return {
        "jobs": jobs,
        "bounds": "files of every documented suffix in lower, upper and title case and of any other suffix of up to " + ("5" if q else "8") + " letters or digits, symbolic file and directory names, named by file URL, absolute and relative path, next to a second file; subjects of up to " + ("4" if q else "7") + " symbolic characters plus an ending, next to the subjects they could be mistaken for; every schema type",
        "outside": "escaped characters, question marks and number signs in file names; hidden files; Avro IDL; file systems other than the local one",
        "stubs": ["files are a table of symbolic names in symbolic runs; native validation reads files of a scratch directory", "the Confluent client is a stub holding subjects"],
        "must_cover": ["front:files:avro", "front:files:json", "front:files:proto", "front:files:unknown", "front:files:ls", "front:subjects:avro subject", "front:subjects:json subject", "front:subjects:proto subject", "front:subjects:unknown subject"],
    }


def c29(q):
    jobs = []
    for via in ("command", "lenient", "cli", "http"):
        for s in (["int"], ["string"], ["list"], ["map"], ["struct"], ["void"], ["int", "string"]) + (() if q else (["struct", "list"], ["map", "int", "string"])):
            jobs.append(("front:schemas", {"via": via, "shapes": s}, {}))
        for s in (["int"], ["list"], ["map", "string"], ["enum"], ["long"]) + (() if q else (["int", "enum", "list"],)):
            jobs.append(("front:schemas", {"via": via, "shapes": s, "source": "csr"}, {}))
        for w in ("other host", "other port", "nothing"):
            jobs.append(("front:schemas", {"via": via, "shapes": ["int"], "where": w}, {}))
            for n in (0, 1):
                jobs.append(("front:listing", {"via": via, "nseg": n, "where": w}, {}))
        for n in (None, 0, 1):
            jobs.append(("front:listing", {"via": via, "nseg": n}, {}))
        jobs.append(("front:listing", {"via": via, "nseg": None, "where": "nothing"}, {}))
    jobs.append(("front:content_types", {"kind": "near"}, {}))
    jobs.append(("front:content_types", {"kind": "sym", "n": 3 if q else 6}, {}))
    return {
        "jobs": jobs,
        "bounds": "schemas of up to " + ("2" if q else "3") + " columns of every shape with symbolic names and comments from Hive and from a Confluent registry, every output format, through commands (strict and lenient), the command line and the gateway; requests for configured and other hosts and ports; content types listed and of up to " + ("3" if q else "6") + " other characters",
        "outside": "the text of error messages; the HTTP status of errors other than 415; Protobuf for schemas without a name, which the converter rejects (upstream issue 397); colours and spacing of printed JSON; serve",
        "stubs": ["printing is recorded as data and Protobuf text as its syntax tree in symbolic runs; native validation runs the real command line and ASGI application and the real generator"],
        "must_cover": ["front:schemas:%s %s" % (v, f) for v in ("command", "cli", "http") for f in ("avro", "json", "protobuf", "recap")] + ["front:schemas:refused", "front:listing:refused", "front:listing:ls cli", "front:listing:ls http", "front:content_types:unknown type"],
    }


PLANS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}
