import sys; sys.path.insert(0, "/verif")
from tools.seed import seed
T = "recap/types.py"
seed("S01", "C01", {T: [("""            if k not in param_defaults or param_defaults[k] != v
""", """            if (k not in param_defaults or param_defaults[k] != v)
            and not (k == "length" and not type_dict.get("variable", True))
""")]}, '''
from recap.types import *
t = ListType(BoolType(), length=4, variable=False)
assert from_dict(to_dict(t, clean=False)) == t
d = to_dict(t)
try:
    back = from_dict(d)
except Exception as e:
    raise SystemExit(f"{d}: {e}")
assert back == t, d
''', "a fixed-length list written with clean=True", "the length of fixed-length lists is dropped from the cleaned dictionary")
seed("S02", "C03", {T: [("""            raise ValueError("Fixed length lists must have a length set")
""", """            raise ValueError("Fixed length lists must have a length set")
        elif not self.variable and self.length is not None and self.length > 0:
            return
""")]}, '''
from recap.types import *
try:
    from_dict({"type": "list", "values": "bool", "variable": False, "length": 2**63})
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''', "a fixed-length list longer than 2^63-1", "the upper limit of the length is not enforced for fixed-length lists")
seed("S03", "C05", {T: [("""        if fullmatch(ALIAS_REGEX, alias) is None:""", """        if match(ALIAS_REGEX, alias) is None:"""), ("from re import fullmatch", "from re import match")]}, '''
from recap.types import *
for a in ("a.b\\n", "a.b c"):
    try:
        from_dict({"type": "int", "bits": 32, "alias": a})
    except ValueError:
        continue
    raise SystemExit(f"{a!r} accepted")
''', "an alias that ends in a newline", "the dollar sign of the pattern also matches before a final newline")
seed("S04", "C06", {T: [("""        if not list(filter(lambda t: isinstance(t, NullType), type_copy.types)):""", """        if NullType() not in type_copy.types:""")]}, '''
from recap.types import *
t = UnionType([NullType(doc="nothing"), IntType(32)])
n = t.make_nullable()
assert len(n.types) == 2, n
''', "a union whose null member has a doc or another attribute", "a second null is added to unions that are already nullable")
