"""C02: serialization yields output only for values of the declared type."""
from .common import *

RULE = ("for every declared type and every kind of runtime value that is not of that type, every path of serialize() "
        "ends in a ConversionError; nothing is returned")


def cases():
    for h, (expr, _, _) in HINTS.items():
        ok = value_kinds(h)
        for k, v in KINDS.items():
            if k in ok:
                continue
            yield case(f"serialize a {k} value as {h} ({expr})", TYPES, f"""
v = {v}
r = attempt(M.serialize, v, {expr})
claim(r[0] != "ok", "a value of kind {k} is serialized as {expr}, giving", r[1])
claim(r[0] != "exc", "serializing a value of kind {k} as {expr} escapes with", r[1])
""")
