"""C03: deserialization accepts only the payload kind the declared type calls for."""
from .common import *

RULE = ("for every declared type and every kind of payload the type does not call for, every path of deserialize() "
        "ends in a ConversionError; nothing is returned")


def cases():
    for h, (expr, ok, _) in HINTS.items():
        for k, v in KINDS.items():
            if k in ok:
                continue
            yield case(f"deserialize a {k} payload as {h} ({expr})", TYPES, f"""
v = {v}
r = attempt(M.deserialize, v, {expr})
claim(r[0] != "ok", "a payload of kind {k} is deserialized as {expr}, giving", r[1])
claim(r[0] != "exc", "deserializing a payload of kind {k} as {expr} escapes with", r[1])
""")
    for h, n in (("Tuple[int, Optional[str]]", 2), ("Tuple[int, Any]", 2), ("Tuple[Optional[int], Optional[int], Optional[int]]", 3), ("Tuple[Any, Any]", 2), ("tuple[int, None]", 2),
                 ("Tuple[Optional[int]]", 1), ("Tuple[()]", 0), ("Tuple[int, List[int]]", 2), ("Tuple[bool, Dict[str, int]]", 2), ("Tuple[str, str]", 2), ("Tuple[int, t.Union[str, None]]", 2)):
        yield case(f"payloads with another number of elements as {h}", TYPES, f"""
e = choice("element", None, 0, 1, 's', '', True, [], {{}})
for n in range(6):
    if n != {n}:
        for p in ([e] * n, tuple([e] * n), [1, None, None, None, None, None][:n], [True, {{}}, 1, 1, 1, 1][:n], ['a'] * n):
            r = attempt(M.deserialize, p, {h})
            claim(r[0] == "conv", "a payload of", n, "elements,", p, ", is deserialized as {h}, giving", r[1])
""")
    for h in ("Pt", "TD", "NT", "TDPart", "Nested", "Flat", "Keyed", "Dict[str, Any]", "Mapping[str, Optional[int]]", "List[Any]", "Tuple[Any, ...]", "Set[Any]", "int", "str", "bool", "Decimal", "date", "Color", "uuid.UUID", "pathlib.Path", "duration"):
        yield case(f"empty payloads of another kind as {h}", TYPES, f"""
mapping = {h in ("Pt", "TD", "NT", "TDPart", "Nested", "Flat", "Keyed", "Dict[str, Any]", "Mapping[str, Optional[int]]")}
coll = {h in ("List[Any]", "Tuple[Any, ...]", "Set[Any]")}
v = choice("payload", None, 0, False, '', b'', [], (), {{}}, set(), frozenset(), 0.0, collections.deque())
if mapping and isinstance(v, dict) or coll and isinstance(v, (list, tuple, set, frozenset, collections.deque)) or exact(v, str) or {h} in (int, str, bool, duration):
    pass
else:
    r = attempt(M.deserialize, v, {h})
    claim(r[0] == "conv", "the payload", v, "is deserialized as {h}, giving", r[1])
if {h} is bool and v is not False or {h} is str and not exact(v, str) or {h} is int and (isinstance(v, bool) or not isinstance(v, (int, float))):
    r = attempt(M.deserialize, v, {h})
    claim(r[0] == "conv", "the payload", v, "is deserialized as {h}, giving", r[1])
""")
