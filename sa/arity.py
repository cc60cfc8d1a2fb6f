"""How many arguments the functions, constructors and methods of Python's library accept: (at least, at most, keywords).

A call outside these raises TypeError before the callee does anything.  `None` stands for any number / any keywords.
"""
FUNCTIONS = {
    "isinstance": (2, 2, ()), "issubclass": (2, 2, ()), "getattr": (2, 3, ()), "hasattr": (2, 2, ()), "setattr": (3, 3, ()),
    "delattr": (2, 2, ()), "len": (1, 1, ()), "iter": (1, 2, ()), "next": (1, 2, ()), "any": (1, 1, ()), "all": (1, 1, ()),
    "sum": (1, 2, ("start",)), "callable": (1, 1, ()), "vars": (0, 1, ()), "repr": (1, 1, ()), "hash": (1, 1, ()),
    "id": (1, 1, ()), "abs": (1, 1, ()), "round": (1, 2, ("number", "ndigits")), "sorted": (1, 1, ("key", "reverse")),
    "max": (1, None, ("key", "default")), "min": (1, None, ("key", "default")), "divmod": (2, 2, ()), "format": (1, 2, ()),
    "ascii": (1, 1, ()), "chr": (1, 1, ()), "ord": (1, 1, ()), "hex": (1, 1, ()), "bin": (1, 1, ()), "super": (0, 2, ()),
    "get_origin": (1, 1, ("tp",)), "get_args": (1, 1, ("tp",)), "cast": (2, 2, ("typ", "val")),
    "is_dataclass": (1, 1, ("obj",)), "fields": (1, 1, ("class_or_instance",)), "reduce": (2, 3, ()),
    "import_module": (1, 2, ("name", "package")), "getLogger": (0, 1, ("name",)), "copy": (1, 1, ("x",)),
    "deepcopy": (1, 3, ("x", "memo", "_nil")), "chain.from_iterable": (1, 1, ()), "unique": (1, 1, ()),
}
CONSTRUCTORS = {
    list: (0, 1, ()), tuple: (0, 1, ()), set: (0, 1, ()), frozenset: (0, 1, ()), dict: (0, 1, None), bool: (0, 1, ()),
    str: (0, 3, ("object", "encoding", "errors")), int: (0, 2, ("base",)), float: (0, 1, ()),
    bytes: (0, 3, ("source", "encoding", "errors")), range: (1, 3, ()), zip: (0, None, ("strict",)),
    enumerate: (1, 2, ("iterable", "start")), map: (2, None, ()), filter: (2, 2, ()), reversed: (1, 1, ()), slice: (1, 3, ()),
    staticmethod: (1, 1, ()), classmethod: (1, 1, ()),
}
_NONE, _ONE = (0, 0, ()), (1, 1, ())
METHODS = {
    **{f"str.{n}": _NONE for n in "lower upper casefold title capitalize swapcase isdigit isalpha isalnum isidentifier isspace "
                                  "islower isupper istitle isnumeric isdecimal isascii isprintable".split()},
    **{f"str.{n}": _ONE for n in "join partition rpartition removeprefix removesuffix zfill translate".split()},
    **{f"str.{n}": (0, 1, ()) for n in "strip lstrip rstrip".split()},
    **{f"str.{n}": (1, 3, ()) for n in "startswith endswith find rfind index rindex count".split()},
    **{f"str.{n}": (0, 2, ("sep", "maxsplit")) for n in ("split", "rsplit")},
    **{f"str.{n}": (1, 2, ()) for n in ("ljust", "rjust", "center")},
    "str.replace": (2, 3, ()), "str.splitlines": (0, 1, ("keepends",)), "str.encode": (0, 2, ("encoding", "errors")),
    **{f"dict.{n}": _NONE for n in ("keys", "values", "items", "copy", "clear", "popitem")},
    "dict.get": (1, 2, ()), "dict.pop": (1, 2, ()), "dict.setdefault": (1, 2, ()), "dict.update": (0, 1, None),
    **{f"list.{n}": _ONE for n in ("append", "extend", "remove", "count")},
    **{f"list.{n}": _NONE for n in ("copy", "clear", "reverse")},
    "list.pop": (0, 1, ()), "list.insert": (2, 2, ()), "list.index": (1, 3, ()), "list.sort": (0, 0, ("key", "reverse")),
    **{f"set.{n}": _ONE for n in ("add", "discard", "remove", "issubset", "issuperset", "isdisjoint", "symmetric_difference")},
    **{f"set.{n}": _NONE for n in ("copy", "clear", "pop")},
    "tuple.count": _ONE, "tuple.index": (1, 3, ()),
}


def fits(spec, args, kwargs):
    lo, hi, kws = spec
    if kws is not None:
        if any(k not in kws for k in kwargs):
            return False
        if lo and kws:
            return lo <= len(args) + len(kwargs) and (hi is None or len(args) <= hi)
    return lo <= len(args) and (hi is None or len(args) <= hi)
