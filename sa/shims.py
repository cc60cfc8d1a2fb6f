"""Standard library helpers as plain Python, interpreted like the analysed code (they are not part of the repository)."""
import ast

SHIMS = {
    "contextlib": '''
class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, *a):
        return None

class closing:
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, *a):
        self.thing.close()

class ExitStack:
    def __init__(self):
        self._cbs = []
    def __enter__(self):
        return self
    def enter_context(self, cm):
        ex = type(cm).__exit__
        r = type(cm).__enter__(cm)
        self._cbs.append(lambda *a: ex(cm, *a))
        return r
    def push(self, ex):
        if hasattr(type(ex), "__exit__"):
            self._cbs.append(lambda *a: type(ex).__exit__(ex, *a))
        else:
            self._cbs.append(ex)
        return ex
    def callback(self, f, *args, **kw):
        def cb(*a):
            f(*args, **kw)
        self._cbs.append(cb)
        return f
    def pop_all(self):
        s = ExitStack()
        s._cbs, self._cbs = self._cbs, []
        return s
    def close(self):
        self.__exit__(None, None, None)
    def __exit__(self, t, e, tb):
        swallowed = False
        raised = None
        while self._cbs:
            cb = self._cbs.pop()
            try:
                if cb(t, e, tb):
                    swallowed, raised = True, None
                    t = e = tb = None
            except BaseException as x:
                raised = x
                t, e, tb = type(x), x, None
        if raised is not None:
            raise raised
        return swallowed
''',
    "itertools": '''
def filterfalse(f, it):
    for x in it:
        if not (bool(x) if f is None else f(x)):
            yield x

_missing = object()

def accumulate(it, func=None, *, initial=None):
    it = iter(it)
    total = initial
    if initial is None:
        for total in it:
            break
        else:
            return
    yield total
    for x in it:
        total = total + x if func is None else func(total, x)
        yield total

def pairwise(it):
    prev = _missing
    for x in it:
        if prev is not _missing:
            yield (prev, x)
        prev = x

def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d

def batched(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield tuple(b)
            b = []
    if b:
        yield tuple(b)

def cycle(it):
    xs = list(it)
    n = 0
    while xs:
        for x in xs:
            n += 1
            if n > 300:
                unsupported("unbounded cycle()")
            yield x
''',
    "functools": '''
def cmp_to_key(cmp):
    class K:
        def __init__(self, obj):
            self.obj = obj
        def __lt__(self, other):
            return cmp(self.obj, other.obj) < 0
        def __gt__(self, other):
            return cmp(self.obj, other.obj) > 0
        def __eq__(self, other):
            return cmp(self.obj, other.obj) == 0
        def __le__(self, other):
            return cmp(self.obj, other.obj) <= 0
        def __ge__(self, other):
            return cmp(self.obj, other.obj) >= 0
    return K

class singledispatch:
    def __init__(self, func):
        self.registry = {object: func}
        self.__wrapped__ = func
    def register(self, cls, func=None):
        if func is None:
            if isinstance(cls, type):
                return lambda f: self.register(cls, f)
            import typing
            func, cls = cls, next(iter(typing.get_type_hints(cls).values()))
        self.registry[cls] = func
        return func
    def _order(self):
        out = []
        for c in self.registry:
            i = 0
            while i < len(out) and not issubclass(c, out[i]):
                i += 1
            out.insert(i, c)
        return out
    def dispatch(self, cls):
        for c in self._order():
            if issubclass(cls, c):
                return self.registry[c]
    def __call__(self, *args, **kw):
        if not args:
            raise TypeError("requires at least 1 positional argument")
        for c in self._order():
            if isinstance(args[0], c):
                return self.registry[c](*args, **kw)

class partialmethod:
    def __init__(self, func, *args, **kw):
        self.func, self.args, self.kw = func, args, kw
    def __get__(self, obj, cls=None):
        f = self.func.__get__(obj, cls)
        return lambda *a, **k: f(*self.args, *a, **{**self.kw, **k})
''',
    "collections": '''
class UserDict:
    def __init__(self, dict=None, /, **kw):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kw:
            self.update(kw)
    def __len__(self):
        return len(self.data)
    def __getitem__(self, k):
        if k in self.data:
            return self.data[k]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, k)
        raise KeyError(k)
    def __setitem__(self, k, v):
        self.data[k] = v
    def __delitem__(self, k):
        del self.data[k]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, k):
        return k in self.data
    def get(self, k, default=None):
        return self[k] if k in self else default
    def keys(self):
        return self.data.keys()
    def values(self):
        return self.data.values()
    def items(self):
        return self.data.items()
    def update(self, other=(), /, **kw):
        if hasattr(other, "keys"):
            for k in other.keys():
                self[k] = other[k]
        else:
            for k, v in other:
                self[k] = v
        for k, v in kw.items():
            self[k] = v
    def setdefault(self, k, default=None):
        if k not in self:
            self[k] = default
        return self[k]
    def pop(self, k, *d):
        if k in self or not d:
            v = self[k]
            del self[k]
            return v
        return d[0]
    def clear(self):
        self.data.clear()
    def copy(self):
        return self.__class__(self.data)
    def __eq__(self, other):
        return dict(self.data) == (other.data if isinstance(other, UserDict) else other)

class Counter(dict):
    def __init__(self, it=None, /, **kw):
        self.update(it, **kw)
    def __missing__(self, k):
        return 0
    def update(self, it=None, /, **kw):
        if it is not None and hasattr(it, "keys"):
            for k in it.keys():
                self[k] = self[k] + it[k]
        elif it is not None:
            for k in it:
                self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v
    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda p: p[1], reverse=True)
        return r if n is None else r[:n]
    def elements(self):
        for k, v in self.items():
            for _ in range(v):
                yield k

class UserList:
    def __init__(self, initlist=None):
        self.data = list(initlist) if initlist is not None else []
    def __len__(self):
        return len(self.data)
    def __getitem__(self, i):
        return self.data[i]
    def __setitem__(self, i, v):
        self.data[i] = v
    def __delitem__(self, i):
        del self.data[i]
    def __iter__(self):
        return iter(self.data)
    def __contains__(self, x):
        return x in self.data
    def append(self, x):
        self.data.append(x)
    def extend(self, xs):
        self.data.extend(xs)
    def insert(self, i, x):
        self.data.insert(i, x)
    def pop(self, i=-1):
        return self.data.pop(i)
    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, UserList) else other)
''',
    "weakref": '''
class WeakKeyDictionary(dict):
    pass

class WeakValueDictionary(dict):
    pass

class WeakSet(set):
    pass
''',
    "threading": '''
class _Lock:
    def acquire(self, blocking=True, timeout=-1):
        return True
    def release(self):
        pass
    def locked(self):
        return False
    def __enter__(self):
        return True
    def __exit__(self, *a):
        return None

Lock = RLock = Semaphore = BoundedSemaphore = Condition = _Lock

class local:
    pass
''',
    "contextvars": '''
_none = object()

class Token:
    def __init__(self, var, old_value):
        self.var, self.old_value = var, old_value

class ContextVar:
    def __init__(self, name, *, default=_none):
        self.name = name
        self._default = default
        self._value = _none
    def get(self, *d):
        if self._value is not _none:
            return self._value
        if d:
            return d[0]
        if self._default is not _none:
            return self._default
        raise LookupError(self)
    def set(self, v):
        t = Token(self, self._value)
        self._value = v
        return t
    def reset(self, t):
        self._value = t.old_value
''',
    "io": '''
class StringIO:
    def __init__(self, initial_value="", newline=None):
        self._parts = [initial_value]
        self._read = False
    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected")
        self._parts.append(s)
        return len(s)
    def writelines(self, lines):
        for l in lines:
            self.write(l)
    def getvalue(self):
        return "".join(self._parts)
    def read(self):
        if self._read:
            return ""
        self._read = True
        return "".join(self._parts)
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return None
''',
    "inspect": '''
def isclass(x):
    return isinstance(x, type)

def isabstract(x):
    return bool(isinstance(x, type) and getattr(x, "__abstractmethods__", None))

def cleandoc(s):
    return s
''',
    "bisect": '''
def bisect_left(a, x, lo=0, hi=None, *, key=None):
    i = lo
    n = len(a) if hi is None else hi
    while i < n and (a[i] if key is None else key(a[i])) < x:
        i += 1
    return i

def bisect_right(a, x, lo=0, hi=None, *, key=None):
    i = lo
    n = len(a) if hi is None else hi
    while i < n and not (x < (a[i] if key is None else key(a[i]))):
        i += 1
    return i

bisect = bisect_right

def insort_right(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_right(a, x if key is None else key(x), lo, hi, key=key), x)

def insort_left(a, x, lo=0, hi=None, *, key=None):
    a.insert(bisect_left(a, x if key is None else key(x), lo, hi, key=key), x)

insort = insort_right
''',
    "heapq": '''
def heappush(h, x):
    i = 0
    while i < len(h) and not (x < h[i]):
        i += 1
    h.insert(i, x)

def heappop(h):
    return h.pop(0)

def heapify(h):
    h.sort()

def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]

def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]

def merge(*its, key=None, reverse=False):
    return iter(sorted((x for it in its for x in it), key=key, reverse=reverse))
''',
}

TREES = {n: ast.parse(t) for n, t in SHIMS.items()}
