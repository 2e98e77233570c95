"""Type universe: Rust types that may cross the border, values of them, encodings.

A type is a tuple: ('p', prim) ('String',) ('str',) ('path',) ('unit',) ('enum', E)
('cls', C, form) with form val|ref|mut  ('repr', R) ('opt', T) ('res', T, E) ('vec', T)
('slice', T) ('mslice', T) ('tup', (T, ...)) ('date',)
"""
import struct

INTS = "i8 u8 i16 u16 i32 u32 i64 u64 isize usize".split()
PRIMS = ["bool"] + INTS + ["f32", "f64"]
RANGE = {}
for _t in INTS:
    _b = 64 if _t.endswith("size") else int(_t[1:])
    RANGE[_t] = (0, 2**_b - 1) if _t[0] == "u" else (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)


def P(x):
    return ("p", x)


STORAGE_TYPE = {
    "plain": "{c}", "clone": "{c}", "pod": "{c}",
    "rc": "Rc<RefCell<{c}>>", "arcmutex": "Arc<Mutex<{c}>>", "arc": "Arc<{c}>",
    "arcrw": "Arc<RwLock<{c}>>", "box": "Box<{c}>", "rcplain": "Rc<{c}>", "mutex": "Mutex<{c}>",
}
SHARED = ("rc", "arcmutex", "arc", "arcrw", "rcplain")


def rust(T, spec, static=False, lt=""):
    """Rust spelling; static=True gives references the 'static lifetime."""
    r = lambda t: rust(t, spec, static, lt)
    amp = "&'static " if static else "&" + lt
    k = T[0]
    if k == "p":
        return T[1]
    if k == "String":
        return "String"
    if k == "str":
        return amp + "str"
    if k == "path":
        return amp + "Path"
    if k == "unit":
        return "()"
    if k in ("enum", "repr"):
        return T[1]
    if k == "cls":
        c = T[1]
        if T[2] == "val":
            return STORAGE_TYPE[spec.cls(c).storage].format(c=c)
        if T[2] == "inner":
            return c
        return (amp if T[2] == "ref" else amp + "mut ") + c
    if k == "opt":
        return f"Option<{r(T[1])}>"
    if k == "res":
        return f"Result<{r(T[1])}, {r(T[2])}>"
    if k == "vec":
        return f"Vec<{r(T[1])}>"
    if k == "slice":
        return f"{amp}[{r(T[1])}]"
    if k == "mslice":
        return f"{amp}mut [{r(T[1])}]"
    if k == "tup":
        return "(" + ", ".join(r(t) for t in T[1]) + ")"
    if k == "ref":
        return amp + r(T[1])
    if k == "err":
        return "TErr"
    if k == "eerr":
        return T[1]
    if k == "date":
        return "SystemTime"
    if k == "cb":
        return f"Box<dyn {T[1]}>"
    if k in ("um", "nt"):
        return T[1]
    if k == "wr":
        return f"{'Wb' if len(T) > 2 else 'Wr'}<{r(T[1])}>"
    if k == "ptr":
        return f"*{T[1]} {r(T[2])}"
    if k in ("fut", "cfn"):
        return k + "(" + ", ".join(r(t) for t in T[1]) + ")"
    raise KeyError(T)


def walk(T):
    yield T
    for x in T[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from walk(x)
            else:
                for y in x:
                    yield from walk(y)


# ---------------------------------------------------------------- values

STR_POOL = ["", "a", "\0", "x\0y", "é", "ß", "Привет", "日本語", "\U0001F600", "a\U0001F600b\U00010000",
            "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff", "\ud7ff", "\ue000", "\ufeff", "line\nbreak\r\t",
            "\"quote\\", "%s%n{}", "a" * 15, "a" * 16, "b" * 22, "c" * 23, "d" * 4096]


def gen_str(rng, nul=True):
    r = rng.random()
    if r < 0.009:       # longer than 16 bits can count
        s = rng.choice(["e" * 65536, "é" * 40000, "x\U0001F600" * 17000])
    elif r < 0.5:
        s = rng.choice(STR_POOL)
    else:
        n = rng.choice([1, 2, 3, 7, 8, 30, 200])
        pool = rng.choice([[(0x20, 0x7e)], [(0x20, 0x7e), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)],
                           [(0, 0x10), (0x7f, 0x81)]])
        s = ""
        for _ in range(n):
            a, b = rng.choice(pool)
            s += chr(rng.randint(a, b))
    if not nul:
        s = s.replace("\0", "0")
    return s.encode()


def gen_prim(rng, t):
    if t == "bool":
        return rng.random() < 0.5
    if t in RANGE:
        lo, hi = RANGE[t]
        r = rng.random()
        if r < 0.5:
            return rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, 2, max(lo, -1), hi // 2, hi // 2 + 1, max(lo, -128), 127,
                               min(hi, 128), min(hi, 255), min(hi, 256), min(hi, 65535), min(hi, 65536), min(hi, 2**31),
                               min(hi, 2**32 - 1), min(hi, 2**32), min(hi, 2**53 + 1)])
        if r < 0.8:
            return rng.randint(lo, hi)
        return rng.randint(max(lo, -1000), min(hi, 1000))
    f = "<f" if t == "f32" else "<d"
    i = "<I" if t == "f32" else "<Q"
    r = rng.random()
    if r < 0.5:
        x = rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, float("inf"), float("-inf"), "nan", 3.0e38, 1e-38, 16777217.0, 0.1])
        if x == "nan":
            return "nan"
        return struct.unpack(i, struct.pack(f, x))[0]
    while True:
        b = rng.getrandbits(32 if t == "f32" else 64)
        x = struct.unpack(f, struct.pack(i, b))[0]
        if x == x:
            return b


def fbits(t, b):
    if b == "nan":
        return float("nan")
    return struct.unpack("<f" if t == "f32" else "<d", struct.pack("<I" if t == "f32" else "<Q", b))[0]


class Bad:
    """A value that does not fit where it stands (checks of rejections only)."""

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return f"Bad({self.kind})"


def enc(T, v, cls):
    """Canonical token list of a value; cls(T, v) encodes objects."""
    k = T[0]
    if type(v) is Bad:
        return ["!" + v.kind]
    if k == "ref":
        return enc(T[1], v, cls)
    if k in ("err", "eerr"):
        return cls(T, v)
    if k == "p":
        t = T[1]
        if t == "bool":
            return ["b1" if v else "b0"]
        if t == "f32":
            return ["gnan" if v == "nan" else "g%d" % v]
        if t == "f64":
            return ["fnan" if v == "nan" else "f%d" % v]
        return ["i%d" % v]
    if k in ("String", "str", "path"):
        return ["s" + v.hex()]
    if k == "unit":
        return ["u"]
    if k == "enum":
        return ["e%d" % v]
    if k == "cls":
        return cls(T, v)
    if k == "repr":
        return ["T%d" % len(v)] + [x for t, y in zip(T[2], v) for x in enc(t, y, cls)]
    if k == "opt":
        return ["N"] if v is None else ["S"] + enc(T[1], v[0], cls)
    if k == "res":
        return [v[0]] + enc(T[1] if v[0] == "O" else T[2], v[1], cls)
    if k in ("vec", "slice", "mslice"):
        return ["V%d" % len(v)] + [x for y in v for x in enc(T[1], y, cls)]
    if k == "tup":
        return ["T%d" % len(v)] + [x for t, y in zip(T[1], v) for x in enc(t, y, cls)]
    if k == "date":
        return ["i%d" % v]
    if k == "cb":
        return ["cb%d" % v]
    if k == "um":
        return enc(P(T[2]), v, cls)
    if k == "nt":
        return enc(T[2], v, cls)
    if k == "wr":
        return ["T2", "i%d" % v[0]] + enc(T[1], v[1], cls)
    if k == "ptr":
        return ["N"] if v is None else ["S"] + enc(T[2], v[0], cls)
    if k in ("fut", "cfn"):
        return ["T%d" % len(v)] + [x for t, y in zip(T[1], v) for x in enc(t, y, cls)]
    raise KeyError(T)


def gen(T, rng, obj, nul=True, lim=None):
    """Random value; obj(T) supplies values of class types (None: impossible)."""
    g = lambda t: gen(t, rng, obj, nul, lim)
    k = T[0]
    if k == "p":
        v = gen_prim(rng, T[1])
        return lim(T[1], v) if lim else v
    if k in ("String", "str"):
        return gen_str(rng, nul)
    if k == "path":
        return gen_str(rng, False)
    if k == "ref":
        return g(T[1])
    if k == "err":
        return [gen_str(rng, nul) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if k == "eerr":
        return rng.randrange(T[2])
    if k == "unit":
        return ()
    if k == "enum":
        return min(T[2] - 1, rng.choice([rng.randrange(T[2]), 255, 256, T[2] - 1])) if T[2] > 255 else rng.randrange(T[2])
    if k == "cls":
        return obj(T)
    if k == "repr":
        return tuple(g(t) for t in T[2])
    if k == "opt":
        return None if rng.random() < 0.35 else (g(T[1]),)
    if k == "res":
        return ("O", g(T[1])) if rng.random() < 0.6 else ("E", g(T[2]))
    if k in ("vec", "slice", "mslice"):
        big = rng.random()
        if big < 0.02 and T[1][0] in ("p", "enum", "String", "um", "cls"):
            n = 66000 if big < 0.005 and T[1][0] == "p" else 300 if not has_cls(T) else 40
        else:
            n = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 17]) if not has_cls(T) else rng.choice([0, 1, 2, 3, 5])
        return [g(T[1]) for _ in range(n)]
    if k == "tup":
        return tuple(g(t) for t in T[1])
    if k == "um":
        return g(P(T[2]))
    if k == "nt":
        return g(T[2])
    if k == "wr":
        return (gen_prim(rng, "i64"), g(T[1]))
    if k == "ptr":
        return None if rng.random() < 0.3 else (g(T[2]),)
    if k in ("fut", "cfn"):
        return tuple(g(t) for t in T[1])
    if k == "date":
        return rng.choice([0, 1, 999, 1000, 1500, 10**12, rng.randint(0, 4 * 10**12), rng.randint(0, 10**14)])
    raise KeyError(T)


def has_cls(T):
    return any(t[0] == "cls" for t in walk(T))


def objs(T, v):
    """(T, v) of every class value inside, in encoding order."""
    k = T[0]
    if type(v) is Bad:
        return
    if k == "cls":
        yield T, v
    elif k == "ref":
        yield from objs(T[1], v)
    elif k == "opt":
        if v is not None:
            yield from objs(T[1], v[0])
    elif k == "res":
        yield from objs(T[1] if v[0] == "O" else T[2], v[1])
    elif k in ("vec", "slice", "mslice"):
        for x in v:
            yield from objs(T[1], x)
    elif k in ("tup", "fut", "cfn"):
        for t, x in zip(T[1], v):
            yield from objs(t, x)
    elif k == "nt":
        yield from objs(T[2], v)
    elif k == "wr":
        yield from objs(T[1], v[1])


def size_of(v):
    """Rough size used by the shrinker and the non-triviality rules."""
    if isinstance(v, (bytes, list, tuple)):
        return 1 + (len(v) if isinstance(v, bytes) else sum(size_of(x) for x in v))
    return 1


def simplify(T, v):
    """Smaller candidate values (for shrinking); class handles stay."""
    if type(v) is Bad:
        return
    k = T[0]
    if k == "p":
        z = False if T[1] == "bool" else 0
        if v != z:
            yield z
            if isinstance(v, int) and T[1] in RANGE and abs(v) > 1:
                yield v // 2
                yield v - 1 if v > 0 else v + 1
    elif k in ("String", "str", "path"):
        s = v.decode()
        if s:
            yield b""
            if len(s) > 1:
                yield s[: len(s) // 2].encode()
                yield s[len(s) // 2:].encode()
                yield s[1:].encode()
            if any(c != "a" for c in s):
                for i, c in enumerate(s[:30]):
                    if c != "a":
                        yield (s[:i] + "a" + s[i + 1:]).encode()
    elif k in ("enum", "eerr"):
        if v:
            yield 0
    elif k == "ref":
        yield from simplify(T[1], v)
    elif k == "err":
        if len(v) > 1:
            yield v[:-1]
        for i, x in enumerate(v):
            for y in simplify(("String",), x):
                yield v[:i] + [y] + v[i + 1:]
    elif k == "opt":
        if v is not None:
            if not has_cls(T):
                yield None
            for x in simplify(T[1], v[0]):
                yield (x,)
    elif k == "res":
        for x in simplify(T[1] if v[0] == "O" else T[2], v[1]):
            yield (v[0], x)
    elif k in ("vec", "slice", "mslice"):
        if not has_cls(T):
            n = len(v) // 2
            while n > 1:
                for i in range(0, len(v), n):
                    yield v[:i] + v[i + n:]
                n = n // 2 if len(v) // n < 50 else 0
            for i in range(min(len(v), 200)):
                yield v[:i] + v[i + 1:]
        for i, x in enumerate(v[:8]):
            for y in simplify(T[1], x):
                yield v[:i] + [y] + v[i + 1:]
    elif k == "um":
        yield from simplify(P(T[2]), v)
    elif k == "nt":
        yield from simplify(T[2], v)
    elif k == "wr":
        for x in simplify(P("i64"), v[0]):
            yield (x, v[1])
        for x in simplify(T[1], v[1]):
            yield (v[0], x)
    elif k == "ptr":
        if v is not None:
            yield None
            for x in simplify(T[2], v[0]):
                yield (x,)
    elif k in ("tup", "repr", "fut", "cfn"):
        ts = T[2] if k == "repr" else T[1]
        for i, x in enumerate(v):
            for y in simplify(ts[i], x):
                yield v[:i] + (y,) + v[i + 1:]
