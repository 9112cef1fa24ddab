"""Strings with symbolic characters.

A symbolic character is one private-use code point (plane 15) of an ordinary
Python str; its value is a z3 integer (a code point in a stated alphabet).
Strings keep their concrete length, so concatenation, slicing, formatting and
file I/O are Python's own.  Operations that look at character values are routed
here by the loader's call/compare hooks.
"""
import z3
from . import core
from .core import mkbool, b_and, b_or, b_not, SymBool

CH0 = 0xF0000
CH1 = 0xFFFFD


def is_symch(c):
    return CH0 <= ord(c) <= CH1


def has(s):
    return type(s) is str and not s.isascii() and any(CH0 <= ord(c) <= CH1 for c in s)


def new_char(t):
    chars = core.CUR.__dict__.setdefault('chars', [])
    chars.append(t)
    return chr(CH0 + len(chars) - 1)


def term(c):
    o = ord(c)
    if CH0 <= o <= CH1:
        return core.CUR.chars[o - CH0]
    return z3.IntVal(o)


def realize_char(c):
    if not is_symch(c):
        return c
    v = core.CUR.realize(term(c), 'symbolic character in an unmodelled operation')
    return chr(int(v))


def realize(s):
    return "".join(realize_char(c) for c in s)


def known(s):
    """replace characters whose value is already determined by simplification"""
    return s


def ch_eq(a, b):
    if a == b:
        return True
    if not is_symch(a) and not is_symch(b):
        return False
    return term(a) == term(b)


def eq(a, b):
    """SymBool/bool: string equality"""
    if not (isinstance(a, str) and isinstance(b, str)):
        return a == b
    if len(a) != len(b):
        return False
    if not has(a) and not has(b):
        return a == b
    cs = []
    for x, y in zip(a, b):
        e = ch_eq(x, y)
        if e is False:
            return False
        if e is not True:
            cs.append(e)
    if not cs:
        return True
    r = mkbool(z3.And(cs))
    return r if type(r) is SymBool else bool(r)


def ch_in(c, chars):
    """bool/SymBool: is this character one of chars"""
    if not is_symch(c):
        return c in chars
    r = mkbool(z3.Or([term(c) == ord(x) for x in chars] or [z3.BoolVal(False)]))
    return r if type(r) is SymBool else bool(r)


WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def ws(c):
    return ch_in(c, WS) if is_symch(c) else c.isspace()


def b(x):
    return bool(x)


def lower(s):
    out = []
    for c in s:
        if is_symch(c):
            t = term(c)
            out.append(new_char(z3.simplify(z3.If(z3.And(t >= 65, t <= 90), t + 32, t))))
        else:
            out.append(c.lower())
    return "".join(out)


def upper(s):
    out = []
    for c in s:
        if is_symch(c):
            t = term(c)
            out.append(new_char(z3.simplify(z3.If(z3.And(t >= 97, t <= 122), t - 32, t))))
        else:
            out.append(c.upper())
    return "".join(out)


def lstrip(s, chars=None):
    i = 0
    while i < len(s) and b(ws(s[i]) if chars is None else any_eq(s[i], chars)):
        i += 1
    return s[i:]


def any_eq(c, chars):
    return b_or(*[bool_of(ch_eq(c, x)) for x in chars])


def bool_of(e):
    if e is True or e is False:
        return e
    return mkbool(e)


def rstrip(s, chars=None):
    i = len(s)
    while i > 0 and b(ws(s[i - 1]) if chars is None else any_eq(s[i - 1], chars)):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def starts(s, p, start=0, end=None):
    s = s[start:end]
    if isinstance(p, tuple):
        return b_or(*[starts(s, q) for q in p])
    if len(p) > len(s):
        return False
    return eq(s[:len(p)], p)


def ends(s, p, start=0, end=None):
    s = s[start:end]
    if isinstance(p, tuple):
        return b_or(*[ends(s, q) for q in p])
    if len(p) > len(s):
        return False
    return eq(s[len(s) - len(p):], p)


def find(s, sub, start=0, end=None):
    e = len(s) if end is None else min(end, len(s))
    for i in range(start, e - len(sub) + 1):
        if b(eq(s[i:i + len(sub)], sub)):
            return i
    return -1


def rfind(s, sub, start=0, end=None):
    e = len(s) if end is None else min(end, len(s))
    for i in range(e - len(sub), start - 1, -1):
        if b(eq(s[i:i + len(sub)], sub)):
            return i
    return -1


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def contains(s, sub):
    """`sub in s`"""
    if not sub:
        return True
    return b_or(*[eq(s[i:i + len(sub)], sub) for i in range(len(s) - len(sub) + 1)])


def count(s, sub):
    n = i = 0
    while True:
        j = find(s, sub, i)
        if j < 0:
            return n
        n += 1
        i = j + len(sub)


def split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        i = 0
        n = len(s)
        while True:
            while i < n and b(ws(s[i])):
                i += 1
            if i >= n:
                return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                return out
            j = i
            while j < n and not b(ws(s[j])):
                j += 1
            out.append(s[i:j])
            i = j
    if sep == '':
        raise ValueError("empty separator")
    i = 0
    while True:
        j = find(s, sep, i) if maxsplit < 0 or len(out) < maxsplit else -1
        if j < 0:
            out.append(s[i:])
            return out
        out.append(s[i:j])
        i = j + len(sep)


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0 or sep is None:
        return split(s, sep) if maxsplit < 0 else realize(s).rsplit(sep, maxsplit)
    out = []
    e = len(s)
    while len(out) < maxsplit:
        j = rfind(s, sep, 0, e)
        if j < 0:
            break
        out.insert(0, s[j + len(sep):e])
        e = j
    out.insert(0, s[:e])
    return out


def partition(s, sep):
    j = find(s, sep)
    if j < 0:
        return (s, '', '')
    return (s[:j], sep, s[j + len(sep):])


def rpartition(s, sep):
    j = rfind(s, sep)
    if j < 0:
        return ('', '', s)
    return (s[:j], sep, s[j + len(sep):])


def replace(s, old, new, cnt=-1):
    if old == '':
        return realize(s).replace(old, new, cnt)
    out = ''
    i = 0
    while cnt != 0:
        j = find(s, old, i)
        if j < 0:
            break
        out += s[i:j] + new
        i = j + len(old)
        cnt -= 1
    return out + s[i:]


def splitlines(s, keepends=False):
    out = []
    cur = ''
    for c in s:
        cur += c
        if b(ch_in(c, "\n\r\x0b\x0c\x1c\x1d\x1e\x85")):
            out.append(cur if keepends else cur[:-1])
            cur = ''
    if cur:
        out.append(cur)
    return out


def allch(pred, s):
    if not s:
        return False
    return b_and(*[pred(c) for c in s])


def rng(c, *ranges):
    t = term(c)
    return mkbool(z3.Or([z3.And(t >= ord(a), t <= ord(z)) for a, z in ranges]))


def isspace(s):
    return allch(ws, s)


def isdigit(s):
    return allch(lambda c: rng(c, ('0', '9')) if is_symch(c) else c.isdigit(), s)


def isalpha(s):
    return allch(lambda c: rng(c, ('a', 'z'), ('A', 'Z')) if is_symch(c) else c.isalpha(), s)


def isalnum(s):
    return allch(lambda c: rng(c, ('a', 'z'), ('A', 'Z'), ('0', '9')) if is_symch(c) else c.isalnum(), s)


def isupper(s):
    up = b_or(*[rng(c, ('A', 'Z')) if is_symch(c) else c.isupper() for c in s])
    lo = b_or(*[rng(c, ('a', 'z')) if is_symch(c) else c.islower() for c in s])
    return b_and(up, b_not(lo))


def islower(s):
    up = b_or(*[rng(c, ('A', 'Z')) if is_symch(c) else c.isupper() for c in s])
    lo = b_or(*[rng(c, ('a', 'z')) if is_symch(c) else c.islower() for c in s])
    return b_and(lo, b_not(up))


def capitalize(s):
    return upper(s[:1]) + lower(s[1:])


def removeprefix(s, p):
    return s[len(p):] if p and b(starts(s, p)) else s


def removesuffix(s, p):
    return s[:-len(p)] if p and b(ends(s, p)) else s


METHODS = {'lower': lower, 'casefold': lower, 'upper': upper, 'lstrip': lstrip, 'rstrip': rstrip,
           'strip': strip, 'startswith': starts, 'endswith': ends, 'find': find, 'rfind': rfind,
           'index': index, 'count': count, 'split': split, 'rsplit': rsplit, 'partition': partition,
           'rpartition': rpartition, 'replace': replace, 'splitlines': splitlines, 'isspace': isspace,
           'isdigit': isdigit, 'isdecimal': isdigit, 'isnumeric': isdigit, 'isalpha': isalpha,
           'isalnum': isalnum, 'isupper': isupper, 'islower': islower, 'capitalize': capitalize,
           'removeprefix': removeprefix, 'removesuffix': removesuffix}
NATIVE = {'format', 'join', 'encode', '__len__', '__add__', '__getitem__', 'ljust', 'rjust', 'center', 'format_map',
          'zfill', 'expandtabs'}


def method(s, name, args, kw):
    """call a str method where receiver or arguments contain symbolic characters"""
    if not hasattr(str, name):
        raise AttributeError("'str' object has no attribute %r" % name)
    f = METHODS.get(name)
    if f is not None:
        if kw:
            if 'sep' in kw or 'maxsplit' in kw:
                args = (kw.get('sep', args[0] if args else None), kw.get('maxsplit', -1))
            elif 'keepends' in kw:
                args = (kw['keepends'],)
            elif 'count' in kw:
                args = args + (kw['count'],)
        r = f(s, *args)
        return r
    if name in NATIVE:
        return getattr(s, name)(*args, **kw)
    core.CUR.stats.note('unmodelled str.' + name)
    return getattr(realize(s), name)(*[realize(a) if isinstance(a, str) else a for a in args], **kw)
