"""Pools of leaves, values and fields for C29 and C30."""

TEXTS = ["", "a", "ab", "abc", "b", "~", "A", "a b", "1", "-1", "+1", "1.9", "-1.9", "2", "10", "007", "1.", ".5", ".", "-", "+", "1 ", " 1", "1e3", "25e-1",
         "nan", "inf", "-inf", "infinity", "2147483647", "2147483648", "-2147483648", "-2147483649", "2147483647.9", "99999999999", "1x", "0x10", "1_0", "0", "00", "-0"]
VERS = ["1.2", "1.2-x-y", "1.2+b+c", "1.2+b-x-y", "1.2.0", "1.2.0.0", "1.10", "1.02", "1.2-x", "1.2+b-x", "1.2-x+b", "1.x", "1.2.x", "1.x.3", "x", "", "4294967295", "4294967296", "1.", "1..2", ".", "v1", "-", "+", "1.2.3", "1.2.3.4",
        "0", "1", "10", "2", "0.1", "1.9", "1.a", "1.0a", "1.0", "01.2", "1 "]
PATS = ["", "a", "^a$", "a.c", "[", "(", "^1", "b$", "^", "$", ".", "^$", "ab", "^ab"]
NUMS = [0, 1, -1, 2, 10, 1000, 2147483647, -2147483648, 7]


def ch(t):
    return list(t)


def leaf(k, key="x", op=0, v="", n=0):
    return dict(k=k, key=key, op=op, v=ch(v), n=n)


def field(key, v, b=False):
    return dict(key=key, b=b, v=ch(v))


def leaves1(r, n):
    out = []
    for _ in range(n):
        k = r.choice(["int", "int", "str", "str", "ver", "ver", "msg", "set", "lvl", "typ"] + (["none", "noval"] if r.random() < .15 else []))
        op = r.choice([1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6, 7, 0, 8] if r.random() < .3 else [1, 2, 3, 4, 5, 6, 7])
        key = r.choice("xxy")
        if k == "lvl":
            out.append(leaf("int", "log_level", op, n=r.choice([0, 1, 2, 3, 4, -1])))
        elif k == "typ":
            out.append(leaf("int", "log_type", op, n=r.choice([0, 1, 3, -1])))
        elif k == "int":
            out.append(leaf("int", key, op, n=r.choice(NUMS)))
        elif k in ("str", "msg", "ver"):
            out.append(leaf(k, key, op, r.choice(PATS if op == 7 else VERS if k == "ver" else TEXTS)))
        else:
            out.append(leaf(k, key))
    return out


def leaves2(r, n):
    out = []
    for _ in range(n):
        k = r.choice(["lv", "msg", "tag", "tag", "ty", "any"] + (["none"] if r.random() < .2 else []))
        if k == "lv":
            out.append(leaf(k, op=r.choice([0, 1, 2, 3, 4, 4, 3, 5] if r.random() < .3 else [0, 1, 2, 3, 4]), n=r.choice([0, 1, 2, 3, 4, 4, 7, -1] if r.random() < .3 else [1, 2, 3])))
        elif k == "ty":
            out.append(leaf(k, n=r.choice([0, 1, 3])))
        else:
            op = r.choice([0, 0, 1, 1, 2, 2, 3] if r.random() < .3 else [0, 1, 2])
            out.append(leaf(k, r.choice("xxy"), op, r.choice(PATS if op == 2 else ["", "a", "ab", "abc", "b", "~", "1"])))
    return out


def fields(r, n, keys="xxy", vals=None, bin=.15):
    return [field(r.choice(keys), r.choice(vals or TEXTS + VERS), r.random() < bin) for _ in range(n)]


MSGS = [dict(b=False, v=ch("abc")), dict(b=False, v=[]), dict(b=True, v=ch("a")), dict(b=False, v=ch("1.2"))]
