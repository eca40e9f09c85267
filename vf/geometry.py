"""Seeded random inputs for the geometry drivers; what results they should give is the specification's business."""
import random


def triple(r, m):
    return [r.randint(-m, m) if r.random() > .15 else 0 for _ in range(3)]


def vec(r):
    m = r.choice([2, 9, 40, 250])
    a, b = triple(r, m), triple(r, m)
    k = r.random()
    if k < .15:
        b = list(a)
    elif k < .25:
        b = [-x for x in a]
    elif k < .35:
        a[r.randrange(3)] = a[r.randrange(3)]
    return {"f": "vec", "a": a, "b": b, "k": r.choice([1, -1, 2, -2, 4, 8, 3, -5])}


def pt(r):
    m = r.choice([5, 40, 900])
    return {"f": "pt", "p": triple(r, m), "q": triple(r, m), "t": r.choice([0, 4, 1, 2, 3, -4, 8, 6, -1])}


def boxhist(r):
    m = r.choice([2, 6, 60, 3000, 1000000])
    steps = []
    for i in range(r.randint(2, 14)):
        op = r.choice(["new", "point"]) if i == 0 else r.choice(["union_pt", "union_pt", "union", "intersect", "expand", "overlaps", "overlaps", "inside", "inside", "inside", "new", "point"])
        p, q = triple(r, m), triple(r, m)
        if i and r.random() < .4:          # hit coordinates used before
            s = r.choice(steps)
            for j in range(3):
                if r.random() < .7:
                    p[j] = r.choice([s["p"][j], s["q"][j]])
                if r.random() < .7:
                    q[j] = r.choice([s["p"][j], s["q"][j]])
        steps.append({"op": op, "p": p, "q": q, "k": r.randint(0, m)})
    return {"f": "boxhist", "steps": steps}


def measure(r):
    lo = triple(r, r.choice([3, 50, 300]))
    m = r.choice([3, 12, 150])
    return {"f": "measure", "t": [r.choice([0, 4, 1, 2, 3, -4, 8, 6, 40, -40]) for _ in range(3)], "lo": lo, "hi": [x + (r.randint(0, m) if r.random() > .15 else 0) for x in lo]}


def grid(r):
    m = r.choice([2, 5, 1000])
    x, y = r.randint(-m, m), r.randint(-m, m)
    return {"f": "grid", "b": [x, y, x + r.choice([-3, -1, 0, 1, 1, 2, 3, 7, 12]), y + r.choice([-3, -1, 0, 1, 2, 3, 7, 12])]}


def square(r, m, zero=.2):
    return [[r.randint(-m, m) if r.random() > zero else 0 for _ in range(4)] for _ in range(4)]


def mat(r):
    m = r.choice([1, 5, 50])
    return {"f": "mat", "a": square(r, m), "b": square(r, m)}


def inv(r):
    k = r.random()
    m = square(r, r.choice([1, 2, 6]), r.choice([.1, .4, .6]))
    if k < .4:                             # a dominant permutation
        p = r.sample(range(4), 4)
        for i in range(4):
            m[i][p[i]] = r.choice([-6, -5, 4, 5, 6])
    elif k < .55:
        i = r.randrange(4)
        for j in range(4):
            m[i][j] = 0
    elif k < .7:
        i = r.randrange(4)
        for j in range(4):
            m[j][i] = 0
    return {"f": "inv", "m": m}


def xform(r):
    k = r.random()
    if k < .35:
        how = {"k": "translate", "v": triple(r, r.choice([1, 20, 300]))}
    elif k < .7:
        how = {"k": "scale", "v": [r.choice([[1, 1], [1, 1], [2, 1], [-1, 1], [1, 2], [3, 4], [-5, 2], [7, 1], [-1, 16], [100, 1], [257, 256], [255, 256]]) for _ in range(3)]}
    else:
        while True:
            v = inv(r)["m"]
            if abs(det(v)) > 0:
                break
        how = {"k": "new", "v": v}
    return {"f": "xform", "how": how, "w": triple(r, r.choice([1, 3, 10])), "h": [r.choice(["inverse", "transpose"]) for _ in range(r.randint(0, 8))]}


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) for j in range(len(m)) if m[0][j])


def ray(r):
    m = r.choice([1, 8, 60])
    return {"f": "ray", "ray": {"o": triple(r, m), "d": triple(r, m)}, "off": [triple(r, m) for _ in range(4)],
            "h": [r.choice([0, 1, 2, -2, 3, 4, -1, 1]) for _ in range(r.randint(0, 6))], "ts": [r.choice([0, 2, 1, -3, 20]), r.randint(-40, 40)]}


def frame(r):
    k = r.random()
    v = [r.gauss(0, 1) for _ in range(3)]
    if k < .15:
        v[r.randrange(3)] = 0.0
    elif k < .25:
        i = r.randrange(3)
        v = [0.0] * 3
        v[i] = r.choice([-1.0, 1.0])
    elif k < .4:                           # two of equal size
        i, j = r.sample(range(3), 2)
        v[i] = r.choice([-1, 1]) * v[j]
    elif k < .6:                           # nearly an axis
        i = r.randrange(3)
        v = [x * 10.0 ** -r.randint(2, 30) for x in v]
        v[i] = r.choice([-1.0, 1.0])
    elif k < .7:                           # nearly equal
        i, j = r.sample(range(3), 2)
        v[i] = r.choice([-1, 1]) * v[j] * (1 + r.choice([-1, 1]) * 10.0 ** -r.randint(3, 7))
    elif k < .75:                          # the two decisive components both tiny
        v = [v[0] * 1e-4, v[1] * 1e-4, r.choice([-1.0, 1.0])]
    if not any(abs(x) > 1e-3 for x in v):
        v[0] = 1.0
    return v


def apply(r):
    m = r.choice([1, 5, 30])
    return {"f": "apply", "m": square(r, m), "g": square(r, m), "v": triple(r, r.choice([1, 9, 200]))}


def help_(r):
    m = r.choice([2, 20, 100000])
    l = [r.randint(-m, m) for _ in range(r.choice([1, 2, 2, 3, 3, 5, 9, 40]))]
    if r.random() < .3:
        l[r.randrange(len(l))] = l[0]
    return {"f": "help", "l": l, "t": r.choice([0, 4, 1, 2, 3, -4, 8])}


MAKERS = {"apply": apply, "help": help_, "vec": vec, "pt": pt, "boxhist": boxhist, "measure": measure, "grid": grid, "mat": mat, "inv": inv, "xform": xform, "ray": ray, "frame": frame}


# long rows, many rows
FIXED = {"grid": [{"f": "grid", "b": b} for b in ([-7, 3, 65993, 4], [5, -33000, 6, 33000], [-150, -20, 150, 280], [0, 0, 257, 3], [-1, -129, 2, 129])]}


def inputs(seed, family, n):
    r = random.Random("%s/%s" % (seed, family))
    return FIXED.get(family, []) + [MAKERS[family](r) for _ in range(n)]
