"""Seeded random scene texts (as strings over the specification's symbolic characters).

Half of the texts are well-formed, the rest are well-formed texts with a few characters or
tokens changed.  What each text means is not decided here: the specification does that."""
import random

EXOTIC = ["\u00e9", "\u00df", "\u4e2d", "\u03bb", "\u00bd", "\u0663", "\u2164", "\U0001f600", "\u00a0", "\u2003", "\u0000", "_", "@", "'", "\x0b",
          "\u00b9", "\u0968", "\u2460", "\U0001d7d8", "\u00aa", "\u0130", "\u0430", "\ufb01", "\U0001d400", "\u1680", "\u2029", "\u205f", "\u0085",
          "\u200b", "\ufeff", "\u0301", "\x7f", "\x01", "\x1c", "\ue000", "\U0010ffff", "\ufffd", "\u20ac", "$", "%", "&", "(", "{", "~", "`", "|", ";", ":", ",", "=", "/", "*"]
TYPES = ["integer", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture"]
KEYWORDS = ["Identity", "Translate", "Scale", "Rotate", "LookAt", "CoordinateSystem", "CoordSysTransform", "Transform", "ConcatTransform", "ActiveTransform",
            "TransformTimes", "Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "Include", "Material", "Shape", "LightSource",
            "AreaLightSource", "Texture", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd", "WorldBegin", "WorldEnd"]
FOREIGN = ["ReverseOrientation", "ObjectBegin", "ObjectEnd", "ObjectInstance", "MakeNamedMedium", "MediumInterface", "MakeNamedMaterial", "NamedMaterial",
           "AreaLight", "PixelFilter", "SurfaceIntegrator", "VolumeIntegrator", "Renderer", "Volume", "Foo", "x", "All"]
OTHER_TYPES = ["point", "point3", "vector3", "normal", "color", "int", "Float", "boolean", "floats", "rgba", "tex"]
WS = [" "] * 12 + ["  ", "\t", "\n", "\n", "\n  ", "\r\n", "\r\n\t", "\n\n", " # c\n", "\n# comment \"x\" [ 1\n", "#\r\n", "# \u00e9 WorldEnd\n", "\r", "\f"]


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def one(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    # numbers: at most six significant digits, so that the nearest float shows them
    def integer(self):
        k = self.r.random()
        if k < .6:
            return self.one(["", "", "-", "+"]) + str(self.r.randrange(0, 1000))
        if k < .75:
            return self.one(["", "-"]) + "0" * self.r.randrange(1, 4) + str(self.r.randrange(0, 99999))
        if k < .85:
            return self.one(["", "-"]) + str(self.r.randrange(0, 999999))
        if k < .95:
            return str(self.r.randrange(1, 9)) + "e" + self.one(["", "+"]) + str(self.r.randrange(0, 6))
        return self.one(["9223372036854775807", "-9223372036854775808", "2147483648", "-2147483649", "4294967295"])

    def number(self):
        k = self.r.random()
        if k < .45:
            return self.one(["", "", "-"]) + str(self.r.randrange(0, 1000))
        if k < .8:
            return self.one(["", "-", "+"]) + str(self.r.randrange(0, 200)) + "." + str(self.r.randrange(0, 1000))
        if k < .9:
            return self.one(["", "-"]) + "." + str(self.r.randrange(0, 100000))
        if k < .93:
            return str(self.r.randrange(0, 100)) + "."
        if k < .96:
            return self.one(["", "-"]) + str(self.r.randrange(0, 10 ** self.r.randrange(1, 19)))
        if k < .98:
            return self.one(["", "-"]) + str(self.r.randrange(0, 10 ** self.r.randrange(1, 7))) + self.one([".0", ".", ".00"])
        return self.one(["1e2", "2.5e-1", "-1e-3", "1.5e2", "12e1", "1e0.5", "2.0e2", "1E3", "1e+2", "0e0", "-0", "1e-0"])

    def string(self):
        k = self.r.random()
        if k < .55:
            s = self.one(["a", "sphere", "matte", "checks", "", "f.spd", "true", "false", "x y", "lines/one.pbrt", "float a", "WorldEnd"])
        else:
            s = ""
            for _ in range(self.r.randrange(0, 9)):
                q = self.r.random()
                if q < .5:
                    s += self.one(list("abz019 _-.#[]{}"))
                elif q < .7:
                    s += "\\" + self.one(list("n\"\\tax0#") + ["\n", "\u00e9"])
                elif q < .85:
                    s += self.one(["\n", "\r\n", "\t", "\r"])
                else:
                    s += self.one(EXOTIC)
        return '"' + s + '"'

    def name(self):
        return self.one(["a", "b", "r", "fov", "L", "Kd", "x1", "tex_2", "\u00e9"])

    def listed(self, items, force=False):
        if not force and len(items) == 1 and self.chance(.5):
            return items
        return ["["] + items + ["]"]

    def count(self):
        return 1 if self.chance(.5) else self.r.randrange(1, 40) if self.chance(.1) else self.r.randrange(1, 6)

    def param(self):
        ty = self.one(["integer", "float", "float", "bool", "string", "point2", "vector2", "rgb", "xyz", "blackbody", "spectrum", "texture"])
        sep = self.one([" "] * 8 + ["  ", "\t"])
        decl = '"' + self.one([""] * 8 + [" "]) + ty + sep + self.name() + self.one([""] * 8 + [" "]) + '"'
        n = self.count()
        num = self.number
        v = {
            "integer": lambda: self.listed([self.integer() for _ in range(n)]),
            "float": lambda: self.listed([num() for _ in range(n)]),
            "bool": lambda: self.listed([self.one(['"true"', '"false"']) for _ in range(n)]),
            "string": lambda: self.listed([self.string() for _ in range(n)]),
            "point2": lambda: self.listed([num() for _ in range(2 * n)], True),
            "vector2": lambda: self.listed([num() for _ in range(2 * n)], True),
            "rgb": lambda: self.listed([num() for _ in range(3)], True),
            "xyz": lambda: self.listed([num() for _ in range(3)], True),
            "blackbody": lambda: self.listed([num() for _ in range(2)], True),
            "spectrum": lambda: [self.string()] if self.chance(.3) else self.listed([num() for _ in range(2 * n)], True),
            "texture": lambda: [self.string()],
        }[ty]()
        return [decl] + v

    def params(self):
        out = []
        for _ in range(self.one([0, 0, 1, 1, 2, 3, 4, 7]) if self.chance(.97) else 25):
            out += self.param()
        return out

    def pre(self):
        k = self.one(["Identity", "Translate", "Scale", "Rotate", "LookAt", "CoordinateSystem", "CoordSysTransform", "Transform", "ConcatTransform",
                      "ActiveTransform", "TransformTimes", "Camera", "Sampler", "Film", "Filter", "Integrator", "Accelerator", "Include"])
        n = {"Translate": 3, "Scale": 3, "Rotate": 4, "LookAt": 9, "Transform": 9, "ConcatTransform": 9, "TransformTimes": 2}.get(k)
        if n:
            return [k] + [self.number() for _ in range(n)]
        if k == "Identity":
            return [k]
        if k == "ActiveTransform":
            return [k, self.one(["All", "StartTime", "EndTime", "WorldBegin", "x9", "\u00e9"])]
        if k in ("CoordinateSystem", "CoordSysTransform", "Include"):
            return [k, self.string()]
        return [k, self.string()] + self.params()

    def body(self, depth, budget):
        out = []
        for _ in range(self.r.randrange(0, 6)):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            k = self.r.random()
            if k < .3 and depth < 30:
                b = self.one(["Attribute", "Transform"] * 5 + ["World"])
                out += [b + "Begin"] + self.body(depth + 1, budget) + [b + "End"]
            elif k < .38:
                out += ["Include", self.string()]
            elif k < .5:
                out += ["Texture", self.string(), self.string(), self.string()] + self.params()
            else:
                out += [self.one(["Material", "Shape", "LightSource", "AreaLightSource"]), self.string()] + self.params()
        return out

    def deep(self):
        d = self.r.randrange(5, 60)
        ks = [self.one(["Attribute", "Transform"]) for _ in range(d)]
        out = []
        for k in ks:
            out += [k + "Begin"] + (["Material", self.string()] if self.chance(.2) else [])
        for k in reversed(ks):
            out += (["Shape", self.string()] if self.chance(.3) else []) + [k + "End"]
        return out

    def tokens(self):
        out = []
        for _ in range(self.one([0, 0, 1, 2, 5])):
            out += self.pre()
        out += ["WorldBegin"]
        out += self.deep() if self.chance(.05) else self.body(1, [self.one([3, 8, 20])])
        out += ["WorldEnd"]
        if self.chance(.05):
            out += [self.one(["WorldEnd", "x", "1", '"s"', "]"])]
        return out

    def text(self, toks):
        out = self.one(["", "", " ", "\n", "# c\n", "\r\n"])
        tight = self.chance(.15)
        plain = self.chance(.4)
        wide = self.r.randrange(len(toks) + 1) if self.chance(.03) else 0
        for i, t in enumerate(toks):
            if i:
                a, b = toks[i - 1][-1], t[0]
                if i == wide:
                    out += self.one(WS) * self.one([30, 60, 100, 140])
                elif tight and (a in '"[]' or b in '"[]'):
                    out += self.one(["", "", " "])
                else:
                    out += " " if plain else self.one(WS)
            out += t
        return out + self.one(["", "", "\n", " ", "# end", "\r\n", "\n#\n"])

    def mutate_tokens(self, toks):
        toks = list(toks)
        for _ in range(self.one([1, 1, 2])):
            i = self.r.randrange(len(toks)) if toks else 0
            k = self.r.random()
            if k < .35 and toks:
                del toks[i]
            elif k < .6:
                toks.insert(i, self.near() if self.chance(.2) else self.one([self.number(), self.string(), "[", "]", "AttributeBegin", "AttributeEnd", "TransformBegin", "TransformEnd",
                                         "WorldBegin", "WorldEnd", "Shape", "Identity", "Foo", '"float z"', '"rgb z"', '"true"']))
            elif k < .75 and len(toks) > 1:
                j = self.r.randrange(len(toks))
                toks[i], toks[j] = toks[j], toks[i]
            elif k < .9 and toks:
                toks[i] = self.near(toks[i]) if self.chance(.4) else self.one([self.number(), self.string(), "[", "]", "Material", "WorldEnd", '"integer q"', '"point2 q"', '"blackbody q"', '"texture q"', '"spectrum q"'])
            elif toks:
                toks.insert(i, toks[i])
        return toks

    def near(self, tok=None):
        """Something close to a token: another keyword, type or kind of number."""
        if tok and tok[0] == '"' and " " in tok and self.chance(.7):
            return '"' + self.one(TYPES + OTHER_TYPES) + " " + self.name() + self.one(["", "", " z"]) + '"'
        if tok and (tok[0].isdigit() or tok[0] in "-+."):
            return self.one([self.integer(), self.number(), "-", "+", ".", "1.2.3", "1e", "1e1e1", "--1", "99999999999999999999", "1e19", '"1"', "x1"])
        w = tok if tok and tok[0].isalpha() and self.chance(.7) else self.one(KEYWORDS)
        return self.one([self.one(KEYWORDS), self.one(FOREIGN), w + "s", w[:-1] or "x", w.lower(), w[1:] or "y", w + "Begin", w.upper()])

    def mutate_chars(self, s):
        for _ in range(self.one([1, 1, 2, 3])):
            i = self.r.randrange(len(s) + 1)
            k = self.r.random()
            if k < .3:
                s = s[:i] + s[i + 1:]
            elif k < .75:
                s = s[:i] + self.one(list('"\\[]#.-+e01 \n\rxW_') + EXOTIC) + s[i:]
            elif k < .9:
                s = s[:i]
            else:
                j = min(len(s), i + self.r.randrange(1, 6))
                s = s[:i] + s[i:j] + s[i:]
        return s

    def scene(self, limit=900):
        while True:
            toks = self.tokens()
            k = self.r.random()
            if k > .75:
                toks = self.mutate_tokens(toks)
            s = self.text(toks)
            if .55 < k <= .75:
                s = self.mutate_chars(s)
            if len(s) <= limit:
                return s


    def big(self, kind, size):
        """A text with one large part."""
        r = self.r
        world = lambda x: "WorldBegin\n" + x + "\nWorldEnd"
        shape = 'Shape "s" "float r" [1 2]'
        if kind == "columns":
            return "Identity" + " " * size + world(shape) if self.chance(.5) else world(shape + " " * size + '"rgb L" [1 2 3]' + " " * size + "Material \"m\"" + self.one(["", " 1"]))
        if kind == "lines":
            nl = self.one(["\n", "\r\n"])
            return nl * size + "Identity" + nl + world(shape + nl * size + self.one(['"integer n" 3', '"integer n" 3.5']))
        if kind == "comment":
            return world(shape + " #" + "".join(self.one(list("ab \"[]#1\u00e9")) for _ in range(size)) + "\n" + self.one(['"float q" 3', "WorldBegin WorldEnd", "]"]))
        if kind == "string":
            s = "".join(self.one(list("abcdefgh 0123") + ["\\n", "\\\"", "\u00e9", "#", "\n"]) for _ in range(size))
            return self.one(['Film "%s" ' % s + world(""), world('Material "%s"' % s), world('Shape "q" "string a" ["%s" "z"] "float b" 2' % s), world('Include "%s" Shape "x"' % s), world('Shape "q" "texture a" "%s"' % s)])
        if kind == "name":
            s = "".join(self.one(list("abcdefghXYZ0123_")) for _ in range(size))
            return self.one([world('Shape "q" "float %s" 2' % s), "ActiveTransform a%s " % s.replace("_", "z") + world(shape), world(s)])
        if kind == "list":
            ty = self.one(["integer", "float", "bool", "string", "point2", "vector2", "spectrum"])
            e = {"integer": self.integer, "bool": lambda: self.one(['"true"', '"false"']), "string": lambda: '"%d"' % r.randrange(1000)}.get(ty, self.number)
            n = size // 4 * 2 + (1 if self.chance(.2) else 0)
            return world('Shape "q" "%s v" [%s] "float z" 3' % (ty, " ".join(e() for _ in range(n)) + self.one([""] * 6 + [" x", ' "x"', " 1.5"])))
        if kind == "params":
            out = []
            for _ in range(size // 8):
                out += self.param()
            return world(self.one(["Material", "Shape", "LightSource"]) + ' "q" ' + " ".join(out))
        if kind == "directives":
            return world(" ".join(" ".join(self.body(29, [4])) for _ in range(size // 12)) + self.one(["", "", "", " 1", " Foo"]))
        if kind == "pre":
            return "\n".join(" ".join(self.pre()) for _ in range(size // 12)) + self.one(["\n", "\n", " 1 "]) + world("")
        if kind == "numargs":
            k = self.one(["Translate", "Scale", "Rotate", "LookAt", "Transform", "ConcatTransform", "TransformTimes"])
            return k + " " + " ".join(self.number() for _ in range(r.randrange(2, size // 4 + 4))) + " " + world("")
        d = min(99, 3 + size // 10)     # nest
        ks = [self.one(["Attribute", "Transform"]) for _ in range(d)]
        mid = self.one(["", shape, "Foo", "AttributeEnd"]) if self.chance(.5) else ""
        ends = [k + "End" for k in reversed(ks)]
        if self.chance(.3):
            i = r.randrange(d)
            ends[i] = self.one(["", "AttributeEnd", "TransformEnd", "WorldEnd"])
        return world(" ".join([k + "Begin" for k in ks] + [mid] + ends))


BIG = ["columns", "lines", "comment", "string", "name", "list", "params", "directives", "pre", "numargs", "nest"]


def bigs(seed, rounds, huge):
    g = G(seed)
    out = []
    for i in range(rounds):
        for kind in BIG:
            out.append(g.big(kind, g.one([30, 100, 300, 600])))
    for kind in ("columns", "lines"):
        out.append(g.big(kind, huge))
    return [encode(x) for x in out]


# characters the specification classifies; others are replaced
KNOWN = set("\t\n\r\f") | {chr(c) for c in range(32, 127)} | set(EXOTIC)


def encode(s):
    return "".join(c if 32 <= ord(c) < 127 or c in "\n\r\t\f" else "<U+%04X>" % ord(c) for c in s)


def scenes(seed, n, limit=900):
    g = G(seed)
    big = bigs(seed + "/big", 5 if limit <= 700 else 40, 70000)
    return big + [encode(g.scene(limit)) for _ in range(n - len(big))]


def pairs(seed, n, limit=900):
    """The same tokens in two layouts."""
    g = G(seed)
    out = []
    while len(out) < n:
        toks = g.tokens()
        if g.chance(.3):
            toks = g.mutate_tokens(toks)
        a, b = g.text(toks), g.text(toks)
        if g.chance(.3):
            a = " ".join(toks)
        if max(len(a), len(b)) <= limit:
            out.append([encode(a), encode(b)])
    return out
