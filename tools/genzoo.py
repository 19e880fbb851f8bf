#!/usr/bin/env python3
"""genzoo.py [SEED [N]] > dst/src/zoo_gen.rs: random derived types, each with its reference model.

Every type is a random combination of what the derive macros support: kinds of container, places,
wrappers, scalars, namespaces, prefixes, renaming rules, nesting. Only combinations the properties
settle are produced (see DESIGN.md, "What the properties leave open")."""
import random
import sys

seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
N = int(sys.argv[2]) if len(sys.argv) > 2 else 120
R = random.Random(seed)

NS = {"A": "urn:a", "B": "urn:b", "C": "urn:c", "P": "urn:p", "Q": "urn:q", "Z": "urn:z"}
TEXTS = ["String", "Cow<'static, str>"]
SCALARS = ["u8", "i16", "u32", "i64", "f32", "f64", "bool", "char", "IpAddr", "NaiveDate",
           "NaiveDateTime", "DateTime<Utc>", "usize", "i8"]
SCALAR_ENUMS = ["Status", "Code", "Kebab"]
WORDS = ["id", "key", "name", "value", "first_name", "list_of_things", "x", "item2_go", "tag", "a", "b", "node",
         "text", "kind", "long_long_name", "n", "other", "data", "field", "v1"]
RULES = {
    None: lambda w: w,
    "lowercase": lambda w: w,
    "UPPERCASE": lambda w: w.upper(),
    "PascalCase": lambda w: pascal(w),
    "camelCase": lambda w: pascal(w)[0].lower() + pascal(w)[1:],
    "snake_case": lambda w: w,
    "SCREAMING_SNAKE_CASE": lambda w: w.upper(),
    "kebab-case": lambda w: w.replace("_", "-"),
    "SCREAMING-KEBAB-CASE": lambda w: w.upper().replace("_", "-"),
}
TAGS = ["Item", "leaf", "x", "g-1", "Node.2", "_tag", "Name", "data", "v", "ü", "type", "Ns"]


def pascal(w):
    return "".join(p[:1].upper() + p[1:] for p in w.split("_"))


out = []
defs = []  # dicts: ident, kind, matches (set), size, required, user, lifetime


def chance(a, b):
    return R.randrange(b) < a


def pick(l):
    return l[R.randrange(len(l))]


def ns_lit(ns):
    return '"%s"' % ns


def container_ns():
    """(uri, {prefix: uri}, forced, attribute text or None)"""
    if chance(2, 5):
        if chance(1, 8):
            p = pick(["p", "q", "a", "x-y.z"])
            u = pick(list(NS.values()))
            return "", {p: u}, False, 'ns("", %s = "%s")' % (p, u)
        return "", {}, False, None
    uri = pick(list(NS))
    prefixes = {}
    for _ in range(pick([0, 0, 1, 1, 2, 3])):
        prefixes[pick(["p", "q", "a", "b", "x-y", "n.s", "_u"])] = pick(list(NS))
    forced = chance(1, 6)
    text = "ns(" + (uri if chance(1, 2) else '"%s"' % NS[uri])
    for p, u in prefixes.items():
        text += ', %s = %s' % (p, u if chance(1, 2) else '"%s"' % NS[u])
    text += ")"
    if forced:
        text += ", force_prefix"
    return NS[uri], {p: NS[u] for p, u in prefixes.items()}, forced, text


def attr(parts):
    parts = [p for p in parts if p]
    return "#[xml(%s)]" % ", ".join(parts) if parts else ""


def scalar():
    k = R.randrange(10)
    if k < 3:
        return pick(TEXTS)
    if k < 8:
        return pick(SCALARS)
    return pick(SCALAR_ENUMS + [d["ident"] for d in defs if d["kind"] == "scalar"])


def is_enum(t):
    return t in SCALAR_ENUMS or any(d["kind"] == "scalar" and d["ident"] == t for d in defs)


def wrap_elem(t, named, d=None):
    """A field type around `t`, and whether it needs anything to be present"""
    forms = ["%s"] * 3 + ["Option<%s>"] * 3 + ["Box<%s>", "Vec<%s>", "Vec<%s>", "Vec<%s>", "Option<Box<%s>>", "Vec<Box<%s>>", "Box<Vec<%s>>"]
    f = pick(forms)
    return f % t, f in ("%s", "Box<%s>")


class Struct:
    def __init__(self, ident):
        self.ident = ident
        self.fields = []
        self.matches = set()
        self.attrs = set()
        self.names = set()
        self.size = 1
        self.required = False
        self.user = False


def fresh(names):
    for _ in range(40):
        w = pick(WORDS)
        if w not in names:
            names.add(w)
            return w
    w = "f%d" % len(names)
    names.add(w)
    return w


def attr_field(s, ns, prefixes, forced, rule):
    w = fresh(s.names)
    parts = ["attribute"]
    uri = ""
    t = scalar()
    if prefixes and chance(1, 2):
        cands = [c for c, u in NS.items() if u in prefixes.values()]
        c = pick(cands)
        uri = NS[c]
        parts.append("ns(%s)" % c)
    tag = RULES[rule](w)
    if chance(1, 4):
        tag = pick(TAGS)
        parts.append('rename = "%s"' % tag)
    if (uri, tag) in s.attrs:
        return
    s.attrs.add((uri, tag))
    f = pick(["%s", "%s", "Option<%s>", "Option<%s>", "Box<%s>", "Option<Box<%s>>"])
    s.size += 1
    s.fields.append((parts, "Attr", tag, uri, w, f % t))


def elem_field(s, ns, rule, self_ok, transparent):
    w = fresh(s.names)
    k = R.randrange(10)
    cands = [d for d in defs if d["kind"] != "scalar" and d["size"] < 14]
    if k < 4 or not cands:
        parts = []
        t = scalar()
        # Scalar enums have a namespace of their own
        uri = "" if is_enum(t) else ns
        if chance(1, 3) and not is_enum(t):
            if chance(1, 4):
                uri = ""
                parts.append('ns("")')
            else:
                c = pick(list(NS))
                uri = NS[c]
                parts.append("ns(%s)" % (c if chance(1, 2) else '"%s"' % uri))
        tag = RULES[rule](w)
        if chance(1, 3):
            tag = pick(TAGS)
            parts.append('rename = "%s"' % tag)
        if (uri, tag) in s.matches:
            return
        s.matches.add((uri, tag))
        t, req = wrap_elem(t, False)
        s.required |= req
        s.size += 1
        s.fields.append((parts, "Elem", tag, uri, w, t))
        return
    if k == 4 and self_ok:
        if s.me in s.matches:
            return
        s.matches.add(s.me)
        t = pick(["Option<Box<%s>>", "Vec<%s>", "Vec<Box<%s>>"]) % s.ident
        s.fields.append(([], "Elem", s.me[1], s.me[0], w, t))
        return
    d = pick(cands[-25:] if chance(2, 3) else cands)
    if d["matches"] & s.matches:
        return
    if d["kind"] == "transparent":
        forms = ["%s", "Box<%s>"]
        if d["required"] and d["only_required"]:
            forms.append("Option<%s>")
        f = pick(forms)
        t, req = f % d["ident"], f != "Option<%s>" and d["required"]
    else:
        t, req = wrap_elem(d["ident"], True)
    if req or d["kind"] == "transparent":
        if s.size + d["size"] > 18:
            return
        s.size += d["size"]
    s.matches |= d["matches"]
    s.required |= req
    s.user |= d["user"]
    s.fields.append(([], "Elem", d["tag"], d["ns"], w, t))


def user_field(s, ns, rule):
    w = fresh(s.names)
    t = pick(["UStr", "UAcc", "UElem"])
    s.user = True
    if t == "UElem":
        if ("", "u") in s.matches:
            return
        s.matches.add(("", "u"))
        uri, tag = "", "u"
    else:
        uri, tag = ns, RULES[rule](w)
        if (uri, tag) in s.matches:
            return
        s.matches.add((uri, tag))
    t, req = wrap_elem(t, False)
    s.required |= req
    s.size += 1
    s.fields.append(([], "Elem", tag, uri, w, t))


def struct(i):
    ident = "G%d" % i
    s = Struct(ident)
    ns, prefixes, forced, ns_text = container_ns()
    rule = pick([None, None, None] + list(RULES)[1:])
    name = ident
    parts = []
    if chance(1, 3):
        name = pick(TAGS)
        parts.append('rename = "%s"' % name)
    if ns_text:
        parts.append(ns_text)
    if rule:
        parts.append('rename_all = "%s"' % rule)
    R.shuffle(parts)
    s.me = (ns, name)
    for _ in range(pick([0, 0, 1, 2, 3])):
        attr_field(s, ns, prefixes, forced, rule)
    for _ in range(pick([0, 1, 2, 3, 4, 5, 6])):
        elem_field(s, ns, rule, True, False)
    if chance(1, 6):
        user_field(s, ns, rule)
    R.shuffle(s.fields)
    direct = chance(1, 4)
    if direct:
        w = fresh(s.names)
        t = scalar()
        t = pick(["%s", "Option<%s>"]) % t
        if any(f[1] == "Elem" for f in s.fields) and not t.startswith(("String", "Option<String", "Cow", "Option<Cow")):
            t = pick(["String", "Option<String>", "Cow<'static, str>"])
        s.fields.append((["direct"], "Direct", w, "", w, t))
    if not s.fields:
        if chance(1, 2):
            out.append("st! { %s Struct %s = \"%s\" in %s, {} }" % (attr(parts), ident, name, ns_lit(ns)))
        else:
            out.append("#[derive(Clone, Debug, FromXml, ToXml)]\n%s\npub struct %s;\nmodel_unit!(%s = \"%s\" in %s);" % (attr(parts), ident, ident, name, ns_lit(ns)))
    else:
        emit(s, "Struct", attr(parts), ident, name, ns)
    defs.append(dict(ident=ident, kind="struct", ns=ns, tag=name, matches={(ns, name)}, size=s.size, user=s.user, required=True))


def emit(s, kind, a, ident, name, ns):
    lines = []
    for parts, place, tag, uri, w, t in s.fields:
        R.shuffle(parts)
        lines.append("    %s %s \"%s\" in %s => %s: %s," % (attr(parts), place, tag, ns_lit(uri), w, t))
    out.append("st! { %s %s %s = \"%s\" in %s, {\n%s\n}}" % (a, kind, ident, name, ns_lit(ns), "\n".join(lines)))


def transparent(i):
    ident = "G%d" % i
    s = Struct(ident)
    rule = pick([None, None] + list(RULES)[1:])
    for _ in range(pick([1, 2, 3, 4])):
        elem_field(s, "", rule, False, True)
    if not s.fields or s.size > 10:
        return
    parts = ["transparent"] + (['rename_all = "%s"' % rule] if rule else [])
    emit(s, "Transparent", attr(parts), ident, "", "")
    only = all(not f[5].startswith(("Option", "Vec", "Box<Vec")) for f in s.fields) and s.required
    defs.append(dict(ident=ident, kind="transparent", ns="", tag="", matches=set(s.matches), size=s.size, user=s.user,
                     required=s.required, only_required=only))


def forward(i):
    ident = "G%d" % i
    variants, matches, size, user = [], set(), 1, False
    cands = [d for d in defs if d["kind"] in ("struct", "forward", "tuple") and not d["user"]]
    for n in range(pick([1, 2, 3, 4, 5])):
        if not cands:
            return
        d = pick(cands)
        if d["matches"] & matches:
            continue
        matches |= d["matches"]
        if not variants:
            size += d["size"]
        t = pick(["%s", "%s", "Box<%s>"]) % d["ident"]
        variants.append("V%d: %s" % (n, t))
    if not variants or size > 14:
        return
    out.append("fwd! { %s { %s } }" % (ident, ", ".join(variants)))
    defs.append(dict(ident=ident, kind="forward", ns="", tag="", matches=matches, size=size, user=False, required=True))


def tuple_struct(i):
    ident = "G%d" % i
    ns, prefixes, forced, ns_text = container_ns()
    name = ident
    parts = []
    if chance(1, 3):
        name = pick(TAGS)
        parts.append('rename = "%s"' % name)
    if ns_text:
        parts.append(ns_text)
    cands = [d for d in defs if d["kind"] in ("struct", "forward", "tuple") and d["size"] < 8 and not d["user"]]
    types, size = [], 1
    n = pick([0, 1, 1, 2, 3])
    if chance(1, 2) or not cands:
        t = scalar()
        if n and cands and t in TEXTS:
            t = "i16"
        types.append(t)
        size += 1
    for _ in range(n):
        if cands:
            d = pick(cands)
            size += d["size"]
            types.append(pick(["%s", "Box<%s>"]) % d["ident"])
    if not types or size > 14:
        return
    out.append("#[derive(Clone, Debug, FromXml, ToXml)]\n%s\npub struct %s(%s);\nmodel_tuple!(%s = \"%s\" in %s, (%s));" % (
        attr(parts), ident, ", ".join(types), ident, name, ns_lit(ns),
        ", ".join("%d: %s" % (k, t) for k, t in enumerate(types))))
    defs.append(dict(ident=ident, kind="tuple", ns=ns, tag=name, matches={(ns, name)}, size=size, user=False, required=True))


def scalar_enum(i):
    ident = "G%d" % i
    vs = R.sample(["FirstCase", "X", "Item2Go", "Other", "LongLongName", "V"], pick([1, 2, 3, 4]))
    texts = {}
    if chance(1, 3):
        lines = []
        values = R.sample([0, 1, 2, 7, 10, 255, 4294967295], len(vs))
        for v, n in zip(vs, values):
            lines.append("    %s = %d," % (v, n))
            texts[v] = str(n)
        head = attr(["scalar"])
    else:
        rule = pick([None, "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"])
        snake = {"FirstCase": "first_case", "X": "x", "Item2Go": "item2_go", "Other": "other", "LongLongName": "long_long_name", "V": "v"}
        lines = []
        for v in vs:
            s = snake[v]
            t = {None: v, "lowercase": v.lower(), "UPPERCASE": v.upper(), "PascalCase": v, "camelCase": v[0].lower() + v[1:],
                 "snake_case": s, "SCREAMING_SNAKE_CASE": s.upper(), "kebab-case": s.replace("_", "-"),
                 "SCREAMING-KEBAB-CASE": s.upper().replace("_", "-")}[rule]
            if chance(1, 4):
                t = pick(["re named", "<", "a&b", "\\\"q\\\"", "ü-%d" % len(lines), "1"])
                if t in texts.values():
                    t = "other %d" % len(lines)
                lines.append("    #[xml(rename = \"%s\")]" % t)
            texts[v] = t
            lines.append("    %s," % v)
        head = attr(["scalar"] + (['rename_all = "%s"' % rule] if rule else []))
    if len(set(texts.values())) < len(texts):
        return
    out.append("#[derive(Clone, Debug, FromXml, ToXml)]\n%s\npub enum %s {\n%s\n}\nmodel_cases!(%s in \"\", { %s });" % (
        head, ident, "\n".join(lines), ident, ", ".join('%s = "%s"' % (v, t) for v, t in texts.items())))
    defs.append(dict(ident=ident, kind="scalar", size=1, user=False))


for i in range(N):
    k = R.randrange(100)
    if i < 8 or k < 56:
        struct(i)
    elif k < 66:
        tuple_struct(i)
    elif k < 78:
        forward(i)
    elif k < 90:
        transparent(i)
    else:
        scalar_enum(i)

# The later a type, the more it contains
roots = [d for d in defs if d["kind"] in ("struct", "forward", "tuple") and d["size"] <= 18][-(N // 3):]
print("// Made by tools/genzoo.py %d %d: random combinations of what the derive macros support." % (seed, N))
print()
for o in out:
    print(o.replace("{  ", "{ ").replace(" \n", "\n").replace("\n\n", "\n"))
print()
print("pub fn generated() -> Vec<Shape> {\n    vec![")
for d in roots:
    print('        shape!(rw "generated %s", %s, %s),' % (d["ident"], d["ident"], "true" if d["user"] else "false"))
print("    ]\n}")
