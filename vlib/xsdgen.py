"""Random documents from an XML schema (the subset of XSD used by the SICD and SIDD schemas)."""

import os
import xml.etree.ElementTree as ET

XS = "{http://www.w3.org/2001/XMLSchema}"
NUM = {"double", "float", "decimal"}
INT = {"int", "integer", "positiveInteger", "nonNegativeInteger", "long", "short", "unsignedInt", "unsignedLong"}
BOUND = {"int": (-(2**31), 2**31 - 1), "long": (-(2**63), 2**63 - 1), "short": (-(2**15), 2**15 - 1), "positiveInteger": (1, 2**40), "nonNegativeInteger": (0, 2**40), "integer": (-(2**40), 2**40), "unsignedInt": (0, 2**32 - 1), "unsignedLong": (0, 2**64 - 1)}


def from_pattern(r, pattern):
    """A random string matching a (simple) regular expression"""
    from re import _parser as sre

    def gen(seq):
        out = ""
        for op, arg in seq:
            op = str(op)
            if op == "LITERAL":
                out += chr(arg)
            elif op == "IN":
                kind, a = arg[int(r.integers(len(arg)))]
                kind = str(kind)
                if kind == "LITERAL":
                    out += chr(a)
                elif kind == "RANGE":
                    out += chr(int(r.integers(a[0], a[1] + 1)))
                elif kind == "NEGATE":
                    out += "q"
                else:
                    out += "7" if "DIGIT" in str(a) else "w"
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = arg
                for _ in range(int(r.integers(lo, min(int(hi), lo + 3) + 1))):
                    out += gen(sub)
            elif op == "SUBPATTERN":
                out += gen(arg[-1])
            elif op == "BRANCH":
                out += gen(arg[1][int(r.integers(len(arg[1])))])
            elif op in ("ANY", "NOT_LITERAL"):
                out += "k"
            elif op != "AT":
                raise NotImplementedError(op)
        return out

    return gen(sre.parse(pattern))


class Schema:
    def __init__(self, path):
        self.el, self.ct, self.st, self.ag, self.at, self.gr = {}, {}, {}, {}, {}, {}
        self.ctx = {}  # node -> (target namespace, prefix map, element qualified, attribute qualified)
        self.files = set()
        self.chameleon = {}
        self.tns = self.load(path)

    def load(self, path, chameleon=None):
        path = os.path.realpath(path)
        if path in self.files:
            return None
        self.files.add(path)
        ns = {}
        root = None
        for ev, x in ET.iterparse(path, ("start-ns", "start")):
            if ev == "start-ns":
                ns.setdefault(x[0], x[1])
            elif root is None:
                root = x
        t = root.get("targetNamespace") or chameleon or ""
        info = (t, ns, root.get("elementFormDefault") == "qualified", root.get("attributeFormDefault") == "qualified")
        for n in root.iter():
            self.ctx[n] = info
            self.chameleon[n] = root.get("targetNamespace") is None
        for c in root:
            key = (t, c.get("name"))
            for tag, store in (("element", self.el), ("complexType", self.ct), ("simpleType", self.st), ("attributeGroup", self.ag), ("attribute", self.at), ("group", self.gr)):
                if c.tag == XS + tag:
                    store[key] = c
            if c.tag in (XS + "import", XS + "include") and c.get("schemaLocation"):
                q = os.path.join(os.path.dirname(path), c.get("schemaLocation"))
                if os.path.exists(q):
                    self.load(q, t if c.tag == XS + "include" else None)
        return t

    def q(self, node, name):
        t, ns, _, _ = self.ctx[node]
        if ":" in name:
            p, n = name.split(":", 1)
            return (ns[p], n)
        return (ns.get("", t if self.chameleon.get(node) else ""), name)


class Gen:
    """One random valid document. leaves records (path of (tag, index), kind, text)."""

    def __init__(self, schema, r, p_optional, max_repeat=3, hit=None, budget=500):
        self.count, self.budget = 0, budget
        self.s, self.r, self.p, self.max_repeat = schema, r, p_optional, max_repeat
        self.hit = hit if hit is not None else {}
        self.kinds = {}  # id(element) or (id(element), attr) -> base kind

    # ---- simple values
    def simple(self, key, depth=0):
        """-> (kind, text); kind: num int str bool datetime date list-..."""
        ns, n = key
        if ns == "http://www.w3.org/2001/XMLSchema":
            return self.builtin(n)
        return self.simple_node(self.s.st[key])

    def builtin(self, n, lo=None, hi=None, strict=None):
        r = self.r
        if n in NUM:
            if lo is None and hi is None:
                u = r.random()
                v = 0.0 if u < 0.05 else float(r.normal()) * 10.0 ** int(r.integers(-12, 9)) if u < 0.9 else float(r.choice([1e-300, -1e300, 1 / 3, 123456789.123456789, -0.5]))
            else:
                a = lo if lo is not None else hi - 100
                b = hi if hi is not None else lo + 100
                v = float(a + (b - a) * r.random()) if r.random() < 0.9 else float(a if strict != "min" else (a + b) / 2)
            return "num", repr(v)
        if n in INT:
            a, b = BOUND[n]
            if lo is not None:
                a = max(a, int(lo))
            if hi is not None:
                b = min(b, int(hi))
            if r.random() < 0.5:
                a, b = max(a, -5) if b > -5 else a, min(b, 5000) if a < 5000 else b
            return "int", str(int(r.integers(a, b, endpoint=True)))
        if n == "boolean":
            return "bool", str(r.choice(["true", "false"]))
        if n == "dateTime":
            d = "20%02d-%02d-%02dT%02d:%02d:%02d" % tuple(int(r.integers(*q)) for q in ((0, 99), (1, 13), (1, 29), (0, 24), (0, 60), (0, 60)))
            frac = ["", ".%03d" % r.integers(1, 999), ".%06d" % r.integers(1, 999999), ".%09d" % r.integers(1, 999999999)][int(r.integers(4))]
            return "datetime", d + frac + str(r.choice(["Z", "", "+02:30", "-07:00"]))
        if n == "date":
            return "date", "20%02d-%02d-%02d" % tuple(int(r.integers(*q)) for q in ((0, 99), (1, 13), (1, 29)))
        if n in ("NMTOKEN", "NCName", "ID", "token", "anyURI", "NMTOKENS"):
            return "str", "tok%d" % r.integers(1e6)
        if n == "gYear":
            return "str", "20%02d" % r.integers(99)
        if n in ("string", "anySimpleType", "normalizedString"):
            words = ["alpha", "Zürich", "a<b", "x & y", "\"quoted\"", "it's", "1.0", "0", "true", "中文", "e^-x", "{ns}", "a/b:c", "2020-01-01"]
            return "str", " ".join(str(r.choice(words)) for _ in range(int(r.integers(1, 4)))) + str(r.integers(1000))
        raise NotImplementedError(n)

    PATTERNS = {
        "[VHXYSE]|RHC|LHC|UNKNOWN|SEQUENCE|OTHER[^:]*": ["V", "H", "RHC", "SEQUENCE", "OTHER_x"],
        "[VHXYSE]|RHC|LHC|UNKNOWN|OTHER[^:]*": ["V", "H", "LHC", "UNKNOWN", "OTHER"],
        "(([VHXYSE]|RHC|LHC|OTHER[^:]*):([VHXYSE]|RHC|LHC|OTHER[^:]*))|OTHER|UNKNOWN": ["V:V", "H:V", "OTHERa:RHC", "UNKNOWN"],
        "OTHER.*": ["OTHER", "OTHER_x1"],
        "OTHER.*:OTHER.*": ["OTHER1:OTHER2"],
        "([0-9]+),([0-9]+),([0-9]+)": ["255,0,17", "1,2,3"],
    }

    def simple_node(self, node):
        r = self.r
        for c in node:
            if c.tag == XS + "restriction":
                enums = [e.get("value") for e in c if e.tag == XS + "enumeration"]
                if c.get("base"):
                    base = self.s.q(c, c.get("base"))
                    prim = self.primitive(base)
                else:
                    prim, base = "string", None
                pats = [e.get("value") for e in c if e.tag == XS + "pattern"]
                if enums:
                    k = "num" if prim in NUM else "int" if prim in INT else "enum"
                    seen = self.hit.setdefault(c, {}) if isinstance(self.hit.get(c), (dict, type(None))) else {}
                    v = min(enums, key=lambda q: (seen.get(q, 0), r.random()))  # least used value first
                    seen[v] = seen.get(v, 0) + 1
                    return k, v
                if pats:
                    return "str", str(r.choice(self.PATTERNS[pats[0]])) if pats[0] in self.PATTERNS else from_pattern(r, pats[0])
                f = {e.tag[len(XS):]: e.get("value") for e in c}
                if prim in NUM or prim in INT:
                    lo = f.get("minInclusive", f.get("minExclusive"))
                    hi = f.get("maxInclusive", f.get("maxExclusive"))
                    if lo is not None or hi is not None:
                        lo, hi = (None if v is None else float(v) for v in (lo, hi))
                        return self.builtin(prim, lo, hi, "min" if "minExclusive" in f else None)
                if base is None:
                    inner = [e for e in c if e.tag == XS + "simpleType"]
                    return self.simple_node(inner[0])
                k, v = self.simple(base)
                if "maxLength" in f:
                    v = v[: int(f["maxLength"])].strip()
                return k, v
            if c.tag == XS + "list":
                key = self.s.q(c, c.get("itemType")) if c.get("itemType") else None
                items = []
                for _ in range(int(r.integers(1, 4)) if self.max_repeat < 5 else int(r.integers(1, 80))):
                    k, v = self.simple(key) if key else self.simple_node(c[0])
                    if v not in items:
                        items.append(v)
                return "list", " ".join(items)
            if c.tag == XS + "union":
                opts = [self.s.q(c, t) for t in (c.get("memberTypes") or "").split()]
                subs = [e for e in c if e.tag == XS + "simpleType"]
                i = int(r.integers(len(opts) + len(subs)))
                return self.simple(opts[i]) if i < len(opts) else self.simple_node(subs[i - len(opts)])
        raise NotImplementedError(ET.tostring(node)[:300])

    def primitive(self, key):
        if key[0] == "http://www.w3.org/2001/XMLSchema":
            return key[1]
        st = self.s.st.get(key)
        for c in st if st is not None else []:
            if c.tag == XS + "restriction" and c.get("base"):
                return self.primitive(self.s.q(c, c.get("base")))
        return "string"

    # ---- elements
    def document(self, name):
        decl = self.s.el[(self.s.tns, name)]
        return self.element(decl, 0)

    def element(self, decl, depth):
        if decl.get("ref"):
            decl = self.s.el[self.s.q(decl, decl.get("ref"))]
            tns = self.s.ctx[decl][0]
            tag = f"{{{tns}}}{decl.get('name')}"
        else:
            tns, _, qual, _ = self.s.ctx[decl]
            top = decl in self.s.el.values()
            qual = decl.get("form") == "qualified" if decl.get("form") else qual
            tag = f"{{{tns}}}{decl.get('name')}" if (qual or top) and tns else decl.get("name")
        self.hit[decl] = self.hit.get(decl, 0) + 1
        self.count += 1
        e = ET.Element(tag)
        if decl.get("type"):
            key = self.s.q(decl, decl.get("type"))
            if key in self.s.ct:
                self.complex(e, self.s.ct[key], depth)
            else:
                k, v = self.simple(key)
                e.text, self.kinds[e] = v, k
        else:
            inner = [c for c in decl if c.tag in (XS + "complexType", XS + "simpleType")]
            if not inner:
                e.text, self.kinds[e] = self.builtin("string")[1], "str"
            elif inner[0].tag == XS + "complexType":
                self.complex(e, inner[0], depth)
            else:
                k, v = self.simple_node(inner[0])
                e.text, self.kinds[e] = v, k
        if decl.get("fixed") is not None:
            e.text = decl.get("fixed")
        return e

    def complex(self, e, ct, depth):
        for c in ct:
            if c.tag in (XS + "sequence", XS + "choice", XS + "all", XS + "group"):
                self.particle(e, c, depth)
            elif c.tag == XS + "attribute":
                self.attribute(e, c)
            elif c.tag == XS + "attributeGroup":
                self.attgroup(e, c)
            elif c.tag == XS + "simpleContent":
                x = c[0] if c[0].tag != XS + "annotation" else c[1]
                base = self.s.q(x, x.get("base"))
                if base in self.s.ct:
                    self.complex(e, self.s.ct[base], depth)
                else:
                    k, v = self.simple(base)
                    e.text, self.kinds[e] = v, k
                if x.tag == XS + "restriction" and any(q.tag != XS + "attribute" for q in x):
                    k, v = self.simple_node(c)
                    e.text, self.kinds[e] = v, k
                for a in x:
                    if a.tag == XS + "attribute":
                        self.attribute(e, a)
                    elif a.tag == XS + "attributeGroup":
                        self.attgroup(e, a)
            elif c.tag == XS + "complexContent":
                x = [q for q in c if q.tag in (XS + "extension", XS + "restriction")][0]
                base = self.s.q(x, x.get("base"))
                if x.tag == XS + "extension":
                    self.complex(e, self.s.ct[base], depth)
                self.complex(e, x, depth)

    def decl(self, node):
        return self.s.el.get(self.s.q(node, node.get("ref")), node) if node.get("ref") else node

    def occurs(self, node):
        lo = int(node.get("minOccurs", 1))
        mx = node.get("maxOccurs", "1")
        hi = lo + self.max_repeat if mx == "unbounded" else int(mx)
        if hi == 0:
            return 0
        full = self.count > self.budget
        p = self.p if self.p in (0.0, 1.0) or node.tag != XS + "element" or self.decl(node) in self.hit else max(0.6, self.p)
        if lo == 0 and self.r.random() > (p if not full else 0.1 * self.p):
            return 0
        lo = max(lo, 1)
        return lo if hi == lo or full else int(self.r.integers(lo, min(hi, lo + self.max_repeat), endpoint=True))

    def particle(self, e, node, depth):
        if node.tag == XS + "group" and node.get("ref"):
            for _ in range(self.occurs(node)):
                for c in self.s.gr[self.s.q(node, node.get("ref"))]:
                    if c.tag in (XS + "sequence", XS + "choice", XS + "all"):
                        self.particle(e, c, depth)
            return
        for _ in range(self.occurs(node)):
            kids = [c for c in node if c.tag in (XS + "element", XS + "sequence", XS + "choice", XS + "group")]
            if node.tag == XS + "choice":
                fresh = [c for c in kids if c.tag == XS + "element" and c not in self.hit]
                kids = [kids[int(self.r.integers(len(kids)))]] if not fresh or self.count > self.budget or self.r.random() < 0.3 else [fresh[int(self.r.integers(len(fresh)))]]
            for c in kids:
                if c.tag == XS + "element":
                    if depth > 14 and c.get("minOccurs") == "0":
                        continue
                    for _ in range(self.occurs(c)):
                        e.append(self.element(c, depth + 1))
                else:
                    self.particle(e, c, depth)

    def attribute(self, e, a):
        use = a.get("use")
        if use == "prohibited" or (use != "required" and self.r.random() > self.p):
            if a.get("fixed") is None and a.get("default") is None:
                return
        decl = self.s.at[self.s.q(a, a.get("ref"))] if a.get("ref") else a
        tns, _, _, qual = self.s.ctx[decl]
        if decl.get("form"):
            qual = decl.get("form") == "qualified"
        name = f"{{{tns}}}{decl.get('name')}" if (a.get("ref") or qual) and tns else decl.get("name")
        if decl.get("type"):
            k, v = self.simple(self.s.q(decl, decl.get("type")))
        else:
            inner = [c for c in decl if c.tag == XS + "simpleType"]
            k, v = self.simple_node(inner[0]) if inner else self.builtin("string")
        v = a.get("fixed", decl.get("fixed", v))
        e.set(name, v)
        self.hit[decl] = self.hit.get(decl, 0) + 1
        self.kinds[(e, name)] = k

    def attgroup(self, e, a):
        g = self.s.ag[self.s.q(a, a.get("ref"))]
        for c in g:
            if c.tag == XS + "attribute":
                self.attribute(e, c)
            elif c.tag == XS + "attributeGroup":
                self.attgroup(e, c)


def reachable(schema, root):
    """Every element and attribute declaration a document can use, and every enumeration (as its restriction node)"""
    seen, todo, out, enums = set(), [schema.el[(schema.tns, root)]], set(), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.tag in (XS + "element", XS + "attribute"):
            if n.get("ref"):
                todo.append((schema.el if n.tag == XS + "element" else schema.at)[schema.q(n, n.get("ref"))])
            elif n.get("maxOccurs") != "0":
                out.add(n)
        if n.tag == XS + "restriction" and any(c.tag == XS + "enumeration" for c in n):
            enums.add(n)
        for a in ("type", "base", "itemType", "ref"):
            if n.get(a):
                q = schema.q(n, n.get(a))
                todo += [s[q] for s in (schema.ct, schema.st, schema.ag, schema.gr) if q in s]
        for t in (n.get("memberTypes") or "").split():
            q = schema.q(n, t)
            todo += [schema.st[q]] if q in schema.st else []
        todo += list(n)
    return out, enums
