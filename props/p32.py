"""P32 SICD / SIDD document models: parse -> objects -> serialise, on random documents drawn from the published schemas."""

import copy
import dataclasses
import enum
import math
import os
import re
import xml.etree.ElementTree as ET
from decimal import Decimal

import numpy as np
from xsdata.formats.dataclass.parsers import XmlParser
from xsdata.formats.dataclass.serializers import XmlSerializer
from xsdata.formats.dataclass.serializers.config import SerializerConfig
from xsdata.utils.text import snake_case

import aws.osml.formats.sicd.models.sicd_v1_2_1 as sicd121
import aws.osml.formats.sicd.models.sicd_v1_3_0 as sicd130
import aws.osml.formats.sidd.models.sidd_v1_0_0 as sidd1
import aws.osml.formats.sidd.models.sidd_v2_0_0 as sidd2
import aws.osml.formats.sidd.models.sidd_v3_0_0 as sidd3
from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater
from vlib.core import DATA
from vlib.xsdgen import Gen, Schema, reachable

SHARDS = {"quick": 10, "thorough": 50}
MIN = {"declarations-exercised": 3500, "enumeration-values-exercised": 4000, "parsed:SICD-1.2.1": 80, "parsed:SICD-1.3.0": 80, "parsed:SIDD-1.0.0": 80, "parsed:SIDD-2.0.0": 80, "parsed:SIDD-3.0.0": 80, "respelled": 5000, "comments": 60, "default-namespace": 80, "chipped:SICD": 120, "chipped:SIDD": 200}
RULE = "distinct documents (text)"
ASSUME = ["documents are drawn from the XSD files in the repository's test data, kept in /verif/data/schemas", "no NaN or infinite numbers, no strings with leading or trailing white space"]
S = os.path.join(DATA, "schemas")
FORMATS = {
    "SICD-1.2.1": ("sicd/SICD_schema_V1.2.1_2018_12_13.xsd", "SICD", sicd121),
    "SICD-1.3.0": ("sicd/SICD_schema_V1.3.0_2021_11_30_FINAL.xsd", "SICD", sicd130),
    "SIDD-1.0.0": ("sidd/SIDD_schema_V1.0.0_2011_08_31.xsd", "SIDD", sidd1),
    "SIDD-2.0.0": ("sidd/SIDD_schema_V2.0.0_2019_05_31.xsd", "SIDD", sidd2),
    "SIDD-3.0.0": ("sidd/SIDD_schema_V3.0.0.xsd", "SIDD", sidd3),
}
XSI = "{http://www.w3.org/2001/XMLSchema-instance}"


def dt(text):
    mt = re.fullmatch(r"(\d+)-(\d+)-(\d+)(?:T(\d+):(\d+):(\d+)(?:\.(\d+))?)?(Z|[+-]\d\d:\d\d)?", text.strip())
    g = mt.groups()
    zone = {None: None, "Z": "+00:00"}.get(g[7], g[7])
    return tuple(int(v or 0) for v in g[:6]) + ((g[6] or "").rstrip("0"), zone)


def same(kind, a, b):
    a, b = (a or "").strip() if kind != "str" else (a or ""), (b or "").strip() if kind != "str" else (b or "")
    if kind in ("num", "int"):
        try:
            return float(a) == float(b) and (kind == "num" or int(a) == int(b))
        except ValueError:
            return False
    if kind == "bool":
        t = {"true": 1, "1": 1, "false": 0, "0": 0}
        return t.get(a) == t.get(b, "?")
    if kind in ("datetime", "date"):
        try:
            return dt(a) == dt(b)
        except Exception:
            return False
    if kind == "list":
        return a.split() == b.split()
    return a == b


def local(tag):
    return tag.split("}")[-1]


def compare(m, kinds, a, b, path, key):
    m.check(a.tag == b.tag, key + "-name", f"{path}: {a.tag} became {b.tag}")
    if len(a) == 0:
        k = kinds.get(a, "str")
        if a.text or b.text:
            m.check(same(k, a.text, b.text), key + "-value", f"{path} ({k}): {a.text!r} became {b.text!r}")
        m.event("value:" + k)
    for n in set(a.attrib) | {n for n in b.attrib if not n.startswith(XSI)}:
        if n not in b.attrib:
            m.check(False, key + "-attribute-lost", f"{path}@{n}={a.get(n)!r}")
        elif n in a.attrib:
            m.check(same(kinds.get((a, n), "str"), a.get(n), b.get(n)), key + "-attribute-value", f"{path}@{n}: {a.get(n)!r} became {b.get(n)!r}")
        else:
            m.check(False, key + "-attribute-added", f"{path}@{n}={b.get(n)!r}")
        m.event("attribute")
    ta, tb = [c.tag for c in a], [c.tag for c in b]
    if ta != tb:
        sa, sb = sorted(ta), sorted(tb)
        if sa == sb:
            m.check(False, key + "-order", f"{path}: {[local(t) for t in ta]} became {[local(t) for t in tb]}")
        else:
            m.check(False, key + "-elements", f"{path}: lost {[local(t) for t in sa if sa.count(t) > sb.count(t)][:4]}, added {[local(t) for t in sb if sb.count(t) > sa.count(t)][:4]}")
    for t in dict.fromkeys(ta):
        for x, y in zip([c for c in a if c.tag == t], [c for c in b if c.tag == t]):
            compare(m, kinds, x, y, f"{path}/{local(t)}", key)


def typed(m, kind, text, v, path):
    """The Python value carries what the text says, as the type of its declaration"""
    if kind == "enum":
        m.check(isinstance(v, enum.Enum), "access-enumeration", f"{path}: {text!r} is not a known value of the enumeration")
    if isinstance(v, enum.Enum):
        v = v.value
    if kind in ("num", "int"):
        ok = not isinstance(v, (bool, str)) and float(v) == float(text) and (kind == "num" or int(v) == int(text))
    elif kind == "bool":
        ok = isinstance(v, bool) and v == (text.strip() in ("true", "1"))
    elif kind in ("datetime", "date"):
        ok = dt(str(v)) == dt(text)
    elif kind == "list":
        ok = isinstance(v, (list, tuple)) and [str(getattr(q, "value", q)) for q in v] == text.split()
    else:
        ok = isinstance(v, str) and v == text
    m.check(ok, "access-value", f"{path} ({kind}): {text!r} is {v!r}")
    m.event("typed:" + kind)


def access(m, kinds, e, obj, path):
    """Each element and attribute is found under its snake_case name, with its value"""
    for n, t in e.attrib.items():
        a = snake_case(local(n))
        v = getattr(obj, a, None)
        if m.check(v is not None, "access-attribute", f"{path}.{a} is missing"):
            typed(m, kinds.get((e, n), "str"), t, v, f"{path}.{a}")
    for tag in dict.fromkeys(c.tag for c in e):
        kids = [c for c in e if c.tag == tag]
        a = snake_case(local(tag))
        v = getattr(obj, a, getattr(obj, a + "_value", None))
        if not m.check(v is not None, "access-element", f"{path}.{a} is missing in {type(obj).__name__}"):
            continue
        plain = kinds.get(kids[0]) == "list" and not (isinstance(v, list) and v and (isinstance(v[0], list) or dataclasses.is_dataclass(v[0])))
        vs = v if isinstance(v, list) and not plain else [v]
        if not m.check(len(vs) == len(kids), "access-count", f"{path}.{a}: {len(kids)} elements, {len(vs)} values"):
            continue
        for c, w in zip(kids, vs):
            p = f"{path}.{a}"
            if dataclasses.is_dataclass(w) and not isinstance(w, enum.Enum):
                access(m, kinds, c, w, p)
                if c in kinds and c.text:
                    typed(m, kinds[c], c.text, getattr(w, "value", None), p + ".value")
            elif c in kinds:
                typed(m, kinds[c], c.text or "", w, p)


SAMPLES = {"num": (" %s ", "+%s", "%sE0", "0%s"), "int": (" %s", "+%s", "0%s", "%s "), "bool": (" %s ",), "datetime": (" %s ",)}


def vary(m, r, kinds, doc):
    """Other spellings of the same values (surrounding white space, explicit sign, exponents, 0/1 for booleans)"""

    def respell(k, t):
        if k in SAMPLES and t and r.random() < 0.15:
            if k == "bool" and r.random() < 0.7:
                t = {"true": "1", "false": "0"}[t]
            elif t[0] != "-" and not (k == "num" and "e" in t):
                t = str(r.choice(SAMPLES[k])) % t
            m.event("respelled")
        return t

    for e in doc.iter():
        if e in kinds and len(e) == 0:
            e.text = respell(kinds[e], e.text)
        for n in e.attrib:
            e.set(n, respell(kinds.get((e, n)), e.get(n)))


def write(m, r, doc, tns):
    """One of the many byte sequences that are this document"""
    text = ET.tostring(doc, "unicode")
    if r.random() < 0.5 and " ns0:" not in text and all(e.tag.startswith("{") for e in doc.iter()):
        text = text.replace("<ns0:", "<").replace("</ns0:", "</").replace("xmlns:ns0=", "xmlns=")
        m.event("default-namespace")
    elif r.random() < 0.5:
        p = str(r.choice(["si", "SICD", "x_1"]))
        text = text.replace("<ns0:", f"<{p}:").replace("</ns0:", f"</{p}:").replace("xmlns:ns0=", f"xmlns:{p}=").replace(" ns0:", f" {p}:")
    if r.random() < 0.4:
        text = re.sub(r"(</[^>]+>)(?=<)", r"\1\n   <!-- <NumRows>1</NumRows> --> ", text, count=int(r.integers(1, 200)))
        m.event("comments")
    if r.random() < 0.3:
        text = "\n" * int(r.integers(3)) + text + "\n \n"
    elif r.random() < 0.5:
        text = '<?xml version="1.0"?>\n<?note ignore="me"?>\n' + text
    return text


def render(obj):
    return XmlSerializer(config=SerializerConfig(pretty_print=False)).render(obj)


def without_chip(doc):
    doc = copy.deepcopy(doc)
    for e in [e for e in doc if local(e.tag) == "DownstreamReprocessing"]:
        for c in [c for c in e if local(c.tag) == "GeometricChip"]:
            e.remove(c)
        if len(e) == 0:
            doc.remove(e)
    return doc


def pairs(kinds, a, b, out):
    """kinds of a copied document"""
    if a in kinds:
        out[b] = kinds[a]
    for n in a.attrib:
        if (a, n) in kinds:
            out[(b, n)] = kinds[(a, n)]
    for x, y in zip(a, b):
        pairs(kinds, x, y, out)


def updaters(m, r, fmt, g, doc, text, root):
    k2 = {}
    if root == "SICD":
        col, row = (int(v) for v in r.integers(0, 5000, 2))
        w, h = (int(v) for v in r.integers(1, 3000, 2))
        u = SICDUpdater(text)
        for _ in range(int(r.integers(3))):
            u.update_image_data_for_chip([int(v) for v in r.integers(1, 90, 4)], None)
        u.update_image_data_for_chip([col, row, w, h], None)
        want = copy.deepcopy(doc)
        pairs(g.kinds, doc, want, k2)
        (image,) = [e for e in want if local(e.tag) == "ImageData"]
        for n, v in (("NumRows", h), ("NumCols", w), ("FirstRow", row), ("FirstCol", col)):
            (e,) = [c for c in image if local(c.tag) == n]
            e.text = str(v + (int(e.text) if n.startswith("First") else 0))
        compare(m, k2, want, ET.fromstring(u.encode_current_xml()), root, "chip-" + fmt)
    else:
        sizes = [int(c.text) for e in doc.iter() if local(e.tag) == "ChipSize" for c in e]
        if 1 in sizes:
            return
        u = SIDDUpdater(text)
        u.update_image_data_for_chip([int(v) for v in r.integers(2, 900, 4)], None)
        before = copy.deepcopy(doc)
        pairs(g.kinds, doc, before, k2)
        stripped = without_chip(before)
        k3 = {}
        for e in [e for e in before if local(e.tag) == "DownstreamReprocessing"]:  # strip in place to keep the kinds
            for c in [c for c in e if local(c.tag) == "GeometricChip"]:
                e.remove(c)
            if len(e) == 0:
                before.remove(e)
        got = ET.fromstring(u.encode_current_xml())
        m.check(len([e for e in got if local(e.tag) == "DownstreamReprocessing"]) == 1, "chip-missing", "no DownstreamReprocessing")
        compare(m, k2, before, without_chip(got), root, "chip-" + fmt)
    m.event("chipped:" + root)


def run(m, tier, shard):
    r = m.rng
    fmt = list(FORMATS)[shard % 5]
    f, root, mod = FORMATS[fmt]
    schema = Schema(os.path.join(S, f))
    hit = {}
    for i in range(m.n(45, 160)):
        g = Gen(schema, r, float(r.choice([0.0, 0.2, 0.5, 0.8, 1.0])), hit=hit, budget=int(r.choice([100, 500, 1500])), max_repeat=int(r.choice([1, 3, 12])))
        doc = g.document(root)
        vary(m, r, g.kinds, doc)
        text = write(m, r, doc, schema.tns)
        with m.case({"format": fmt, "p": g.p, "size": len(text)}, text):
            how = int(r.integers(3))
            obj = XmlParser().from_string(text) if how == 0 else XmlParser().from_string(text, getattr(mod, root)) if how == 1 else XmlParser().from_bytes(text.encode())
            m.event("parsed:" + fmt)
            m.require(type(obj) is getattr(mod, root), "class", f"{type(obj)}")
            out = render(obj)
            compare(m, g.kinds, doc, ET.fromstring(out), root, "roundtrip-" + fmt)
            access(m, g.kinds, doc, obj, root)
            again = XmlParser().from_string(out)
            m.check(again == obj, "second-generation", "the serialised document does not parse to equal objects")
            m.check(render(again) == out, "second-generation", "serialising again changes the document")
            updaters(m, r, fmt, g, doc, text, root)
    decls, enums = reachable(schema, root)
    m.event("declarations", len(decls))
    m.event("declarations-exercised", sum(d in hit for d in decls))
    values = {(e, c.get("value")) for e in enums for c in e if local(c.tag) == "enumeration"}
    m.event("enumeration-values", len(values))
    m.event("enumeration-values-exercised", sum(v in hit.get(e, {}) for e, v in values))
