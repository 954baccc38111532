"""P27 NITF data extension segments: what GDAL reads from real NITF files with random segments, seen through the accessor."""

import base64
import os
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr

from osgeo import gdal

from aws.osml.gdal import NITFDESAccessor

SHARDS = {"quick": 32, "thorough": 64}
MIN = {"file": 300, "segment": 900, "header": 900, "user-subheader": 200, "data:xml": 300, "data:text": 60, "data:binary": 60, "data:empty": 30, "generation": 300, "inline": 150, "inline-prolog": 60, "documents": 100,
       "missing-field": 300, "conversion": 900, "absent-name": 300, "no-metadata": 8}
RULE = "distinct (segment names, headers, data)"
ASSUME = ["GDAL writes and reads the files; segments of type TRE_OVERFLOW, for which the code documents missing fields, are excluded", "segment names without apostrophes"]
FIELDS = [("DESVER", 2), ("DECLAS", 1), ("DESCLSY", 2), ("DESCODE", 11), ("DESCTLH", 2), ("DESREL", 20), ("DESDCTP", 2), ("DESDCDT", 8), ("DESDCXM", 4), ("DESDG", 1), ("DESDGDT", 8), ("DESCLTX", 43), ("DESCATP", 1), ("DESCAUT", 40),
          ("DESCRSN", 1), ("DESSRDT", 8), ("DESCTLN", 15)]
PRINT = "".join(chr(c) for c in range(33, 127))


def text(r, n, p_blank=0.3):
    if r.random() < p_blank:
        return " " * n
    k = int(r.integers(1, n, endpoint=True))
    s = "".join(r.choice(list(PRINT + "   <&>\"'"), k))
    return s.ljust(n) if r.random() < 0.7 else s.rjust(n) if r.random() < 0.5 else s.center(n)


def xml_doc(r, depth=0):
    e = ET.Element(str(r.choice(["{urn:SICD:1.2.1}SICD", "{urn:SIDD:2.0.0}SIDD", "note", "{urn:x}a-b.c"])) if depth == 0 else str(r.choice(["item", "{urn:x}Row", "Ä"])))
    for k in range(int(r.integers(0, 3))):
        e.set("at%d" % k, str(r.choice(["1", "a<b", 'say "x"', "ü", "it's & more"])))
    if depth < 3 and r.random() < 0.8:
        for _ in range(int(r.integers(1, 4))):
            c = xml_doc(r, depth + 1)
            e.append(c)
    else:
        e.text = str(r.choice(["17", "1 < 2 & 3", "naïve 中文", "0.5 0.25", "]]>", "%d" % r.integers(1e9)]))
    return e


def canon(text):
    return ET.canonicalize(text, strip_text=True, rewrite_prefixes=True)


def header(r):
    vals = [("%02d" % r.integers(0, 100)), str(r.choice(list("USCRT")))] + [text(r, n) for _, n in FIELDS[2:]]
    if r.random() < 0.4:
        return vals, ""
    n = int(r.choice([1, 5, 40, 283, 773]))
    return vals, text(r, n, 0.05)


def write_nitf(path, segs):
    """segs: (name, header text, data bytes). Bytes GDAL cannot take as an option are patched into the finished file."""
    ds = gdal.GetDriverByName("MEM").Create("", 8, 8)
    opts, patch = [], []
    for k, (name, head, data) in enumerate(segs):
        try:
            body = data.decode("utf-8")
            assert "\x00" not in body
        except (UnicodeDecodeError, AssertionError):
            body = ("VFPATCH%03d" % k).ljust(len(data), "#")
            patch.append((body.encode(), data))
        opts.append(f"DES={name}=" + gdal.EscapeString(head + body, gdal.CPLES_BackslashQuotable))
    out = gdal.GetDriverByName("NITF").CreateCopy(path, ds, options=opts)
    del out
    if patch:
        raw = open(path, "rb").read()
        for a, b in patch:
            assert raw.count(a) == 1
            raw = raw.replace(a, b)
        open(path, "wb").write(raw)
    d = gdal.Open(path)
    meta = d.GetMetadata("xml:DES")
    del d
    return meta


def check_segment(m, e, vals, sub, data, kind):
    head = "".join(vals) + "%04d" % len(sub) + sub
    got = NITFDESAccessor.extract_des_header(e)
    m.check(got == head, "header", f"{got!r} instead of {head!r}")
    m.event("header")
    m.event("user-subheader", bool(sub))
    for (name, n), v in zip(FIELDS, vals):
        if name == "DESVER":
            m.check(NITFDESAccessor.parse_field_value(e, name, int) == int(v), "field", name)
            m.check(NITFDESAccessor.parse_field_value(e, name, float) == float(v), "field", name)
            m.event("conversion")
        else:
            f = NITFDESAccessor.parse_field_value(e, name, str)
            m.check(f.ljust(n) == v, "field", f"{name}: {f!r} instead of {v!r}")
    m.raises(lambda: NITFDESAccessor.parse_field_value(e, "DESNOPE", str), ValueError, "missing-field")
    m.event("missing-field")
    x = NITFDESAccessor.extract_desdata_xml(e)
    if kind in ("xml", "text"):
        m.check(x == data.decode(), "data", f"{str(x)[:200]!r} instead of {data.decode()[:200]!r}")
    else:
        m.check(x is None, "data-" + kind, f"{str(x)[:100]!r} from data that is not text")
    m.event("data:" + kind)
    return got


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    with m.case({"metadata": None}):
        for none in (None, []):
            m.check(NITFDESAccessor(none).get_segments_by_name("XML_DATA_CONTENT") == [], "no-metadata", "segments without metadata")
        m.event("no-metadata")
    for i in range(m.n(50, 250)):
        segs = []
        for _ in range(int(r.integers(1, 7))):
            name = str(r.choice(["XML_DATA_CONTENT", "XML_DATA_CONTENT", "CSATTA DES", "MY_DES", "X", "SOME_LONG_DES_NAME_25_CHARS"[:25]]))
            vals, sub = header(r)
            kind = str(r.choice(["xml", "text", "binary", "empty"], p=[0.6, 0.15, 0.15, 0.1]))
            if kind == "xml":
                t = ET.tostring(xml_doc(r), "unicode")
                data = ((str(r.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>'])) if r.random() < 0.5 else "") + t + str(r.choice(["", "\n", "  "]))).encode()
            elif kind == "text":
                data = "".join(r.choice(list(PRINT + " \n\t äß中"), int(r.integers(1, 300)))).encode()
            elif kind == "binary":
                data = bytes([0xFF]) + r.integers(0, 256, int(r.integers(12, 500))).astype("u1").tobytes() + b"\xfe"
            else:
                data = b""
            segs.append((name, vals, sub, data, kind))
        with m.case({"segments": [(n, "".join(v), s[:50], k, len(x)) for n, v, s, x, k in segs]}, repr(segs)):
            raw = [(n, "".join(v) + "%04d" % len(s) + s, x) for n, v, s, x, _ in segs]
            meta = write_nitf(os.path.join(d, "a.ntf"), raw)
            m.event("file")
            acc = NITFDESAccessor(meta)
            found = []
            for name in sorted({s[0] for s in segs}):
                es = acc.get_segments_by_name(name)
                want = [s for s in segs if s[0] == name]
                m.require(len(es) == len(want), "segments", f"{len(es)} segments named {name} instead of {len(want)}")
                for e, (n, v, s, x, k) in zip(es, want):
                    m.check(e.get("name") == name, "segments", "other name")
                    h = check_segment(m, e, v, s, x, k)
                    found.append((name, h, x))
                    m.event("segment")
            m.check(acc.get_segments_by_name("XML_DATA") == [] and acc.get_segments_by_name("") == [], "absent-name", "segments for a name that is not there")
            m.event("absent-name")
            # what was extracted, written to a new file, is the same segment again
            acc2 = NITFDESAccessor(write_nitf(os.path.join(d, "b.ntf"), found))
            for name in sorted({s[0] for s in segs}):
                for e, (n, v, s, x, k) in zip(acc2.get_segments_by_name(name), [s for s in segs if s[0] == name]):
                    check_segment(m, e, v, s, x, k)
            m.event("generation")

        # several documents, and the inline form of later GDAL versions
        docs = [[int(q) for q in r.integers(0, 3, int(r.integers(0, 4)))] for _ in range(int(r.integers(1, 4)))]
        texts, order = [], []
        for doc in docs:
            parts = []
            for q in doc:
                name = "XML_DATA_CONTENT" if q else "OTHER"
                vals, sub = header(r)
                fields = "".join(f'\n  <field name="{n}" value={quoteattr(v.rstrip())} />' for (n, _), v in zip(FIELDS, vals)) + f'\n  <field name="DESSHL" value="{len(sub):04d}" />' + (f'<field name="DESSHF" value={quoteattr(sub)} />' if sub else "")
                content = None
                if q == 2:
                    t = ET.tostring(xml_doc(r), "unicode")
                    pro = str(r.choice(["", '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8" standalone="yes" ?>']))
                    content = t
                    fields += f'\n  <field name="DESDATA">\n   <xml_content>\n{pro}{t}\n</xml_content></field>'
                    m.event("inline")
                    m.event("inline-prolog", bool(pro))
                elif r.random() < 0.5:
                    content = ET.tostring(xml_doc(r), "unicode")
                    fields += f'<field name="DESDATA" value="{base64.b64encode(content.encode()).decode()}" />'
                elif r.random() < 0.5:
                    fields += '<field name="DESDATA" value="" />'
                elif r.random() < 0.5:
                    fields += str(r.choice(['<field name="DESDATA"><xml_content/></field>', '<field name="DESDATA"/>', '<field name="DESDATA"><other>1</other></field>']))
                parts.append(f'<des name="{name}">{fields}\n</des>')
                order.append((name, vals, sub, content))
            head = str(r.choice(["", '<?xml version="1.0"?>\n', "  "]))
            texts.append(head + "<des_list>\n" + "\n".join(parts) + "\n</des_list>\n")
        with m.case({"documents": texts}, repr(texts)):
            acc = NITFDESAccessor(list(texts))
            m.event("documents")
            for name in ("XML_DATA_CONTENT", "OTHER"):
                es = acc.get_segments_by_name(name)
                want = [o for o in order if o[0] == name]
                m.require(len(es) == len(want), "segments", f"{len(es)} segments named {name} instead of {len(want)}")
                for e, (_, vals, sub, content) in zip(es, want):
                    got = NITFDESAccessor.extract_des_header(e)
                    m.check(got == "".join(vals) + "%04d" % len(sub) + sub, "header", f"{got!r}")
                    x = NITFDESAccessor.extract_desdata_xml(e)
                    if content is None:
                        m.check(x is None, "data-absent", f"{x!r}")
                    elif m.check(x is not None, "data", "no data found"):
                        m.check(canon(x) == canon(content), "data", f"{x[:200]!r} instead of {content[:200]!r}")
