"""C22: an object converts alike however it was obtained."""
from epcpy.epc_schemes.sgtin import GTIN_TYPE
from epcpy.utils import parsers
from vharness.c16 import build, flt_spec, kwargs, say, simple
from vharness.common import cls_of
from vharness.tds import ELEMENT, KEYED, SCHEMES, TAGGED, coding_names

BOUNDS = ("every scheme; the object read from each representation of the identity (URI, tag URI, binary, hexadecimal, "
          "base64, element string, GTIN and serial), by the scheme's own and by the generic functions; read with every "
          "coding scheme and filter value, converted with every coding scheme and an independent filter value; company "
          "prefix lengths 6, 7 and 12 (thorough: all), numeric, general and escaped serials of up to 3 characters, "
          "contents symbolic")
OUTSIDE = "serials longer than three characters (their forms are the subject of C01, C02, C05 and C10)"


def obtained(hx, cls, scheme, uri, L, kw):
    """[(name, outcome)] of the ways to obtain the object."""
    made = hx.attempt(lambda: cls(uri))
    out = []
    if not made.ok:
        return made, out
    o = made.value
    out.append(("from_epc_uri", hx.attempt(lambda: cls.from_epc_uri(uri))))
    out.append(("scheme parser", hx.attempt(lambda: parsers.epc_pure_identity_to_scheme(uri))))
    if scheme in ELEMENT:
        text = o.gs1_element_string()
        out.append(("element", hx.attempt(lambda: cls.from_gs1_element_string(text, L))))
        out.append(("element parser", hx.attempt(lambda: parsers.gs1_element_string_to_gs1_element(text, L))))
        out.append(("GS1 element parser", hx.attempt(lambda: parsers.epc_pure_identity_to_gs1_element(uri))))
    if scheme in KEYED:
        out.append(("keyed parser", hx.attempt(lambda: parsers.epc_pure_identity_to_gs1_keyed(uri))))
    if scheme == "sgtin":
        out.append(("GTIN", hx.attempt(lambda: cls.from_gtin_plus_serial(o.gtin(), uri.split(".", 2)[2], L))))
    if kw is not None:
        out.append(("encodable parser", hx.attempt(lambda: parsers.epc_pure_identity_to_tag_encodable(uri))))
        for form, fns in (("tag_uri", (cls.from_tag_uri, parsers.tag_uri_to_tag_encodable)),
                          ("binary", (cls.from_binary, parsers.binary_to_tag_encodable)),
                          ("hex", (cls.from_hex, parsers.hex_to_tag_encodable)),
                          ("base64", (cls.from_base64, parsers.base64_to_tag_encodable))):
            t = hx.attempt(lambda: getattr(o, form)(**kw))
            if t.ok:
                for fn in fns:
                    out.append((form, hx.attempt(lambda: fn(t.value))))
    return made, out


def conversions(scheme, kws):
    out = []
    for kw in kws:
        for form in ("tag_uri", "binary", "hex", "base64"):
            out.append((form, lambda o, form=form, kw=kw: getattr(o, form)(**kw)))
    if scheme in KEYED:
        out.append(("key", lambda o: o.gs1_key()))
    if scheme in ("sgtin", "lgtin"):
        out.append(("GTIN-13", lambda o: o.gs1_key(gtin_type=GTIN_TYPE.GTIN13)))
    if scheme in ELEMENT:
        out.append(("element", lambda o: o.gs1_element_string()))
    out.append(("uri", lambda o: o.epc_uri))
    return out


def check(hx, p, i):
    scheme = p["scheme"]
    cls = cls_of(scheme)
    uri = build(hx, scheme, i, "a")
    kw = kwargs(hx, scheme, p["read"], i, "aflt") if p["read"] else None
    made, ways = obtained(hx, cls, scheme, uri, p["L"], kw)
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    kws = [kwargs(hx, scheme, c, i, "bflt") for c in p["write"]]
    ops = conversions(scheme, kws)
    want = [say(hx, lambda: fn(cls(uri))) for _n, fn in ops]
    for way, got in ways:
        if not got.ok:
            continue
        hx.require(type(got.value) is cls, way + ": of the scheme's class")
        for n in range(len(ops)):
            r = say(hx, lambda: ops[n][1](got.value))
            hx.observe(way + " " + ops[n][0], r)
            hx.require(r[0] == want[n][0], "%s: %s given or refused as for the constructed object" % (way, ops[n][0]))
            if r[0] == want[n][0]:
                hx.require(r[1] == want[n][1], "%s: %s as for the constructed object" % (way, ops[n][0]))


def cases(tier):
    out = []
    th = tier == "thorough"
    for s in SCHEMES:
        cs = coding_names(s) if s in TAGGED else []
        vs = [0, 1, 2, 3] if s not in ("bic", "imovn", "sscc", "gsrn", "gsrnp", "gsin", "pgln") else [0]
        for v in vs:
            for L in (6, 7, 12) if not th else (6, 7, 8, 9, 10, 11, 12):
                if SCHEMES[s]["parts"].split()[0] != "cp" and L != 7:
                    continue
                for read in cs or [None]:
                    a = simple(s, v, L)
                    ins = [["a" + n, x] for n, x in a["inputs"]]
                    if read and flt_spec(read):
                        ins += [["aflt", flt_spec(read)], ["bflt", flt_spec(read)]]
                    out.append({"id": "%s/%s" % (read or "-", a["text"]), "fn": "vharness.c22:check",
                                "params": {"scheme": s, "L": L, "read": read, "write": cs}, "inputs": ins})
    return list({c["id"]: c for c in out}.values())
