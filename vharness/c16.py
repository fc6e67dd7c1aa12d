"""C16: results do not depend on what was called before."""
from epcpy import get_gs1_key
from epcpy.epc_schemes.sgtin import GTIN_TYPE
from epcpy.utils import parsers
from vharness.common import cls_of, coding_of, filter_enum, shape
from vharness.tds import CODINGS, ELEMENT, KEYED, SCHEMES, TAGGED, coding_names

BOUNDS = ("every scheme, as the scheme of the observed identity and of the identity used before; histories: all "
          "conversions of the same object, of another object of the same scheme, of an object of another scheme, each "
          "with every coding scheme and an arbitrary filter value, decoding and parsing of their results, and refused "
          "calls; each result afterwards against the same call made first in a fresh process; contents of both "
          "identities and all filter values symbolic and independent")
OUTSIDE = "concurrent calls; histories through private attributes; longer sequences than two rounds of all conversions"


def build(hx, scheme, i, tag):
    """URI of the identity given by the inputs with this tag."""
    if scheme == "bic":
        return "urn:epc:id:bic:" + i[tag + "own"] + i[tag + "cat"] + i[tag + "dig"]
    uris = []
    for part in SCHEMES[scheme]["parts"].split():
        v = i[tag + part]
        uris.append(v["uri"] if isinstance(v, dict) else v)
    return ("urn:epc:class:" if scheme == "lgtin" else "urn:epc:id:") + scheme + ":" + ".".join(uris)


def kwargs(hx, scheme, coding, i, flt):
    kw = {"binary_coding_scheme": coding_of(coding)}
    if CODINGS[coding][3]:
        kw["filter_value"] = hx.member(filter_enum(scheme), i[flt])
    return kw


def results(scheme, kw, gtins):
    """[(name, thunk)] of the conversions of an object."""
    out = []
    if kw is not None:
        for form in ("tag_uri", "binary", "hex", "base64"):
            out.append((form, lambda o, form=form: getattr(o, form)(**kw)))
    if scheme in KEYED:
        out.append(("key", lambda o: o.gs1_key()))
    if scheme in ("sgtin", "lgtin") and gtins:
        for t in (GTIN_TYPE.GTIN13, GTIN_TYPE.GTIN8):
            out.append(("key%d" % int(t), lambda o, t=t: o.gs1_key(gtin_type=t)))
    if scheme == "sgtin":
        out.append(("gtin", lambda o: o.gtin()))
    if scheme in ELEMENT:
        out.append(("element", lambda o: o.gs1_element_string()))
    out.append(("uri", lambda o: o.epc_uri))
    return out


def say(hx, fn):
    r = hx.attempt(fn)
    return [r.kind, r.value if r.ok else ""]


def readers(cls, scheme, L):
    """Ways back from a result, by its name."""
    out = {"tag_uri": [cls.from_tag_uri, parsers.tag_uri_to_tag_encodable] if scheme in TAGGED else [],
           "binary": [cls.from_binary, parsers.binary_to_tag_encodable] if scheme in TAGGED else [],
           "hex": [cls.from_hex] if scheme in TAGGED else [],
           "base64": [cls.from_base64] if scheme in TAGGED else [],
           "uri": [cls, parsers.epc_pure_identity_to_scheme]}
    if scheme in ELEMENT:
        out["element"] = [lambda t: cls.from_gs1_element_string(t, L),
                          lambda t: parsers.gs1_element_string_to_gs1_element(t, L)]
    if scheme in ("gid", ):
        out["tag_uri"] = [lambda t: cls.from_tag_uri(t, includes_filter=False)]
    return out


def everything(hx, scheme, uri, kw, L, gtins, obj=None):
    """All conversions of an identity, and reading their results."""
    cls = cls_of(scheme)
    if obj is None:
        made = hx.attempt(lambda: cls(uri))
        if not made.ok:
            return
        obj = made.value
    back = readers(cls, scheme, L)
    for name, fn in results(scheme, kw, gtins):
        r = hx.attempt(lambda: fn(obj))
        if r.ok:
            for read in back.get(name, []):
                hx.attempt(lambda: read(r.value))
            if name in ("tag_uri", "hex", "uri"):
                hx.attempt(lambda: get_gs1_key(r.value))


def refusals(hx, scheme, uri, kw, L):
    """Calls that are refused."""
    cls = cls_of(scheme)
    for bad in (uri + "٠", uri[:-1] + " ", uri[1:], "", uri[:-9]):
        hx.attempt(lambda: cls(bad))
        hx.attempt(lambda: parsers.epc_pure_identity_to_scheme(bad))
        hx.attempt(lambda: get_gs1_key(bad))
    if kw is not None:
        obj = cls(uri)
        b = hx.attempt(lambda: obj.binary(**kw))
        if b.ok:
            for bad in (b.value[:-9], b.value[:11] + "111" + b.value[14:], "1" * 96, b.value[1:]):
                hx.attempt(lambda: cls.from_binary(bad))
                hx.attempt(lambda: parsers.binary_to_tag_encodable(bad))
        for bad in ("3", "30G", "urn:epc:tag:x"):
            hx.attempt(lambda: cls.from_hex(bad))
            hx.attempt(lambda: cls.from_base64(bad))
            hx.attempt(lambda: cls.from_tag_uri(bad))
    if scheme in ELEMENT:
        e = cls(uri).gs1_element_string()
        for bad in (e[1:], e + "\n", ""):
            hx.attempt(lambda: cls.from_gs1_element_string(bad, L))
        for n in (0, 5, 13):
            hx.attempt(lambda: cls.from_gs1_element_string(e, n))


def check(hx, p, i):
    scheme, other = p["scheme"], p["other"]
    cls = cls_of(scheme)
    uri = build(hx, scheme, i, "a")
    L = p["L"]
    kw = kwargs(hx, scheme, p["coding"], i, "aflt") if p["coding"] else None
    if not hx.fresh(lambda: hx.attempt(lambda: cls(uri)).ok):
        return
    ops = results(scheme, kw, p["gtins"])
    want = []
    for name, fn in ops:
        want.append(hx.fresh(lambda: say(hx, lambda: fn(cls(uri)))))
    back = readers(cls, scheme, L)
    reads = []
    for n in range(len(ops)):
        if want[n][0] == "ok":
            for read in back.get(ops[n][0], []):
                reads.append([ops[n][0], read, want[n][1], hx.fresh(
                    lambda: say(hx, lambda: read(want[n][1]).epc_uri))])
    obj = cls(uri)
    for step in p["history"]:
        okw = kwargs(hx, other, step["coding"], i, "bflt") if step["coding"] else None
        if step["kind"] == "same":
            everything(hx, scheme, uri, okw, L, p["gtins"], obj)
        elif step["kind"] == "refused":
            refusals(hx, scheme, uri, okw, L)
        else:
            everything(hx, other, build(hx, other, i, "b"), okw, p["otherL"], p["gtins"])
    late = cls(uri)
    for who, o in (("object", obj), ("later object", late)):
        for n in range(len(ops)):
            got = say(hx, lambda: ops[n][1](o))
            hx.observe(who + " " + ops[n][0], got)
            hx.require(got[0] == want[n][0], "%s: %s given or refused as in a fresh process" % (who, ops[n][0]))
            if got[0] == want[n][0]:
                hx.require(got[1] == want[n][1], "%s: %s as in a fresh process" % (who, ops[n][0]))
    for name, read, text, w in reads:
        got = say(hx, lambda: read(text).epc_uri)
        hx.observe("from " + name, got)
        hx.require(got[0] == w[0], "reading %s: accepted or refused as in a fresh process" % name)
        if got[0] == w[0]:
            hx.require(got[1] == w[1], "reading %s: the identity read in a fresh process" % name)
    hx.require(obj.epc_uri == uri, "the URI is unchanged")


def simple(scheme, v, L=7):
    """Small shapes: v 0 numeric serial, 1 general, 2 with one escape, 3 with
    any escape."""
    parts = SCHEMES[scheme]["parts"].split()
    if scheme == "gid":
        return shape(scheme, n1=[3, 1, 8, 9][v], n2=[2, 7, 1, 8][v], n3=[4, 1, 10, 11][v])
    if scheme == "usdod":
        return shape(scheme, cage=[5, 6, 5, 6][v], num=[3, 1, 10, 11][v])
    if scheme == "adi":
        return shape(scheme, cage=[5, 6, 5, 6][v], part=["", "U", "U=/U", "A"][v], serial=["U", "UU", "=#U", "AA"][v])
    if scheme in ("bic", "imovn"):
        return shape(scheme)
    if parts == ["cp", "ref"]:
        return shape(scheme, L)
    if scheme == "sgcn":
        return shape(scheme, L, dser=[3, 1, 12, 11][v])
    if scheme == "cpi":
        return shape(scheme, L, cpref=["DD", "U", "U=/U", "CF"][v], num=[3, 1, 9, 10][v])
    return shape(scheme, L, serial=["DDD", "GG", "G=%G", "GEG"][v])


def flt_spec(coding):
    n = CODINGS[coding][3]
    return {0: None, 3: ["set", "octal", 1], 4: ["digits", 1], 6: ["digits", 1]}[n]


def cases(tier):
    out = []
    names = list(SCHEMES)
    th = tier == "thorough"

    def add(scheme, v, L, other, w, oL, coding, history, gtins=False):
        a, b = simple(scheme, v, L), simple(other, w, oL)
        ins = [["a" + n, s] for n, s in a["inputs"]]
        if any(h["kind"] == "other" for h in history):
            ins += [["b" + n, s] for n, s in b["inputs"]]
        if coding and flt_spec(coding):
            ins.append(["aflt", flt_spec(coding)])
        fl = [flt_spec(h["coding"]) for h in history if h["coding"] and flt_spec(h["coding"])]
        if fl:
            ins.append(["bflt", fl[0]])
        hid = "+".join("%s:%s" % (h["kind"], h["coding"]) for h in history) + (",gtins" if gtins else "")
        out.append({"id": "%s/%s after %s %s" % (coding or "-", a["text"], hid, b["text"]), "fn": "vharness.c16:check",
                    "params": {"scheme": scheme, "other": other, "L": L, "otherL": oL, "coding": coding,
                               "history": history, "gtins": gtins}, "inputs": ins, "memo": True})

    for s in SCHEMES:
        cs = coding_names(s) if s in TAGGED else [None]
        vs = [0, 1, 2, 3] if s not in ("bic", "imovn", "sscc", "gsrn", "gsrnp", "gsin", "pgln") else [0]
        if not th and len(vs) > 1:
            vs = [0, 2]
        nxt = names[(names.index(s) + 1) % len(names)]
        for c in cs:
            for v in vs:
                for L in (7, 12) if not th else (6, 7, 8, 9, 10, 11, 12):
                    if SCHEMES[s]["parts"].split()[0] != "cp" and L != 7:
                        continue
                    if s == "cpi" and c == "cpi-96" and v and L == 12:
                        continue
                    for c2 in cs:
                        same, other = {"kind": "same", "coding": c2}, {"kind": "other", "coding": c2}
                        add(s, v, L, s, v, L, c, [same])
                        if L == 7 or th:
                            add(s, v, L, s, v, L, c, [other])
                            add(s, v, L, s, v, 19 - L if L < 12 else 6, c, [other])
                            add(s, v, L, s, vs[(v + 1) % len(vs)], L, c, [other, same])
                    add(s, v, L, s, v, L, c, [{"kind": "refused", "coding": cs[0]}])
                others = [nxt] if not th else [o for o in names if o != s]
                for o in others:
                    for oc in (coding_names(o) if o in TAGGED else [None]):
                        add(s, v, 7, o, v, 7, c, [{"kind": "other", "coding": oc}])
        if s in ("sgtin", "lgtin"):
            for L in (7, 12):
                for kind in ("same", "other"):
                    add(s, 1, L, s, 1, L, cs[0], [{"kind": kind, "coding": cs[0]}], True)
    return list({c["id"]: c for c in out}.values())
