"""Identities as harness inputs: shapes, URIs, library access."""
import epcpy
import epcpy.epc_schemes as schemes
import importlib

from vharness.tds import CODINGS, PREFIX, SCHEMES


def cls_of(scheme):
    return getattr(schemes, SCHEMES[scheme]["cls"])


def coding_of(coding):
    cls = cls_of(CODINGS[coding][0])
    for m in cls.BinaryCodingScheme:
        if m.value == coding:
            return m
    raise KeyError(coding)


def filter_enum(scheme):
    cls = cls_of(scheme)
    mod = importlib.import_module("epcpy.epc_schemes." + scheme)
    return getattr(mod, cls.__name__ + "FilterValue")


def sizes(scheme, L):
    """component -> (min, max) characters for company prefix length L."""
    s = SCHEMES[scheme]
    out = {}
    for part in s["parts"].split():
        if part == "cp":
            out[part] = (L, L)
        elif part in ("item", "ref"):
            out[part] = (s["total"] - L, s["total"] - L)
        elif part in ("piece", "total"):
            out[part] = (2, 2)
        elif part == "cpref" or part == "serial" and scheme in ("giai", "ginc"):
            out[part] = (1, 30 - L)
        elif part in ("serial", "dser"):
            out[part] = (1, s.get("ser", 30))
    if scheme == "cpi":
        out["num"] = (1, 12)
    if scheme == "usdod":
        out.update(cage=(5, 6), num=(1, 11))
    if scheme == "gid":
        out.update(n1=(1, 9), n2=(1, 8), n3=(1, 11))
    if scheme == "adi":
        out.update(cage=(5, 6), part=(0, 32), serial=(1, 30))
    return out


def shape(scheme, L=None, **kw):
    """Input specifications of one family of identities.

    kw gives, per component, a cell text or a length."""
    ins = []
    txt = []
    for part in SCHEMES[scheme]["parts"].split():
        v = kw.get(part)
        if part == "cp":
            spec = ["digits", L]
        elif part in ("item", "ref"):
            spec = ["digits", SCHEMES[scheme]["total"] - L]
        elif part in ("piece", "total"):
            spec = ["digits", 2]
        elif part == "dser":
            spec = ["digits", v]
        elif part in ("num", "n1", "n2", "n3"):
            spec = ["nozero", v]
        elif part == "cage":
            spec = ["set", "cage", v]
        elif part == "code" and scheme == "imovn":
            spec = ["digits", 7]
        elif part == "code":
            ins.append(["own", ["set", "bicowner", 3]])
            ins.append(["cat", ["set", "biccat", 1]])
            ins.append(["dig", ["digits", 7]])
            continue
        else:
            spec = ["cells", v]
        ins.append([part, spec])
        if v is not None:
            txt.append("%s=%s" % (part, v))
    if L is not None:
        txt.insert(0, "L=%d" % L)
    return {"scheme": scheme, "inputs": ins, "text": "%s(%s)" % (scheme, ",".join(txt))}


def identity(hx, scheme, i):
    """(URI, decoded components) of the identity given by the inputs."""
    if scheme == "bic":
        code = i["own"] + i["cat"] + i["dig"]
        return PREFIX[scheme] + code, {"code": code}
    comps = {}
    uris = []
    for part in SCHEMES[scheme]["parts"].split():
        v = i[part]
        if isinstance(v, dict):
            comps[part] = v["raw"]
            uris.append(v["uri"])
        else:
            comps[part] = v
            uris.append(v)
    if scheme == "gid":
        hx.assume(int(comps["n1"]) < 2 ** 28)
        hx.assume(int(comps["n2"]) < 2 ** 24)
        hx.assume(int(comps["n3"]) < 2 ** 36)
    if scheme == "usdod":
        hx.assume(int(comps["num"]) < 2 ** 36)
    return PREFIX[scheme] + ".".join(uris), comps


def filter_inputs(coding):
    """Input specifications covering all filter values of a coding scheme."""
    n = CODINGS[coding][3]
    if n == 0:
        return [["", []]]
    if n == 3:
        return [["", [["flt", ["set", "octal", 1]]]]]
    if n == 4:
        return [["f1", [["flt", ["digits", 1]]]], ["f2", [["flt", ["set2", "1", "012345"]]]]]
    return [["f1", [["flt", ["digits", 1]]]], ["f2", [["flt", ["nozero", 2]]]]]


def tag_kwargs(hx, coding, i):
    kw = {"binary_coding_scheme": coding_of(coding)}
    if CODINGS[coding][3]:
        if CODINGS[coding][3] == 6:
            hx.assume(int(i["flt"]) < 64)
        kw["filter_value"] = hx.member(filter_enum(CODINGS[coding][0]), i["flt"])
    return kw


def case(name, fn, sh, params=None, extra=None, weight=1, **kw):
    p = {"scheme": sh["scheme"]}
    if params:
        p.update(params)
    c = {"id": name, "fn": fn, "params": p, "inputs": list(sh["inputs"]) + list(extra or []), "weight": weight}
    c.update(kw)
    return c
