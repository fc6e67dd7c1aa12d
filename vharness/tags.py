"""Families of tag bit strings: header, then arbitrary field bits."""
from vharness.tds import CODINGS, PAIR_BITS, PREFIX_OF_P, SERIAL_BITS


def tag_bits(p, i):
    """The bit string of a family member."""
    out = CODINGS[p["coding"]][1]
    for name in p["fields"]:
        out = out + (name[1:] if name[0] == "=" else i[name])
    if p.get("cut"):
        out = out[:-p["cut"]]
    return out


def family(coding, name, fields, cut=0, weight=1):
    """fields: list of constant strings or (name, spec)."""
    names, ins = [], []
    for f in fields:
        if isinstance(f, str):
            if f:
                names.append("=" + f)
        else:
            names.append(f[0])
            ins.append(list(f))
    scheme = CODINGS[coding][0]
    return {"id": "%s/%s" % (coding, name), "inputs": ins, "weight": weight,
            "params": {"scheme": scheme, "coding": coding, "fields": names, "cut": cut}}


def seven_texts(n, tier):
    """7-bit strings of n cells."""
    out = ["P" * n, "P" + "0" * (n - 1), "0" * n, "?" + "0" * (n - 1), "P" * (n - 1) + "?", "PP?" + "0" * (n - 3),
           "?" + "P" * (n - 1), "P?P" + "0" * (n - 3), "P0?" + "0" * (n - 3), "P" + "0" * (n - 2) + "?",
           "??" + "0" * (n - 2), "EP" + "0" * (n - 2)]
    if tier == "thorough":
        out += ["P" * k + "?" + "P" * (n - k - 1) for k in range(n)]
        out += ["P" * k + "0" * (n - k) for k in range(n)]
        out += ["PP" + "0" * k + "?" + "0" * (n - k - 3) for k in range(n - 3)]
        out += ["P" * k + "??" + "0" * (n - k - 2) for k in range(n - 2)]
    return list(dict.fromkeys(out))


def six_texts(mx, tier):
    """6-bit strings with their terminator."""
    out = ["U0", "?0", "U" * mx + "0", "U" * (mx + 1) + "0", "U?0", "?U0", "UU?0", "U" * (mx - 1) + "?0", "0", "??0",
           "=-U0", "U=#0"]
    if tier == "thorough":
        out += ["U" * k + "0" for k in range(2, mx)] + ["U" * k + "?" + "U" * (mx - k - 1) + "0" for k in range(mx)]
        out += ["UU??0", "U?U?0"]
    return list(dict.fromkeys(out))


def small(f):
    """Is the family one of the few kept for checks of several decoders?"""
    kind = f["id"].split("/")[1]
    return "??" not in kind and not ("?" in kind and len(kind) > 30) and kind[:2] not in ("P1", "P2", "P3", "P4", "P6") \
        and not kind.startswith("n1 of") or kind in ("n1 of 1 digits", "n1 of 9 digits")


def tag_families(tier):
    if tier == "small":
        return [f for f in tag_families("quick") if small(f)]
    th = tier == "thorough"
    out = []
    for coding, (scheme, _h, total, fbits) in CODINGS.items():
        flt = ("flt", ["bits", fbits])
        if scheme == "gid":
            rest = [("n2", ["bits", 24]), ("n3", ["bits", 36])]
            for d in range(1, 10):
                out.append(family(coding, "n1 of %d digits" % d, [("n1", ["numbits", 28, 10 ** (d - 1) if d > 1 else 0,
                                                                          10 ** d - 1])] + rest, weight=3))
            f = [("n1", ["numbits", 28, 10 ** 6, 10 ** 7 - 1]), ("n2", ["numbits", 24, 10 ** 5, 10 ** 6 - 1]),
                 ("n3", ["bits", 36])]
            for cut in (1, 8) if not th else range(1, 12):
                out.append(family(coding, "cut%d" % cut, f, cut))
            for sur in (8, 16) if not th else range(1, 17):
                out.append(family(coding, "extra%d" % sur, f + [("sur", ["bits", sur])]))
            continue
        if scheme == "usdod":
            # the six characters of the code: all valid, or with arbitrary bytes
            texts = ["CCCCCC", "_CCCCC", "?CCCCC", "CCCCC?", "CC?CCC", "_CC?CC", "__CCCC", "_?CCCC", "C_CCCC", "??CCCC"]
            if th:
                texts += ["C" * k + "?" + "C" * (5 - k) for k in range(6)]
                texts += ["_" + "C" * k + "?" + "C" * (4 - k) for k in range(5)]
                texts += ["C" * k + "??" + "C" * (4 - k) for k in range(5)]
            for t in dict.fromkeys(texts):
                f = [flt] + [{"C": ("c%d" % k, ["cage8", 1]), "?": ("c%d" % k, ["bits", 8]), "_": "00100000"}[c]
                             for k, c in enumerate(t)]
                out.append(family(coding, t, f + [("num", ["bits", 36])]))
            f = [flt] + [("c%d" % k, ["cage8", 1]) for k in range(6)]
            for cut, sur in ((1, 0), (0, 16)):
                g = f + [("num", ["bits", 36])] + ([("sur", ["bits", sur])] if sur else [])
                out.append(family(coding, "cut%d,extra%d" % (cut, sur), g, cut))
            continue
        if scheme == "adi":
            cages = ["UUUUUU", "_UUUUU", "?UUUUU", "UUUUU?", "_UU?UU", "__UUUU", "UU0UUU", "_UUUU0", "??UUUU", "_0UUUU"]
            if th:
                cages += ["U" * k + "?" + "U" * (5 - k) for k in range(6)]
                cages += ["_" + "U" * k + "?" + "U" * (4 - k) for k in range(5)]
            parts = six_texts(32, tier)
            sers = six_texts(30, tier) + ["=#U0", "=#0", "?UU0", "=#?0", "=#=#0"]
            combos = [(c, "U0", "U0") for c in cages] + [("_UUUUU", p, "U0") for p in parts] \
                + [("UUUUUU", "UU0", s) for s in sers] + [("UUUUUU", "?0", "?0"), ("_UUUUU", "UU", "U0"),
                                                         ("_UUUUU", "U", ""), ("_UUUUU", "U0", "U"), ("_UUUUU", "", "")]
            combos += [("_UUUUU", "U?", "U0"), ("_UUUUU", "U0", "?U")]
            for c, p, s in dict.fromkeys(combos):
                f = [flt, ("cage", ["bitcells", 6, c.replace("_", "= ")])]
                if p:
                    f.append(("part", ["bitcells", 6, p]))
                if s:
                    f.append(("ser", ["bitcells", 6, s]))
                out.append(family(coding, "%s,%s,%s" % (c, p, s), f))
            f = [flt, ("cage", ["bitcells", 6, "= UUUUU"]), ("part", ["bitcells", 6, "UU0"]),
                 ("ser", ["bitcells", 6, "UU0"])]
            for sur in (2, 6, 14) if not th else range(1, 17):
                out.append(family(coding, "extra%d" % sur, f + [("sur", ["bits", sur])]))
            for cut in (1, 6) if not th else range(1, 13):
                out.append(family(coding, "cut%d" % cut, f, cut))
            for n in (0, 3, 6, 30, 41):
                out.append(family(coding, "stub%d" % n, [("all", ["bits", n])] if n else []))
            continue
        for part in range(8):
            L, m = PREFIX_OF_P.get(part, (6, 20))
            pre = [flt, format(part, "03b"), ("cp", ["bits", m])]
            main = part in (0, 5)
            tag = "P%d" % part
            if coding == "cpi-var":
                mx = 30 - L
                texts = six_texts(mx, tier) if main or th else ["U0", "?0", "U" * mx + "0"]
                for t in texts:
                    num = ["bits", 40] if t == "U0" else ["numbits", 40, 10 ** 11, 10 ** 12 - 1]
                    out.append(family(coding, "%s,%s" % (tag, t), pre + [("ref", ["bitcells", 6, t]), ("num", num)]))
                if main:
                    f = pre + [("ref", ["bitcells", 6, "UU0"]), ("num", ["numbits", 40, 10 ** 8, 10 ** 9 - 1])]
                    for cut in (1, 7, 40, 41) if not th else range(1, 48):
                        out.append(family(coding, "%s,cut%d" % (tag, cut), f, cut))
                    for sur in (1, 6, 13) if not th else range(1, 17):
                        out.append(family(coding, "%s,extra%d" % (tag, sur), f + [("sur", ["bits", sur])]))
                    out.append(family(coding, "%s,stub" % tag, [flt, format(part, "03b"), ("all", ["bits", 12])]))
                continue
            if coding in ("giai-202",):
                n = 188 - m
                left = n % 7
                for t in seven_texts(n // 7, tier) if main or th else ["P" * (30 - L) + "0" * (n // 7 - 30 + L),
                                                                      "P?" + "0" * (n // 7 - 2)]:
                    out.append(family(coding, "%s,%s" % (tag, t), pre + [("ser", ["bitcells", 7, t])] + (
                        [("left", ["bits", left])] if left else [])))
                for t in ("P" * (30 - L), "P" * (30 - L + 1), "P" * (30 - L) + "?", "P" * (30 - L - 1) + "?"):
                    t = t + "0" * (n // 7 - len(t))
                    out.append(family(coding, "%s,%s." % (tag, t), pre + [("ser", ["bitcells", 7, t])] + (
                        ["0" * left] if left else [])))
                continue
            if coding in ("cpi-96", "giai-96"):
                n = (51 if coding == "cpi-96" else 82) - m
                f = pre + [("ref", ["bits", n])] + ([("num", ["bits", 31])] if coding == "cpi-96" else [])
                variants = [("", f)]
            else:
                f = pre + [("ref", ["bits", PAIR_BITS[scheme] - m])]
                if scheme == "itip":
                    f = f + [("piece", ["bits", 7]), ("total", ["bits", 7])]
                if scheme in ("sscc", "gsrn", "gsrnp"):
                    variants = [("", f + [("rsv", ["bits", 24])])]
                elif SERIAL_BITS[coding] in (38, 41):
                    variants = [("", f + [("ser", ["bits", SERIAL_BITS[coding]])])]
                else:
                    k = SERIAL_BITS[coding] // 7
                    ts = seven_texts(k, tier) if main or (th and part == 7) else ["P" * k, "P?" + "0" * (k - 2)]
                    if part == 0 and not th:
                        ts.remove("??" + "0" * (k - 2))
                    variants = [("," + t, f + [("ser", ["bitcells", 7, t])]) for t in ts]
            for vn, v in variants:
                out.append(family(coding, tag + vn, v))
            if main:
                v = variants[0][1]
                for cut in (1, 3) if not th else (1, 2, 3, 7, 8, 38):
                    out.append(family(coding, "%s,cut%d" % (tag, cut), v, cut))
                for sur in (8, 16) if not th else (1, 2, 4, 8, 12, 14, 16, 32):
                    out.append(family(coding, "%s,extra%d" % (tag, sur), v + [("sur", ["bits", sur])]))
    return out
