"""C11: element strings are parsed at the requested company prefix length."""
from epcpy.utils.parsers import gs1_element_string_to_gs1_element
from vharness.common import cls_of
from vharness.tds import ELEMENT, SCHEMES, check_digit

BOUNDS = ("16 schemes with element strings; company prefix lengths 0 to 20 and none left out; digits, and serials of "
          "the lengths listed in the case names, symbolic; check digit correct")
OUTSIDE = "negative prefix lengths; element strings with a wrong check digit; further serial lengths"

HEAD = {"sgtin": "(01)", "lgtin": "(01)", "upui": "(01)", "itip": "(8006)", "sscc": "(00)", "sgln": "(414)",
        "grai": "(8003)0", "giai": "(8004)", "gsrn": "(8018)", "gsrnp": "(8017)", "gdti": "(253)", "sgcn": "(255)",
        "ginc": "(401)", "gsin": "(402)", "pgln": "(417)", "cpi": "(8010)"}
TAIL = {"sgtin": "(21)", "lgtin": "(10)", "upui": "(235)", "itip": "(21)", "sgln": "(254)", "cpi": "(8011)"}


def is_digits(text):
    ok = True
    for ch in text:
        ok = ok & (("0" <= ch) & (ch <= "9"))
    return ok


def at_length(hx, p, i):
    scheme, n = p["scheme"], p["n"]
    cls = cls_of(scheme)
    body = i["body"] if isinstance(i["body"], str) or hx.symbolic and not isinstance(i["body"], dict) \
        else i["body"]["raw"]
    text = HEAD[scheme] + body
    free = scheme in ("giai", "ginc", "cpi")
    if not free:
        text = text + check_digit(body)
    if scheme == "itip":
        text = text + i["piece"]
    if scheme in TAIL:
        text = text + TAIL[scheme]
    if "ser" in i:
        text = text + (i["ser"]["raw"] if isinstance(i["ser"], dict) else i["ser"])
    if free:
        # the company prefix must be digits and something must be left
        good = 6 <= n <= 12 and n < len(body)
        if good:
            good = True if is_digits(body[:n]) else False
    else:
        good = 6 <= n <= 12
    for name, fn in (("scheme", cls.from_gs1_element_string), ("parser", gs1_element_string_to_gs1_element)):
        got = hx.attempt(lambda: fn(text, n))
        hx.observe(name, got.value.epc_uri if got.ok else got.kind)
        if not good:
            hx.require(got.refused, name + ": a length that does not fit must be refused")
            continue
        hx.require(got.ok, name + ": a length that fits must be accepted")
        if got.ok:
            uri = got.value.epc_uri
            hx.require(isinstance(got.value, cls), name + ": object of the scheme")
            hx.require(len(uri.split(":")[4].split(".")[0]) == n, name + ": company prefix of the requested length")
            hx.require(got.value.gs1_element_string() == text, name + ": the identity has this element string")


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(scheme, n, what, ins):
        out.append({"id": "%s/n=%d%s" % (scheme, n, what), "fn": "vharness.c11:at_length",
                    "params": {"scheme": scheme, "n": n}, "inputs": ins, "weight": 1})

    for scheme in ELEMENT:
        for n in range(0, 21 if th else 16):
            if scheme in ("giai", "ginc", "cpi"):
                num = [["ser", ["nozero", 3]]] if scheme == "cpi" else []
                rest = "U" if scheme == "cpi" else "G"
                bodies = ["D" * 6 + rest, "D" * 12 + rest, "D" * 7 + rest * (30 - 7), "D" * 12 + rest * 18]
                if n in (6, 7, 12) or th:
                    bodies += ["D" * 6 + rest * k for k in (2, 5, 6, 7, 24)]
                if th:
                    bodies += ["D" * k for k in range(7, 31)] + ["D" * k + rest * 4 for k in range(6, 14)]
                for b in dict.fromkeys(bodies):
                    add(scheme, n, "," + b, [["body", ["cells", b]]] + num)
                continue
            k = SCHEMES[scheme]["total"]
            ins = [["body", ["digits", k]]]
            if scheme == "itip":
                ins.append(["piece", ["digits", 4]])
            if scheme == "sgcn":
                for m in (1, 12) if not th else range(1, 13):
                    add(scheme, n, ",ser=%d" % m, ins + [["ser", ["digits", m]]])
            elif "ser" in SCHEMES[scheme]:
                mx = SCHEMES[scheme]["ser"]
                texts = ["G", "E", "G" * mx] if n in (6, 7, 12) or th else ["G" * 3]
                if th:
                    texts += ["G" * m for m in range(2, mx)] + ["EE", "E" + "G" * (mx - 1), "=(GG=)G", "=(GGG=)G"]
                for t in dict.fromkeys(texts):
                    add(scheme, n, ",ser=" + t, ins + [["ser", ["cells", t]]])
            else:
                add(scheme, n, "", ins)
    return out
