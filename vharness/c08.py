"""C08: every invalid pure identity URI is refused."""
from epcpy.utils.parsers import epc_pure_identity_to_scheme
from vharness.common import cls_of
from vharness.grammar import could_be_valid
from vharness.tds import PREFIX, SCHEMES

BOUNDS = ("all 21 schemes; valid model URIs with one arbitrary Unicode character in place of or before any character, "
          "two arbitrary characters in place of any adjacent two (thorough: three, and one for two); arbitrary "
          "characters in front and behind; all digit strings for components of 0 to 2 characters too few or too "
          "many, all company prefix lengths 0 to 14; serials one character above the limit with escapes in any "
          "position; numbers of up to 3 digits more than allowed; up to 4 arbitrary characters after the scheme name")
OUTSIDE = ("several distant faults in one URI; non-canonical escapes (lower-case digits, escaped plain characters), "
           "for which neither acceptance nor refusal is demanded; check digits inside BIC codes")

MODELS = {
    "sgtin": ["0614141.112345.4a%2F", "061414112345.1.40"],
    "sscc": ["0614141.1234567890", "061414112345.12345"],
    "sgln": ["0614141.12345.4a%2F", "061414112345..40"],
    "grai": ["0614141.12345.4a%2F", "061414112345..40"],
    "giai": ["0614141.1b%2F", "061414112345.40"],
    "gsrn": ["0614141.1234567890"],
    "gsrnp": ["0614141.1234567890"],
    "gdti": ["0614141.12345.4a%2F", "061414112345..40"],
    "cpi": ["0614141.5P%2F.123", "061414112345.5-.0"],
    "sgcn": ["4012345.67890.04711", "401234512345..04711"],
    "ginc": ["0614141.xy%2F", "061414112345.40"],
    "gsin": ["0614141.123456789"],
    "itip": ["4012345.012345.01.02.9a%2F"],
    "upui": ["1234567.089456.5qI%2F"],
    "pgln": ["1234567.89012", "123456789012."],
    "lgtin": ["4012345.012345.9a%2F"],
    "gid": ["95100000.12345.400", "0.0.0"],
    "usdod": ["CJ123.12345", "CJ1234.0"],
    "adi": ["2S194..12345A", "W81X9C.3K%2F.%23PN7"],
    "bic": ["CSQU3054383"],
    "imovn": ["9176187"],
}


def judge(hx, scheme, text):
    ok = could_be_valid(scheme, text)
    for name, fn in (("constructor", cls_of(scheme)), ("from_epc_uri", cls_of(scheme).from_epc_uri)):
        got = hx.attempt(lambda: fn(text))
        hx.observe(name, [ok, got.kind])
        if not ok:
            hx.require(got.refused, name + ": an invalid URI is refused")


def generic(hx, scheme, text):
    ok = could_be_valid(scheme, text)
    got = hx.attempt(lambda: epc_pure_identity_to_scheme(text))
    hx.observe("generic", [ok, got.kind])
    if not ok and got.ok:
        hx.require(not isinstance(got.value, cls_of(scheme)), "generic parser: an invalid URI is refused")


def window(hx, p, i):
    judge(hx, p["scheme"], p["pre"] + i["x"] + p["post"])
    if p.get("generic"):
        generic(hx, p["scheme"], p["pre"] + i["x"] + p["post"])


def pieces(hx, p, i):
    out = ""
    for name in p["form"]:
        if name[0] == "=":
            out = out + name[1:]
        else:
            v = i[name]
            out = out + (v["uri"] if isinstance(v, dict) else v)
    judge(hx, p["scheme"], out)


def cases(tier):
    out = []
    th = tier == "thorough"

    def win(kind, scheme, pre, n, post, spec="any", gen=False):
        out.append({"id": "%s/%s<%d>%s" % (kind, pre, n, post), "fn": "vharness.c08:window",
                    "params": {"scheme": scheme, "pre": pre, "post": post, "generic": gen},
                    "inputs": [["x", [spec, n]]]})

    def form(kind, scheme, fields):
        names, ins, text = ["=" + PREFIX[scheme]], [], ""
        for n, f in enumerate(fields):
            if isinstance(f, str):
                names.append("=" + f)
                text += f
            else:
                names.append("c%d" % n)
                ins.append(["c%d" % n, f])
                text += "<%s>" % ",".join(map(str, f))
        out.append({"id": "%s/%s:%s" % (kind, scheme, text), "fn": "vharness.c08:pieces",
                    "params": {"scheme": scheme, "form": names}, "inputs": ins})

    for s in SCHEMES:
        for mi, body in enumerate(MODELS[s]):
            uri = PREFIX[s] + body
            at = len(PREFIX[s])
            first = 0 if mi == 0 else at
            for k in range(first, len(uri)):
                win("replace", s, uri[:k], 1, uri[k + 1:], gen=mi == 0 and k >= at)
                if k >= at or th or k % 4 == 0:
                    win("insert", s, uri[:k], 1, uri[k:])
                    win("two", s, uri[:k], 2, uri[k + 2:])
                win("drop", s, uri[:k], 0, uri[k + 1:])
                if th:
                    win("three", s, uri[:k], 3, uri[k + 3:])
                    win("one for two", s, uri[:k], 1, uri[k + 2:])
            win("append", s, uri, 1, "", gen=True)
            win("append", s, uri, 2, "")
            win("prepend", s, "", 1, uri)
            for k in range(at, len(uri) + 1):
                win("cut", s, uri[:k], 0, "")
        for n in range(0, 4 if not th else 6):
            win("body", s, PREFIX[s], n, "")
        for o in SCHEMES:
            if o != s:
                win("foreign", s, PREFIX[s], 0, MODELS[o][0])
                win("foreign", s, PREFIX[o], 0, MODELS[s][0])
        parts = SCHEMES[s]["parts"].split()
        if parts[0] == "cp":
            total = SCHEMES[s].get("total")
            tail = {"serial": [".", ["cells", "GG"]], "dser": [".", ["digits", 3]]}.get(parts[-1], [])
            mid = [".", ["digits", 2], ".", ["digits", 2]] if s == "itip" else []
            for a in range(0, 15):
                if s in ("giai", "ginc"):
                    for n in (1, 30 - a, 31 - a) if a not in (6, 7, 12) else (29 - a, 30 - a, 31 - a, 32 - a):
                        if n > 0:
                            form("lengths", s, [["digits", a], ".", ["cells", "G" * n]])
                            if n > 2:
                                form("lengths", s, [["digits", a], ".", ["cells", "G" * (n - 2) + "EG"]])
                    continue
                if s == "cpi":
                    for n in (1, 30 - a, 31 - a):
                        form("lengths", s, [["digits", a], ".", ["cells", "U" * n], ".", ["digits", 2]])
                        form("lengths", s, [["digits", a], ".", ["cells", "U" * (n - 1) + "F"], ".", ["nozero", 3]])
                    continue
                for b in range(max(0, total - a - 2), total - a + 3):
                    form("lengths", s, [["digits", a], ".", ["digits", b]] + mid + tail)
            if s == "cpi":
                for n in range(0, 16):
                    form("number", s, [["digits", 7], ".", ["cells", "U"], ".", ["digits", n]])
            if s == "sgcn":
                for n in range(0, 16):
                    form("number", s, [["digits", 7], ".", ["digits", 5], ".", ["digits", n]])
            if s == "itip":
                for a in range(0, 4):
                    for b in range(0, 4):
                        form("number", s, [["digits", 7], ".", ["digits", 6], ".", ["digits", a], ".", ["digits", b],
                                           ".", ["cells", "G"]])
            if parts[-1] == "serial" and total:
                mx = SCHEMES[s]["ser"]
                head = [["digits", 7], ".", ["digits", total - 7]] + mid + ["."]
                texts = ["G" * n for n in (mx, mx + 1, mx + 2)] + ["=/" * (mx + 1), "=%" * mx]
                texts += ["G" * k + "E" + "G" * (mx - k) for k in (range(mx + 1) if th else (0, 1, mx // 2, mx - 1, mx))]
                for t in texts:
                    form("serial", s, head + [["cells", t]])
        if s == "gid":
            tops = (9, 8, 11)
            for k in range(3):
                for n in range(0, tops[k] + 4):
                    f = ["1", ".", "2", ".", "3"]
                    f[2 * k] = ["digits", n]
                    form("number", s, f)
        if s == "usdod":
            for n in range(0, 15):
                form("number", s, [["set", "cage", 5], ".", ["digits", n]])
            for n in range(0, 9):
                form("code", s, [["set", "cage", n], ".", ["nozero", 2]])
        if s == "adi":
            for n in range(0, 9):
                form("code", s, [["set", "cage", n], ".", ["cells", "U"], ".", ["cells", "U"]])
            for t in ("U" * 32, "U" * 33, "U" * 32 + "S", "S" * 33, "H", "UH", "U" * 34):
                form("part", s, [["set", "cage", 5], ".", ["cells", t], ".", ["cells", "U"]])
            for t in ("U" * 30, "U" * 31, "U" * 30 + "S", "S" * 31, "H", "HU", "UH", "HH", "H" + "U" * 29, "H" + "U" * 30):
                form("serial", s, [["set", "cage", 5], ".", ["cells", "U"], ".", ["cells", t]])
        if s == "imovn":
            for n in range(0, 10):
                form("number", s, [["digits", n]])
        if s == "bic":
            for a in range(0, 6):
                for d in (5, 6, 7, 8):
                    form("code", s, [["set", "bicowner", a], ["set", "biccat", 1], ["digits", d]])
                    form("code", s, [["set", "alpha", a], ["digits", d]])
    return list({c["id"]: c for c in out}.values())
