"""C23: named filter values and header bits stand for the standard's numbers."""
from vharness.c16 import build, simple
from vharness.common import cls_of, coding_of, filter_enum
from vharness.tds import CODINGS, SCHEMES

BOUNDS = ("every named filter value of the 13 schemes with filter, with every coding scheme; identities with company "
          "prefix lengths 7 and 12 (thorough: all), numeric and general serials of up to 3 characters, contents "
          "symbolic")
OUTSIDE = "names not listed here; longer serials"

RESERVED = {n: "RESERVED_%d" % n for n in range(64)}


def names(size, **known):
    out = dict(RESERVED)
    for k in list(out):
        if k >= size:
            del out[k]
    for name, n in known.items():
        out[n] = name
    return out


NAMES = {s: names(8, ALL_OTHERS=0) for s in "cpi grai gsrn gsrnp itip sgcn sgln".split()}
NAMES["sgtin"] = names(8, ALL_OTHERS=0, POS_ITEM=1, FULL_CASE=2, INNER_PACK=4, UNIT_LOAD=6, COMPONENT=7)
NAMES["sscc"] = names(8, ALL_OTHERS=0, FULL_CASE=2, UNIT_LOAD=6)
NAMES["gdti"] = names(8, ALL_OTHERS=0, TRAVEL_DOCUMENT=1)
NAMES["giai"] = names(8, ALL_OTHERS=0, RAIL_VEHICLE=1)
NAMES["usdod"] = names(16, PALLET=0, CASE=1, UNIT_PACK=2)
NAMES["adi"] = names(64, ALL_OTHERS=0, ITEM_OTHER=1, CARTON=2, PALLET=6, SEAT_CUSHIONS=8, SEAT_COVERS=9,
                     SEAT_BELTS=10, GALLEY=11, UNIT_LOAD_DEVICES=12, AIRCRAFT_SECURITY_ITEMS=13, LIFE_VESTS=14,
                     OXYGEN_GENERATOR=15, ENGINE_COMPONENTS=16, AVIONICS=17, EXPERIMENTAL_EQUIPMENT=18,
                     OTHER_EMERGENCY_EQUIPMENT=19, OTHER_ROTABLES=20, OTHER_REPAIRABLE=21, OTHER_CABIN_INTERIOR=22,
                     OTHER_REPAIR=23, PASSENGER_SEATS=24, IFE_SYSTEMS=25, LOCATION_IDENTIFIER=56, DOCUMENTATION=57,
                     TOOLS=58, GROUND_SUPPORT_EQUIPMENT=59, OTHER_NON_FLYABLE_EQUIPMENT=60)


def named(hx, p, i):
    scheme, coding, n = p["scheme"], p["coding"], p["number"]
    cls = cls_of(scheme)
    made = hx.attempt(lambda: cls(build(hx, scheme, i, "")))
    hx.observe("constructed", made.kind)
    if not made.ok:
        return
    _s, header, _t, width = CODINGS[coding]
    value = hx.attempt(lambda: filter_enum(scheme)[p["name"]])
    hx.require(value.ok, "the filter value exists under its name")
    if not value.ok:
        return
    kw = {"binary_coding_scheme": coding_of(coding), "filter_value": value.value}
    uri = hx.attempt(lambda: made.value.tag_uri(**kw))
    hx.observe("tag URI", uri.value if uri.ok else uri.kind)
    if uri.ok:
        hx.require(uri.value.startswith("urn:epc:tag:%s:%d." % (coding, n)), "the tag URI states the number")
    bits = hx.attempt(lambda: made.value.binary(**kw))
    hx.observe("binary", bits.value if bits.ok else bits.kind)
    if bits.ok:
        hx.require(bits.value[:8 + width] == header + format(n, "0%db" % width), "the filter bits are the number")


def cases(tier):
    out = []
    for coding, (s, _h, _t, width) in CODINGS.items():
        if not width:
            continue
        for n, name in NAMES[s].items():
            Ls = (7, 12) if tier == "quick" else range(6, 13)
            for L in Ls if SCHEMES[s]["parts"].split()[0] == "cp" else (7,):
                for v in (0, 1):
                    sh = simple(s, v, L)
                    out.append({"id": "%s/%s/%s" % (coding, name, sh["text"]), "fn": "vharness.c23:named",
                                "params": {"scheme": s, "coding": coding, "number": n, "name": name},
                                "inputs": sh["inputs"]})
    return list({c["id"]: c for c in out}.values())
