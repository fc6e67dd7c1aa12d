"""Writes properties.jsonl (kept as Python so that long texts stay readable)."""
import json, os
S = "epcpy/epc_schemes/"
TAGS = [S + x + ".py" for x in "adi cpi gdti giai gid grai gsrn gsrnp itip sgcn sgln sgtin sscc usdod".split()]
GS1 = [S + x + ".py" for x in "cpi gdti giai ginc grai gsin gsrn gsrnp itip lgtin pgln sgcn sgln sgtin sscc upui".split()]
KEYED = [S + x + ".py" for x in "gdti giai ginc grai gsin gsrn gsrnp lgtin pgln sgcn sgln sgtin sscc".split()]
ALL = sorted(set(TAGS + GS1 + [S + "bic.py", S + "imovn.py"]))
BASE = S + "base_scheme.py"
COMMON, REGEX, PARSERS = "epcpy/utils/common.py", "epcpy/utils/regex.py", "epcpy/utils/parsers.py"

def p(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw))

P = [
p("C01", "A tag decodes to exactly the identity it was encoded from",
  "For every valid identity of a tag-encodable scheme, every binary coding scheme of that scheme and every filter value, encoding to binary, hexadecimal or base64 either refuses with the library's conversion error or yields a tag that decodes back to the very same identity URI. It never yields a tag that is read back as a different identity, or as none at all.",
  ["inputs", "configurations"],
  "All identities in canonical URI form (all company-prefix lengths, all reference/serial lengths, every permitted character incl. escapes) x coding schemes x filter values x {binary, hex, base64}.",
  "The tests pin one to five hand-picked hex strings per scheme; the set of serials, prefix splits and character sequences is astronomically large and errors live in particular lengths, leading zeros, bit patterns or character pairs.",
  TAGS + [BASE, COMMON],
  [("numeric and 6/7/8-bit string field coders and their inverses", COMMON), ("partition table encode/decode", COMMON), ("per-scheme binary() / from_binary()", S)],
  observe_at=["binary()/hex()/base64() results", "epc_uri of from_binary()/from_hex()/from_base64() results"]),
p("C02", "Encoded tags have the bit layout the Tag Data Standard prescribes",
  "Every binary tag produced is, bit for bit, the layout of the GS1 Tag Data Standard for its coding scheme: header, filter, partition value, company prefix, reference and serial each at the prescribed offset with the prescribed width, and fixed-size schemes have exactly the prescribed total size.",
  ["inputs", "configurations"],
  "All representable identities x coding schemes x filter values, compared with an independent reference layout.",
  "A coordinated mistake in encoder and decoder round-trips perfectly and is invisible except on the few pinned hex strings; each of the seven partition rows of each scheme needs its own witness and the tests reach two or three of them.",
  TAGS + [COMMON],
  [("partition tables", S), ("header and coding-scheme enums", S), ("field coders", COMMON)],
  observe_at=["binary() result"]),
p("C03", "Binary, hexadecimal and base64 forms carry the same bits",
  "The hexadecimal form of a tag is its binary form right-padded with zeros to a multiple of 16 bits and written in upper-case digits, and the base64 form is the standard base64 of exactly those bytes. Decoding any of the forms, and hexadecimal in either letter case, gives the same identity, or the same refusal.",
  ["inputs", "configurations"],
  "All encodable identities x coding schemes x filters for the forward direction; arbitrary tag bit strings for the decoding direction.",
  "Tests compare fixed strings only and go from hex to base64 with the library's own converter; dropped leading zeros, padding or alphabet slips show only for particular bit patterns and sizes.",
  TAGS + [BASE, COMMON],
  [("hex/base64 conversion of a binary tag", BASE), ("hex/base64/binary converters", COMMON)],
  observe_at=["hex()", "base64()", "from_hex()", "from_base64()"]),
p("C04", "Decoding never misreads tag bits",
  "For every bit string that carries the header of a coding scheme and is long enough, decoding either refuses with the conversion error or returns the identity whose fields are exactly the values the Tag Data Standard assigns to those bits, with numeric fields keeping their prescribed zero padding. Bits beyond the size of a fixed-size scheme never influence the result, and a bit string shorter than that size is refused.",
  ["inputs"],
  "All bit patterns in every field (partition values incl. reserved ones, out-of-range numbers, all 6/7/8-bit characters) and any surplus bits, against an independent reference decoder.",
  "Tags come from the air interface with arbitrary content; the tests decode only bit strings the library could have written, never reserved partitions, over-range fields, trailing bits or embedded terminators.",
  TAGS + [BASE, COMMON],
  [("header lookup and truncation", COMMON), ("partition decode and range checks", COMMON), ("per-scheme from_binary()", S)],
  observe_at=["from_binary() result or exception"]),
p("C05", "Tag URIs state the identity verbatim and convert back to it",
  "The tag URI of an identity consists of the tag prefix, the coding scheme name, the filter value and the unaltered body of the pure identity URI (no filter part for schemes without filter). Converting such a tag URI back, through the scheme itself or the generic parser, gives the original identity, whatever filter value it carries.",
  ["inputs", "configurations"],
  "All representable identities (serials containing dots, colons, parentheses, hyphens and escapes) x coding schemes x filter values.",
  "Conversion back works by splitting on '.', ':' and '-' which may also occur inside serials; tests use a couple of serials per scheme.",
  TAGS + [BASE, PARSERS],
  [("tag URI construction", S), ("tag URI parsing by splitting", BASE)],
  observe_at=["tag_uri()", "from_tag_uri()"]),
p("C06", "Encoding succeeds exactly for representable identities",
  "For every valid identity and coding scheme, producing the tag URI, the binary, the hexadecimal and the base64 form all succeed if the identity fits the fields of that coding scheme (numeric serial without leading zero and in range for the short forms, length limits for the long forms) and all refuse with the conversion error if it does not. No other kind of exception escapes.",
  ["inputs", "configurations"],
  "All valid identities x coding schemes x filter values, incl. serials just below and above every capacity, leading zeros and non-numeric serials.",
  "Boundaries depend on scheme, coding scheme and prefix length; tests probe a few of them through the tag URI only and never through the binary form.",
  TAGS + [BASE, COMMON],
  [("representability conditions", S), ("field coders", COMMON)],
  observe_at=["result or exception of tag_uri()/binary()/hex()/base64()"]),
p("C07", "Every valid pure identity URI is accepted and kept verbatim",
  "For every scheme, every URI that is valid under the Tag Data Standard grammar and length rules (all company-prefix lengths 6 to 12, all allowed reference and serial lengths counted in decoded characters, every permitted character and canonical escape in any position) constructs an object whose URI is the given one.",
  ["inputs"],
  "All canonical valid URIs of all 21 schemes.",
  "Tests list about four URIs per scheme; acceptance depends on character combinations and positions (an escape at the start of a serial, say) that the samples miss.",
  ALL + [COMMON, REGEX],
  [("URI grammars", REGEX), ("character verification of alphanumeric components", COMMON), ("length checks in constructors", S)],
  observe_at=["constructor result", "epc_uri attribute"]),
p("C08", "Every invalid pure identity URI is refused",
  "For every scheme, a string that is not a valid pure identity URI of that scheme - wrong prefix, foreign or non-ASCII character, missing or surplus component, wrong digit count, out-of-range number, over-long or empty serial, malformed escape, trailing garbage - is refused with the conversion error when constructing the object.",
  ["inputs"],
  "All strings obtained from valid shapes by replacing, inserting or deleting a window of arbitrary characters, and component-length combinations outside the allowed ones.",
  "The complement of the grammar is infinite; tests hold about seven invalid samples per scheme, none with non-ASCII digits, malformed escapes or newline suffixes.",
  ALL + [COMMON, REGEX],
  [("URI grammars", REGEX), ("length checks in constructors", S), ("character verification", COMMON)],
  observe_at=["constructor result or exception"]),
p("C09", "GS1 keys are composed correctly and carry the right check digit",
  "The GS1 key of every identity is the standard's arrangement of its components (indicator or extension digit first where applicable, serial unescaped where it belongs to the key) and, where the key has a check digit, that digit makes the weighted modulo-10 sum of the key divisible by ten.",
  ["inputs"],
  "All valid identities of all 13 keyed schemes, all prefix lengths, all digit values.",
  "Check digits are arithmetic over up to 17 digits: the few pinned keys do not distinguish a wrong weight, a missing modulo or a mis-sliced component for other digits.",
  KEYED + [COMMON],
  [("check digit computation", COMMON), ("key composition in constructors", S)],
  observe_at=["gs1_key()"]),
p("C10", "Identity to GS1 element string and back is the identity",
  "For every valid identity of a scheme with a GS1 element string, the element string has the standard's application identifiers and component order with serials unescaped and a correct check digit, and parsing it with the identity's company prefix length gives the same identity back, both through the scheme itself and through the generic parser.",
  ["inputs"],
  "All canonical identities of the 16 element-string schemes, serials containing any permitted characters in any order incl. parentheses and percent signs.",
  "Tests hold a handful of strings per scheme; parsing splits on parenthesised groups and unescapes/escapes characters, whose failure cases need specific serial contents.",
  GS1 + [COMMON, PARSERS, REGEX],
  [("element string composition and parsing", S), ("escape replacement and its reverse", COMMON), ("element string dispatch", PARSERS)],
  observe_at=["gs1_element_string()", "from_gs1_element_string()"]),
p("C11", "GS1 element strings are parsed at the requested company prefix length",
  "For every element string of a supported form with a correct check digit and every natural number as company prefix length, parsing either yields an identity whose company prefix has exactly that length and whose own element string is the given one, or refuses with the conversion error; lengths 6 to 12 that leave room for the remaining components are always accepted, all other lengths always refused.",
  ["inputs", "configurations"],
  "All element strings of the 16 forms x company prefix lengths from 0 to 15.",
  "The split point is a free parameter: tests use one prefix length per sample and never one out of range.",
  GS1 + [COMMON, REGEX],
  [("slicing by company prefix length", S), ("element string grammars", REGEX)],
  observe_at=["from_gs1_element_string() result or exception"]),
p("C12", "Shorter GTIN forms are given exactly when the GTIN allows them",
  "For every trade item identity the 14-digit GTIN is always available, and the GTIN-13, GTIN-12 or GTIN-8 form is returned - as the trailing 13, 12 or 8 digits of the 14-digit one - exactly when the digits left out are all zero, and refused with the conversion error otherwise. Building an identity from a full or zero-stripped GTIN plus serial and prefix length gives an identity with that GTIN and serial.",
  ["inputs", "configurations"],
  "All trade item identities (instance and lot level) x GTIN types x prefix lengths.",
  "The condition is on digit prefixes of a 14-digit number spread over two components; tests cover six numbers.",
  [S + "sgtin.py", S + "lgtin.py"],
  [("GTIN type selection", S + "sgtin.py"), ("GTIN type selection", S + "lgtin.py"), ("construction from GTIN and serial", S + "sgtin.py")],
  observe_at=["gtin()/gs1_key() with a GTIN type", "from_gtin_plus_serial()"]),
p("C13", "Generic parsers agree with the specific scheme",
  "For every representation (pure identity URI, tag URI, element string, binary, hexadecimal, base64) of any identity, the generic parser returns an object of the scheme the representation belongs to, equal to what that scheme's own constructor or parser returns. Where an identity's scheme lacks the requested capability (tag encoding, GS1 element, GS1 key) or the scheme or header is unknown, the generic parser refuses with the conversion error.",
  ["inputs", "configurations"],
  "All identities of all schemes in all representations; all 256 headers; unknown scheme names.",
  "Dispatch is by string prefix, regular expression order and header tables; tests try one sample per scheme and one unknown header.",
  [PARSERS, BASE] + ALL,
  [("dispatch tables", PARSERS), ("capability checks", PARSERS)],
  observe_at=["parser function results, their types and exceptions"]),
p("C14", "The GS1 key is the same whichever representation it is taken from",
  "For every identity of a scheme with a GS1 key, the key obtained from its pure identity URI, any of its tag URIs, its binary and hexadecimal tags and its element string (given the prefix length) through the generic key function is the key of the identity itself. Anything that is none of these, or whose scheme has no key, is refused with the conversion error.",
  ["inputs", "configurations"],
  "All keyed identities x representations x coding schemes x filter values.",
  "The source kind is guessed from the text; tests use one sample per scheme and kind.",
  [PARSERS] + KEYED,
  [("source kind detection", PARSERS)],
  observe_at=["get_gs1_key()", "epc_pure_identity_to_gs1_key()"]),
p("C15", "Malformed input raises only the library's conversion error",
  "Whatever string is given to the generic parsers, to a scheme's constructor or to a scheme's parsing functions, the outcome is a valid object or the library's conversion error; no other exception type escapes.",
  ["inputs"],
  "Arbitrary strings up to the stated bound, and otherwise well-formed inputs with a window of arbitrary characters, for every parsing entry point.",
  "Callers catch the one documented exception; tests assert it for about a hundred fixed bad inputs, nearly all of them URIs.",
  [PARSERS, BASE, COMMON] + ALL,
  [("validation before use", S), ("number and base conversions", COMMON), ("identifier extraction", PARSERS)],
  observe_at=["exception type of every parsing entry point"]),
p("C16", "Results do not depend on what was called before",
  "Whatever conversions were performed before, on the same object or on others, with whatever coding schemes and filter values, a conversion of an identity gives the same result as on a freshly constructed equal object, and the object's URI never changes.",
  ["histories", "inputs", "configurations"],
  "Sequences of conversions with varying arguments on one or two objects, all identities and filter values symbolic.",
  "Objects carry mutable fields for derived forms; tests call each conversion once per fresh object.",
  TAGS + GS1 + [BASE],
  [("per-object fields for derived forms", BASE), ("module-level tables", S)],
  observe_at=["results of repeated and interleaved conversions"]),
p("C17", "Objects are equal exactly when their identity URIs are equal",
  "Two identity objects compare equal exactly when their pure identity URIs are the same string, regardless of how each was obtained; comparison with anything that is not an identity is unequal and never fails.",
  ["inputs"],
  "All pairs of identities of the same shape, and pairs of different schemes.",
  "Equality over pairs of values is quadratic; tests only compare equal pairs.",
  [BASE],
  [("equality", BASE)],
  observe_at=["== and != on identity objects"]),
p("C18", "Identity patterns give the key shared by the identities they cover",
  "A pattern whose wildcard covers only a serial that is not part of the key yields the key of every identity matching it; a pattern without wildcard yields the key of that identity; and a pattern whose wildcard covers the company prefix or the reference digits of a check-digit key is refused with the conversion error.",
  ["inputs", "configurations"],
  "All patterns of the keyed schemes with wildcard in the trailing one, two or three components, all digits symbolic.",
  "Patterns stand for sets of identities; tests use fourteen valid and fourteen invalid samples.",
  [PARSERS, REGEX],
  [("pattern to identity conversion", PARSERS), ("pattern grammars", REGEX)],
  observe_at=["get_gs1_key() on a pattern URI"]),
p("C19", "A tag URI gives exactly the identity it spells, or is refused",
  "A text read as tag URI, through a scheme or the generic parser, either is refused with the conversion error or gives the identity of the scheme it names whose URI body is the text after the filter, verbatim. A text that is not of the form of a tag URI of that scheme - other coding scheme name, missing or malformed filter, surplus text, wrong component or digit count - is always refused.",
  ["inputs", "configurations"],
  "All tag URIs of 21 coding schemes with arbitrary characters at any place, all digits of over-long and short components symbolic, every coding scheme against every class.",
  "The set of near-miss texts is unbounded; tests reject a handful.",
  [BASE, REGEX, PARSERS],
  [("tag URI grammar", REGEX), ("splitting off coding scheme and filter", BASE), ("dispatch on the scheme name", PARSERS)],
  observe_at=["from_tag_uri()", "tag_uri_to_tag_encodable()"]),
p("C20", "An element string gives exactly the identity it spells, or is refused",
  "A text read as GS1 element string with a company prefix length, through a scheme or the generic parser, either is refused with the conversion error or gives the identity made of the company prefix, reference and escaped serial found at the standard's places, whatever the check digit. A text that is not of the form of an element string of that scheme is always refused.",
  ["inputs", "configurations"],
  "All element strings of 16 schemes with arbitrary characters at any place, digit counts and serial lengths at and beyond the limits with symbolic contents.",
  "The set of near-miss texts is unbounded; tests reject a handful per scheme.",
  GS1 + [REGEX, PARSERS],
  [("element string grammars", REGEX), ("slicing by prefix length", S), ("dispatch by grammar", PARSERS)],
  observe_at=["from_gs1_element_string()", "gs1_element_string_to_gs1_element()"]),
p("C21", "Binary and hexadecimal texts with foreign characters are refused",
  "A text with any character other than 0 and 1 is refused with the conversion error when read as a binary tag, and a text with any character other than a hexadecimal digit when read as a hexadecimal tag, wherever the character stands and through whichever function; so is the empty text.",
  ["inputs"],
  "All tags of 21 coding schemes with arbitrary Unicode characters at any place, including in unused trailing bits.",
  "Number parsing of the language accepts signs, underscores, white space and foreign digits; tests contain none of them.",
  TAGS + [COMMON, PARSERS],
  [("header and size check", COMMON), ("hexadecimal to bits", COMMON), ("dispatch on the header", PARSERS)],
  observe_at=["from_binary()", "from_hex()", "binary_to_tag_encodable()", "hex_to_tag_encodable()", "get_gs1_key()"]),
p("C22", "Objects convert alike however they were obtained",
  "An object obtained from the identity URI, the tag URI, the binary, hexadecimal or base64 form, the element string or the GTIN and serial, by the scheme's own or a generic function, gives in every conversion with every filter value and coding scheme exactly what the object constructed from the identity URI gives, or refuses where that one refuses.",
  ["inputs", "histories"],
  "All identities of all schemes, all ways to obtain the object, all pairs of the filter value and coding scheme read and the ones written.",
  "Tests convert an object once with the arguments it was made with; remembered texts show only with other arguments.",
  TAGS + [COMMON, PARSERS, BASE],
  [("reading and writing shared by all schemes", BASE), ("dispatch", PARSERS)],
  observe_at=["tag_uri()", "binary()", "hex()", "base64()", "gs1_element_string()", "gs1_key()"]),
p("C23", "Named filter values stand for the numbers of the standard",
  "Writing a tag with a named filter value puts the number the standard assigns to that name into the tag URI and into the filter bits, and the header bits are those the standard assigns to the coding scheme.",
  ["inputs"],
  "Every named filter value and coding scheme of the 13 schemes with filter, over all identities.",
  "Tests use a few names per scheme and compare most of them with texts produced by the library.",
  TAGS + [COMMON],
  [("filter enumerations and headers", TAGS[0])],
  observe_at=["tag_uri()", "binary()"]),
p("C24", "A tag that is read is written back unchanged",
  "Every binary tag that is accepted can be written again with the same coding scheme and filter value, and the bits are the ones that were read, apart from reserved bits, unused bits of character fields and surplus bits behind the tag.",
  ["inputs"],
  "All bit strings of each coding scheme: every partition value, every numeric field, character fields with arbitrary codes.",
  "Tests write first and read afterwards, so that a bit string no identity leads to is never tried.",
  TAGS + [COMMON],
  [("reading and writing of partitioned fields", COMMON)],
  observe_at=["from_binary()", "binary()"]),
p("C25", "A key is given only for texts that represent an identity with that key",
  "The general key function gives a key only for texts that are an identity URI, tag URI, element string or pattern of a keyed scheme, and the key is that of the identity the text spells; any other text is refused with the conversion error.",
  ["inputs"],
  "All representations of the 13 keyed schemes with arbitrary Unicode characters put in, replaced, removed or appended anywhere.",
  "The function tries several readings one after another; a text slipping through one of them is not found by samples of well-formed texts.",
  TAGS + [COMMON, PARSERS],
  [("order of the readings tried", PARSERS)],
  observe_at=["get_gs1_key()"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
