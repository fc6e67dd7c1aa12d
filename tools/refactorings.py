"""Behaviour-preserving rewritings, see refactor.py.  An edit is (file,
function, new source) or (file, old text, new text)."""
C = "epcpy/utils/common.py"
B = "epcpy/epc_schemes/base_scheme.py"
P = "epcpy/utils/parsers.py"
S = "epcpy/epc_schemes/"

SETS = {}

SETS["loops"] = [
    (C, "replace_uri_escapes", '''
def replace_uri_escapes(uri: str) -> str:
    for escape, char in (("%22", '"'), ("%26", "&"), ("%2F", "/"), ("%3C", "<"), ("%3E", ">"), ("%3F", "?"), ("%25", "%")):
        uri = uri.replace(escape, char)
    return uri
'''),
    (C, "revert_uri_escapes", '''
def revert_uri_escapes(uri: str) -> str:
    table = {"%": "%25", '"': "%22", "&": "%26", "/": "%2F", "<": "%3C", ">": "%3E", "?": "%3F"}
    result = []
    for char in uri:
        if char in table:
            result.append(table[char])
        else:
            result.append(char)
    return "".join(result)
'''),
    (C, "int_to_binary", '''
def int_to_binary(integer: int, num_bits: int) -> str:
    return bin(integer)[2:].zfill(num_bits)
'''),
    (C, "hex_to_binary", '''
def hex_to_binary(hex_string: str) -> str:
    if re.fullmatch("[0-9a-fA-F]+", hex_string) is None:
        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
    return "".join(f"{int(digit, 16):04b}" for digit in hex_string)
'''),
    (C, "binary_to_hex", '''
def binary_to_hex(binary_string: str) -> str:
    return "%X" % int(binary_string, 2)
'''),
    (C, "encode_string", '''
def encode_string(string: str, num_bits: int) -> str:
    res = ""
    pos = 0
    while pos < len(string):
        if string[pos] == "%" and re.match("%[0-9a-fA-F]{2}", string[pos:]):
            code = int(string[pos + 1 : pos + 3], 16)
            pos += 3
        else:
            code = ord(string[pos])
            pos += 1
        res += int_to_binary(code, 7)
    return res.ljust(num_bits, "0")
'''),
    (C, "decode_string_six_bits", '''
def decode_string_six_bits(binary: str, max_chars: int) -> str:
    res = ""
    for start in range(0, len(binary) - 5, 6):
        g = binary[start : start + 6]
        if g == "000000":
            break
        code = int(g, 2)
        res += chr(code if code >= 32 else code + 64)
    if len(res) > max_chars:
        raise ConvertException(message="Too many characters decoded!")
    return res.replace("%", "%25").replace("#", "%23").replace("/", "%2F")
'''),
    (C, "decode_string", '''
def decode_string(binary: str) -> str:
    res = ""
    ended = False
    for start in range(0, len(binary) - 6, 7):
        char = decode_binary_char(binary[start : start + 7])
        if not char:
            ended = True
        elif ended:
            raise ConvertException(message="Characters found after end of string")
        res += char
    return res
'''),
    (C, "calculate_checksum", '''
def calculate_checksum(digits: str) -> int:
    total = 0
    for position, digit in enumerate(reversed(digits)):
        weight = 3 if position % 2 == 0 else 1
        total += weight * int(digit)
    return -total % 10
'''),
    (C, "verify_gs3a3_component", '''
def verify_gs3a3_component(gs3a3_component: str):
    def unescape(match):
        return chr(int(match.group(1), 16))

    if not VERIFY_GS3A3_CHARS_REGEX.fullmatch(re.sub("%([0-9a-fA-F]{2})", unescape, gs3a3_component)):
        raise ConvertException()
'''),
    (C, "decode_cage_code", '''
def decode_cage_code(binary: str) -> str:
    chars = []
    for k in range(0, len(binary), 8):
        chars.append(chr(int(binary[k : k + 8], 2)))
    return "".join(chars).lstrip(" ")
'''),
    (C, "encode_cage_code", '''
def encode_cage_code(chars: str) -> str:
    res = ""
    for char in chars:
        res = res + format(ord(char), "08b")
    return res
'''),
]

SETS["library"] = [
    (C, "import base64\n", "import base64\nimport functools\nimport itertools\nfrom urllib.parse import unquote\n"),
    (C, "replace_uri_escapes", '''
def replace_uri_escapes(uri: str) -> str:
    return re.sub("%(22|25|26|2F|3C|3E|3F)", lambda m: chr(int(m[1], 16)), uri)
'''),
    (C, "revert_uri_escapes", '''
def revert_uri_escapes(uri: str) -> str:
    return uri.translate(str.maketrans({c: f"%{ord(c):02X}" for c in '%"&/<>?'}))
'''),
    (C, "int_to_binary", '''
def int_to_binary(integer: int, num_bits: int) -> str:
    return format(integer, "b").rjust(num_bits, "0")
'''),
    (C, "hex_to_binary", '''
def hex_to_binary(hex_string: str) -> str:
    if not re.match("[0-9a-fA-F]+\\\\Z", hex_string):
        raise ConvertException(message=f"Invalid hexadecimal string {hex_string}")
    return bin(int("1" + hex_string, 16))[3:]
'''),
    (C, "binary_to_hex", '''
def binary_to_hex(binary_string: str) -> str:
    return hex(int(binary_string, 2))[2:].upper()
'''),
    (C, "encode_string", '''
def encode_string(string: str, num_bits: int) -> str:
    groups = re.findall("%[0-9a-fA-F]{2}|.", string, re.DOTALL)
    codes = (int(g[1:], 16) if len(g) == 3 else ord(g) for g in groups)
    bits = "".join("{:07b}".format(c) for c in codes)
    return bits + "0" * (num_bits - len(bits))
'''),
    (C, "encode_string_six_bits", '''
def encode_string_six_bits(string: str) -> str:
    plain = string.replace("%23", "#").replace("%2F", "/")
    return "".join(int_to_binary(ord(c) % 64, 6) for c in plain) + "000000"
'''),
    (C, "decode_string_six_bits", '''
def decode_string_six_bits(binary: str, max_chars: int) -> str:
    groups = re.findall("[01]{6}", binary)
    codes = itertools.takewhile(lambda code: code != 0, (int(g, 2) for g in groups))
    res = "".join(chr(code) if code & 32 else chr(code | 64) for code in codes)
    if len(res) > max_chars:
        raise ConvertException(message="Too many characters decoded!")
    return res.replace("%", "%25").replace("#", "%23").replace("/", "%2F")
'''),
    (C, "decode_string", '''
def decode_string(binary: str) -> str:
    chars = [decode_binary_char(m.group()) for m in re.finditer(".{7}", binary)]
    while chars and chars[-1] == "":
        chars.pop()
    if not all(chars):
        raise ConvertException(message="Characters found after end of string")
    return "".join(chars)
'''),
    (C, "calculate_checksum", '''
def calculate_checksum(digits: str) -> int:
    total = sum(int(d) * w for d, w in zip(digits[::-1], itertools.cycle((3, 1))))
    return (10 - total % 10) % 10
'''),
    (C, "encode_partition_table", '''
def encode_partition_table(
    parts, partition_table, string_partition=False, six_bit_variable_partition=False
) -> str:
    company, rest = parts
    row = partition_table[len(company)]
    p, m, n, k = (row[name] for name in "PMNK")
    if six_bit_variable_partition and not string_partition:
        encoded = encode_string_six_bits(rest)
    elif string_partition:
        encoded = encode_string(rest, n)
    elif k == 0:
        encoded = "".zfill(n)
    else:
        encoded = str_to_binary(rest, n)
    return "".join((int_to_binary(p, 3), str_to_binary(company, m), encoded))
'''),
    (C, "decode_partition_table", '''
def decode_partition_table(
    binary_string,
    partition_table,
    unpadded_partition=False,
    string_partition=False,
    six_bit_variable_partition=False,
) -> str:
    partition = partition_table.get(binary_to_int(binary_string[:3]))
    if partition is None:
        raise ConvertException(message=f"Invalid partition header {binary_string[:3]}")
    rest = binary_string[3:]
    company, reference = rest[: partition["M"]], rest[partition["M"] :][: partition["N"]]
    C = binary_to_int(company)
    numeric = not (unpadded_partition or string_partition or six_bit_variable_partition)
    if string_partition:
        D = decode_string(reference)
    elif six_bit_variable_partition:
        D = decode_string_six_bits(reference, partition["K"])
    elif partition["K"]:
        D = str(binary_to_int(reference))
    else:
        D = ""
    if C >= 10 ** partition["L"]:
        raise ConvertException(message="Company prefix length too large")
    if numeric or unpadded_partition:
        if binary_to_int(reference) >= 10 ** partition["K"]:
            raise ConvertException(message="Item reference length too large")
    if numeric:
        D = D.zfill(partition["K"])
    return ".".join([str(C).zfill(partition["L"]), D])
'''),
    (C, "verify_gs3a3_component", '''
def verify_gs3a3_component(gs3a3_component: str):
    groups = re.split("%([0-9a-fA-F]{2})", gs3a3_component)
    for k in range(1, len(groups), 2):
        groups[k] = chr(int(groups[k], 16))
    text = "".join(groups)
    if not VERIFY_GS3A3_CHARS_REGEX.fullmatch(text):
        raise ConvertException()
'''),
    (C, "decode_fixed_width_integer", '''
def decode_fixed_width_integer(binary: str) -> str:
    digits = int(len(binary) * log(2) / log(10))
    text = str(int(binary, 2))
    if len(text) > digits:
        raise ConvertException(message=f"Bits cannot be converted to {digits} digits")
    return text.rjust(digits, "0")
'''),
    (C, "parse_header_and_truncate_binary", '''
def parse_header_and_truncate_binary(binary_string, header_to_schemes):
    scheme = header_to_schemes.get(binary_string[:8])
    if scheme is None:
        raise ConvertException(message=f"{binary_string[:8]} is not a valid header")
    size = scheme.value.rpartition("-")[2]
    if size == "var":
        truncated = binary_string
    else:
        truncated = binary_string[: int(size)]
        if len(truncated) < int(size):
            raise ConvertException(message="Invalid binary size")
    if set(binary_string) - {"0", "1"}:
        raise ConvertException(message=f"Invalid binary string {binary_string}")
    return scheme, truncated
'''),
    (C, "encode_cage_code", '''
def encode_cage_code(chars: str) -> str:
    return "".join(map(lambda char: int_to_binary(ord(char), 8), chars))
'''),
    (C, "base64_to_hex", '''
def base64_to_hex(base64_string: str) -> str:
    try:
        raw = base64.b64decode(base64_string + "==")
    except ValueError as error:
        raise ConvertException(message=f"Invalid base64 string {base64_string}") from error
    return raw.hex()
'''),
]

SETS["schemes"] = [
    (S + "sgln.py", "SGLN.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)

    match = SGLN_URI_REGEX.fullmatch(epc_uri)
    if match is None:
        raise ConvertException(message=f"Invalid SGLN URI {epc_uri}")

    body = epc_uri[len("urn:epc:id:sgln:") :]
    self._company_pref, self._location_ref, self._serial = body.split(".", 2)
    self._verify_lengths()
    verify_gs3a3_component(self._serial)
    self._gln = self._company_pref + self._location_ref
    self._gln += str(calculate_checksum(self._gln))

def _verify_lengths(self):
    if len(self._company_pref) not in range(6, 13) or len(self._company_pref) + len(self._location_ref) != 12:
        raise ConvertException(message="Company prefix + location reference must be 12 digits")
    if len(replace_uri_escapes(self._serial)) > 20:
        raise ConvertException(message="Invalid serial")
'''),
    (S + "sgln.py", "SGLN.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    if binary_coding_scheme == SGLN.BinaryCodingScheme.SGLN_96:
        fits = re.fullmatch("0|[1-9][0-9]*", self._serial) and int(self._serial) < 1 << 41
    else:
        fits = len(replace_uri_escapes(self._serial)) <= 20
    if not fits:
        raise ConvertException(message=f"Invalid serial value {self._serial}")
    return "%s%s:%s.%s" % (
        self.TAG_URI_PREFIX,
        binary_coding_scheme.value,
        filter_value.value,
        ".".join([self._company_pref, self._location_ref, self._serial]),
    )
'''),
    (S + "sgtin.py", "SGTIN.gtin", '''
def gtin(self, gtin_type=GTIN_TYPE.GTIN14) -> str:
    dropped, kept = self._gtin[: 14 - gtin_type], self._gtin[14 - gtin_type :]
    if dropped.strip("0"):
        raise ConvertException(message=f"Invalid GTIN{gtin_type}")
    return kept
'''),
    (S + "sgtin.py", "SGTIN.gs1_element_string", '''
def gs1_element_string(self) -> str:
    return "(01){gtin}(21){serial}".format(gtin=self._gtin, serial=replace_uri_escapes(self._serial))
'''),
    (S + "adi.py", "ADI.from_binary", '''
@classmethod
def from_binary(cls, binary_string: str) -> ADI:
    binary_coding_scheme, truncated_binary = parse_header_and_truncate_binary(
        binary_string,
        cls.header_to_schemes(),
    )
    rest = truncated_binary[50:]
    groups = [rest[k : k + 6] for k in range(0, len(rest) - 5, 6)]
    ends = [k for k, group in enumerate(groups) if group == "000000"]
    if len(ends) < 2:
        raise ConvertException(message="Invalid binary for ADI, missing 6-bit terminators")
    cage = decode_cage_code_six_bits(truncated_binary[14:50])
    part = decode_string_six_bits("".join(groups[: ends[0]]), 32)
    serial = decode_string_six_bits("".join(groups[ends[0] + 1 : ends[1]]), 30)
    return cls.from_tag_uri(
        f"{cls.TAG_URI_PREFIX}{binary_coding_scheme.value}:{int(truncated_binary[8:14], 2)}.{cage}.{part}.{serial}"
    )
'''),
    (S + "cpi.py", "CPI.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    if binary_coding_scheme == CPI.BinaryCodingScheme.CPI_96 and not self._fits_96():
        raise ConvertException(message=f"Invalid serial value {self._serial}")
    body = ".".join((filter_value.value, self._company_pref, self._cp_ref, self._serial))
    self._tag_uri = self.TAG_URI_PREFIX + binary_coding_scheme.value + ":" + body
    return self._tag_uri

def _fits_96(self) -> bool:
    if int(self._serial) > 2 ** 31 - 1:
        return False
    if not self._cp_ref.isdigit() or len(self._cp_ref) + len(self._company_pref) > 15:
        return False
    return self._cp_ref == "0" or not self._cp_ref.startswith("0")
'''),
    (S + "cpi.py", "CPI.binary", '''
def binary(self, binary_coding_scheme, filter_value) -> str:
    self.tag_uri(binary_coding_scheme, filter_value)
    header = CPI.BinaryHeader[binary_coding_scheme.name].value
    parts = self._company_pref, self._cp_ref
    if binary_coding_scheme == CPI.BinaryCodingScheme.CPI_96:
        body = encode_partition_table(parts, PARTITION_TABLE_L_96)
        width = 31
    else:
        body = encode_partition_table(parts, PARTITION_TABLE_L_VAR, six_bit_variable_partition=True)
        width = 40
    return "".join([header, str_to_binary(filter_value.value, 3), body, str_to_binary(self._serial, width)])
'''),
    (S + "usdod.py", "USDOD.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)

    if not USDOD_URI_REGEX.fullmatch(epc_uri):
        raise ConvertException(message=f"Invalid USDOD URI {epc_uri}")

    _, _, body = epc_uri.rpartition(":")
    self._cage_dodaac, _, self._serial = body.partition(".")
    number = int(self._serial)
    if number.bit_length() > 36 or str(number) != self._serial:
        raise ConvertException(message=f"Serial out of range: (max: {pow(2, 36)})")
'''),
    (B, "TagEncodable.hex", '''
def hex(self, *args, **kwargs) -> str:
    binary = self.binary(**kwargs)
    words = -(-len(binary) // 16)
    padded = binary.ljust(16 * words, "0")
    return int(padded, 2).to_bytes(2 * words, "big").hex().upper()
'''),
    (B, "TagEncodable.from_tag_uri", '''
@classmethod
def from_tag_uri(cls, epc_tag_uri: str, includes_filter: bool = True):
    if TagEncodable.TAG_URI_REGEX.match(epc_tag_uri) is None:
        raise ConvertException(message=f"Invalid EPC tag URI {epc_tag_uri}")
    name = epc_tag_uri.split(":")[3].partition("-")[0]
    if includes_filter:
        value = epc_tag_uri.split(":", 3)[3].partition(".")[2]
    else:
        value = epc_tag_uri.split(":", 4)[4]
    return cls("urn:epc:id:" + name + ":" + value)
'''),
    (B, "TagEncodable.header_to_schemes", '''
@classmethod
def header_to_schemes(cls):
    mapping = {}
    for name, header in cls.BinaryHeader.__members__.items():
        mapping[header.value] = cls.BinaryCodingScheme[name]
    return mapping
'''),
    (B, "EPCScheme.__eq__", '''
def __eq__(self, other: object) -> bool:
    return isinstance(other, EPCScheme) and other.epc_uri == self.epc_uri
'''),
    (P, "epc_pure_identity_to_scheme", '''
def epc_pure_identity_to_scheme(epc_pure_identity_uri: str) -> EPCScheme:
    components = epc_pure_identity_uri.split(":")
    try:
        scheme = EPC_SCHEME_IDENTIFIERS[components[3]]
    except (IndexError, KeyError):
        raise ConvertException(message="Unknown EPC URI")
    return scheme.from_epc_uri(epc_pure_identity_uri)
'''),
    (P, "gs1_element_string_to_gs1_element", '''
def gs1_element_string_to_gs1_element(gs1_element_string: str, company_prefix_length: int) -> GS1Element:
    candidates = (
        scheme for regex, scheme in GS1_ELEMENT_STRING_REGEX_TO_SCHEME.items() if regex.fullmatch(gs1_element_string)
    )
    scheme = next(candidates, None)
    if scheme is None:
        raise ConvertException(message=f"Unknown GS1 element string: {gs1_element_string}")
    return scheme.from_gs1_element_string(gs1_element_string, company_prefix_length)
'''),
    (P, "tag_uri_to_tag_encodable", '''
def tag_uri_to_tag_encodable(epc_tag_uri: str) -> TagEncodable:
    match = re.match("[^:]*:[^:]*:[^:]*:([^:-]*)", epc_tag_uri)
    scheme = TAG_ENCODABLE_SCHEME_IDENTIFIERS.get(match.group(1)) if match else None
    if scheme is None:
        raise ConvertException(message="Unknown TagEncodable scheme identifier")
    return scheme.from_tag_uri(epc_tag_uri)
'''),
    (P, "binary_to_tag_encodable", '''
def binary_to_tag_encodable(binary_string: str) -> TagEncodable:
    for header, scheme in TAG_ENCODABLE_BINARY_HEADERS.items():
        if binary_string.startswith(header):
            return scheme.from_binary(binary_string)
    raise ConvertException(message="Unknown header")
'''),
]

SETS["caches"] = [
    (C, "import base64\n", "import base64\nimport functools\n"),
    (C, "def calculate_checksum(", "@functools.lru_cache(maxsize=None)\ndef calculate_checksum("),
    (C, "def replace_uri_escapes(", "@functools.lru_cache(maxsize=256)\ndef replace_uri_escapes("),
    (C, "int_to_binary", '''
_BITS = {}


def int_to_binary(integer: int, num_bits: int) -> str:
    key = (integer, num_bits)
    if key not in _BITS:
        _BITS[key] = f"{integer:0{num_bits}b}"
    return _BITS[key]
'''),
    (B, "TagEncodable.header_to_schemes", '''
@classmethod
def header_to_schemes(cls):
    if "_headers" not in cls.__dict__:
        cls._headers = {
            binary_header.value: cls.BinaryCodingScheme[binary_header.name]
            for binary_header in cls.BinaryHeader
        }
    return cls._headers
'''),
    (S + "sgtin.py", "SGTIN.gs1_element_string", '''
def gs1_element_string(self) -> str:
    if getattr(self, "_element", None) is None:
        self._element = f"(01){self._gtin}(21){replace_uri_escapes(self._serial)}"
    return self._element
'''),
    (S + "cpi.py", "CPI.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    cache = self.__dict__.setdefault("_tag_uris", {})
    key = (binary_coding_scheme, filter_value)
    if key in cache:
        return cache[key]
    if binary_coding_scheme == CPI.BinaryCodingScheme.CPI_96 and (
        int(self._serial) >= pow(2, 31)
        or not self._cp_ref.isnumeric()
        or (len(self._cp_ref) > 1 and self._cp_ref[0] == "0")
        or len(self._cp_ref) > 15 - len(self._company_pref)
    ):
        raise ConvertException(message=f"Invalid serial value {self._serial}")
    cache[key] = f"{self.TAG_URI_PREFIX}{binary_coding_scheme.value}:{filter_value.value}.{self._company_pref}.{self._cp_ref}.{self._serial}"
    return cache[key]
'''),
]

SETS["structure"] = [
    (B, "import re\n", "import re\nfrom itertools import accumulate\n"),
    (B, "    def hex(self, *args, **kwargs) -> str:", '''    def _compose(self, coding, *parts) -> str:
        return self.TAG_URI_PREFIX + ":".join((coding.value, ".".join(parts)))

    @staticmethod
    def _cut(binary, *widths):
        ends = list(accumulate(widths))
        return [binary[end - width : end] for width, end in zip(widths, ends)] + [binary[ends[-1] :]]

    def hex(self, *args, **kwargs) -> str:'''),
    (S + "sscc.py", "SSCC.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)
    if (match := re.fullmatch("urn:epc:id:sscc:(?P<prefix>[0-9]{6,12})[.](?P<serial>[0-9]+)", epc_uri)) is None:
        raise ConvertException(message=f"Invalid SSCC URI {epc_uri}")
    self._company_pref, self._serial = match["prefix"], match["serial"]
    extension, *rest = self._serial
    digits = "".join([extension, self._company_pref, *rest])
    if len(digits) != 17:
        raise ConvertException(message=f"Invalid SSCC URI {epc_uri} | wrong number of digits")
    self._sscc = digits + str(calculate_checksum(digits))
'''),
    (S + "sscc.py", "SSCC.from_gs1_element_string", '''
@classmethod
def from_gs1_element_string(cls, gs1_element_string: str, company_prefix_length: int) -> SSCC:
    if not cls.gs1_element_string_regex.fullmatch(gs1_element_string):
        raise ConvertException(message=f"Invalid SSCC GS1 element string {gs1_element_string}")
    extension, digits = gs1_element_string[4], gs1_element_string[5:]
    prefix, reference = digits[:company_prefix_length], digits[company_prefix_length:-1]
    return cls("urn:epc:id:sscc:%s.%s%s" % (prefix, extension, reference))
'''),
    (S + "grai.py", "GRAI.from_binary", '''
@classmethod
def from_binary(cls, binary_string: str) -> GRAI:
    coding, bits = parse_header_and_truncate_binary(binary_string, cls.header_to_schemes())
    _, flt, grai, serial = cls._cut(bits, 8, 3, 47)
    decoders = {cls.BinaryCodingScheme.GRAI_96: binary_to_int, cls.BinaryCodingScheme.GRAI_170: decode_string}
    parts = [binary_to_int(flt), decode_partition_table(grai, PARTITION_TABLE_P), decoders[coding](serial)]
    return cls.from_tag_uri(f"{cls.TAG_URI_PREFIX}{coding.value}:{'.'.join(map(str, parts))}")
'''),
    (S + "grai.py", "GRAI.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    if binary_coding_scheme is GRAI.BinaryCodingScheme.GRAI_96:
        try:
            ok = self._serial.isdecimal() and str(int(self._serial)) == self._serial and int(self._serial) >> 38 == 0
        except ValueError:
            ok = False
        if not ok:
            raise ConvertException(message=f"Invalid serial value {self._serial}")
    return self._compose(
        binary_coding_scheme, filter_value.value, self._company_pref, self._asset_type, self._serial
    )
'''),
    (S + "gdti.py", "GDTI.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    match binary_coding_scheme:
        case GDTI.BinaryCodingScheme.GDTI_96:
            invalid = (
                not all("0" <= c <= "9" for c in self._serial)
                or self._serial.lstrip("0") != (self._serial if self._serial != "0" else "")
                or int(self._serial) > 0x1FFFFFFFFFF
            )
        case GDTI.BinaryCodingScheme.GDTI_174:
            invalid = len(replace_uri_escapes(self._serial)) > 17
        case _:
            invalid = False
    if invalid:
        raise ConvertException(message=f"Invalid serial value {self._serial}")
    return self._compose(
        binary_coding_scheme, filter_value.value, self._company_pref, self._doc_type, self._serial
    )
'''),
    (S + "gdti.py", "GDTI.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)
    if not GDTI_URI_REGEX.fullmatch(epc_uri):
        raise ConvertException(message=f"Invalid GDTI URI {epc_uri}")
    body = epc_uri.removeprefix("urn:epc:id:gdti:")
    first = body.index(".")
    second = body.index(".", first + 1)
    self._company_pref, self._doc_type, self._serial = body[:first], body[first + 1 : second], body[second + 1 :]
    verify_gs3a3_component(self._serial)
    plain = replace_uri_escapes(self._serial)
    digits = self._company_pref + self._doc_type
    if len(digits) != 12 or len(plain) > 17 or len(self._company_pref) < 6:
        raise ConvertException(message=f"Invalid GDTI URI {epc_uri}")
    self._gdti = "{}{:d}{}".format(digits, calculate_checksum(digits), plain)
'''),
    (S + "giai.py", "GIAI.from_gs1_element_string", '''
@classmethod
def from_gs1_element_string(cls, gs1_element_string: str, company_prefix_length: int) -> GIAI:
    if not cls.gs1_element_string_regex.fullmatch(gs1_element_string):
        raise ConvertException(message=f"Invalid GIAI GS1 element string {gs1_element_string}")
    _, _, value = gs1_element_string.partition(")")
    digits, chars = value[:company_prefix_length], value[company_prefix_length:]
    if not digits.isdigit():
        raise ConvertException(message=f"Invalid company prefix {digits}")
    return cls(".".join([f"urn:epc:id:giai:{digits}", revert_uri_escapes(chars)]))
'''),
    (S + "giai.py", "GIAI.tag_uri", '''
def tag_uri(self, binary_coding_scheme, filter_value) -> str:
    def too_long():
        return len(replace_uri_escapes(self._asset_ref)) > PARTITION_TABLE_L_202[len(self._company_pref)]["K"]

    def no_number():
        row = PARTITION_TABLE_L_96[len(self._company_pref)]
        if len(self._asset_ref) > row["K"] or not self._asset_ref.isnumeric():
            return True
        number = int(self._asset_ref)
        return number >= 1 << row["N"] or len(str(number)) != len(self._asset_ref)

    faults = {
        GIAI.BinaryCodingScheme.GIAI_202: too_long,
        GIAI.BinaryCodingScheme.GIAI_96: no_number,
    }
    if faults[binary_coding_scheme]():
        raise ConvertException(message=f"Invalid asset reference value {self._asset_ref}")
    return self._compose(binary_coding_scheme, filter_value.value, self._company_pref, self._asset_ref)
'''),
    (S + "itip.py", "ITIP.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)
    if not ITIP_URI_REGEX.fullmatch(epc_uri):
        raise ConvertException(message=f"Invalid ITIP URI {epc_uri}")
    parts = epc_uri.split(":", 4)[4].split(".", 4)
    verify_gs3a3_component(parts[4])
    self._company_pref, self._item_ref, self._piece, self._total, self._serial = parts
    lengths = tuple(len(part) for part in parts[:4])
    if (
        sum(lengths[:2]) != 13
        or lengths[2:] != (2, 2)
        or lengths[0] not in (6, 7, 8, 9, 10, 11, 12)
        or not 0 < len(replace_uri_escapes(parts[4])) < 21
    ):
        raise ConvertException(message=f"Invalid ITIP URI {epc_uri}")
'''),
    (S + "upui.py", "UPUI.from_gs1_element_string", '''
@classmethod
def from_gs1_element_string(cls, gs1_element_string: str, company_prefix_length: int) -> UPUI:
    if not cls.gs1_element_string_regex.fullmatch(gs1_element_string):
        raise ConvertException(message=f"Invalid UPUI GS1 element string {gs1_element_string}")
    gtin, tpx = gs1_element_string[len("(01)") :].split("(235)", 1)
    indicator, *digits = gtin
    prefix = "".join(digits[:company_prefix_length])
    item = "".join([indicator] + digits[company_prefix_length:-1])
    return cls(f"urn:epc:id:upui:{prefix}.{item}.{revert_uri_escapes(tpx)}")
'''),
    (S + "sgcn.py", "SGCN.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)
    if not SGCN_URI_REGEX.fullmatch(epc_uri):
        raise ConvertException(message=f"Invalid SGCN URI {epc_uri}")
    head, self._serial = epc_uri.rsplit(".", 1)
    self._company_pref, self._coupon_ref = head[head.rfind(":") + 1 :].split(".")
    coupon = self._company_pref + self._coupon_ref
    if not (len(coupon) == 12 and len(self._serial) <= 12 and len(self._company_pref) >= 6):
        raise ConvertException(message=f"Invalid SGCN URI {epc_uri} | wrong number of digits")
    self._gcn = f"{coupon}{calculate_checksum(coupon)}{self._serial}"
'''),
    (S + "bic.py", "BIC.__init__", '''
def __init__(self, epc_uri) -> None:
    super().__init__(epc_uri)
    if not BIC_URI_REGEX.fullmatch(epc_uri):
        raise ConvertException(message=f"Invalid BIC URI {epc_uri}")
    code = epc_uri[-11:]
    self._container_code = code
    (
        self._owner_code,
        self._equipment_category_identifier,
        self._serial,
        self._check_digit,
    ) = re.fullmatch("(.{3})(.)(.{6})(.)", code).groups()
'''),
    (C, "decode_binary_char", '''
def decode_binary_char(binary: str) -> str:
    code = int(binary, 2)
    if not code:
        return ""
    return ESCAPE_CHARACTERS.get(binary, chr(code))
'''),
    (C, "decode_numeric_string", '''
def decode_numeric_string(binary: str) -> str:
    string = str(int(binary, 2))
    if not string.startswith("1") or string == "1":
        raise ConvertException(message="Invalid numeric string")
    return string.removeprefix("1")
'''),
    (C, "encode_fixed_width_integer", '''
def encode_fixed_width_integer(string: str, bit_count: int) -> str:
    digits = len(str(2**bit_count)) - 1
    if len(str(int(string))) > digits:
        raise ConvertException(message="Fixed width numeric integer too large")
    return str_to_binary(string, bit_count)
'''),
    (C, "decode_cage_code_six_bits", '''
def decode_cage_code_six_bits(binary: str) -> str:
    blank, *rest = [binary[k : k + 6] for k in range(0, len(binary), 6)]
    if blank != "100000":
        if rest and rest[-1] == "0" * 6:
            raise ConvertException(message="Invalid six bit CAGE code")
        rest.insert(0, blank)
    return decode_string_six_bits("".join(rest), 6)
'''),
    (P, "get_gs1_key", '''
def get_gs1_key(source: str, company_prefix_length: Optional[int] = None, **kwargs) -> str:
    scheme = _read(source, company_prefix_length)
    if isinstance(scheme, GS1Keyed):
        return scheme.gs1_key(**kwargs)
    raise ConvertException(message="Source could not be converted to proper GS1Keyed scheme")


def _read(source, company_prefix_length):
    readers = [
        (EPC_URI_REGEX, epc_pure_identity_to_scheme),
        (TAG_URI_REGEX, tag_uri_to_tag_encodable),
        (IDPAT_URI_REGEX, _idpat_to_gs1_keyed_scheme),
    ]
    if company_prefix_length:
        readers.append(
            (GS1_ELEMENT_STRING_REGEX, lambda text: gs1_element_string_to_gs1_element(text, company_prefix_length))
        )
    for regex, reader in readers:
        if regex.fullmatch(source) is not None:
            return reader(source)
    if any(source.startswith(header) for header in TAG_ENCODABLE_BINARY_HEADERS):
        return binary_to_tag_encodable(source)
    if source[:2].upper() in TAG_ENCODABLE_HEX_HEADERS:
        return hex_to_tag_encodable(source)
    return None
'''),
    (P, "_idpat_to_gs1_keyed_scheme", '''
def _idpat_to_gs1_keyed_scheme(idpat: str) -> GS1Keyed:
    identifier, body = idpat.removeprefix("urn:epc:idpat:").split(":", 1)
    try:
        scheme = GS1_KEYED_SCHEME_IDENTIFIERS[identifier]
    except KeyError:
        raise ConvertException(message="Unknown GS1Keyed identifier")
    candidates = [body]
    if identifier in ONE_ESCAPE_ALLOWED_SCHEMES and body.endswith(".*"):
        candidates.append(body[:-1] + "0")
    for candidate in candidates:
        uri = f"urn:epc:id:{identifier}:{candidate}"
        if EPC_URI_REGEX.fullmatch(uri):
            return scheme(uri)
    raise ConvertException(message="Could not create valid scheme from given id pat")
'''),
]
