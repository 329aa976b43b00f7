"""The derived shapes of the witness program: field and variant names as a document spells them, in declaration order."""
WIDE = [b"f%02d" % i for i in range(12)] + [b"state", b"data", b"out", b"value"]
QUOTED = 'a"\\\u00e9'.encode()
_long = "n" * 300
# names a document may spell: nothing about them may be special
NAMES = [x.encode() for x in (
    "r#x", "x", "r#", "r", " lead", "lead", "trail ", "trail", "\ttab\t", "tab", "line\nbreak", "nul\0", "nul", "\x7f", "a.b", "a-b", "a_b",
    "a/b", "a::b", "ab", "UPPER", "upper", "Upper", "Mixed Case", "mixedCase", "mixed_case", "0", "00", "123", "-1", "1.0", "true", "null",
    "$ref", "@type", "#", "[0]", "{}", "{0}", "%s", "\\", "\"", "\\n", "\\u0041", "'", "\u00e9", "e\u0301", "\u212a", "K", "k", "\u017f",
    "s", "\ufeff", "\u65e5\u672c", "\U0001f600", ",", ":", "__out", "__k", "_", "serde", "rename", "self", "value",
    _long[:31], _long[:32], _long[:63], _long[:64], _long[:127], _long[:255], _long[:256], _long, _long + "a", _long + "b")]
BIG = [b"f%03d" % i for i in range(300)]
STRUCTS = {
    "d0": [], "d1": [b"a"], "d2": [b"first", b"renamed key"], "d3": [b"c", b"a", QUOTED],
    "dgen": [b"t", b"u"], "dkw": [b"type", b""],
    "dodd": [b"type_", b"_Type", "na\u00efve".encode(), b" _A_ ", b"self_0"], "dswap": [b"b", b"a", b"k"], "dmulti": [b"key", b"seq", b"map"], "dwide": WIDE,
    "dnames": NAMES, "dzst": [b"a", b"b", b"c"],
}
DE_STRUCTS = dict(STRUCTS, dopt=[b"x", b"y"])
SE_STRUCTS = dict(STRUCTS, dbig=BIG, dmix=b"unit boolean small float text lent optional absent boxed cow list array pair map value nested choice".split())
OPTIONAL = {"dopt": (0,), "dmulti": (2,)}
ENUMS = {
    "e1": [b"Only"], "e3": [b"First", b"renamed variant", b"Third"], "ewide": [b"V%02d" % i for i in range(14)],
    "eswap": [b"Second", b"First", b"Third", 't\\"\U0001f600'.encode(), b""],
    "enames": NAMES, "ebig": [b"V%03d" % i for i in range(300)],
}


def schedule(n):
    """bounded histories for wide structs: every single field, every all-but-one, repeats, forward, reverse, unknown keys around"""
    if n > 20:
        return [[n] + list(range(n)), list(reversed(range(n))), list(range(n - 1)), list(range(1, n))]
    r = [list(range(n)), list(reversed(range(n))), [n] + list(range(n)) + [n]]
    for i in range(n):
        r += [[i], [j for j in range(n) if j != i], [i] + list(range(n)), list(range(n)) + [i]]
    return r
