"""What each check explores: harness entries and their bounds.

A job is "entry p0 p1 ...".  For entries which take a generated input, p0..p3
name the family of inputs (see harness/src/gen.rs); the rest is described at
the entry.  `describe` turns a job into the sentence the evidence reports.
"""

# ---- input families -------------------------------------------------------
SIZES = ["7,8,9,15,16,17", "31,32,33,63,64,65", "127,128,129,255,256,257", "1023,1024,1025", "65535,65536,65537",
         "4095,4096,4097,8191,8192,8193", "32767,32768,32769"]
FAMILY = ["a string of ASCII letters", "a string of two-byte characters", "a string of \\n escapes",
          "a string of \\u00e9 escapes", "an integer's digits", "a fraction's digits", "blanks in an array",
          "an array of numbers", "an object of distinct keys", "an array of empty arrays",
          "an array of one-member objects", "an object's key", "line breaks before a comma",
          "an array of numbers with other members after it", "an array of values of every kind in turn", "an object of one repeated key",
          "an exponent's digits", "a string of surrogate pair escapes", "a string of four-byte characters", "a string of three-byte characters",
          "an escaped object's key", "an array of containers with trailing commas", "blanks around everything",
          "a string of plain and two-byte characters in turn", "a string of plain, escaped and multi-byte characters in turn",
          "an array of strings of many lengths", "an object of members that hold containers"]


def family(p):
    k, a, b, c = (list(p) + [0, 0, 0, 0])[:4]
    if k == 0:
        return f"every sequence of {a}..{b} bytes"
    if k == 1:
        return f"every sequence of {a}..{b} bytes drawn from [ ] {{ }} , : \" 0 and blank"
    if k == 2:
        return f"a quote, every sequence of {a}..{b} bytes, a quote, then every {c} bytes"
    if k == 3:
        return (f"a quoted {'object key' if c == 1 else 'string'} of {a}..{b} pieces, each any byte, any two bytes, "
                "a backslash and any byte, \\u and any four bytes, or two such \\u escapes"
                + (" with two arbitrary digits each" if c > 1 else ""))
    if k == 4:
        return f"every sequence of {a}..{b} bytes drawn from digits - + . e E, then every {c} bytes"
    if k == 5:
        return (f"arrays, objects or both in turn nested {a}..{b} deep, "
                + ("with trailing commas, " if c & 8 else "")
                + (f"after {c % 8} closed siblings, " if c % 8 else "closed or lacking one bracket, ") + "then any byte")
    if k == 6:
        return (f"every document of at most {b} nodes nested at most {a} deep"
                + (", any blank in every gap" if c & 1 else "") + (", with and without trailing commas" if c & 2 else "")
                + [", empty strings", ", strings of any one plain character",
                   ", strings empty, of any plain character, any short escape or any \\u00xx"][min(c >> 2, 2)])
    if k == 7:
        return f"seed document {b} with {a} arbitrary bytes overwritten or inserted at every position" + (
            ", cut off there, or removed" if c else "")
    if k == 8:
        return f"a flat {'object' if c else 'array'} of {a}..{b} elements with any digit (and any key letter) each"
    if k == 9:
        return f"{FAMILY[b]} of length {SIZES[c]} with {a} arbitrary byte(s) overwritten at the " + ("start, middle and end" if c < 3 else "middle and end")
    if k == 10:
        return f"{TWO[b]} of {a} bytes with two windows of {c} arbitrary bytes each at every pair of positions"
    if k == 11:
        return (f"{['numbers', 'empty arrays', 'escaped strings'][c]}, {b} of them, in an array inside {a} arrays, objects or both in turn, "
                "with or without more after each, one byte overwritten")
    return "?"


TWO = ["a string of letters f", "an object's key of letters f", "blanks in an array", "an integer's digits in an array",
       "a string of two-byte characters", "a string of \\n escapes", "a string of U+FFFF", "an array of numbers",
       "nested arrays", "an array of arrays"]
CONFIG = {0: "default configuration"}


def config(m):
    if m == 0:
        return "default configuration"
    w = [t for b, t in ((1, "trailing commas on/off"), (2, "scalar roots on/off"), (4, "nesting limits 0..2, 128 and none")) if m & b]
    return ", ".join(w)


# entries whose p0..p3 name an input family
GENERATED = {"c01_accept", "c02_robust", "c03_mirror", "c05_text_bytes", "verdict", "c08_limit", "c08_deep", "c09_config",
             "c06_document", "c07_heapless", "c04_decode", "c20_borrow", "c10_parsed", "c11_parsed", "c16_number",
             "c17_tokens", "c18_delegate", "c22_parse", "c24_work", "c25_same"}
ACC = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32"]


def long_text(lst, w):
    return f"one of four characters repeated {SIZES[lst]} times with {w} arbitrary bytes near the start, middle or end"


def switches(k):
    return ["", ", with and without trailing commas", ", with and without scalar roots", ", every switch"][k]


def describe(job):
    f = job.split()
    e, p = f[0], [int(x) for x in f[1:]]
    g = lambda i: p[i] if i < len(p) else 0
    s = family(p) if e in GENERATED else ""
    text = "; as text (well-formed UTF-8 only)" if g(5) == 1 else "; as bytes"
    if e in ("c02_robust", "c03_mirror", "verdict", "c09_config", "c06_document", "c07_heapless", "c20_borrow"):
        s += "; " + config(g(4)) + text
    elif e == "c01_accept":
        s += "; bytes" + (" and text entry points" if g(4) else " entry points")
    elif e == "c05_text_bytes":
        s += "; " + config(g(4))
    elif e == "c08_limit":
        s += f"; limits 0..{g(4)} and none" + switches(g(5))
    elif e == "c08_deep":
        s += "; " + {0: "default limit", 1: "no limit", 2: "strict configuration"}.get(g(4), f"limit {g(4)}") + switches(g(5))
    elif e == "c04_decode":
        s += ["; as a value", "; as a text string and token", "; as an object key"][g(4)]
    elif e == "c10_parsed":
        s += "; " + config(g(4)) + ("; every write failing in turn" if g(5) else "")
    elif e == "c11_parsed":
        s += "; " + config(g(4)) + ["", "; every write failing in turn",
                                    "; every indentation and line ending of 0..2 bytes"][g(5)]
    elif e == "c10_built":
        strings = f"strings of at most {g(2)} bytes" if g(2) < 100 else "strings being " + long_text((g(2) - 100) // 10, g(2) % 10)
        s = (f"every value built with at most {g(1)} nodes nested at most {g(0)} deep, {strings} of every origin; "
             + ["compact", "pretty", "compact with every write failing in turn", "pretty with every write failing in turn",
                "every indentation and line ending of 0..2 bytes"][g(3)])
    elif e == "c16_number":
        s += "; accessor " + ACC[g(4)]
    elif e == "c16_edge":
        s = f"number template {g(0)} (digits around a type's limit) followed by every {g(1)}..{g(2)} bytes; accessor {ACC[g(3)]}"
    elif e == "c25_same":
        s += ["; compared with itself having one byte overwritten", "; compared with " + family(p[5:9]), "; compared with itself written with other blanks and escapes",
              "; compared with the same value built from parts"][g(4)]
    elif e == "c24_work":
        s += ("; what is done with the parsed result" if g(4) & 1 else "; every way of reading it") + (", no recursion limit" if g(4) & 2 else "") + f", at most {g(5)} instructions per byte"
    elif e == "c17_tokens":
        s += "; peeking " + ["never", "once", "twice", "before every other token", "any number of times up to two"][g(4)] + text
    elif e == "c18_delegate":
        s += "; " + config(g(4)) + text + ("; every callback failing in turn" if g(6) else "")
    if e == "c07_heapless" and g(6):
        s += "; capacities 0, 16, 32, 65, 129, 257"
    if e == "c02_robust" and g(6):
        s += "; every numeric accessor"
    if e == "c18_delegate" and g(7):
        s += "; entry points without a configuration too"
    if e == "c22_parse":
        s += ("; any configuration" if g(4) else "; default configuration") + text
    elif e == "c22_string":
        s = f"every string of at most {g(0)} bytes" + ("" if g(1) == 99 else " and a JSON string: " + family(p[1:]))
    elif e == "c12_encode" and g(4) == 2:
        s = long_text(g(0), g(1))
    elif e == "c12_encode":
        s = f"every string of {g(0)}..{g(1)} bytes" + (" after a fixed prefix" if g(4) else "")
    elif e in ("c13_equality", "c14_order", "c15_hash") and g(2) == 2:
        s = f"pairs of strings of {SIZES[g(3)]} characters in every pair of representations, {g(0)} arbitrary characters near the start, middle or end of one"
    elif e in ("c13_equality", "c14_order", "c15_hash") and g(2) == 3:
        s = "pairs of strings holding one two- to four-byte character, raw or escaped, with any low bits, in every pair of representations"
    elif e in ("c13_equality", "c14_order", "c15_hash") and g(2) == 4:
        s = f"every pair of strings of at most {g(0)} and {g(1)} characters, each in several spellings (raw, short escape, \\u escape in either case), in every pair of representations"
    elif e in ("c13_equality", "c14_order", "c15_hash"):
        s = f"every pair of strings of at most {g(0)} and {g(1)} units in every pair of representations"
    elif e == "c15_anystr" and g(2) == 1:
        s = f"pairs of strings of {SIZES[g(0)]} characters, borrowed and owned"
    elif e == "c15_anystr":
        s = f"every pair of strings of at most {g(0)} and {g(1)} bytes, borrowed and owned"
    elif e == "c20_raw" and g(1):
        s = long_text(g(0), g(2))
    elif e == "c20_raw":
        s = f"every string of at most {g(0)} bytes, borrowed and owned"
    elif e == "c21_object":
        s = f"every object of at most {g(0)} members with keys of at most {g(1)} units, every key of at most {g(2)} units, every addressing form"
    elif e == "c21_array":
        s = f"every array of at most {g(0)} elements, every index, every addressing form"
    elif e == "c21_many":
        s = f"objects of {SIZES[g(0)]} members, one key of two arbitrary bytes anywhere, every two-byte key looked up"
    elif e == "c21_long":
        s = f"arrays of {SIZES[g(0)]} elements, indices around every boundary"
    elif e == "c21_collect":
        s = f"objects collected from pairs or entries and then edited, of at most {g(0)} members with keys of at most {g(1)} units"
    elif e == "c21_nested":
        s = f"nested containers and non-containers, every key of at most {g(0)} units"
    return f"{e}: {s}"


# ---- job lists ------------------------------------------------------------
def fam(entry, tail, *gens):
    return [f"{entry} {g} {tail}".strip() for g in gens]


ALL = range(27)
LONGQ = [f"9 1 {f} {c}" for c in (0, 1) for f in ALL] + [f"9 1 {f} 2" for f in (0, 1, 3, 4, 6, 7, 8, 11, 13, 14, 17)]
LONGT = [f"9 1 {f} 2" for f in (2, 5, 9, 10, 12, 15, 16, 18, 19, 20, 22, 23, 25, 26)] + [f"9 2 {f} 1" for f in ALL]
TWOSTR = ["10 17 0 2", "10 18 4 2", "10 18 5 2", "10 18 6 2", "10 35 0 1"]
TWOQ = TWOSTR + ["10 17 1 2", "10 35 2 1", "10 17 3 1", "10 14 7 1", "10 9 8 1", "10 12 9 1"]
TWOT = ["10 35 0 2", "10 17 0 3", "10 68 0 1", "10 33 1 2", "10 17 2 2", "10 14 7 2", "10 9 8 2", "10 12 9 2", "10 36 4 2", "10 36 5 2"]
LEAF = (0, 1, 2, 4, 5, 6, 11, 12, 16, 18, 19, 20, 22)
LONGK = [f"9 1 {f} 3" for f in (*LEAF, 3, 7, 8, 13, 14, 17)]
LONGM = [f"9 1 {f} 5" for f in LEAF]
LONGX = [f"9 1 {f} 4" for f in (0, 4, 6, 11)]
LONGXT = [f"9 1 {f} 3" for f in (9, 10, 15, 21)] + [f"9 1 {f} 5" for f in (3, 7, 8, 17)] + [f"9 1 {f} 6" for f in (0, 1, 2, 4, 6, 11)] + [f"9 1 {f} 4" for f in (1, 2, 3, 5, 12, 16)]
LONG0 = [f"9 1 {f} 0" for f in ALL]
SEEDS = range(10)
WIN1 = [f"7 1 {s} 1" for s in SEEDS]
WINQ = [f"7 2 {s} 1" for s in SEEDS]
WINT = [f"7 3 {s} 1" for s in SEEDS]

PROPS = {}


# instructions of the optimized IR per byte of input, about four times what
# the most costly input takes
W0, W1, W2, W3 = "0 800", "1 500", "2 800", "3 500"


def prop(pid, quick, thorough):
    PROPS[pid] = (list(dict.fromkeys(quick)), [j for j in dict.fromkeys(thorough) if j not in quick])


prop("C01",
     fam("c01_accept", "1", "0 0 6 0", "1 1 8 0", "2 0 6 0", "2 0 4 1", "3 1 2 0", "3 1 2 1", "4 1 7 0", "4 1 5 1",
         "5 126 130 0", "5 126 130 3", "6 3 5 1", "6 2 3 9", *WINQ, *LONGQ, *LONGK, *LONGM, *LONGX, *TWOQ),
     fam("c01_accept", "1", "0 7 7 0", "1 9 10 0", "2 7 8 0", "3 3 3 0", "6 4 6 0", "6 3 6 1", "6 2 4 9", *WINT, *LONGT, *LONGXT, *TWOT))
prop("C02",
     fam("c02_robust", "0 0", "0 0 4 0", "1 1 6 0", "2 0 4 0", "2 0 3 1", "3 1 1 2", "3 1 1 3", "4 1 4 1", "5 126 130 0", "6 2 2 8",
         *[f"7 2 {s} 1" for s in (0, 1, 3)], *[f"7 1 {s} 1" for s in (2, 4, 7, 8, 9)])
     + fam("c02_robust", "7 0", "0 0 2 0", "1 1 4 0", "7 1 5 1", "7 1 6 1") + fam("c02_robust", "1 0", "9 1 21 0")
     + fam("c02_robust", "0 1", "0 0 4 0", "2 0 4 0", "7 1 1 1", "3 1 1 3", "7 1 9 1")
     + fam("c02_robust", "0 0 1", "4 1 3 0", "7 1 0 1")
     + fam("c02_robust", "0 0", *LONG0, *[f"9 1 {f} 1" for f in (0, 1, 2, 3, 4, 6, 7, 8, 11, 14, 17)], "9 1 0 2", "9 1 7 2", *LONGK[:13], "9 1 7 3", "9 1 0 5", "9 1 4 5", "9 1 6 5", "10 17 0 1", "10 17 1 1", "10 18 4 1", "10 18 5 1", "10 17 3 1", "10 17 2 1", "10 9 8 1"),
     fam("c02_robust", "0 0", "0 5 5 0", "1 7 7 0", "2 5 5 0", "3 1 1 0", "3 1 1 1", "6 2 3 8", *[f"7 2 {s} 1" for s in (2, 4, 5, 6, 7, 8, 9)], *LONGT[:11], *TWOQ)
     + fam("c02_robust", "7 0", "0 3 3 0", "1 5 5 0") + fam("c02_robust", "0 1", "0 5 5 0", "3 1 1 2"))
prop("C03",
     fam("c03_mirror", "0 0", "0 0 5 0", "1 1 8 0", "2 0 5 0", "3 1 2 0", "3 1 2 1", "4 1 6 1", "5 1 20 0", "5 62 66 0", "5 126 128 0", "5 1 4 3",
         "6 3 5 1", "8 0 6 0", "8 0 6 1", *WINQ, *LONGQ, *LONGK, *LONGM, *LONGX, *TWOQ)
     + fam("c03_mirror", "7 0", "1 1 5 0", "6 2 4 3", "9 1 21 0") + fam("c03_mirror", "0 1", "0 0 5 0", "1 1 6 0", "3 1 2 0", "4 1 4 1"),
     fam("c03_mirror", "0 0", "0 6 7 0", "1 9 9 0", "6 4 6 0", "6 2 4 9", *WINT, *LONGT, *LONGXT, *TWOT) + fam("c03_mirror", "7 0", "1 6 7 0", "6 3 5 3"))
prop("C04",
     fam("c04_decode", "0", "2 0 5 0", "3 1 2 0") + fam("c04_decode", "1", "2 0 5 0", "3 1 2 0") + fam("c04_decode", "2", "2 0 4 0", "3 1 1 1")
     + fam("c04_decode", "0", *[f"9 {w} {f} {c}" for f in (0, 1, 2, 3, 17, 18, 19) for w, c in ((1, 0), (2, 0), (1, 1), (1, 2), (1, 3))], *[f"9 1 {f} 5" for f in (0, 1, 2, 18, 19)], *TWOSTR, "7 2 3 1", "7 2 9 1", "9 1 0 4", "9 1 2 4")
     + fam("c04_decode", "2", "9 1 11 0", "9 1 11 1", "9 1 20 0", "9 1 20 1", "9 1 11 3", "9 1 20 3", "9 1 11 5", "10 17 1 2"),
     fam("c04_decode", "0", "2 6 7 0", "3 3 3 0", *[f"9 2 {f} {c}" for f in (0, 1, 2, 3, 17, 18, 19) for c in (1, 2)], "10 35 0 2", "10 17 0 3", "10 68 0 1", "7 3 9 1") + fam("c04_decode", "1", "2 6 6 0"))
prop("C05",
     fam("c05_text_bytes", "0", "0 0 5 0", "1 1 7 0", "2 0 5 0", "2 0 3 1", "3 1 2 0", "3 1 2 1", "4 1 5 1", "5 126 129 0", "6 3 4 1", *WINQ,
         *[f"9 1 {f} {c}" for c in (0, 1) for f in ALL], *LONGK, *LONGM, *TWOQ, "9 1 0 4")
     + fam("c05_text_bytes", "7", "0 0 3 0", "1 1 5 0", "6 2 3 3"),
     fam("c05_text_bytes", "0", "0 6 6 0", "1 8 8 0", "2 6 6 0", "6 3 5 1", *WINT, *LONGT, *LONGXT, *TWOT) + fam("c05_text_bytes", "7", "0 4 4 0", "1 6 6 0"))
prop("C06",
     fam("c06_document", "0 0", "0 0 5 0", "1 1 6 0", "3 1 1 0", "3 1 1 1", "6 3 4 1", "6 3 5 0", "8 0 8 0", "8 0 8 1", "5 1 8 0", "5 1 4 3",
         "5 30 34 0", "5 62 66 0", "5 126 128 0", *[f"7 2 {s} 1" for s in SEEDS], *LONG0, *[f"9 1 {f} 1" for f in (0, 7, 8, 9, 11, 13, 14, 15)],
         *[f"9 1 {f} 2" for f in (7, 8, 13)], *LONGK, "10 14 7 1", "10 9 8 1", "10 12 9 1", "10 17 0 1", "10 17 1 1")
     + fam("c06_document", "7 0", "1 1 5 0", "6 2 3 3") + fam("c06_document", "0 1", "0 0 4 0", "1 1 6 0"),
     fam("c06_document", "0 0", "0 6 6 0", "1 7 8 0", "6 4 5 1", "6 3 6 0", *WINT, *[f"9 1 {f} 2" for f in (9, 10, 14, 15, 21)], "9 1 9 3", "9 1 10 3", "9 1 15 3")
     + fam("c06_document", "7 0", "1 6 6 0"))
prop("C07",
     fam("c07_heapless", "0 0", "0 0 5 0", "1 1 6 0", "3 1 1 0", "6 3 4 0", "8 3 4 0", "8 0 9 0", "8 0 9 1", "5 1 12 0", "5 1 4 3", *WIN1, "10 14 7 1", "10 12 9 1")
     + fam("c07_heapless", "7 0", "1 1 5 0") + fam("c07_heapless", "0 1", "0 0 4 0", "1 1 5 0")
     + fam("c07_heapless", "0 0 1", "5 62 66 0", "5 126 128 0", *[f"9 1 {f} {c}" for f in (7, 8, 13, 14) for c in (0, 1)], "9 1 7 2", "9 1 8 2"),
     fam("c07_heapless", "0 0", "0 6 6 0", "1 7 7 0", "6 3 5 1", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c07_heapless", "7 0", "1 6 6 0")
     + fam("c07_heapless", "0 0 1", "9 1 14 2", "9 1 13 2", "9 1 15 2"))
prop("C08",
     fam("c08_limit", "3", "0 0 4 0", "1 1 7 0", "6 3 4 0", "6 3 5 1", "5 1 5 0", "5 1 4 2", *WIN1, "10 12 9 1", "10 9 8 1")
     + fam("c08_limit", "3 1", "1 1 6 0", "6 2 4 2", "5 1 5 8", "5 1 4 10", "7 1 5 1", "7 1 6 1") + fam("c08_limit", "3 3", "1 1 5 0")
     + fam("c08_deep", "0", "5 120 131 0", "5 126 130 1", "5 126 130 3", "5 126 130 7")
     + fam("c08_deep", "0 1", "5 126 130 8", "5 126 130 9")
     + fam("c08_deep", "1", "5 126 130 0", "5 254 258 0", "5 300 301 0") + fam("c08_deep", "2", "5 126 130 0") + fam("c08_deep", "40", "5 38 43 2")
     + fam("c08_deep", "255", "5 254 257 0") + fam("c08_deep", "256", "5 255 258 0")
     + fam("c08_deep", "3", "9 1 7 0", "9 1 9 0", "9 1 10 0", "9 1 9 1", "9 1 10 1", "9 1 9 2", "9 1 10 2", "9 1 13 1", "9 1 14 1") + fam("c08_deep", "3 1", "9 1 21 0", "9 1 21 1", "9 1 21 2")
     + fam("c08_deep", "2", *[f"7 1 {s} 1" for s in (2, 7)]) + fam("c08_deep", "4", "7 1 7 1")
     + fam("verdict", "4 0", "0 0 3 0", "1 1 5 0", "6 2 3 1"),
     fam("c08_limit", "4", "0 5 6 0", "1 8 8 0", "6 4 5 0", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c08_limit", "3 1", "1 7 7 0", "6 3 4 3")
     + fam("c08_deep", "0", "5 100 140 5") + fam("c08_deep", "1", "5 1000 1001 0", "5 510 514 0") + fam("c08_deep", "511", "5 510 514 0")
     + fam("c08_deep", "3", "9 1 9 3", "9 1 10 3")
     + fam("verdict", "4 0", "1 6 6 0", "6 3 4 3"))
prop("C09",
     fam("c09_config", "7 0", "0 0 4 0", "1 1 5 0", "6 2 3 3", "6 2 4 2", "3 1 1 0", "4 1 4 0", *WIN1)
     + fam("c09_config", "3 0", "1 6 7 0", "8 0 5 0", "8 0 5 1", *LONG0, "9 1 21 1", "9 1 7 1", "9 1 8 1", "5 16 18 8", "5 62 66 8", "10 12 9 1", "10 14 7 1")
     + fam("c09_config", "7 1", "0 0 4 0", "1 1 4 0") + fam("verdict", "7 0", "1 1 4 0")
     + fam("verdict", "3 0", "6 2 3 3", "7 1 5 1", "7 1 6 1", "7 2 6 1", "9 1 21 0", "9 1 21 1"),
     fam("c09_config", "7 0", "0 5 5 0", "1 6 6 0", "6 3 4 3", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c09_config", "3 0", "1 8 8 0", "6 3 5 2", "9 1 21 2"))
prop("C10",
     fam("c10_parsed", "0 0", "0 0 5 0", "1 1 6 0", "3 1 1 0", "3 1 1 1", "4 1 4 1", "6 3 4 1", *WIN1, *LONG0,
         *[f"9 1 {f} 1" for f in (0, 7, 8, 13, 14)], "9 1 0 2", "9 1 3 2", "9 1 7 2", *TWOQ[:4], "10 17 1 1", "10 14 7 1", "10 12 9 1", *LONGK[:13], "9 1 3 3", "9 1 7 3", "9 1 8 3", "9 1 0 5", "9 1 1 5", "9 1 4 5", "5 30 34 0", "5 126 128 0")
     + fam("c10_parsed", "3 1", "6 2 3 3", "1 1 5 0")
     + ["c10_built 2 3 1 0", "c10_built 2 2 1 2", "c10_built 1 1 3 0", "c10_built 0 1 101 0", "c10_built 0 1 111 0"],
     fam("c10_parsed", "0 0", "0 6 6 0", "1 7 7 0", "6 3 5 1", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c10_parsed", "3 1", "6 2 4 3")
     + ["c10_built 3 4 1 0", "c10_built 2 3 1 2", "c10_built 0 1 121 0"])
prop("C11",
     fam("c11_parsed", "0 0", "0 0 5 0", "1 1 6 0", "6 3 4 1", "6 4 4 0", *WIN1, *LONG0,
         *[f"9 1 {f} 1" for f in (0, 7, 8, 13, 14)], "9 1 0 2", "9 1 7 2", *TWOQ[:4], "10 17 1 1", "10 14 7 1", "10 12 9 1", *LONGK[:13], "9 1 3 3", "9 1 7 3", "9 1 8 3", "9 1 0 5", "9 1 1 5", "9 1 4 5", "5 1 12 0", "5 16 18 0", "5 31 34 0", "5 63 66 0", "5 126 128 0", "5 1 4 2")
     + fam("c11_parsed", "0 1", "6 2 3 0", "1 1 5 0") + fam("c11_parsed", "0 2", "6 2 3 0", "5 8 10 0", "5 16 18 0")
     + ["c10_built 2 3 1 1", "c10_built 2 2 1 3", "c10_built 2 2 1 4", "c10_built 0 1 101 1", "c10_built 0 1 111 1"],
     fam("c11_parsed", "0 0", "0 6 6 0", "1 7 7 0", "6 3 5 1", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c11_parsed", "0 1", "6 2 4 0") + ["c10_built 3 4 1 1", "c10_built 2 3 1 3"])
prop("C12",
     ["c12_encode 0 3 0 0 0", "c12_encode 0 2 0 0 1", "c12_encode 4 4 0 0 0", "c12_encode 0 1 0 0 2", "c12_encode 1 1 0 0 2", "c12_encode 0 2 0 0 2"],
     ["c12_encode 5 5 0 0 0", "c12_encode 3 3 0 0 1", "c12_encode 2 1 0 0 2", "c12_encode 1 2 0 0 2", "c12_encode 3 1 0 0 2"])
for _p, _e in (("C13", "c13_equality"), ("C14", "c14_order")):
    prop(_p, [f"{_e} {t}" for t in ("2 2 0", "3 1 0", "1 3 0", "4 4 3", "1 0 2 0", "1 0 2 1", "1 0 2 2", "3 3 4" if _p == "C13" else "2 3 4", "3 2 4")],
         [f"{_e} {t}" for t in ("3 3 0", "2 2 1", "1 0 2 3", "2 0 2 0", "4 4 4" if _p == "C13" else "3 3 4")])
prop("C15",
     ["c15_hash 2 2 0", "c15_hash 3 1 0", "c15_hash 4 4 3", "c15_hash 1 0 2 0", "c15_hash 1 0 2 1", "c15_hash 1 0 2 2", "c15_hash 3 3 4", "c15_hash 2 3 4", "c15_anystr 3 3 0", "c15_anystr 3 0 1", "c15_anystr 0 0 1", "c15_anystr 1 0 1", "c15_anystr 5 0 1"],
     ["c15_hash 3 3 0", "c15_hash 1 0 2 3", "c15_hash 2 0 2 1", "c15_hash 4 4 4", "c15_anystr 5 5 0", "c15_anystr 2 0 1"])
# (template, accessor) pairs which take seconds; the others are thorough
_SLOW = {(13, 12), (13, 13), (14, 12), (14, 13), (16, 12), (20, 12)}
_EDGE = [(t, a) for t in range(13, 35) for a in (12, 13)]
prop("C16",
     [f"c16_number 4 1 4 1 {a}" for a in range(12)] + [f"c16_number 4 1 3 1 {a}" for a in (12, 13)]
     + [f"c16_number 0 0 4 0 {a}" for a in (0, 3, 6, 9, 11, 12)]
     + [f"c16_number 9 1 {f} 0 {a}" for f in (4, 5, 16) for a in (3, 4, 9, 10, 12, 13)] + [f"c16_number 9 1 {f} 1 {a}" for f, a in ((4, 4), (5, 12), (16, 4), (16, 12))]
     + [f"c16_edge {t} 3 5 {a}" for t, a in enumerate((3, 9, 4, 10, 2, 8, 1, 7))]
     + [f"c16_edge {t} 1 2 {a}" for t in range(8, 13) for a in (12, 13)]
     + [f"c16_edge {t} 0 0 {a}" for t, a in _EDGE if (t, a) not in _SLOW],
     [f"c16_edge {t} 0 0 {a}" for t, a in _EDGE if (t, a) in _SLOW] + ["c16_number 9 1 4 1 12", "c16_number 9 1 4 1 13"]
     + [f"c16_number 4 5 5 1 {a}" for a in range(12)] + [f"c16_edge {t} 0 2 {a}" for t in range(8) for a in range(12)]
     + [f"c16_edge {t} 0 1 {a}" for t in (21, 22, 23, 24, 27, 28, 33, 34) for a in (12, 13)])
prop("C17",
     fam("c17_tokens", "4 0", "0 0 4 0", "2 0 3 1", "4 1 4 1") + fam("c17_tokens", "3 0", "1 1 5 0", "3 1 1 2", "6 2 3 1")
     + fam("c17_tokens", "0 0", "0 5 5 0", "3 1 1 2", "3 1 1 3", "1 6 6 0") + fam("c17_tokens", "1 0", *WIN1)
     + fam("c17_tokens", "2 1", "0 0 4 0", "1 1 5 0") + fam("c17_tokens", "3 0", *LONG0)
     + fam("c17_tokens", "1 0", *[f"9 1 {f} 1" for f in (0, 1, 3, 4, 6, 7, 11, 13, 17)], *[f"9 1 {f} 2" for f in (0, 3, 6, 7)], *LONGK, *LONGM, *TWOQ, "5 126 130 0"),
     fam("c17_tokens", "4 0", "0 5 5 0", "1 1 6 0") + fam("c17_tokens", "0 0", "0 6 6 0", "1 7 7 0", "3 1 1 0", *LONGXT) + fam("c17_tokens", "1 0", *[f"7 2 {s} 1" for s in SEEDS]))
prop("C18",
     fam("c18_delegate", "0 0 1", "0 0 4 0", "6 3 4 0", "8 0 5 0", "8 0 5 1") + fam("c18_delegate", "7 0 1", "1 1 5 0")
     + fam("c18_delegate", "0 0 0", "0 0 5 0", "1 1 6 0", "3 1 1 0", "3 1 1 1", "6 3 5 0", "5 1 8 0", "5 1 4 2", "5 62 66 0", "5 126 128 0", *WIN1, *LONG0,
           *[f"9 1 {f} 1" for f in (0, 7, 8, 13, 14)], "9 1 7 2", "9 1 8 2", *LONGK, "10 14 7 1", "10 9 8 1", "10 12 9 1", "10 17 1 1")
     + fam("c18_delegate", "0 0 1 1", "0 0 3 0", "1 1 4 0", "6 2 3 0") + fam("c18_delegate", "0 1 1 1", "1 1 4 0")
     + fam("c18_delegate", "3 0 1", "6 2 3 3") + fam("c18_delegate", "0 1 1", "0 0 3 0", "1 1 5 0"),
     fam("c18_delegate", "0 0 1", "0 5 5 0", "6 3 5 0", *WIN1) + fam("c18_delegate", "7 0 1", "1 6 6 0")
     + fam("c18_delegate", "0 0 0", *[f"7 2 {s} 1" for s in SEEDS]))
prop("C19",
     fam("verdict", "0 0", "0 0 6 0", "1 1 8 0", "2 0 6 0", "2 0 4 1", "3 1 2 0", "3 1 2 1", "4 1 6 1", "5 126 130 0", "5 1 3 2", "6 3 4 1", *WINQ, *LONGQ, *LONGK, *LONGM, *LONGX, *TWOQ)
     + fam("verdict", "7 0", "0 0 4 0", "1 1 5 0", "6 2 3 3", "9 1 21 0") + fam("verdict", "0 1", "0 0 5 0", "1 1 6 0", "3 1 2 0", "7 2 1 1", "7 2 9 1"),
     fam("verdict", "0 0", "0 7 7 0", "1 9 9 0", "2 7 7 0", "3 3 3 0", *WINT, *LONGT, *LONGXT, *TWOT) + fam("verdict", "7 0", "0 5 5 0", "1 6 6 0"))
prop("C20",
     fam("c20_borrow", "0 0", "0 0 4 0", "2 0 4 0", "3 1 1 0", "3 1 1 1", "4 1 4 1", "6 2 3 9", "6 3 4 0", *WIN1,
         *[f"9 1 {f} {c}" for c in (0, 1) for f in (0, 1, 2, 3, 4, 6, 7, 8, 11, 13, 14, 17, 18, 20)], "9 1 0 2", "9 1 7 2", *LONGK, *LONGM, *LONGX, *TWOQ, "5 30 34 0", "5 126 128 0")
     + fam("c20_borrow", "0 1", "0 0 4 0", "3 1 1 0") + fam("c20_borrow", "7 0", "1 1 4 0") + ["c20_raw 4", "c20_raw 0 1 1", "c20_raw 1 1 1", "c20_raw 1 1 2", "c20_raw 2 1 1"],
     fam("c20_borrow", "0 0", "0 5 6 0", "1 6 7 0", "3 2 2 0", *[f"7 2 {s} 1" for s in SEEDS]) + ["c20_raw 5", "c20_raw 3 1 1"])
prop("C21",
     ["c21_object 2 1 1", "c21_array 3", "c21_nested 2", "c21_many 0", "c21_many 1", "c21_long 0", "c21_long 1", "c21_long 2", "c21_collect 3 1", "c21_collect 2 2"],
     ["c21_object 3 1 1", "c21_object 2 2 2", "c21_array 6", "c21_nested 3", "c21_many 2", "c21_long 3", "c21_collect 4 1", "c21_collect 3 2"])
prop("C22",
     fam("c22_parse", "0 0", "0 0 4 0", "2 0 4 0", "3 1 1 0", "3 1 1 3", "4 1 4 0", "6 3 4 0", *WIN1, *LONG0, "9 1 7 1", "9 1 8 1", "9 1 0 1", "9 1 17 1",
         "10 17 0 1", "10 17 1 1", "10 18 4 1", "10 17 2 1", "10 17 3 1", "9 1 0 3", "9 1 1 3", "9 1 4 3", "9 1 6 3", "9 1 7 3",
         "5 62 66 0", "5 126 130 0")
     + fam("c22_parse", "1 0", "1 1 4 0", "6 2 3 3") + fam("c22_parse", "0 1", "0 0 4 0", "3 1 1 0", "3 1 1 1") + ["c22_string 3 99", "c22_string 1 3 1 1 0", "c22_string 1 2 0 2 0"],
     fam("c22_parse", "0 0", "0 5 5 0", "1 1 7 0", "3 2 2 0", *[f"7 2 {s} 1" for s in SEEDS]) + fam("c22_parse", "1 0", "1 5 5 0", "6 2 4 3") + ["c22_string 4 99", "c22_string 2 3 1 2 0"])
# members of long objects and arrays are the reason for the sizes: a scan of
# all earlier members has to show among the allowance
prop("C24",
     fam("c24_work", W0, *[f"9 1 {f} 5" for f in (*LEAF, 3, 7, 8, 13, 17, 23, 24)], *[f"9 1 {f} 3" for f in (9, 10, 14, 15, 21, 25, 26)],
         "0 0 3 0", "1 1 6 0", "5 126 130 0", "10 17 0 2", "7 1 3 1", "7 1 9 1", "11 100 500 0", "11 100 500 1")
     + fam("c24_work", W2, "11 1000 1000 1", "5 1000 1000 0") + fam("c24_work", W3, "11 300 300 1", "11 300 300 2", "5 300 300 0")
     + fam("c24_work", W1, *[f"9 1 {f} 5" for f in (0, 1, 4, 5, 6, 7, 8, 11, 12, 13, 16, 22)], *[f"9 1 {f} 3" for f in (2, 3, 9, 10, 14, 15, 17, 18, 19, 20, 23, 25, 26)], "9 1 24 0",
           "5 126 128 0", "6 3 4 0", "2 0 3 0", "3 1 1 0", "11 100 500 0", "11 100 500 1", *WIN1),
     fam("c24_work", W0, *[f"9 1 {f} 5" for f in (9, 10, 14, 15, 21)], *[f"9 1 {f} 4" for f in LEAF], "0 4 4 0", "1 7 7 0", *[f"7 2 {s} 1" for s in SEEDS], "10 35 0 2")
     + fam("c24_work", W1, *[f"9 1 {f} 5" for f in (9, 10, 14, 15)], *[f"9 2 {f} 1" for f in ALL], "6 3 5 1", "3 2 2 0"))

prop("C25",
     fam("c25_same", "0", "0 1 4 0", "1 1 6 0", "6 2 3 4", "6 2 4 0", "6 3 4 0", "3 1 1 0", *WIN1, *LONG0, *[f"9 1 {f} 1" for f in (0, 1, 4, 7, 8, 11, 13, 14, 25, 26)],
         "9 1 0 2", "9 1 4 2", *[f"9 1 {f} 3" for f in (0, 4, 7, 8, 13, 14, 26)], "9 1 0 5", "9 1 4 5", "5 62 66 0", "5 126 128 0", "11 100 100 1")
     + ["c25_same 0 1 3 0 1 0 1 3 0", "c25_same 6 2 3 4 1 6 2 3 4", "c25_same 1 1 5 0 1 1 1 5 0", "c25_same 2 0 2 0 1 2 0 2 0", "c25_same 2 0 3 0 1 2 0 3 0",
        "c25_same 4 1 2 0 1 4 1 2 0", "c25_same 8 0 4 0 1 8 0 4 1", "c25_same 8 0 4 1 1 8 0 4 1", "c25_same 6 2 3 0 1 6 3 3 0"]
     + fam("c25_same", "2", "6 2 3 8", "0 1 4 0", "3 1 1 0", *WIN1, *LONG0, "9 1 7 3", "9 1 8 3", "9 1 0 3")
     + fam("c25_same", "3", "6 2 3 4", "6 2 2 8", "0 1 4 0", "3 1 1 0", *WIN1, *LONG0, "9 1 7 3", "9 1 8 3", "9 1 26 3", "9 1 0 3"),
     fam("c25_same", "0", "0 5 5 0", "1 7 7 0", "6 2 4 4", "6 4 4 0", *[f"7 2 {s} 1" for s in SEEDS], *[f"9 1 {f} 2" for f in ALL])
     + ["c25_same 6 3 4 0 1 6 3 4 0", "c25_same 0 1 4 0 1 0 1 3 0", "c25_same 1 1 6 0 1 1 1 5 0", "c25_same 2 0 4 0 1 2 0 4 0", "c25_same 4 1 3 0 1 4 1 3 0"]
     + fam("c25_same", "2", "6 2 4 4", "6 3 4 0", "0 5 5 0") + fam("c25_same", "3", "6 2 3 8", "6 3 5 0", "0 5 5 0"))

ASSUMPTIONS = [
    "the code analysed is the LLVM IR rustc 1.99.1 emits for the crate at -O1 with debug assertions and overflow checks (x86-64, fat LTO, panics end a path)",
    "nothing outside the bounds listed is claimed: longer inputs, deeper nesting and other sizes are unexplored",
    "allocation never fails; addresses of distinct allocations are unrelated",
    "floating-point arithmetic on concrete operands is the host's IEEE 754 arithmetic; on symbolic operands it is decided in z3's floating-point theory (round to nearest even)",
    "the symbolic executor's reading of LLVM IR, checked on each run by replaying explored paths on natively built code (debug and release)",
    "z3 4.8.12's verdicts; a sample of its unsat answers is repeated with cvc5 and a newer z3",
]

# what a pass means, per property (see DESIGN.md for the details)
_B = ("Holds for every input within the bounds the evidence lists per job, quick tier mainly: %s. Everything longer or deeper is outside the claim. "
      "Trusts the symbolic executor's reading of LLVM IR (explored paths are replayed on native builds each run), z3, and the reference in harness/src/spec.rs.")
_G = "windows of two arbitrary bytes anywhere in ten seed documents, two windows at every pair of positions in strings, numbers, blanks and containers of up to 35 bytes, repetitions up to 1025 (text up to 8193) units"
NOTES = {
    "C01": _B % ("all inputs of at most 6 bytes, 8 structural bytes, string bodies of 6 bytes or 2 escape pieces, 7 number characters, documents of 5 nodes, " + _G),
    "C02": _B % "all inputs of at most 4 bytes, 6 structural bytes, short strings and escapes, windows in seed documents, repetitions up to 1025, every configuration on smaller inputs",
    "C03": _B % ("all inputs of at most 5 bytes, 8 structural bytes, documents of 5 nodes, " + _G),
    "C04": _B % "string bodies of at most 5 arbitrary bytes or 2 escape pieces including every surrogate pair, windows in strings up to 8193 units, two windows at every pair of positions",
    "C05": _B % ("all well-formed UTF-8 of at most 5 bytes, 7 structural bytes, " + _G),
    "C06": _B % "all inputs of at most 5 bytes, documents of 5 nodes, every start node and skip, flat containers of 8, repetitions up to 1025",
    "C07": _B % "capacities around every node count up to 9 for inputs of at most 5 bytes, 6 structural bytes and documents of 4 nodes, capacities to 257 for longer containers",
    "C08": _B % "limits 0..3 and none on all inputs of at most 7 structural bytes and documents of 5 nodes; limits 3, 40, 128, 255, 256 and none around that depth",
    "C09": _B % "all 8 switch combinations on inputs of at most 4 bytes, 7 structural bytes, documents of 4 nodes, repetitions up to 65",
    "C10": _B % "values parsed from inputs of at most 5 bytes, documents of 4 nodes or repetitions up to 1025, values built of at most 3 nodes with strings of every origin, every failing write up to a bound",
    "C11": _B % "as C10, with every indentation and line ending of at most 2 bytes",
    "C12": _B % "all strings of at most 4 bytes, of 2 bytes after a fixed prefix, and windows in strings up to 65 units",
    "C13": _B % "all pairs of strings of 2+2, 3+1 units in all pairs of representations, 3+3 characters in several spellings, strings up to 257 units differing in a window",
    "C14": _B % "all pairs of strings of 2+2, 3+1 units in all pairs of representations, 2+3 characters in several spellings, strings up to 257 units differing in a window; a total order follows from agreement with Rust's string order",
    "C15": _B % "all pairs of strings of 2+2, 3+1 units in all pairs of representations, 3+3 characters in several spellings, strings up to 257 units; the byte stream fed to the hasher and the writes it comes in are compared, so any deterministic hasher is covered, except for the known finding",
    "C16": _B % "all number texts of at most 4 characters for all integer types (3 for floats), of 3..5 characters after prefixes at each type's limits, and an arbitrary byte in digit strings up to 65 digits",
    "C17": _B % ("all inputs of at most 5 bytes under several peeking patterns, up to two peeks at every point for 4 bytes, " + _G),
    "C18": _B % "all inputs of at most 4 bytes, 5 structural bytes, documents of 4 nodes, with each callback failing in turn; longer documents without a failure",
    "C19": _B % ("all inputs of at most 6 bytes, 8 structural bytes, string bodies of 6 bytes, " + _G + ", every configuration on smaller inputs"),
    "C20": _B % ("all inputs of at most 4 bytes, documents of 4 nodes, " + _G + "; addresses and allocation counts are observed by the executor"),
    "C21": _B % "objects of at most 2 members with keys of at most 1 unit, arrays of at most 3 elements, every addressing form and one mutation; objects up to 65 members, arrays up to 257 elements",
    "C25": _B % ("all pairs of documents of 3 nodes, of 3 arbitrary bytes, or of 5 structural ones; documents of 4 nodes and repetitions up to 1025 (text-like ones to 8193) against themselves with one byte overwritten; smaller ones respelled or built from parts; "
                 "numbers are equal when written alike"),
    "C24": _B % ("repetitions of up to 8193 units of every kind of leaf and of array and object members, 1025 of the other containers, nesting around 128, and short inputs; "
                 "the executor counts instructions (block copies by length), and the bound is about four times what the most costly input takes, so a superlinear term is seen once it exceeds that"),
    "C22": _B % "the crate built with default features, without std, and without alloc, on inputs of at most 4 bytes, documents of 4 nodes, repetitions up to 1025 and strings of 3 bytes",
}
NOT_APPLICABLE = {
    "C23": "the symbolic executor models 64-bit addresses, no 32-bit standard library is installed here, and a counterexample could not be replayed natively",
}
