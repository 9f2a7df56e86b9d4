"""The jobs that decide each property: harness entries (see harness/src) with their parameters."""

NK = 16                      # scalar kinds, in the order of schema::KINDS
PACK = [k for k in range(13)]  # kinds that can be packed
VAR = [2, 3, 4, 5, 6, 7, 12, 15]  # varint kinds (15: enum)
STR, BYTES, ENUM = 13, 14, 15

ASSUMPTIONS = [
    'The code is executed as LLVM IR produced by rustc from the current tree (debug assertions and overflow checks on), '
    'for x86-64; the IR interpreter and Z3 are trusted, and sampled paths are cross-checked against the native executable.',
    'The hash of hash-map keys is a fixed function and memory allocation does not fail below 16 MiB (above, it does, and that is reported).',
]


def J(name, *cols):
    """One job per combination of the column values."""
    rows = [[]]
    for c in cols:
        c = list(c) if hasattr(c, '__iter__') else [c]
        rows = [r + [x] for r in rows for x in c]
    return [name + (':' + ','.join(map(str, r)) if r else '') for r in rows]


NOSTR = [k for k in range(NK) if k not in (STR, BYTES)]
WT = [0, 1, 2, 5]


def ANY(messages, wts, checks, kinds=range(NK)):
    # Multiplicities 0-3 for every kind, 4 (packed) for those that can be packed.
    return sum([J('h_any', k, range(5 if k in PACK else 4), wts, messages, checks) for k in kinds], [])


PROPS = {}

PROPS['C01'] = dict(
    quick=J('h_c01_free', 4, range(NK)) + J('h_c01_free', 5, [2, 6, STR]) + J('h_c01_rec', [4, 5])
    + J('h_c01_wide', range(7), [2, 5, 6, 12, ENUM], [9, 10, 11, 12], 0, [0, 2]) + J('h_c01_wide', range(7), [2, 5, 12], [8, 9, 10, 11, 14], 1, 0)
    + J('h_c01_wide', 3, PACK, [10, 11], [0, 1], 0) + J('h_c01_wide', [0, 1, 4], 5, [40, 120], [0, 1], 0)
    + J('h_c01_large', range(6), [STR, BYTES, 2, 12, 9]) + J('h_c01_large', 6, [STR, 6]) + J('h_c01_deep', [1, 5, 40], [2, 3])
    + J('h_c01_encode', range(10), [0, 3]) + J('h_c01_encode', [10, 11, 12, 13, 15], [0, 2]) + J('h_c01_encode', 14, range(NK))
    + J('h_c01_made', 0, range(NK), [0, 2], 0, [0, 2]) + J('h_c01_made', 1, PACK, 2, 1, [0, 1, 2]) + J('h_c01_made', 2, [2, 6, 9, 12], 1, 1, [2, 6])
    + J('h_c01_made', 3, [STR, BYTES], 2, 0, [0, 2, 4, 6, 9]),
    thorough=J('h_c01_free', [5, 6], range(NK)) + J('h_c01_rec', 6) + J('h_c01_deep', [100, 200], [3]) + J('h_c01_large', [6, 7, 8, 9], [STR, BYTES, 2, 12, 9]),
    bounds='byte strings of up to 5 free bytes (thorough: 6) against every scalar type and against self-containing messages; free varints of 8-14 bytes as tag, length, value and element; payloads of 126 to 65536 bytes (thorough: 100000) with free ends; nesting of 1 to 40 levels (thorough: 200) around 2-3 free bytes; every value of every public value type in messages of up to two levels, with field numbers and wire types that fit the tag.',
)
PROPS['C02'] = dict(
    quick=J('h_c02_free', 4, range(NK)) + J('h_c02_free', 5, [2, STR]) + J('h_c02_rec', [4, 5])
    + J('h_c02_field', 0, VAR, [1, 2, 5, 9, 10, 11], [0, 2], 0) + J('h_c02_field', 0, VAR, [1, 9, 10, 11], 0, 1)
    + J('h_c02_field', 0, [0, 1, 8, 9, 10, 11], [2, 4, 8], [0, 1]) + J('h_c02_field', 0, [13, 14], [0, 2], [2]) + J('h_c02_field', 0, [13, 14], [3], [1])
    + J('h_c02_field', 1, [0, 1, 8, 9, 10, 11], [7, 8, 9], [1]) + J('h_c02_field', 1, [2, 6, 12], [3, 4], [1])
    + J('h_c02_field', 2, 2, [1, 2, 5, 9, 10, 11], [0, 2], 0) + J('h_c02_field', 2, 2, [1, 9, 10, 11], 0, 1) + J('h_c02_field', 3, 2, [0, 4], [2])
    + J('h_c02_len', range(10), [0, 1]) + J('h_c02_many', [30, 260], [2, 13]) + J('h_c04_schema', 40, [0, 1], [1, 2], [1, 2], 0) + J('h_c04_schema', 120, 0, 2, 1, 0) + ANY([1, 5], WT, 1),
    thorough=J('h_c02_free', [5, 6], range(NK)) + J('h_c02_rec', 6) + J('h_c04_schema', 300, [0, 1], 2, 1, 0) + J('h_c04_schema', 40, [0, 1], [2, 3], 3, 0),
    bounds='byte strings of up to 5 free bytes (thorough: 6); one field of each type and wire type with a free value of up to 11 bytes followed by up to 4 free bytes; payloads of 0 to 65536 bytes; messages of up to 260 fields; schemas of 40 and 120 fields of all sorts (thorough: 300) with a free tag of 1-2 bytes and up to 2 free bytes; every type and multiplicity among neighbours with every wire type and 3-8 free bytes.',
)
PROPS['C03'] = dict(
    quick=J('h_c03', 0, range(NK), range(3), [0, 4, 7], 3) + J('h_c03', 0, [2, 13], 0, range(8), 2)
    + J('h_c03', 1, range(13), [0, 2], [0], [0, 1, 2]) + J('h_c03', 2, range(13), [1], [1], [1, 2, 3, 4, 6])
    + J('h_c03', 3, [13, 14], [1, 2], [0], range(10)) + J('h_c03_raw', range(10), [1, 3]),
    bounds='every bit pattern of every numeric type; strings and bytes of up to 3 free bytes, and of 0 to 65536 bytes with free ends; packed arrays of up to 2 free elements, and of 1 to 16384 elements with free ends; 8 field numbers from 1 to 2^29-1; single, repeated, nested, packed and untyped values.',
)
PROPS['C04'] = dict(
    quick=J('h_c04', VAR, [0, 4, 7], [1, 2, 4, 5, 6, 9, 10, 11, 12], [0, 1], 0) + J('h_c04', VAR, 0, [1, 5, 9, 10, 11], 0, 1)
    + J('h_c04', [0, 1, 8, 9, 10, 11], [0, 4, 7], [3, 4, 7, 8, 9], [0, 1])
    + J('h_c04', [13, 14], [0, 4, 7], [0, 1, 3, 4], [0, 1]) + J('h_c04_long', [0, 1], range(10)) + J('h_c04_mix', [1, 2, 3])
    + J('h_c04_schema', 40, [0, 1], [1, 2], [1, 2], 1) + J('h_c04_schema', 120, [0, 1], 2, 1, 1) + ANY([1, 3], WT, 0),
    thorough=J('h_c04', range(13), range(8), range(1, 13), [0, 1]) + J('h_c04', [13, 14], range(8), range(6), [0, 2]) + J('h_c04_mix', [4]) + J('h_c04_schema', 300, [0, 1], 2, 1, 1) + J('h_c04_schema', 40, [0, 1], [2, 3], 3, 1),
    bounds='every payload of 1-12 bytes for the varint types, 3-9 for the fixed types, up to 4 for strings and bytes (plus lengths up to 65536 with free ends); 3 field numbers; one free byte behind; messages of up to 3 fields in any order; schemas of 40 and 120 fields of all sorts (thorough: 300), parsed and made by hand, with a free tag of 1-2 bytes (thorough: 3) and up to 2 free bytes (thorough: 3); every type and multiplicity among neighbours with every wire type and 3-8 free bytes.',
)
PROPS['C05'] = dict(
    quick=J('h_c05', 0, range(NK), range(3), [0, 4, 7], 3) + J('h_c05', 0, [2, 13], 0, range(8), 2)
    + J('h_c05', 1, range(13), [0, 2], [0], [0, 1, 2]) + J('h_c05', 2, range(13), [1], [1], [1, 2, 3, 4, 6])
    + J('h_c05', 3, [13, 14], [1, 2], [0], range(10)) + J('h_c05_raw', range(10), [1, 3]) + J('h_c05_deep', [1, 3, 10], range(8)) + J('h_c05_deep', 1, [8, 9])
    + J('h_c05_number', [0, 1, 2], range(4), [1, 2, 3]) + J('h_c05_number', 3, 0, [1, 2, 3]),
    bounds='as C03, and messages nested up to 10 levels with payloads of 0 to 65536 bytes; field numbers with 1-3 free decimals at up to 3 levels.',
)
PROPS['C06'] = dict(
    quick=J('h_c06_field', 0, [1, 2, 3, 5], [1, 3], range(4)) + J('h_c06_field', range(1, 8), [1, 2, 3, 5], [0, 3], range(4)) + J('h_c06_field', 0, [1, 2], [9, 10], [3])
    + J('h_c06_concat', [2, 3], [2, 3], [2, 12, 13]) + J('h_c06_concat', 3, 3, range(12)) + J('h_c06_poor', 4, range(NK)),
    bounds='an unknown field with a free tag of 1-10 bytes, every wire type, a payload of up to 3 free bytes, between known fields; concatenations of up to 3+3 free bytes; 4 free bytes read with a poorer schema.',
)
PROPS['C07'] = dict(
    quick=J('h_c07_free', [4], range(NK)) + J('h_c07_msg', range(4)) + J('h_c07_scalar', range(NK), [1, 2]) + ANY([1, 3], [0, 1, 5], 2, NOSTR) + ANY([1, 3], [0, 1, 5], 2, [STR, BYTES]),
    bounds='byte strings of 4 free bytes cut anywhere; messages of up to 150 bytes with free values, nested or not, cut anywhere; every type and multiplicity among neighbours.',
)
PROPS['C08'] = dict(
    quick=J('h_c08', range(NK), [0, 2, 4, 5], range(8), [0, 4]) + J('h_c08', PACK, 3, range(8), [0, 4]) + J('h_c08_nested', [3, 4], range(8)) + ANY([1, 3, 5], range(8), 0) + ANY([3], WT, 3, NOSTR + [BYTES]) + ANY([3], [0, 1, 5], 3, [STR]),
    thorough=ANY(range(6), range(8), [0, 1, 3], NOSTR),
    bounds='every type, multiplicity and wire type with payloads of up to 4 free bytes, and inside nested messages with up to 4 free bytes.',
)
PROPS['C09'] = dict(
    quick=J('h_c09', range(13), range(0, 10), [0]) + J('h_c09', [0, 1, 8, 9, 10, 11], [12, 16, 17, 24], [2]) + J('h_c09', [13, 14, 15], [3], [0])
    + J('h_c09_long', range(13), [1, 2, 3, 4, 6]) + J('h_c09_two', range(13), [0, 1, 2], [0, 1]),
    bounds='every payload of up to 9 bytes for each packable type (24 for the fixed ones); arrays of 1 to 16384 elements with free ends; two arrays in one message.',
)
PROPS['C10'] = dict(
    quick=J('h_c10', range(0, 6), [0, 1]) + J('h_c10_deep', [1, 3, 10, 60], [2, 3]) + J('h_c10_deep', [130, 300], 1) + J('h_c10_sib', [2, 3], [2]) + J('h_c10_sib', 2, 3) + J('h_c10_len', range(10)) + J('h_c10_types', [2, 3], range(7), range(4), [0, 1])
    + J('h_c10_many', [130, 160, 300], range(4), 2) + J('h_c10_huge', [9, 10, 11]),
    thorough=J('h_c10_types', 4, range(7), range(4), [0, 1]) + J('h_c10', [6], [0, 1]),
    bounds='payloads of up to 5 free bytes in nested messages with neighbours; up to 60 levels with up to 3 free bytes in the core, and 300 with one; up to 3 siblings; payload lengths up to 65536; 7 nested types with every multiplicity, parsed and made by hand; 130 to 300 nested messages side by side; payloads of up to megabytes.',
)
FLOATY = [22, 26, 27, 28, 47, 56, 64, 88, 93]  # floats: solver-hard
NH = 105                     # texts with a hole, text.rs::HOLES
GAPS = [71, 69, 61]          # gaps of the texts of h_c20 (positions before, between and after the tokens)
PROPS['C11'] = dict(
    quick=J('h_c11', range(NH), 2, 0) + J('h_c11', range(NH), [1], 1) + J('h_c11', [h for h in range(NH) if h not in FLOATY], 3, 0)
    + J('h_c11_token', [0, 1, 2], [0, 1]) + J('h_c12_wide', range(4), [8, 10], 30, 1, 0, [50, 250]),
    thorough=J('h_c11', [h for h in range(NH) if h not in FLOATY], 4, 0) + J('h_c11', range(NH), [2, 3], 1) + J('h_c11_token', [0, 1, 2], [2, 3]),
    bounds='105 schema texts with a hole at a grammatical position, filled with every string of up to 3 ASCII characters (2 where floats can stand; thorough: 4) and every UTF-8 string of 1 byte (thorough: 3); numbers that are too large behind up to 250 messages.',
)
PROPS['C12'] = dict(
    quick=J('h_c12_int', range(10), 10, [1, 2, 4], [0, 1, 2]) + J('h_c12_int', range(10), [8, 16], [1, 2, 3, 4], [0, 1, 2])
    + J('h_c12_int', [0, 1], 10, [8, 12, 18, 19], 0)
    + J('h_c12_limit', [0, 1], 0, [1, 2, 3, 4]) + J('h_c12_limit', range(2, 10), [1, 2], [1, 2, 3]) + J('h_c12_lex', range(10), [1, 2, 3])
    + J('h_c12_str', range(3, 10), [1, 2], [0, 1], [0, 1], [0, 1]) + J('h_c12_str', [3], [3], [0, 1], 0, [0, 1])
    + J('h_c12_word', range(3, 10), [1, 3, 4, 5]) + J('h_c12_float', range(3, 10), range(10)) + J('h_c12_float', [3, 6, 9], [10, 11])
    + J('h_c12_zeros', range(10), [8, 16], [5, 15, 17, 23, 40], 2, [0, 1])
    + J('h_c12_wide', range(10), [8, 10, 16], [16, 20, 22, 25, 30], 1, [0, 1], 0) + J('h_c12_wide', [0, 2, 3, 7], [8, 10, 16], 22, 1, 0, [100, 250]),
    bounds='decimals of up to 4 free digits (19 for field numbers) and the last 3-4 digits around the limits; octals and hexadecimals of up to 4 digits, 2 digits after up to 40 zeros, and literals of 16 to 30 digits with free ends, in files of up to 250 messages; any 3 number characters; strings of up to 2-3 free characters and escapes; words of up to 5 characters; floats with 2 free digits in 10 forms and 3 in 2 forms; in 10 positions.',
)
PROPS['C13'] = dict(
    quick=J('h_c13', range(8), [1, 2], [0, 1], 2, [0, 1]) + J('h_c13', range(8), [1, 2, 3], [0], 3, [0, 1]) + J('h_c13', range(8), [2, 3], [1], 3, [1, 2])
    + J('h_c13', [8, 9, 11, 12], [1, 2], 0, [2, 3], [0, 1]) + J('h_c13', 10, [1, 2], 0, 3, [0, 1]) + J('h_c13', range(8, 13), [1, 2], 1, 3, 0)
    + J('h_c13', range(13), [1, 2], 0, 2, 1, [1, 2, 3]) + J('h_c13', range(13), 2, 0, 2, 0, [1, 2]) + J('h_c13', range(8, 13), 2, 1, 2, 1, [1, 2])
    + J('h_c13_deep', 5, range(5), range(6), [1, 2], 0, [2, 12]) + J('h_c13_deep', 6, [3, 5], [0, 2, 4, 6], [2, 3], [0, 1], 2) + J('h_c13_deep', 8, [7], [3, 8], [1, 2], 0, 2) + J('h_c13_deep', 4, [0, 2], [1, 4], [1, 2], 0, [102, 112]),
    thorough=J('h_c13', range(13), [2, 3], [0, 1], 4, [0, 1, 2]) + J('h_c13', range(13), [2, 3], [0, 1], 2, [1, 2], [1, 2, 3])
    + J('h_c13_deep', [5, 6], range(6), range(7), [1, 2, 3], [0, 1], [2, 12, 102, 112]) + J('h_c13_deep', 4, range(4), range(5), [1, 2, 3], 0, [3, 13, 103]) + J('h_c13_deep', 10, [6, 9], [2, 5, 10], [1, 2, 3], 0, 2),
    bounds='13 shapes of nested messages, enums, packages, files, oneofs and services, and chains of 4 to 8 nested messages (thorough: 10), with one reference, the same reference in several scopes or two references in one; names are one of 2 or 3 free letters (thorough: 4) or two of 2 free letters; references have up to 3 components, packages up to 3, relative or absolute.',
)
PROPS['C14'] = dict(
    quick=J('h_c14', range(6), 1, 0) + J('h_c14', 0, 2, 0) + J('h_c14', 0, 1, [1, 2]) + J('h_c14', 2, 1, 3) + J('h_c14', [3, 4], 1, 3) + J('h_c14', 5, 1, 1)
    + J('h_c14_num', [0, 1], [1, 2], 0) + J('h_c14_num', 1, 4, 0) + J('h_c14_num', 0, 1, 1) + J('h_c14_num', 1, [1, 2], 1) + J('h_c14_num', 0, [1, 2, 4, 11], 2)
    + J('h_c14_num', 1, [1, 4, 10, 20], 2) + J('h_c14_many', range(9), 0, [2, 5], [0, 1]) + J('h_c14_many', range(9), [3, 13, 29], 0, 0)
    + J('h_c16_pkgs', [1, 2, 3], [2, 10], [0, 1, 5, 7], [0, 1, 9]),
    thorough=J('h_c14', [0, 1, 5], 2, 0) + J('h_c14_num', 0, 4, 0) + J('h_c14_num', 0, 2, 1) + J('h_c14_many', range(9), [30, 70], 0, [0, 1]),
    bounds='6 shapes of up to 5 declarations; names of 1 free character (2 for fields), field numbers and enum values of up to 4 free decimal, 2 hexadecimal or 20 octal digits; 2 to 290 declarations of one sort (thorough: 700), one of them with a free name; up to 3 files with packages, some of them empty or without one; lookups of any name of up to 3 characters and any 64-bit number.',
)
PROPS['C15'] = dict(
    quick=J('h_c15', range(7), [2, 3], [1, 2], [0, 1]) + J('h_c15', [3, 4], 4, [1, 2], [0, 1]) + J('h_c15', range(7), 2, [1, 2], [0, 1], [1, 2, 3]) + J('h_c15', [7, 8, 9], [2, 10], 1, 0, [0, 1])
    + J('h_c15', 10, [2, 3], [2, 4, 6, 12, 30], 0, 0) + J('h_c15', 11, 2, [10, 50], [0, 1], 0),
    thorough=J('h_c15', range(7), [4, 5], [1, 2, 3], [0, 1]) + J('h_c15', range(7), 3, [1, 2, 3], [0, 1], [1, 2]),
    bounds='10 shapes of up to 6 declarations, over two files as well, siblings at the end of up to 30 nested messages, one declaration behind up to 50 others, with names that are one of 2-4 free letters or two of 2 (thorough: 5 and 3), references of up to 2 components, relative or absolute.',
)
PROPS['C16'] = dict(
    quick=J('h_c16_ctx', [2, 3], 2, [0, 1, 2]) + J('h_c16_msg', 2, 3, 4, 0, [0, 1, 2]) + J('h_c16_msg', 1, 3, 4, 3, [0, 1, 2])
    + J('h_c16_enum', [1, 2, 3], [2, 3], [0, 3]) + J('h_c16_same', [0, 1, 2]) + J('h_c16_parsed', 1, [2, 3], range(3)) + J('h_c16_parsed', 2, 2, 0)
    + J('h_c16_ctx', 2, 10, [0, 1]) + J('h_c16_ctx', 2, 11, 0) + J('h_c16_msg', 1, 10, 4, 0, [0, 1]) + J('h_c16_msg', 1, 10, 4, 3, 1) + J('h_c16_parsed', 1, 10, 0)
    + J('h_c16_pkgs', [1, 2, 3], [2, 10], [0, 1, 5, 7], [0, 1, 9]),
    thorough=J('h_c16_parsed', 2, [2, 3], range(3)),
    bounds='up to 3 insertions into a context, 2 additions to a message (1 to one with 3 fields), 3 to an enum, with names of up to 3 free letters or any identifier of up to 2 characters and free numbers; 3 shapes built by hand and parsed; up to 2 insertions into contexts that were parsed.',
)
PROPS['C17'] = dict(
    quick=J('h_c17', range(4), range(19), range(8)) + J('h_c17_word', range(3), range(4, 9)) + J('h_c21', [24, 25, 26], [0, 1]),
    bounds='4 keywords, 19 types, 8 forms of the options with up to 6 free characters and 6 option values; every word of 4-8 letters as a type; the names of the types as absolute and qualified references.',
)
PROPS['C18'] = dict(
    quick=J('h_c18', range(6), range(5), 0, 0, [0, 1], range(4)) + J('h_c18', range(6), 1, range(9), 2, 0, 2) + J('h_c18', range(6), [1, 2], range(9), 3, 4, 0)
    + J('h_c18', range(6), 0, range(9), 4, 8, 1) + J('h_c18', range(6, 14), [0, 1], 0, 0, [0, 1], [0, 1, 2]),
    bounds='14 kinds of declarations, 5 forms of option names, 9 of values, up to 8 options; names with up to 3 free characters.',
)
PROPS['C19'] = dict(
    quick=J('h_c19', range(24), 6, range(4)) + J('h_c19_stmts', range(0, 120, 7), range(6), 1, 0) + J('h_c19_stmts', range(3, 120, 11), range(6), 1, 1)
    + J('h_c19_files', range(24), [1, 2, 4], 2, [0, 1, 2]),
    thorough=J('h_c19_stmts', range(120), range(6), [1, 2], [0, 1]),
    bounds='all 24 orders of four declarations that refer to each other, 4 distributions over files and in 4 files with and without a package, every assignment of 6 letters to the names; statements of every kind in 28 of their 120 orders (thorough: all) with the package statement at each position.',
)
PROPS['C20'] = dict(
    quick=sum([J('h_c20', t, range(GAPS[t]), [1], 0, 0) + J('h_c20', t, range(0, GAPS[t], 9), 4, 0, 0) + J('h_c20', t, [7], [5], 0, 0)
               + J('h_c20', t, 0, [1, 2, 4], 0, 1) + J('h_c20', t, range(0, GAPS[t], 20), [4], 1, 0) for t in range(3)], []),
    bounds='three texts with every construct of the language (195 gaps): every separator of 1 byte in every gap, of 4 bytes in every ninth, of 5 bytes in one gap per text, and the same separator of up to 4 bytes in all gaps.',
)
PROPS['C21'] = dict(
    quick=J('h_c21', list(range(16)) + [23, 24, 25, 26], 0) + J('h_c21', range(27), 1) + J('h_c21_any', range(27), [2, 3])
    + J('h_c21_long', range(27), [17, 33, 64, 130, 260], 1) + J('h_c21_long', range(27), 40, 2),
    thorough=J('h_c21', range(27), [2, 3]) + J('h_c21_any', range(27), [4, 5]) + J('h_c21_long', range(27), [31, 32, 63, 127, 128, 129, 255, 256, 257, 999], 2),
    bounds='27 positions of names; 43 words of the language, alone and followed by any character; any identifier of 2-3 characters (thorough: 5); names of 17 to 260 characters (thorough: 999) with up to 2 free ones at the end, and lookups of names that differ in these.',
)
PROPS['C22'] = dict(
    quick=J('h_c22', [0, 1, 2], [0, 1], range(4)) + J('h_c22', [0, 1], [0, 1], 4) + J('h_c22', 3, [0, 1], range(8))
    + J('h_c22_edit', range(4)) + J('h_c22_char', [0, 1, 2], [0, 1], range(5), 1) + J('h_c22_char', 3, [0, 1], range(8), 1)
    + J('h_c22_name', [0, 1, 2], [0, 1], range(5), 1, 0) + J('h_c22_name', 3, [0, 1], range(8), 1, 0)
    + J('h_c22_name', [0, 1, 2], [0, 1], range(5), [3, 5, 6, 8], 1) + J('h_c22_name', 3, [0, 1], range(8), [3, 5, 6, 8], 1)
    + J('h_c22_name', range(3), [0, 1], range(5), 5, 2) + J('h_c22_version', range(9), [0, 1], [0, 1]),
    thorough=J('h_c22_char', [0, 1, 2], [0, 1], range(5), 2) + J('h_c22_char', 3, [0, 1], range(8), 2)
    + J('h_c22_name', [0, 1, 2], [0, 1], range(5), [4, 7, 9, 10], 1) + J('h_c22_name', 3, [0, 1], range(8), [4, 7, 9, 10], 1)
    + J('h_c22_name', range(3), [0, 1], range(5), 6, 2) + J('h_c22_name', 3, [0, 1], range(8), [5, 6], 2),
    bounds='four texts with every construct of the language (some 270 tokens): one of 35 literals, signs and statements, any ASCII character (thorough: two) and any name of 1, 3, 5, 6 or 8 characters (thorough: up to 10) before or instead of every token; any token or two left out, doubled or exchanged; texts cut at any token; any version of up to 8 characters in the syntax statement.',
)
PROPS['C23'] = dict(
    quick=J('h_c23_wire', range(9), 1, range(9), 1, [0, 1], 0) + J('h_c23_wire', range(9), 2, [1, 2, 3, 4, 6, 8], 1, [0, 1], 0) + J('h_c23_wire', range(9), 2, [5, 7], 1, 1, 0) + J('h_c23_wire', [4, 6, 8], 2, [1, 2, 4, 6, 8], 3, 1, 0) + J('h_c23_wire', [4, 6], 3, [4, 6], [2, 3], 0, 0)
    + J('h_c23_wire', 0, 1, 0, 2, [0, 1], 0) + J('h_c23_wire', range(1, 9), 1, [2, 4], 1, [0, 1], 1) + J('h_c23_wire', [2, 4, 6, 8], 1, [5, 7], 1, 0, 1)
    + J('h_c23_kinds', range(NK), [1, 2], range(NK), [1, 2], 0, 0) + J('h_c23_kinds', PACK, 1, PACK, 1, 1, 1) + J('h_c23_kinds', PACK, 1, range(NK), 2, 1, 0)
    + J('h_c23_parse', range(7), range(7), range(3)) + J('h_c23_lookup', [1, 2, 3])
    + J('h_c23_again', range(7), range(7)) + J('h_c23_worlds', range(NK), [2, 13, 15], range(3))
    + J('h_c23_orders', 0, range(1, 6), range(4), [0, 1]) + J('h_c23_orders', 4, [0, 3], range(4), [0, 1]),
    thorough=J('h_c23_wire', range(9), 2, [5, 7], 1, 0, 0) + J('h_c23_kinds', PACK, [1, 2], PACK, [1, 2], [1, 2], [0, 1]) + J('h_c23_wire', range(9), 2, range(9), 2, [0, 1], 0) + J('h_c23_wire', 0, 3, range(9), 1, [0, 1], 0) + J('h_c23_wire', range(1, 9), 2, range(1, 9), 3, 1, 0) + J('h_c23_wire', [3, 4, 6], 3, [3, 4, 6], [2, 3], 0, 0) + J('h_c23_wire', range(1, 9), 1, [2, 4, 5, 7], 1, [0, 1], 1) + J('h_c23_wire', [1, 2, 5, 7], 3, [1, 2, 5, 7], 3, [0, 1], 0) + J('h_c23_lookup', [4, 5]),
    bounds='two values of any types, single and packed with one element (thorough: two), encoded in turns; two messages of 9 forms with up to 3 free bytes, decoded and encoded in turns with two types and three contexts; two sets of files of 7 shapes with free names and numbers, parsed in turns with failing ones between; contexts that are parsed, used and dropped one after the other, with the addresses given out again; lookups of two names of up to 3 free characters (thorough: 5) and of any numbers.',
)
PROPS['C24'] = dict(
    quick=J('h_c24_wire', [0, 2], range(NK), [1, 2], 0) + J('h_c24_wire', 1, PACK, 3, [0, 1]) + J('h_c24_wire', [3, 4, 5], [STR, BYTES], 3, [0, 1]) + J('h_c24_wire', [3, 4, 5], [STR, BYTES], 40, 0)
    + J('h_c24_wire', 6, [0, 2, 8, STR], 2, 0) + J('h_c24_wire', 7, PACK, 1, 0) + J('h_c24_wire', [8, 9, 10], 2, 1, 0) + J('h_c24_wire', [0, 2], [2, 8, 12], 10, 0) + J('h_c24_wire', 1, [0, 2, 6, 8, 12], 20, 0)
    + J('h_c24_wire', [0, 2], 2, 1, 1) + J('h_c24_deep', [4, 16], [1, 2]) + J('h_c24_deep', [4, 10], [0, 1], 1) + J('h_c24_deep', 4, 1, 2) + J('h_c24_claim', [2, 5, 8, STR, BYTES], [1, 2, 3, 9], [1, 2, 3, 4, 5], [0, 2])
    + J('h_c24_parse', range(22), [8, 24], 0) + J('h_c24_parse', range(22), 8, 1) + J('h_c24_parse', range(22), 200, 0),
    thorough=J('h_c24_wire', [0, 2], range(NK), [5, 10, 20], 0) + J('h_c24_wire', 1, PACK, [20, 40], 0) + J('h_c24_wire', [3, 4, 5], [STR, BYTES], 100, 0) + J('h_c24_wire', [8, 9, 10], 2, 4, 0)
    + J('h_c24_deep', 40, [1, 2]) + J('h_c24_deep', 30, [0, 1], 1) + J('h_c24_claim', range(NK), [1, 2, 3, 4, 9], range(1, 11), [0, 3]) + J('h_c24_parse', range(22), 60, 0) + J('h_c24_parse', range(22), 8, 2) + J('h_c24_parse', range(22), 24, 1),
    bounds='messages of 100 to 4000 equal fields, elements, unknown fields, arrays or nested messages and values of 300 to 4000 bytes (thorough: 2000, 10000) against ones four times as large, with a free first byte and up to one free byte behind; nesting of 4 and 16 levels (thorough: 40) against four times as many, for decoding; every announced length of up to 5 bytes (thorough: 10); 22 shapes of schemas of 8, 24 and 200 parts (thorough: 60) against twice as many, with up to one free character (thorough: two) in it.',
)
