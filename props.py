"""The properties, and the symbolic-execution jobs which decide each of them.

A job is (entry, parameters): one run of the engine over every input of that harness entry with the
structural parameters fixed. `need` lists the (entry, point) pairs which some path must reach, so
that no check passes vacuously. mkmeta.py writes properties.jsonl and MANIFEST.json from this file.
"""
import itertools


class Spec:
    def __init__(self):
        self.jobs, self.need, self.bounds, self.knowns = [], [], [], []

    def add(self, entry, *ranges):
        """Adds one job for every combination of the given parameter ranges."""
        rs = [r if isinstance(r, (list, tuple, range)) else [r] for r in ranges]
        self.jobs += [(entry, list(c)) for c in itertools.product(*rs)]

    def reach(self, entry, *points):
        self.need += [(entry, p) for p in points]

    def known(self, entry, params, code):
        """A job which shows a listed finding: a violation with this code (see known-findings.txt)."""
        self.knowns.append((entry, params, code))

    def bound(self, text):
        self.bounds.append(text)


PROPS = {}
CODES = {
    1: "the text reads back as something else",
    2: "the text cannot be read back",
    "panic": "the code panicked",
}
COMMON = [
    "the compiled module is what rustc 1.99.1 emits for the release profile (opt-level 1, overflow checks on); allocation never fails",
    "trusted: kse's model of LLVM IR and of the intrinsics, z3 4.8.12, the harness oracles",
]


class Prop:
    def __init__(self, pid, title, statement, over, quant, why, files, mech, observe, plan, note, assumes=(), technique=None):
        self.pid, self.title, self.statement, self.over, self.quant = pid, title, statement, over, quant
        self.why, self.files, self.mech, self.observe, self.plan, self.note = why, files, mech, observe, plan, note
        self.assumes = list(assumes) + COMMON
        self.technique = technique or "symbolic execution of the compiled code (LLVM IR) with an SMT solver; models replayed natively"
        PROPS[pid] = self

    def jobs(self, tier):
        s = Spec()
        self.plan(s, tier == "thorough")
        return s


TREES = "trees built by the harness generator: every structural decision is an input; leaf contents are fixed representatives"

# ------------------------------------------------------------------ writing and reading


def plan(s, deep):
    s.add("fmt_tree", 0, 1, 0, range(1, 9))
    s.add("fmt_tree", 0, 1, 0, 9, [1, 2])
    s.add("fmt_tree", 1, 2, 0, range(1, 6))
    s.add("fmt_tree", 2, 2, 0, range(1, 5))
    s.add("fmt_tree", 3, 1, 0, [1, 2, 3], [1, 2])
    s.add("fmt_tree", 3, 1, 0, 4, 1)
    s.add("fmt_tree", 4, 1)
    s.add("fmt_tree", 4, 2, 0, [1, 2, 3])
    s.add("fmt_tree", 5, 2, 0, range(1, 5))
    s.add("fmt_tree", 6, 4, 0, range(1, 5))
    s.add("fmt_tree", 7, 3)
    s.add("fmt_tree", 8, 2)
    s.add("fmt_tree", [9, 10, 11, 12, 13], 1)
    s.add("fmt_tree", 12, 2, 0, [1, 2, 3])
    s.add("fmt_tree", 15, 1, 0, range(1, 5))
    s.add("fmt_tree", 16, 8)
    s.add("fmt_tree", 17, 2, 0, range(1, 5))
    s.add("fmt_tree", 18, [3, 4], 0, range(1, 17))
    s.add("fmt_tree", 19, 2, 0, range(1, 17))
    s.add("fmt_tree", 20, 5)
    if deep:
        s.add("fmt_tree", [10, 11], 2, 0, range(2, 6))
        s.add("fmt_tree", 0, 1, 0, 9, 3)
        s.add("fmt_tree", 2, 3, 0, range(1, 5))
        s.add("fmt_tree", 12, 2, 0, 4)
        s.add("fmt_tree", 4, 2, 0, 4)
        s.add("fmt_tree", 8, 3, 0, range(1, 4), [1, 2], range(1, 4))
        s.add("fmt_tree", 7, 4)
        s.add("fmt_tree", 3, 1, 0, 4, 2)
        s.add("fmt_tree", 1, 3, 0, range(2, 6), 1, range(1, 6))
        s.add("fmt_tree", 6, 5, 0, range(1, 5), 1, range(1, 5))
    s.reach("fmt_tree", 1, 2)
    s.bound("trees of depth at most 4 and at most 2 children per collection (one family: twelve or thirteen; one: 300; one: chains of depth 8 which repeat two kinds of collection) and full trees, of depth 4 with 2 children and of depth 2 with 9, which repeat two kinds in seventeen families (every leaf kind with and without names; nested collections; collections, also long ones, as map keys; empty collections), all 32 combinations of the name flags, width limit absent or any 16-bit value")


Prop("P01", "Formatted data reads back as the same data",
     "Writing any value as text and reading that text gives the same structure, contents and field names, together with every name the configuration displays, whatever mix of nested collections, whatever the width limit and whichever names are displayed. "
     "A unit, an empty tuple and an empty container share one written form and may come back as one another; a hidden name comes back as no name, and names are words of ASCII letters, digits, '_' and '-' other than true and false.",
     ["inputs", "configurations"], "every value (nested units, booleans, numbers, strings, byte arrays, tuples, containers, sequences and maps) under every formatting configuration",
     "tests format a few dozen fixed values with a handful of configurations; the layouts chosen depend on every combination of nesting, names and width limit",
     ["src/fmt/mod.rs", "src/fmt/solver.rs", "src/fmt/cntr.rs", "src/fmt/maps.rs", "src/fmt/seqs.rs", "src/fmt/tuples.rs", "src/parse/mod.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/heuristics.rs"],
     [("layout choice by width", "src/fmt/solver.rs"), ("inline, concise and verbose writers", "src/fmt/{cntr,maps,seqs,tuples}.rs"), ("grammar of each layout", "src/parse/{cntr,map,list}.rs"), ("telling the layouts apart", "src/parse/heuristics.rs")],
     ["text returned by formatting with a configuration", "value returned by parsing that text"], plan,
     "every tree of the families within the bounds, every configuration and every width limit; leaf contents are representatives (P03-P05 and P11 vary them)", [TREES])


def plan(s, deep):
    s.add("fmt_req", 1, 1, 2)
    s.add("fmt_req", 2, 1, 2)
    s.add("fmt_req", 2, 2, 1, range(1, 5))
    s.add("fmt_req", 4, 1, 1, range(1, 5))
    s.add("fmt_req", 5, 1, 2)
    s.add("fmt_req", [9, 11, 12, 13], 1, 1)
    s.add("fmt_req", 7, 2, 1)
    s.add("fmt_req", 8, 2, 1)
    s.add("fmt_req", 16, 3, 2, range(1, 17))
    s.add("fmt_req", 16, [4, 5], 1)
    s.add("fmt_req", 17, 1, 1)
    s.add("fmt_req", 18, 2, 1)
    s.add("fmt_req", 20, 4, 1, range(1, 17))
    s.add("fmt_req", 18, 3, 1, [2, 6, 14])
    s.add("fmt_req", 6, 3, 1, range(1, 5))
    s.add("fmt_req", 1, 2, 1, range(1, 6), 1)
    s.add("fmt_req", 0, 1, 1, range(1, 9))
    s.add("fmt_req", 0, 1, 1, 9, [1, 2])
    if deep:
        s.add("fmt_req", 7, 2, 2)
        s.add("fmt_req", 1, 2, 1, range(1, 6), 2)
        s.add("fmt_req", 5, 1, 3, range(1, 5))
        s.add("fmt_req", 8, 2, 2, range(1, 4))
        s.add("fmt_req", 6, 3, 2, range(1, 5))
        s.add("fmt_req", 0, 1, 1, 9, 3)
    s.reach("fmt_req", 1, 3, 4)
    s.bound("histories: optionally one configuration with any width limit, then up to 2 requests (inline, concise, verbose, show name, hide name) on any node index or one past the end, over trees of depth at most 2 with at most 2 children per collection and chains of depth 3 (one request: 5), and full trees with two children of depth 2 (some: 3) for one request")


Prop("P02", "Explicit layout requests never corrupt the text, and refusals change nothing",
     "After any history of layout and name-display requests on a value, the written text reads back as that value with exactly the names set to be displayed. "
     "A refused request leaves every node's settings as they were; an accepted one sets the requested node, changes another node only to make a descendant no more spread out than the request, and no node is ever more spread out than its parent. "
     "A request is refused exactly when the node does not exist, or when it would be more spread out than its parent or than its kind and place allow: values without elements stay on one line, and tuples, map keys, and sequences and maps other than a container's fields are at most bracketed over lines.",
     ["histories", "inputs"], "every sequence of requests on every node of every value, starting from the default or from any applied configuration",
     "tests issue a few requests on fixed values and compare the text; nothing explores request order, refused requests or what they do to other nodes",
     ["src/fmt/formatter.rs", "src/fmt/mod.rs"],
     [("request handling and its cascade to descendants", "src/fmt/formatter.rs"), ("limits on what each node may become", "src/fmt/formatter.rs")],
     ["result of each request", "settings of every node", "written text and the value parsed from it"], plan,
     "every request history of the stated length on every tree of the families", [TREES])
CODES.update({
    10: "the number of settings differs from the number of nodes", 11: "a node is more spread out than its parent",
    12: "a refused request changed something", 13: "a request which must be accepted was refused",
    14: "a request on a missing node was accepted", 15: "an accepted request set something else", 16: "a request was refused or accepted against the rules",
})


def plan(s, deep):
    pos = range(0, 10)
    s.add("fmt_str", [0, 1], pos, [0, 1, 9], 0)
    s.add("fmt_str", 2, pos, [0, 1], 0)
    s.add("fmt_str", [0, 1], pos, [0, 1], [1, 2])
    s.add("fmt_str", 3, pos, [0, 1], 0)
    s.add("fmt_str", [0, 1, 2], pos, [0, 1], [5, 6])
    s.add("fmt_str", [0, 1], pos, [0, 1], [7, 8])
    s.add("fmt_str", 1, [0, 1, 4, 5, 7], [0, 1], [3, 4])
    s.add("fmt_str", 1, pos, [0, 1], [12, 40])
    if deep:
        s.add("fmt_str", 4, [0, 3], 0, 0)
        s.add("fmt_str", 2, pos, [0, 1], [1, 2])
    s.reach("fmt_str", 1)
    s.bound("every ASCII string of length up to 2 in ten positions (alone, in each collection, as map key and value, in a container field's list or map) on one line and spread out, length 3 likewise; a two-, three- or four-byte character followed by up to one ASCII character; a run of twenty delimiter characters with two arbitrary ASCII characters in it; all 32 ASCII punctuation characters except any one of them, and the first few of them, followed by an arbitrary ASCII character; a long line and 16 texts which look like other notation, with an arbitrary character put in or next to them; texts of 349 and 1161 characters, any of the first, middle and last of which is arbitrary")


Prop("P03", "Strings of any content survive being written and read",
     "A string value holding any characters at all, including quotes, line breaks, backslashes and every delimiter, comes back unchanged when the value containing it is written as text and that text is read, in every position a string can take and in every layout.",
     ["inputs", "configurations"], "every string content, in every position (top level, element, field, map key, map value), in every layout",
     "tests round-trip a few hand-picked strings; the writer picks a delimiter by scanning the content and the reader guesses the kind of text from its first line, so the failing contents are specific",
     ["src/fmt/prims.rs", "src/parse/prims.rs", "src/parse/heuristics.rs"],
     [("choice of string delimiter", "src/fmt/prims.rs"), ("string grammar", "src/parse/prims.rs"), ("guess of the layout from the first line", "src/parse/heuristics.rs")],
     ["formatted text", "parsed value"], plan, "all contents within the bounds, byte for byte")


def plan(s, deep):
    s.add("fmt_barr", [0, 1, 2], range(0, 10), [0, 1])
    s.add("fmt_barr", 1, range(0, 10), [0, 1], [5, 16, 40])
    s.add("fmt_barr", 1, range(0, 10), [0, 1], [130, 300, 1100])
    s.add("fmt_barr", 3, [0, 2] if not deep else range(0, 10), [0, 1])
    if deep:
        s.add("fmt_barr", 4, [0, 1], [0, 1])
        s.add("fmt_barr", 2, [0, 5], 0, 12)
    s.reach("fmt_barr", 1)
    s.bound("every byte array of length up to 2 in ten positions on one line and spread out, length 3 in two positions; arrays of 6, 17 and 41 bytes of which any one is arbitrary, and of 131, 301 and 1101 bytes of which the first, middle or next to last is")


Prop("P04", "Byte arrays of any content survive being written and read",
     "A byte array holding any bytes comes back unchanged, with the same length, when the value containing it is written as text and that text is read, in every position it can take and in every layout.",
     ["inputs", "configurations"], "every byte array content and length, in every position and layout",
     "tests cover a few fixed arrays; the encoding packs bits across byte boundaries, so errors show only for some contents and lengths",
     ["src/fmt/prims.rs", "src/parse/prims.rs"], [("base-91 writing", "src/fmt/prims.rs"), ("base-91 reading", "src/parse/prims.rs")],
     ["formatted text", "parsed value"], plan, "all contents within the bounds")


def plan(s, deep):
    s.add("fmt_names", [1, 2], range(0, 14), [0, 1], 0)
    s.add("fmt_names", 1, range(0, 14), [0, 1], range(1, 12))
    s.add("fmt_names", 3, range(0, 14), [0, 1] if deep else 1, 0)
    if deep:
        s.add("fmt_names", 2, range(0, 14), [0, 1], range(1, 11))
        s.add("fmt_names", 5, range(0, 14), 1, 0)
    s.reach("fmt_names", 1)
    s.bound("every name of length 1 to 3 over letters, digits, '_' and '-', and eleven beginnings (true, false, str, b91, inf, NaN, e1, _, x- and names of 46 and 270 characters) followed by one such character, as the name of every kind of value and as a field name, on one line and spread out, all names displayed")


Prop("P05", "Names and field names survive being written and read",
     "Any name made of ASCII letters, digits, '_' and '-' that does not start with a digit or '-' and is not the word true or false comes back unchanged from text in which it is displayed, whether it names a value of any kind or a field of a container, also when it begins like a number, boolean, string or byte-array literal.",
     ["inputs", "configurations"], "every such name, on every kind of value and field position, in every layout",
     "tests use a few ordinary names; names that look like the start of a literal are told apart by guesses over the text that follows",
     ["src/parse/names.rs", "src/parse/heuristics.rs", "src/parse/prims.rs", "src/parse/cntr.rs", "src/fmt/mod.rs"],
     [("name grammar", "src/parse/names.rs"), ("telling names from literals", "src/parse/heuristics.rs")],
     ["formatted text", "parsed value"], plan, "all names within the bounds")


def plan(s, deep):
    s.add("fmt_width", 0, 1, 0, range(1, 9))
    s.add("fmt_width", 0, 1, 0, 9, [1, 2])
    s.add("fmt_width", 1, 2, 0, range(1, 6))
    s.add("fmt_width", 2, 2, 0, range(1, 5))
    s.add("fmt_width", 3, 1, 0, [1, 2, 3], [1, 2])
    s.add("fmt_width", 3, 1, 0, 4, 1)
    s.add("fmt_width", 5, 2, 0, range(1, 5))
    s.add("fmt_width", 6, 3)
    s.add("fmt_width", 4, 1)
    s.add("fmt_width", [9, 10, 11, 13, 14, 15], 1)
    s.add("fmt_width", 16, 8)
    s.add("fmt_width", 17, 2)
    s.add("fmt_width", 18, 4)
    s.add("fmt_width", 19, 2)
    s.add("fmt_width", 20, 5)
    if deep:
        s.add("fmt_width", [10, 11], 2, 0, range(2, 6))
        s.add("fmt_width", 0, 1, 0, 9, 3)
        s.add("fmt_width", 3, 1, 0, 4, 2)
        s.add("fmt_width", 2, 3, 0, range(1, 5))
        s.add("fmt_width", 6, 4, 0, range(1, 5))
        s.add("fmt_width", 4, 2, 0, [1, 2, 3])
    s.reach("fmt_width", 1, 2)
    s.bound("trees of depth at most 3 with at most 2 children per collection in sixteen families, one with long collections as keys, one with twelve or thirteen children, one with 300, one with names outside ASCII and one of chains of depth 8, and full trees of depth 4 with 2 children and of depth 2 with 9, all 32 combinations of the name flags, any 16-bit width limit")


Prop("P06", "The width limit alone decides whether text is split over lines",
     "Without a width limit a value is written on one line. "
     "With a limit, a non-empty collection stays on that same one line exactly when the line is no wider than the limit, and is split over several lines otherwise, whichever names are displayed. "
     "This is for data whose strings contain no quotes and no characters that need escaping.",
     ["inputs", "configurations"], "every value, every width limit and every combination of name-display flags",
     "tests compare a few texts at a few limits; being one column out only shows at the exact width of the particular line",
     ["src/fmt/solver.rs"], [("width estimation of each kind of value", "src/fmt/solver.rs"), ("choice of layout", "src/fmt/solver.rs")],
     ["formatted text without a limit", "formatted text with a limit"], plan, "all trees of the families, all limits", [TREES])
CODES.update({20: "several lines without a limit", 21: "split although the line fits", 22: "the one line differs from the unlimited one", 23: "not split although the line does not fit"})

# ------------------------------------------------------------------ numbers


def plan(s, deep):
    s.add("num_int_text", [0, 1], range(0, 7), range(0, 16))
    s.add("num_float_text", range(0, 9), range(0, 8))
    s.add("num_digits", range(0, 8), range(0, 4), [0, 1])
    s.add("num_digits", [0, 1, 4, 5, 6, 7], 4, 1)
    s.add("num_decimals", range(0, 4), range(0, 4), range(2, 8))
    if deep:
        s.add("num_digits", [2, 3], 4, 1)
        s.add("num_digits", range(0, 8), 5, 0)
        s.add("num_decimals", 4, [0, 1, 2], range(0, 10))
        s.add("num_decimals", range(0, 4), range(0, 4), [0, 1, 8, 9])
    s.reach("num_int_text", 1)
    s.reach("num_float_text", 1)
    s.reach("num_digits", 1, 2, 3, 4)
    s.reach("num_decimals", 1)
    s.bound("written numbers: any byte of each of 7 unsigned and 7 signed 128-bit patterns and of 9 floating-point patterns taken as arbitrary; read texts: up to 3 arbitrary digits or '_' (4 in most cases) after each of 8 leading parts, including ones next to the largest and smallest integers; up to 3 digits before and 3 after the point with exponents -3 to 2")


Prop("P11", "Numbers survive being written and read, and digits mean their value",
     "Writing any number, on its own or as a document, and reading it gives a number of the same value, with infinities and NaN kept. "
     "Reading a run of digits gives exactly the integer it spells, with underscores only separating, and is refused when that integer does not fit in 128 bits; digits with a decimal point or exponent give the nearest floating-point number.",
     ["inputs"], "every number of each kind, and every text spelling a number",
     "tests cover a few dozen literals; the branch between kinds of number, rounding and overflow go wrong only for particular values",
     ["src/ds/num.rs", "src/parse/prims.rs", "src/fmt/prims.rs"],
     [("number parsing", "src/ds/num.rs"), ("number grammar", "src/parse/prims.rs"), ("number writing", "src/ds/num.rs and src/fmt/prims.rs")],
     ["text of a number", "number read from a text", "value parsed from a document"], plan,
     "all values of the varied byte of each pattern, all texts of the varied digits", ["the standard library's float parser and printer are executed symbolically, not modelled"])
CODES.update({
    50: "a written number reads back as another number", 51: "a written number cannot be read back",
    52: "a number written as a document reads back as another", 53: "a number written as a document is read as something else",
    54: "a text without digits was read as a number", 55: "digits were read as another number", 56: "a text which is no number, or does not fit, was read",
    57: "a well-formed number was refused", 58: "digits in a document were read as another number", 59: "a well-formed number in a document was refused",
})


def plan(s, deep):
    for a, b in itertools.product(range(3), range(3)):
        if {a, b} == {1, 2}:
            s.add("num_cmp", a, b, range(1, 5))
        else:
            s.add("num_cmp", a, b)
        s.add("num_hash", a, b)
    s.add("num_prim", [0, 1], range(0, 12))
    s.add("num_prim", 2, range(0, 10))
    s.add("num_prim", 0, 12)
    if deep:
        s.add("num_prim", 1, 12)
        s.add("num_prim", 2, range(10, 13))
    s.add("num_single", range(0, 5), range(0, 3))
    s.reach("num_cmp", 1, 2)
    s.reach("num_hash", 1, 2)
    s.reach("num_prim", 1)
    s.reach("num_single", 1)
    s.bound("none on the numbers: every pair of 128-bit unsigned, 128-bit signed and 64-bit floating-point numbers, including NaNs, infinities and both zeroes, and every primitive integer and double against every number; single-precision numbers with 8 arbitrary bits in 5 patterns")


Prop("P12", "Numbers compare and hash by value whatever their kind",
     "Two numbers are equal, ordered and partially ordered exactly as their positions on the number line, whether each is unsigned, signed or floating point, with NaN equal to itself and above everything, and no rounding in between. "
     "Equal numbers hash equally, comparing a number with a primitive agrees with this, and making a number from a primitive keeps its value and kind.",
     ["inputs", "pairs of inputs"], "every pair of numbers of every pair of kinds, and every primitive against every number",
     "there are 2^256 pairs; the mistakes sit at 2^53, 2^63, 2^127, 2^128, negative zero and NaN",
     ["src/ds/num.rs"], [("comparison across kinds", "src/ds/num.rs"), ("hashing", "src/ds/num.rs"), ("comparison with primitives", "src/ds/num.rs")],
     ["results of comparison, equality and hashing", "number made from a primitive"], plan,
     "complete: the two numbers are unconstrained bit vectors decided by the solver")
CODES.update({
    30: "two numbers are ordered against the number line", 31: "equality disagrees with the number line", 32: "partial order disagrees with the order",
    33: "the order is not antisymmetric", 34: "< or >= disagrees with the order", 35: "equal numbers hash differently",
    36: "a number made from a primitive has another value or kind", 37: "equality with a primitive is wrong", 38: "order against a primitive is wrong",
})


def plan(s, deep):
    s.add("num_conv", [0, 1])
    s.add("num_conv", 2, [0, 1])
    s.reach("num_conv", 1, 2, 3, 4, 10)
    s.bound("none on the numbers: every 128-bit unsigned, 128-bit signed and 64-bit floating-point number")


Prop("P13", "Numbers convert to integers and floats only without changing value",
     "Asking a number for an unsigned or signed 128-bit integer gives exactly its value when it is whole and fits, or lies within the documented closeness of a whole number, and an error otherwise; infinities and NaN are never integers. "
     "Asking for a float gives the nearest one, and the identical one when it is a float.",
     ["inputs"], "every number of every kind", "tests try a few values; truncation and saturation go unnoticed except at sign and range boundaries",
     ["src/ds/num.rs"], [("conversion to integers and floats", "src/ds/num.rs")], ["result of each conversion"], plan,
     "complete: the number is an unconstrained bit vector decided by the solver")
CODES.update({
    40: "an integer does not give itself", 41: "a conversion is refused or allowed wrongly", 42: "a conversion changed the value", 43: "conversion to a float is wrong",
    44: "a whole float gives a wrong unsigned integer", 45: "a whole float gives a wrong signed integer", 46: "a float too large for any integer was converted",
    47: "a float was converted to an integer which is not next to it", 48: "a float far from any integer was converted", 49: "a float with a large fractional part was converted",
})

# ------------------------------------------------------------------ values


def plan(s, deep):
    s.add("val_pairs", range(0, 11), 11, 1, 1)
    s.add("val_pairs", [2, 3], 4, 1, 1)
    s.add("val_pairs", [5, 6], 11, 3, 1)
    s.add("val_pairs", range(7, 11), 11, 1, 2)
    s.add("val_pairs", [7, 8, 9, 10], [7, 8, 9, 10], 2, 1)
    s.add("val_pairs", [7, 8], [7, 8, 9], 2, 2)
    s.add("val_triples", 11, 11, 11, 1)
    s.add("val_triples", range(7, 11), 11, 11, 2) if deep else s.add("val_triples", [7, 9], [7, 8, 9], [7, 9], 2)
    if deep:
        s.add("val_pairs", [7, 8, 9, 10], range(5, 11), 2, 2)
        s.add("val_triples", 11, 11, 11, 2)
    s.reach("val_pairs", 1, 2, 3)
    s.add("val_long", range(0, 6), 9, [8, 9])
    s.add("val_long", range(0, 6), [12, 17], 17)
    s.add("val_long", [0, 1], 33, [32, 33])
    s.add("val_long", range(0, 6), 300, [299, 300])
    s.reach("val_long", 1, 2)
    s.reach("val_triples", 1)
    s.bound("pairs: every kind against every kind with one child per collection and depth up to 2, two children at depth 1 and for tuples and sequences also at depth 2; strings and byte arrays up to 3 bytes; numbers from one byte; triples of any kinds with one child; two long values of one kind (8 to 33 elements) which differ in one arbitrary byte each at any place, or 299 and 300 elements with the first, middle or last arbitrary. Contents are arbitrary bytes, names fixed and different")


Prop("P14", "Equality and order of data are by content and consistent",
     "Equality and order of values ignore names, follow content within one kind of value (numbers by value, strings and byte arrays bytewise, collections element by element and then by length), and treat an empty tuple and an empty container as one value. "
     "Across all kinds the order is total, antisymmetric and transitive and agrees with equality and partial order.",
     ["pairs of inputs", "triples of inputs"], "every two and every three values of any kinds", "maps keyed by values depend on these laws; tests compare a few pairs only",
     ["src/ds/val.rs", "src/ds/kserd.rs", "src/ds/num.rs"], [("equality and order of values", "src/ds"), ("ordering between kinds", "src/ds/val.rs")],
     ["results of comparison and equality"], plan, "all contents within the bounds")
CODES.update({
    60: "the order is not antisymmetric", 61: "equality disagrees with the order", 62: "partial order disagrees with the order", 63: "comparing contents differs from comparing values",
    64: "two values are ordered against their content", 65: "values of different kinds are equal", 66: "the order is not transitive", 67: "equality is not transitive",
})


def plan(s, deep):
    s.add("own_trees", 0, 1)
    s.add("own_trees", [1, 2, 4, 5], 2)
    s.add("own_trees", [6, 7, 8], 3)
    s.add("own_trees", 3, 1)
    s.add("own_trees", [9, 12, 13, 15], 1)
    s.add("own_trees", 14, 2)
    s.add("own_trees", 16, 8)
    s.add("own_trees", 17, [2, 3])
    s.add("own_trees", 18, [3, 4])
    s.add("own_trees", 19, 2)
    s.add("own_vals", range(0, 11), 1, 1, [1, 2, 3])
    s.add("own_long", range(0, 6), [9, 17, 33, 300])
    s.add("own_trees", [10, 11], 2)
    s.add("own_vals", range(0, 11), 3, 1)
    s.add("own_vals", range(7, 11), 2, 2)
    if deep:
        s.add("own_trees", 6, 5)
        s.add("own_trees", 2, 3, 0, range(1, 5))
        s.add("own_trees", 3, 2, 0, [1, 2, 3], [1, 2])
    s.reach("own_trees", 1)
    s.reach("own_vals", 1)
    s.reach("own_long", 1)
    s.bound("trees of depth at most 3 in thirteen families with and without names, also 300 children and chains of depth 8, and full trees of depth 4 with 2 children and of depth 2 with 9; names of any up to 2 ASCII characters; values of every kind with arbitrary contents, up to 3 bytes or children, depth up to 2; values of 9 to 33 elements, any one of them arbitrary, and of 300")


Prop("P15", "Copying, borrowing and taking ownership change nothing",
     "Cloning a value, borrowing a copy of it and turning either into an owned one keeps its structure, its kinds of number, every byte of its contents, every field name and the presence and text of every name.",
     ["inputs"], "every value", "tests borrow and own a few values; a dropped name or reordered field in one branch of the recursion goes unseen",
     ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"], [("recursion over each kind of collection", "src/ds/val.rs"), ("strings and byte arrays", "src/ds/kstr.rs and src/ds/barr.rs")],
     ["the copies, compared field by field"], plan, "all trees of the families; all contents within the bounds")
CODES.update({70: "a clone differs", 71: "a borrowed copy differs", 72: "an owned copy differs"})


def plan(s, deep):
    s.add("val_names", range(0, 5), 0, [0, 1])
    s.add("val_names", [0, 1, 2], [1, 2], [0, 1])
    s.add("val_names", [1, 2], [3, 20], [0, 1])
    if deep:
        s.add("val_names", [5, 6], 0, [0, 1])
        s.add("val_names", 3, [1, 2], [0, 1])
    s.reach("val_names", 1, 2, 3, 4)
    s.bound("every ASCII name of length up to 4, and a two-byte character before or after up to 2 ASCII characters, and names of 48 or 320 bytes whose last one or two are arbitrary; containers of one or two fields")


Prop("P16", "Names are accepted exactly when allowed and kept as given",
     "A value's name is refused exactly when it contains a bracket, brace, parenthesis, angle bracket, space, comma, dot, slash, backslash or equals sign; "
     "a field name is refused exactly when it is empty, starts with an ASCII digit or contains a space, slash, backslash, double quote, tab or apostrophe. "
     "Accepted names are kept unchanged and refusals describe themselves.",
     ["inputs"], "every string as a name or field name", "tests try one name per forbidden character", ["src/ds/kserd.rs", "src/ds/val.rs"],
     [("name validation", "src/ds/kserd.rs"), ("field name validation", "src/ds/val.rs")], ["acceptance or refusal", "the stored name"], plan, "all names within the bounds")
CODES.update({
    80: "a forbidden name was accepted", 81: "a name was changed", 82: "an allowed name was refused", 83: "a refusal has no description",
    84: "a forbidden field name was accepted", 85: "an accepted field is missing or has another name", 86: "an allowed field name was refused",
})


def plan(s, deep):
    s.add("val_access", range(0, 11), [1, 2, 3] if deep else [1, 2])
    s.add("val_fields", range(0, 11))
    s.reach("val_access", 1)
    s.reach("val_fields", 1)
    s.bound("every kind of value with arbitrary contents, up to 2 bytes or children, at the top and as a container's field")


Prop("P17", "Accessors answer for their own kind and edits take effect",
     "Asking a value, or a named field of a container, for its content as some kind gives that content when it is of that kind and nothing otherwise, for every kind and also through the editable accessors; a missing field gives nothing. "
     "Merely asking changes nothing, and an edit through an editable accessor changes that content, leaving the name and other fields alone.",
     ["inputs", "operations"], "every kind of value, every accessor", "there are about fifty kind and accessor combinations with few tests on the ones which must give nothing",
     ["src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"], [("accessors", "src/ds/val.rs"), ("accessors of fields", "src/ds/mod.rs")],
     ["accessor results before and after an edit"], plan, "all contents within the bounds")
CODES.update({
    90: "an accessor answers for another kind or not for its own", 91: "an accessor gives other content", 92: "a character is given wrongly", 93: "an editable accessor answers for another kind or not for its own",
    94: "asking for an editable view changed the value", 95: "an edit did not take effect", 96: "an edit changed something else", 97: "a missing field gave something",
})


def plan(s, deep):
    n = 9 if deep else 5
    s.add("val_held", range(0, n), range(0, n))
    s.add("val_held", [0, 1, 2], [0, 1, 2], [1, 12])
    s.reach("val_held", 1, 2)
    s.bound("every two ASCII strings of lengths up to 4 (thorough: 8), or up to 2 after a common beginning of 26 or 312 bytes, and the same bytes as byte arrays")


Prop("P18", "Strings and byte arrays behave by content however they are held",
     "A string or byte array compares, hashes and displays by its content alone, whether it borrows or owns it; cloning and taking ownership keep the content. "
     "Editing one copies first when it borrows, so that the original is untouched.",
     ["pairs of inputs"], "every two strings or byte arrays, borrowed or owned", "tests compare a few literals, mostly held the same way",
     ["src/ds/kstr.rs", "src/ds/barr.rs"], [("comparison and hashing", "src/ds/kstr.rs and src/ds/barr.rs"), ("copy on edit", "src/ds/kstr.rs and src/ds/barr.rs")],
     ["comparison, hash, text and edited content"], plan, "all contents within the bounds")
CODES.update({
    100: "a string's content is not what it was made from", 101: "strings are ordered wrongly", 102: "strings are equal wrongly", 103: "equal strings hash differently", 104: "editing a string went wrong",
    105: "a byte array's content is not what it was made from", 106: "byte arrays are ordered wrongly", 107: "byte arrays are equal wrongly", 108: "equal byte arrays hash differently", 109: "editing a byte array went wrong",
})


def plan(s, deep):
    s.add("nav_ok", 0, 1)
    s.add("nav_ok", [1, 2, 4, 5], 2)
    s.add("nav_ok", [6, 7, 8], 3)
    s.add("nav_ok", 3, 1)
    s.add("nav_ok", [9, 12, 13, 14, 15], 1)
    s.add("nav_ok", 16, 10)
    s.add("nav_ok", 17, [1, 2, 3])
    s.add("nav_ok", 18, range(2, 6))
    s.add("nav_ok", 19, 2)
    s.add("nav_ok", 20, [5, 6])
    s.add("nav_ok", 11, 2)
    s.add("nav_ok", 10, 2, 0, range(2, 6))
    s.add("nav_keys", [1, 2, 3])
    if deep:
        s.add("nav_keys", 4)
        s.add("nav_ok", 6, 5)
        s.add("nav_ok", 2, 3, 0, range(1, 5))
        s.add("nav_ok", 1, 3, 0, range(2, 6), 1, range(1, 6))
    s.reach("nav_ok", 1, 2, 3)
    s.reach("nav_keys", 1, 2, 3)
    s.bound("trees of depth at most 3 with at most 2 children per collection in eleven families, twelve, thirteen or 300 children, and chains of depth 10, full trees of depth 5 with 2 children and of depth 2 with 9; maps with up to 3 keys, each an arbitrary 128-bit number or ASCII character")


Prop("P19", "Navigation agrees with the structure of the data",
     "Navigating a value numbers its nodes from the root in depth-first order with each map key before its value. "
     "For every node the parent, position in the parent, key flag, key and value children, field names, kind and both descendant lists (depth-first; and level by level with a node's keys before its values) are those of the structure itself. "
     "Iterators count what is left of them, and two nodes are equal exactly when they are the same place.",
     ["inputs"], "every value and every node in it", "tests navigate a few fixed values; mixtures of nested maps and other collections go wrong differently",
     ["src/nav/navigator.rs", "src/nav/node.rs", "src/nav/value.rs"], [("construction of the node table", "src/nav/navigator.rs"), ("children and descendants", "src/nav/node.rs"), ("iterators of children", "src/nav/value.rs")],
     ["every query on every node"], plan, "all trees of the families; all orders of map keys", [TREES])
CODES.update({
    121: "nodes are equal wrongly",
    110: "the number of nodes is wrong", 111: "a node is not the one at that place", 112: "the nodes are visited in another order", 113: "a parent is wrong", 114: "a key flag is wrong",
    115: "a position in the parent is wrong", 116: "value children are wrong", 117: "key children are wrong", 118: "depth-first descendants are wrong", 119: "level-by-level descendants are wrong", 120: "the view of a node's value is wrong",
})

# ------------------------------------------------------------------ reading

TEXTS = "texts are short, or fixed documents with one arbitrary place; bytes outside ASCII come as two-byte characters and as a few longer ones"
SKIP = "values holding a number above 99 or a fraction other than the documents' own are read but not written again here (P11 writes every number)"
BOUNDS_TEXT = ("every ASCII text of length up to 2 between each of 16 beginnings and 8 endings, and 4 beginnings of hundreds of characters or lines and 3 endings, and of length 3 after {} of the beginnings; "
               "28 documents covering the grammar, some with characters outside ASCII, with one arbitrary ASCII character replacing, inserted or ending the text at every place, any two-byte character and six longer characters inserted at every place")


def texts(s, mode, deep, three, afters):
    s.add("par_free", mode, range(0, 3), range(0, 16), afters)
    s.add("par_free", mode, 3, range(0, 16) if deep else three, [0, 1] if deep else 0)
    s.add("par_free", mode, [1, 2], range(16, 20), [a for a in afters if a < 3])
    s.add("par_poke", mode, range(0, 28), 1, range(0, 4))
    s.add("par_wide", mode, range(0, 28))
    if deep:
        s.add("par_poke", mode, [d for d in range(0, 24) if d != 12], 2, range(0, 3))
    s.reach("par_free", 1, 2)
    s.reach("par_poke", 1, 2)
    s.reach("par_wide", 1, 2)


def plan(s, deep):
    texts(s, 0, deep, [0, 1, 2, 4, 6, 7], range(0, 8))
    s.bound(BOUNDS_TEXT.format("6"))


Prop("P07", "Reading any text gives a value or an error, never a crash",
     "Reading any text whatsoever ends with a value or an error, without a panic or overflow. "
     "A value so read can be written as text, and an error has at least one trace and can be displayed and turned into a backtrace.",
     ["inputs"], "every text", "a panic in the reader on malformed input takes the caller down; tests read well formed texts and a handful of malformed ones",
     ["src/parse/mod.rs", "src/parse/heuristics.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/names.rs", "src/parse/prims.rs", "src/parse/err.rs"],
     [("the grammar", "src/parse"), ("errors and backtraces", "src/parse/err.rs")], ["the value or the error", "the error's text and backtrace"], plan,
     "every text within the bounds", [TEXTS, SKIP])
CODES[160] = "an error is empty or has no text"


def plan(s, deep):
    texts(s, 1, deep, [0, 4], [0, 1, 2, 3])
    s.reach("par_free", 3)
    s.reach("par_poke", 3)
    s.reach("par_wide", 3)
    s.known("par_odd_names", [1], 162)
    s.bound(BOUNDS_TEXT.format("2").replace("8 endings", "4 endings"))
    s.bound("written again with any width limit and any choice of displayed names")


Prop("P08", "Whatever is read can be written and read again unchanged",
     "If a text reads as a value then writing that value under any configuration and reading the result gives the same value, apart from names the configuration does not display.",
     ["inputs", "configurations"], "every text which reads as a value", "hand-written texts reach values which the usual constructors and tests never make, such as odd strings, names and nestings",
     ["src/parse/mod.rs", "src/parse/heuristics.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/names.rs", "src/parse/prims.rs", "src/fmt/mod.rs"],
     [("reading", "src/parse"), ("writing", "src/fmt")], ["the value read first", "the value read from its text"], plan, "every text within the bounds", [TEXTS, SKIP])
CODES.update({161: "the text of what was read reads as something else", 162: "the text of what was read cannot be read"})


def plan(s, deep):
    s.add("par_layout", [0, 3], 0, [0, 1])
    s.add("par_layout", 0, 1, [0, 1], range(6, 10), range(1, 3))
    s.add("par_layout", [1, 2, 4, 5, 6, 7], 1, [0, 1, 10, 11])
    s.add("par_layout", [0, 1, 2, 5, 7, 8], 1, [2, 3, 12, 13])
    s.add("par_layout", [6, 7], 2, [0, 10])
    s.add("par_layout", [2, 6, 7], 2, [2, 3, 12, 22])
    s.add("par_layout", 8, 2, 3)
    s.add("par_layout", 16, [3, 4], [0, 1, 2, 3, 12, 22])
    s.add("par_layout", 16, 5, [2, 12, 22])
    s.add("par_layout", 16, 6, 4)
    s.add("par_layout", 20, [3, 4], [2, 3, 12])
    s.add("par_layout", 20, 3, 0)
    s.add("par_layout", 20, [4, 5], [4, 5])
    s.add("par_layout", 18, 2, [2, 3, 4, 5, 12])
    s.add("par_layout", [13, 17], 1, [0, 2])
    if deep:
        s.add("par_layout", [2, 8], 2, [0, 2, 10, 12, 22], range(1, 5))
        s.add("par_layout", [1, 5], 2, [0, 1, 2, 3, 10, 11, 12, 13])
        s.add("par_layout", 0, 1, [0, 1, 10], range(6, 10), 3)
        s.add("par_layout", 3, 1, [0, 2], range(1, 5))
    s.reach("par_layout", 1, 2)
    s.bound("trees of depth at most 2 with at most 2 children in nine families, chains of depth 6 with or without another child after each, twelve or thirteen children and long collections as keys, written by an independent writer in every mixture of one-line, bracketed multi-line and indented layouts with LF or CRLF; at every place where blanks may stand, up to two spaces or tabs, or blank lines, are put in, one place at a time; the first number or string in the tree has arbitrary content")


Prop("P09", "Spaces, tabs and line breaks between parts do not change what is read",
     "The same data written on one line, in brackets over several lines, or spread out with indentation, with any spaces or tabs around its parts, blank lines between its fields and bracketed items, tab or four-space indents and Unix or Windows line ends, always reads as that data.",
     ["inputs", "layouts"], "every value and every layout of it the format describes", "tests read hand-picked spacings; the writer itself only ever produces one spacing",
     ["src/parse/mod.rs", "src/parse/heuristics.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs"],
     [("blank handling in each layout", "src/parse"), ("telling the layouts apart", "src/parse/heuristics.rs")], ["the value read from the text"], plan,
     "all trees of the families, all layouts, one varied place at a time", [TREES])
CODES.update({170: "a layout reads as something else", 171: "a layout cannot be read"})


def plan(s, deep):
    texts(s, 2, deep, [0, 1, 6], range(0, 8))
    s.reach("par_free", 3, 4)
    s.reach("par_poke", 3, 4)
    s.bound(BOUNDS_TEXT.format("3"))


Prop("P10", "Read errors point into the text and describe what is there",
     "Every trace of a read error gives a line of the text counted from one, that line itself, and a byte column on it or on its line break; where it names the character found, that character stands there and is not the expected one. "
     "Traces run from inner to outer parts, each starting no later than the one before, and the backtrace lists them in order with a marker under each column.",
     ["inputs"], "every text which is refused", "positions depend on line ends, characters of several bytes and the end of the text; tests look at a few errors",
     ["src/parse/err.rs", "src/parse/mod.rs"], [("positions of traces", "src/parse/err.rs"), ("contexts of the grammar", "src/parse")], ["traces and backtrace of the error"], plan,
     "every text within the bounds", [TEXTS])
CODES.update({
    163: "an error's traces are inconsistent", 164: "a trace's line is not a line of the text", 165: "a trace quotes another line", 166: "a trace's column is outside its line",
    167: "a trace names a character which is not there", 168: "an outer trace starts after an inner one", 169: "the backtrace does not list the traces",
})

# ------------------------------------------------------------------ encoding and decoding

TYPES = "66 Rust types stand for all: primitives, options, tuples, arrays, lists, maps, unit, newtype, tuple and field structs, enums of every kind of variant, untagged, tagged, flattened, renamed and defaulted forms, nested in each other"


def plan(s, deep):
    s.add("ser_round", range(0, 71), 0)
    s.add("ser_numbers", range(0, 11))
    s.add("ser_wide", [8, 9], 0, range(0, 8), range(0, 3))
    s.known("ser_variant_keys", [0, 0], 138)
    s.reach("ser_round", 1)
    s.reach("ser_numbers", 1)
    s.bound("71 types with arbitrary contents: numbers of 8 bits inside structures (one arbitrary byte of a 64-bit one in two of them) and full width on their own, texts and lists up to length 2 or of 300, maps up to 2 entries or of 300")


Prop("P20", "Encoding a Rust value and decoding it gives the value back",
     "Encoding a value of a serializable type and decoding the data, or a borrowed copy of it, as that type gives an equal value, for numbers of every width, options, tuples, lists, maps, structs and enums of every form, however nested.",
     ["inputs"], "every value of every serializable type", "tests encode and decode a few values of a few types; nestings of options, unit structs and variants interact",
     ["src/encode/encoder.rs", "src/encode/decoder.rs", "src/encode/mod.rs"], [("encoding of each form", "src/encode/encoder.rs"), ("decoding of each form", "src/encode/decoder.rs")],
     ["the decoded value"], plan, "all contents of the listed types within the bounds", [TYPES])
CODES.update({130: "a value cannot be encoded", 138: "a map keyed by variants loses entries", 131: "the decoded value differs", 132: "encoded data cannot be decoded", 133: "a borrowed copy decodes to another value", 134: "a borrowed copy cannot be decoded"})


def plan(s, deep):
    s.add("ser_round", range(0, 71), 1)
    s.add("ser_wide", [0, 1], 1, 0, [0, 2])
    s.add("ser_wide", [0, 1], 1, 8, 2)
    s.add("ser_wide", range(2, 8), 1, 0, 0)
    s.reach("ser_wide", 1)
    s.reach("ser_round", 1)
    s.bound("71 types; numbers from -5 to 9 (single bytes on their own in full; every integer type with one arbitrary byte in a fixed pattern), texts and lists up to length 2 or of 300, maps up to 2 entries or of 300; any width limit and any display of names of primitives, sequences and maps, with names of tuples and containers displayed")


Prop("P21", "Encoded data decodes the same after being written and read as text",
     "Encoding a value of a serializable type, writing the data as text with the names of tuples and containers displayed, reading the text and decoding it as that type gives an equal value, whatever the width limit and whichever other names are displayed.",
     ["inputs", "configurations"], "every value of every serializable type, every configuration displaying names of tuples and containers", "text merges the written forms of units, empty tuples and empty containers, and only some type and layout combinations show it",
     ["src/encode/encoder.rs", "src/encode/decoder.rs", "src/fmt/mod.rs", "src/parse/mod.rs"], [("decoding what text cannot distinguish", "src/encode/decoder.rs"), ("writing and reading", "src/fmt and src/parse")],
     ["the decoded value"], plan, "all contents of the listed types within the bounds", [TYPES])
CODES.update({135: "the value decoded from text differs", 136: "data read from text cannot be decoded", 137: "the text of encoded data cannot be read"})


def plan(s, deep):
    s.add("ser_fits", [0, 1, 2], range(0, 12))
    s.add("ser_any_number", [0, 1, 2])
    s.add("ser_any_tree", [0, 3], 1)
    s.add("ser_any_tree", [1, 2, 4, 5, 6, 7, 8, 11, 12], 2)
    s.add("ser_any_tree", [9, 10, 14, 15, 17], 1)
    s.add("ser_any_tree", 18, [3, 4])
    s.add("ser_any_tree", 19, 2)
    s.add("ser_any_value", range(0, 12), 2, [1, 2])
    s.add("ser_wrong_tree", [1, 2, 5, 7], 2)
    s.add("ser_wrong_tree", [0, 4, 6, 8], 1)
    s.add("ser_wrong_value", [0, 1, 2, 3, 5, 6, 7, 8, 9, 10], 2, 1, 0, range(1, 9))
    s.add("ser_wrong_value", 4, 1, 1, 0, [1, 8])
    s.add("ser_borrowed", range(0, 4))
    s.add("ser_like", range(0, 4), range(0, 4))
    if deep:
        s.add("ser_wrong_tree", 3, 1)
        s.add("ser_wrong_tree", [4, 6, 8], 2)
        s.add("ser_any_tree", [2, 6], 3)
        s.add("ser_like", range(0, 4), 4)
    for e in ("ser_fits", "ser_wrong_value"):
        s.reach(e, 1, 2)
    s.reach("ser_like", 1, 3)
    for e in ("ser_any_number", "ser_any_tree", "ser_any_value", "ser_wrong_tree", "ser_borrowed"):
        s.reach(e, 1)
    s.bound("every 128-bit number and every float as each of 12 numeric types; trees of depth at most 2 in nine families and values of every kind with arbitrary contents, with names used by enum variants and options, decoded generically and as 24 types; collections of up to 3 numbers, booleans, units and options under twelve names, which must hold, when decoded as each of nine types, just what was decoded; strings up to length 3")


Prop("P22", "Decoding gives the data's own value or an error, never another value",
     "A number decodes as an integer type exactly when it is a whole number that type can hold, and then as that number; any number decodes as a float. "
     "Generic decoding shows exactly the data's structure and contents, and decoding as a fixed type fails with a description when the kind of value, the number of elements or the variant name does not match it. "
     "Borrowed text and bytes are available only from borrowed data and are that very data.",
     ["inputs"], "every value decoded as every type", "an overflowing or mistyped number decoded silently as something else corrupts data; tests decode a few matching values",
     ["src/encode/decoder.rs", "src/encode/mod.rs"], [("range checks", "src/encode/decoder.rs"), ("generic decoding", "src/encode/decoder.rs"), ("variants", "src/encode/decoder.rs")],
     ["the decoded value or error"], plan, "all numbers; all contents and trees within the bounds", [TREES])
CODES.update({
    140: "a number decoded as a type which cannot hold it", 141: "a number decoded as another number", 142: "a number which fits was refused", 139: "what was decoded is not what the data holds", 143: "generic decoding shows something else",
    144: "generic decoding failed", 145: "a decoding error has no description", 146: "data decoded as a type it does not match, or was refused as one it matches", 147: "data decoded as a variant of another name",
    148: "borrowed content is not the data's own", 149: "owned data was lent",
})


def plan(s, deep):
    s.add("tok_single", range(0, 26))
    s.add("tok_tuples", range(1, 13))
    s.add("tok_arrays", range(1, 33))
    s.add("tok_decodes", range(0, 8))
    for e in ("tok_single", "tok_tuples", "tok_arrays", "tok_decodes"):
        s.reach(e, 1)
    s.bound("every value of the number types, booleans, two-byte and ASCII characters; texts up to 3 characters and of 301, lists up to 3 elements and of 300, tuples of 1 to 12 and arrays of 1 to 32 elements with arbitrary contents")


Prop("P23", "Converting standard types gives data with their contents, order and type names",
     "Converting a number, boolean, character, text, unit, option, result, box, list, array or tuple gives data of the matching kind holding exactly its contents in order, named after its type (tuples and units unnamed, options and boxes as their content, an absent option as None), recursively. "
     "Such data decodes back to the value converted, and borrowed text stays borrowed.",
     ["inputs"], "every value of the standard types with a conversion", "there are over sixty implementations generated from lists of names and indices with a test for a few",
     ["src/to_kserd.rs", "src/ds/num.rs"], [("conversions", "src/to_kserd.rs")], ["the data converted to"], plan, "all contents within the bounds")
CODES.update({150: "a conversion gives other data", 151: "a conversion failed", 152: "borrowed text was not kept as it was", 153: "converted data does not decode to the value"})

# ------------------------------------------------------------------ forms


def plan(s, deep):
    s.add("form_text", 0, 1, 0, range(1, 9))
    s.add("form_text", 0, 1, 0, 9, [1, 2])
    s.add("form_text", 1, 2, 0, range(1, 6))
    s.add("form_text", 2, 2, 0, range(1, 5))
    s.add("form_text", 3, 1, 0, [1, 2, 3], [1, 2])
    s.add("form_text", 3, 1, 0, 4, 1)
    s.add("form_text", 4, 1)
    s.add("form_text", 4, 2, 0, [1, 2, 3])
    s.add("form_text", 5, 2, 0, range(1, 5))
    s.add("form_text", 6, 4)
    s.add("form_text", [7, 8], 2)
    s.add("form_text", [9, 10, 11, 12, 13, 14], 1)
    s.add("form_text", 15, 1, 0, range(1, 5))
    s.add("form_text", 16, 8)
    s.add("form_text", 17, 2, 0, range(1, 5))
    s.add("form_text", 18, [3, 4])
    s.add("form_text", 19, 2)
    s.add("form_text", 20, 5)
    s.add("form_text", 12, 2, 0, range(1, 5))
    s.add("form_req", [1, 5, 11], 1, 2)
    s.add("form_req", [1, 2, 7, 8, 11], 2, 1)
    s.add("form_req", 6, 4, 1)
    s.add("form_req", 14, 1, 2)
    if deep:
        s.add("form_text", 0, 1, 0, 9, 3)
        s.add("form_text", [10, 11], 2, 0, range(2, 6))
        s.add("form_text", 8, 3, 0, range(1, 4), [1, 2], range(1, 4))
        s.add("form_text", 6, 5, 0, range(1, 5), 1, range(1, 5))
        s.add("form_text", 4, 2, 0, 4)
        s.add("form_text", 3, 1, 0, 4, 2)
        s.add("form_req", 4, 2, 1)
        s.add("form_req", [7, 8], 2, 2)
        s.add("form_req", [9, 12], 1, 2)
    s.reach("form_text", 1, 2)
    s.reach("form_req", 1, 2)
    s.bound("trees of depth at most 2 (4 in one family) with at most 2 children (4, 13 or 300 in some families, chains of depth 8 in another) in seventeen families, and full trees of depth 4 with 2 children and of depth 2 with 9, one with names outside ASCII, one with long collections as keys, under any configuration or after any one or two requests; the first number in the tree is any digit")


Prop("P24", "Written text has the documented form for each layout",
     "Given the layout and name display of every node, the text is exactly that form: on one line name(a, b), name (f = a), name [a, b] and name { k: v } with <name> before primitives; bracketed with each element on its own line four columns in from where the value begins and the closing bracket back at that column. "
     "Spread out, a container is a :name line and one line per field, with each container field, list element and map entry under its own header, [field:name] or [[field:name]], and nested content four columns further in.",
     ["inputs", "configurations", "histories"], "every value under every configuration and after every history of layout requests", "tests compare a few whole texts; indentation, names in headers and blank lines differ in every combination of layouts",
     ["src/fmt/mod.rs", "src/fmt/cntr.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs", "src/fmt/tuples.rs", "src/fmt/prims.rs"],
     [("writing of each layout", "src/fmt"), ("indentation", "src/fmt/mod.rs")], ["the text"], plan,
     "all trees of the families, all configurations", [TREES, "the expected text comes from an independent writer in the harness given the settings of each node; texts of byte arrays and floats are those written on their own (P04, P11)"])
CODES.update({180: "the settings do not match the nodes", 181: "the text has another form"})


def plan(s, deep):
    s.add("form_enc", range(0, 34))
    s.add("form_enc", 12, 300)
    s.add("form_enc", 18, [1, 2, 40])
    s.add("form_single", range(0, 5), range(0, 4))
    s.reach("form_enc", 1)
    s.reach("form_single", 1)
    s.bound("every number of each type (single-precision ones with one arbitrary byte in five patterns), ASCII and two-byte characters, texts and bytes up to 3, lists up to 3, maps up to 2, lists, maps, texts and bytes of 300, thirteen values inside fourteen others, every form of struct and variant, names which are not allowed, messages ending in any two ASCII characters")


Prop("P25", "Encoding gives data of the documented kind, contents and names",
     "Encoding gives: numbers, booleans, characters, texts and bytes as primitives named after their type; structs and variants with named fields as containers, and every other struct, variant and option as a tuple, named after the struct or variant (None, Some); lists, plain tuples, arrays and maps as unnamed lists, tuples and maps; each holding exactly the contents in order. "
     "A name which is not allowed, a map value without a key, and a failure of the type itself are refused with an error which says so, wherever they occur.",
     ["inputs"], "every value of every serializable type", "round trips hide a consistent mistake in both directions; tests look at the data of a few values",
     ["src/encode/encoder.rs", "src/encode/mod.rs"], [("encoding of each form", "src/encode/encoder.rs")], ["the data encoded to, or the error"], plan, "all contents within the bounds")
CODES.update({200: "encoding gives other data", 201: "a value cannot be encoded", 202: "something which must be refused was encoded", 203: "the error does not say what is wrong"})


def plan(s, deep):
    s.add("form_made", range(0, 10))
    s.reach("form_made", 1)
    s.bound("every number of each type, texts and bytes up to length 2, containers of up to 3 fields, maps of up to 2 entries with arbitrary bytes, and 300 of each")


Prop("P26", "Constructors hold exactly what they are given, under the documented names",
     "Each constructor gives data of its kind holding exactly its argument, owned or borrowed as given: named bool, String, str, barr, ByteVec or after the number's type, and unnamed for units, containers, maps and plain values. "
     "For repeated fields or keys the last one given stands.",
     ["inputs"], "every argument of every constructor", "constructors are called all over the tests but their names and ownership are checked for few",
     ["src/lib.rs", "src/ds/val.rs", "src/ds/num.rs"], [("constructors", "src/lib.rs")], ["the data constructed"], plan, "all arguments within the bounds")
CODES.update({210: "a constructor gives other data", 211: "a constructor does not keep ownership"})


def plan(s, deep):
    s.add("form_ways", [1, 5, 9, 10, 11, 12, 13, 14], 1)
    s.add("form_ways", 0, 1, 0, range(1, 9))
    s.add("form_ways", 1, 2, 0, range(1, 6), 1)
    s.add("form_ways", [2, 7], 2)
    s.add("form_ways", 17, 1)
    s.add("form_ways", 18, 3)
    if deep:
        s.add("form_ways", 1, 2, 0, range(1, 6), 2)
        s.add("form_ways", 8, 2)
        s.add("form_ways", 4, 1)
        s.add("form_ways", 6, 4)
        s.add("form_ways", 0, 1, 0, 9, [1, 2])
    s.reach("form_ways", 1)
    s.bound("trees of depth at most 2 with at most 2 children in eleven families under any configuration; text written after a text ending in any ASCII character")


Prop("P27", "Every way of writing gives the text of its configuration",
     "Displaying a value, writing it by default and writing it with the default configuration (names of tuples and containers displayed, width limit of 60) give the same text. "
     "A formatter with a configuration applied, once or again, writes the text that configuration gives, after whatever text it is handed, as often as asked.",
     ["inputs", "configurations"], "every value and configuration", "the ways are tested apart from each other on single values",
     ["src/fmt/mod.rs", "src/fmt/formatter.rs", "src/fmt/solver.rs", "src/lib.rs"], [("applying a configuration", "src/fmt/solver.rs"), ("entry points", "src/fmt/mod.rs")], ["the texts", "settings of every node"], plan,
     "all trees of the families, all configurations", [TREES])
CODES.update({190: "the default configuration is another one", 191: "the default texts differ", 192: "a formatter writes another text than its configuration", 193: "text written after other text differs", 194: "writing changes the text or the settings", 195: "applying a configuration again changes the settings"})


def plan(s, deep):
    befores = [0, 1, 2, 3, 5, 8, 9, 10, 11, 15]
    docs = [0, 1, 3, 4, 5, 6, 7, 15, 19, 21, 22, 24, 26]
    s.add("par_free", 3, range(0, 3), befores, [0, 1, 2, 3, 7])
    s.add("par_free", 3, 3, befores if deep else [0, 1, 2, 3, 5, 8], [0, 1, 2, 3] if deep else [0, 1])
    s.add("par_poke", 3, docs, [1, 2], range(0, 3))
    s.add("par_poke", 3, docs, 1, 3)
    s.add("par_wide", 3, docs)
    if deep:
        s.add("par_free", 3, 4, [0, 1, 2, 3], 0)
    s.reach("par_free", 1, 2)
    s.reach("par_poke", 1, 2)
    s.bound("any ASCII text of up to 3 characters (thorough: 4) after ten beginnings and before five ends; two arbitrary characters at any place of thirteen documents, in place of, before or instead of the rest; other characters at any place of them")


Prop("P28", "One line of text is read exactly as the notation says, or refused",
     "One line, other than a list of fields, is read exactly when it is a primitive with an optional <name>, or a bracketed value with an optional name before it whose elements are parted by single commas, fields being name = value and entries key: value, with blanks only between these parts. "
     "It then gives exactly the value its parts spell; anything else is refused.",
     ["inputs"], "every text", "tests read a few dozen texts; a character too many accepted or a part read as another is only seen with that text",
     ["src/parse/mod.rs", "src/parse/prims.rs", "src/parse/list.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/names.rs", "src/parse/wsp.rs"],
     [("reading of every kind on one line", "src/parse"), ("numbers and strings", "src/parse/prims.rs")], ["the value read, or that it is refused"], plan,
     "all texts within the bounds", ["an independent reader of one-line text in the harness gives the expected value; digits, floats and base91 text are turned into numbers and bytes by the standard library and the base91 crate"])
CODES.update({221: "a text is read as another value", 222: "something which is not in the notation was read", 223: "something in the notation was refused"})


def plan(s, deep):
    s.add("msg_tree", [0, 1, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15], 1)
    s.add("msg_tree", [1, 2, 7], 2)
    s.add("msg_contents", [0, 3, 4, 7], range(0, 4))
    s.add("msg_contents", [2, 5, 6])
    s.add("msg_contents", [0, 3], [0, 1], 40)
    s.add("msg_names", range(0, 4), [0, 2])
    s.add("msg_names", [1, 2], [0, 2], [2, 20])
    s.add("msg_requests", [0, 1, 2, 5, 9, 10, 11, 12], 1)
    s.add("msg_requests", [1, 2], 2)
    if deep:
        s.add("msg_contents", 1)
        s.add("msg_names", 4, [0, 2])
        s.add("msg_requests", 7, 2)
    s.reach("msg_tree", 1)
    s.reach("msg_contents", 1)
    s.reach("msg_names", 1)
    s.reach("msg_requests", 1, 2)
    s.bound("trees of depth at most 2 with at most 2 children; names, texts and bytes of length at most 3, and names of up to 2 characters after 32 or 320 others; numbers of one byte; one request at any node, of any kind, under any width limit")


Prop("P29", "Debug forms show all of the data; errors give a reason which is so",
     "The debug form of data and of its nodes is the usual Rust one, with every name, kind and content, the same for owned and borrowed data. "
     "The message for a name which is not allowed contains that name, and for a field name what is wrong with it. "
     "A refused layout request gives a reason which holds: the index is out of range, the parent's layout forbids it, or the most spread out layout the value allows, and the one asked for, are as given.",
     ["inputs", "configurations"], "every value, name and request", "tests compare debug forms of single values and the reasons of a few requests",
     ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs", "src/nav/node.rs", "src/fmt/formatter.rs", "src/to_kserd.rs"],
     [("debug forms", "src/ds"), ("errors", "src/fmt/formatter.rs")], ["debug text", "error value and message"], plan,
     "all trees of the families, all names within the bounds", [TREES])
CODES.update({230: "the debug form shows other data", 231: "the debug form of a node is wrong", 232: "the message does not say what is wrong with the name", 233: "the reason given for refusing a request is not so"})


def plan(s, deep):
    s.add("form_nested", [1, 5, 9, 10, 11, 13, 14], 1)
    s.add("form_nested", 16, 5)
    s.add("form_nested", 17, 2, 0, range(1, 5))
    s.add("form_nested", 18, 3, 0, range(1, 17))
    s.add("form_nested", 20, 4)
    s.add("form_nested", 0, 1, 0, range(1, 9))
    s.add("form_nested", 2, 2, 0, range(1, 5))
    s.add("form_nested", 4, 1)
    s.add("form_nested", 5, 2, 0, [1, 2, 3, 4])
    s.add("form_nested", 6, 3)
    s.add("form_nested", 7, 3, 0, [1, 2])
    s.add("form_nested", 8, 2)
    s.add("form_nested", 11, 2, 0, range(2, 6), 1)
    if deep:
        s.add("form_nested", 1, 2, 0, range(1, 6))
        s.add("form_nested", 2, 3, 0, range(1, 5), 1, range(1, 5))
        s.add("form_nested", 4, 2, 0, range(1, 5), 1, range(1, 5))
        s.add("form_nested", 6, 4, 0, range(1, 5))
        s.add("form_nested", 8, 3, 0, [1, 2], [1, 2], range(1, 4))
        s.add("form_nested", 0, 1, 0, 9, [1, 2])
        s.add("form_nested", 17, 3, 0, range(1, 5), 1, range(1, 5))
    s.reach("form_nested", 1, 2, 3)
    s.bound("trees of depth at most 3 (thorough: 4) with at most 2 children in twelve families (one with names outside ASCII, one of chains of depth 5, one with long collections as keys, one of full trees of depth 3), all 32 combinations of the name flags, every 16-bit width limit")


Prop("P30", "Nested values are split exactly when their line would be too wide",
     "With a width limit, a collection in brackets, or in containers which are all spread out, is itself split exactly when on one line, from where it begins, it would pass the limit, and a container which is split is spread out only when brackets, with all it holds in brackets too, would be wider than the limit. "
     "With a limit of zero every value is as spread out as its kind, its place and what it is in allow. This is for data whose strings need no escaping.",
     ["inputs", "configurations"], "every value under every configuration", "tests compare a few whole texts at a few widths; an off-by-one in one column is only seen at that very width",
     ["src/fmt/solver.rs", "src/fmt/formatter.rs"], [("widths of nested values", "src/fmt/solver.rs"), ("columns", "src/fmt/solver.rs")], ["layout settings of every node"], plan,
     "all trees of the families, all configurations and limits", [TREES, "columns and widths come from the independent writer of the harness, which is compared with the written text by P24; values in brackets inside spread-out containers, and spread-out containers in lists, are placed by an approximation which existing tests fix, so what they contain is outside the statement"])
CODES.update({24: "a nested value is on one line which is too wide", 25: "a nested value is split although it fits", 26: "not as spread out as allowed with a limit of zero", 27: "brackets or spread out against the limit"})
