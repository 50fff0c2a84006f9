"""What each check explores: harnesses and the shapes (bounds) of their inputs."""

# ---------------------------------------------------------------- shapes of texts
KEEP, DROP, EITHER = 0, 1, 2
STRIP = {0: "final newline kept", 1: "final newline dropped", 2: "final newline kept or dropped"}
CLASSES = {0: "any ASCII byte", 1: "any byte", 2: r"one of \n a b", 3: r"one of space - + \ newline @ a", 4: r"one of \n \r space a", 5: "a header character", 6: "a character with a role in file names", 7: r"one of \n a", 8: "class 8", 9: r"one of newline, space, tab, a", 10: "class 10", 11: "class 11"}
SIGNS = ["' ' - +", "' ' - + \\", "- +", "' ' -", "' ' +", "-", "+", "' '"]
KINDS = ["' ' - +", "' ' - + marker", "' ' - + marker empty CRLF", "- +", "- + marker", "' ' - + empty", "' '", "-"]
LIT = ["'--- '", "'+++ '", "'@@ -'", "' +'", "' @@'", "newline", "','", "no-newline marker", "'--- a' '+++ b'", "' fn f()' newline", "'@@ -1,2 +1,2 @@' newline", "'@@ -1 +1 @@' newline", "'@@ -1,2 +1,2 @@'", "'-a' '+b' ' c'", "git preamble", "'@@ '", "'-'", "'+'", "space", "quote", "'-a' '+b'", "tab", "'@@ -1,3 +1,3 @@' newline", "marker without newline"]


def sym(n, k=3): return (0, n, k)          # n lines, each one of k letters
def pad(n, k=0): return (1, n, k)          # n fixed distinct lines p<k>..
def raw(n, c): return (2, n, c)            # n free bytes of class c
def rep(n, k=0): return (3, n, k)          # n equal fixed lines of letter k
def copy(k): return (4, 1, k)              # segment k again
def chars(n, b): return (5, n, b)          # n free UTF-8 characters of b bytes
def digits(n): return (6, n, 0)            # n free decimal digits
def lit(k, n=1): return (7, n, k)          # fixed text
def body(n, s=0): return (8, n, s)         # n lines: free sign, free letter a/b
def multi(n, k=2): return (9, n, k)        # n lines of one two-byte character out of k
def num(n): return (10, n, 10)             # a fixed number
def nines(n): return (10, n, 9)            # n digits 9
def blank(n, k=2): return (11, n, k)       # n lines, each empty or a letter
def crlf(n, k=2): return (12, n, k)        # n lines ' x\r\n'

def fill(n, c="x"): return (15, n, ord(c)) # n times the same byte
def many(n, gap=0): return (16, n, gap)    # n fixed one-line hunks
def alt(n, k=0, j=0): return (17, n, k + 8 * j) # n fixed distinct lines, a fixed letter after each
def marks(n, k=3): return (18, n, k)       # n lines, each a letter or a conflict marker
def says(n, k=40): return (19, n, k)       # n lines, each one of k met in and around patches
def zeros(n): return (10, n, 0)            # n digits 0
def kinds(n, k=1): return (13, n, k)       # n lines of free kind, markers as whole lines
def hunk(n, k=1, gap=0, free=0): return (14, n, k + 8 * gap + 64 * free)   # a hunk of n such lines, counted in its header


def T(*segs, end=EITHER):
    return [len(segs)] + [x for s in segs for x in s] + [end]


def seg_text(t, n, k):
    if t == 0: return "%d lines each of %d letters" % (n, k)
    if t == 1: return "%d fixed distinct lines" % n
    if t == 2: return "%d bytes each %s" % (n, CLASSES.get(k, "class %d" % k))
    if t == 3: return "%d equal fixed lines" % n
    if t == 4: return "segment %d again" % k
    if t == 5 and k != 5: return "%d free %d-byte characters" % (n, k)
    if t == 6: return "%d free digits" % n
    if t == 7: return LIT[k] if n == 1 else "%d times %s" % (n, LIT[k])
    if t == 8: return "%d lines sign (%s) + a/b" % (n, SIGNS[k])
    if t == 9: return "%d lines of a 2-byte character out of %d" % (n, k)
    if t == 10: return "the number %s" % (n if k == 10 else str(k) * n)
    if t == 11: return "%d lines each empty or one of %d letters" % (n, k - 1)
    if t == 12: return "%d lines ' x' with CR LF, x of %d letters" % (n, k)
    if t == 15: return "%d times %r" % (n, chr(k))
    if t == 18: return "%d lines each one of %d, conflict markers among them" % (n, k)
    if t == 19: return "%d lines each one of %d met in and around patches" % (n, k)
    if t == 17: return "%d fixed distinct lines, %r after each%s" % (n, chr(97 + k % 8), " ('a' after the first of every %d)" % (k // 8) if k >= 8 else "")
    if t == 16: return "%d fixed one-line hunks, %d lines apart" % (n, k)
    if t == 5 and k == 5: return "%d free characters U+E000..U+FFFF" % n
    ks = "each a line of kind " + KINDS[k % 8]
    if t == 13: return "%d lines, %s" % (n, ks)
    if t == 14: return "a correctly counted hunk of %d lines, %s, %d..%d lines after the one before%s" % (n, ks, -(k // 64), k % 64 // 8, " in old and new independently" if k >= 64 else "")
    return "?"


HEAD = {
    "h_undo": "mode T:patch T:base", "h_equal": "mode T:patch T:other",
    "h_opaque_diff": "mode ctx W lines_old lines_new lines_other", "h_opaque_merge": "mode style W lines_ancestor lines_ours lines_theirs",
    "h_roundtrip": "mode ctx T:old T:new", "h_reverse": "mode ctx T:old T:new", "h_describe": "mode ctx T:old T:new",
    "h_minimal": "mode ctx T:old T:new", "h_print_parse": "mode ctx T:old T:new", "h_final_newline": "mode ctx T:old T:new",
    "h_format": "mode ctx T:old T:new", "h_format_parsed": "mode T:patch", "h_writer_parsed": "mode flags kind chunk maxcall T:patch", "h_reverse_parsed": "mode T:patch", "h_parse_spec": "mode T:patch",
    "h_names_parse": "mode T:patch", "h_reprint": "mode T:patch", "h_parse_safe": "mode flags T:patch T:base",
    "h_names_set": "mode flags T:name1 T:name2", "h_writer": "mode flags ctx kind chunk maxcall T:old T:new",
    "h_twin_create": "ctx T:old T:new", "h_twin_parse": "T:patch", "h_twin_apply": "T:patch T:base",
    "h_twin_merge": "style len T:ancestor T:ours T:theirs", "h_apply_sound": "mode H T:base", "h_apply_placed": "mode T:patch T:base", "h_apply_nearest": "mode H T:base",
    "h_work": "mode steps_per_byte heap_per_byte T:patch T:base", "h_merge_identity": "mode style len T:ancestor T:other",
    "h_merge_spec": "mode T:ancestor T:ours T:theirs", "h_merge_symmetric": "mode style T:ancestor T:ours T:theirs",
    "h_merge_render": "mode style len T:ancestor T:ours T:theirs",
    "h_standard": "mode ctx T:old T:new", "h_standard_parsed": "mode T:patch", "h_pure": "mode ctx T:old T:new",
    "h_pure_merge": "mode style len T:ancestor T:ours T:theirs", "h_late": "mode T:old T:new",
    "h_cost_diff": "mode ctx steps_per_byte steps_per_line_and_edit heap T:old T:new",
    "h_cost_merge": "mode style steps_per_byte steps_per_line_and_edit heap T:ancestor T:ours T:theirs",
    "h_merge_full": "mode style len T:ancestor T:ours T:theirs", "h_merge_swap": "mode style len T:ancestor T:ours T:theirs",
}
# what has to be reached at least once over a check's jobs (else the check is vacuous)
REACH = {h: {0} for h in HEAD}
REACH.update({"h_describe": {0, 1, 2}, "h_roundtrip": {0, 1}, "h_reverse": {0, 1}, "h_minimal": {0, 1}, "h_print_parse": {0, 1}, "h_parse_safe": {0, 1, 2},
              "h_parse_spec": {0, 1, 2}, "h_reprint": {0, 1, 3}, "h_final_newline": {0, 2}, "h_format": {0, 1, 2, 3}, "h_format_parsed": {0, 1, 2, 3, 4}, "h_writer": {0, 1, 2}, "h_writer_parsed": {0, 1, 2},
              "h_apply_sound": {0, 2}, "h_apply_placed": {0, 2, 3}, "h_apply_nearest": {0, 1}, "h_merge_spec": {0, 1}, "h_merge_symmetric": {0, 1}, "h_merge_render": {0, 1},
              "h_undo": {0, 1, 3}, "h_equal": {0, 1}, "h_opaque_diff": {0, 1, 2, 3}, "h_opaque_merge": {0, 1, 2},
              "h_standard": {0, 1}, "h_standard_parsed": {0, 1, 2}, "h_pure": {0, 1}, "h_pure_merge": {0, 1}, "h_late": {0, 1, 2}, "h_cost_diff": {0, 1}, "h_cost_merge": {0, 1},
              "h_merge_identity": {0, 1}, "h_merge_full": {0, 1}, "h_merge_swap": {0, 1}, "h_twin_merge": {0, 1, 2}, "h_twin_apply": {0, 1, 2}, "h_twin_create": {0, 1}, "h_twin_parse": {0, 1, 2}, "h_reverse_parsed": {0, 1, 2}})


class Job:
    def __init__(self, h, *cfg):
        self.h = h
        self.cfg = []
        for c in cfg:
            self.cfg += list(c) if isinstance(c, (list, tuple)) else [c]

    def twin(self):
        """The same job through the other API, if there is one and the input is text."""
        if HEAD[self.h].split()[0] != "mode":
            return None
        t = Job(self.h, 1 - self.cfg[0], self.cfg[1:])
        return None if self.cfg[0] == 1 and not self.textual() else t

    def textual(self):
        c, i = self.cfg, 0
        words = HEAD[self.h].split()
        if "W" in words:
            at = words.index("W")
            n = c[at]
            c = c[:at] + c[at + 1:]
            words[at:at + 1] = ["T:"] * n
        for w in words:
            if w.startswith("T:"):
                for k in range(c[i]):
                    ty, n, v = c[i + 1 + 3 * k:i + 4 + 3 * k]
                    if ty == 2 and v == 1 or ty == 15 and v > 127:
                        return False
                i += 2 + 3 * c[i]
            elif w == "H":
                i += 1 + 5 * c[i]
            else:
                i += 1
        return True

    def line(self):
        return self.h + " " + " ".join(map(str, self.cfg))

    def describe(self):
        c, i, out = self.cfg, 0, []
        words = HEAD[self.h].split()
        if "W" in words:
            # a number, then so many texts
            at = words.index("W")
            n = c[at]
            c = c[:at] + c[at + 1:]
            words[at:at + 1] = ["T:line%d" % (k + 1) for k in range(n)]
        for w in words:
            if w.startswith("T:"):
                n = c[i]
                i += 1
                s = []
                for _ in range(n):
                    s.append(seg_text(*c[i:i + 3]))
                    i += 3
                out.append("%s = %s (%s)" % (w[2:], " + ".join(s) or "empty", STRIP[c[i]]))
                i += 1
            elif w == "H":
                n = c[i]
                i += 1
                s = []
                for _ in range(n):
                    l, sg, k, lo, hi = c[i:i + 5]
                    i += 5
                    s.append("%d lines sign (%s) + one of %d letters, %s" % (l, SIGNS[sg], k, "line number %s and %d free digits" % (("", "184467440737095516", "42949672", "92233720368547758", "99999999999999999")[hi], lo - 100) if 100 <= lo < 1000 else "placed at %d..%d" % ((lo, hi) if lo < 1000 else (lo - 1000, lo - 1000 + hi))))
                out.append("hunks: " + "; ".join(s))
            else:
                v = c[i]
                i += 1
                if w == "mode": v = ("str", "bytes")[v]; out.append(v)
                elif w == "ctx": out.append("default options" if v == 99 else "context %d" % v)
                else: out.append("%s %d" % (w, v))
        return "; ".join(out)


J = Job
S, B = 0, 1
D = 99


def required_reach(jobs):
    return {j.h: REACH[j.h] for j in jobs}


ASSUMPTIONS = [
    "the symbolic engine's semantics of LLVM IR and Z3's verdicts (each path's condition and assertions are certified by a raw Z3 query for a sample, decisions are audited, sampled paths are replayed on the native dev and release builds, sampled queries are put to z3-new and cvc5)",
    "rustc's optimised LLVM IR (with overflow checks) stands for the program; the native build is a separate compilation of the same source",
    "SipHash of the standard library is replaced by a simpler function of the bytes hashed (fixed lines of the generated texts get hashes of their own, all else collides), so nothing is claimed about the order or speed of HashMap",
    "panics are observed when raised; unwinding is not executed; allocation never fails below 32 MB",
    "inputs have the stated shapes and sizes only",
]


def params(prop, tier):
    if tier == "quick":
        p = dict(budget=150, threads=8, leaves=60, dump=6)
        p["max-insts"] = 400_000_000
        p["certify-implied"] = 8
    else:
        p = dict(budget=1500, threads=8, leaves=300, dump=40)
        p["certify-implied"] = 1
        p["max-insts"] = 1_000_000_000
    p.update(PARAMS.get(prop, {}).get(tier, {}))
    return p


PARAMS = {}
PLANS = {}


# the text API goes through most of the code the bytes API goes through; where there is time,
# every job is done for both
BOTH = {"C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"}


def plan(prop, tier):
    js = PLANS[prop](tier == "thorough")
    if prop in BOTH or tier == "thorough":
        seen = {j.line() for j in js}
        for j in list(js):
            t = j.twin()
            if t and t.line() not in seen:
                seen.add(t.line())
                js.append(t)
    return js


def prop(f):
    PLANS[f.__name__] = f
    return f


# ---------------------------------------------------------------- pairs of texts
def bigs(h, deep, modes=(S, B)):
    """Large texts with few free bytes in them."""
    m = lambda i: modes[i % len(modes)]
    js = []
    # many lines before, between and after
    js.append(J(h, m(0), 3, T(pad(300), sym(1, 2), pad(300, 5000)), T(copy(0), sym(2, 2), copy(2))))
    js.append(J(h, m(1), 0, T(pad(1100), sym(1, 2), pad(1100, 5000)), T(copy(0), sym(2, 2), copy(2))))
    js.append(J(h, m(0), 1, T(sym(2, 2), pad(100), sym(2, 2)), T(sym(1, 2), copy(1), sym(2, 2))))
    js.append(J(h, m(1), D, T(sym(1, 2), pad(300), sym(1, 2), pad(20, 1000), sym(1, 2)), T(sym(1, 2), copy(1), sym(2, 2), copy(3), sym(1, 2))))
    # a long insertion and a long deletion
    js.append(J(h, m(0), 3, T(pad(2), sym(1, 2), pad(2, 10)), T(copy(0), sym(1, 2), pad(300, 100), copy(2))))
    js.append(J(h, m(1), 2, T(pad(2), sym(1, 2), pad(300, 100), pad(2, 10)), T(copy(0), sym(1, 2), copy(3))))
    # many changes
    for c in (0, 1, D):
        old, new = [], []
        for i in range(12):
            old += [pad(4, 10 * i)] + [sym(1, 2) if i in (0, 9) else rep(1, 0)]
            new += [copy(2 * i)] + [sym(1, 2) if i in (0, 9) else rep(1, 1)]
        js.append(J(h, m(c), c, T(*old), T(*new)))
    old, new = [pad(2), sym(1, 2)], [copy(0), sym(1, 2)]
    for i in range(70):
        old += [pad(7, 100 + 10 * i), rep(1, i % 3)]
        new += [pad(7, 100 + 10 * i), rep(i % 4, 3)]
    js.append(J(h, m(1), D, T(*old), T(*new)))
    # large contexts
    for i in range(2):
        js.append(J(h, m(i), 50, T(pad(60), sym(1, 2), pad(101, 100), sym(1, 2), pad(60, 300)), T(copy(0), sym(1, 2), copy(2), sym(1, 2), copy(4))))
        js.append(J(h, m(i), 300, T(pad(310), sym(1, 2), pad(601, 400), sym(1, 2), pad(310, 2000)), T(copy(0), sym(1, 2), copy(2), sym(1, 2), copy(4))))
    # long lines
    js.append(J(h, S, 1, T(fill(300), raw(1, 0), fill(5), lit(5), sym(1, 2)), T(copy(0), raw(1, 0), copy(2), lit(5), sym(1, 2))))
    js.append(J(h, B, 0, T(sym(1, 2), fill(7), raw(1, 1), fill(9), end=KEEP), T(sym(1, 2), copy(1), raw(1, 1), copy(3), end=KEEP)))
    js.append(J(h, B, 3, T(fill(2000), raw(1, 2), fill(2000, "y")), T(copy(0), raw(1, 2), copy(2))))
    # line feeds free to be at, before or after the end of a block of 16, 32, ... bytes
    for i, n in enumerate(BLOCKS if deep else BLOCKS[-1:] if h == "h_minimal" else BLOCKS[:-1] if h == "h_standard" else BLOCKS):
        js.append(J(h, m(i), 1, T(fill(n - 2), raw(4, 7), fill(2), raw(1, 7), end=KEEP), T(copy(0), raw(2, 7), fill(3), lit(5))))
    # characters at the end of the basic plane, byte order marks among them
    js.append(J(h, S, 1, T(chars(1, 5), lit(5)), T(chars(1, 5), sym(1, 2))))
    # lines whose numbers differ by 256 or 65536 come together
    js.append(J(h, m(1), 3, T(sym(1, 2), pad(300)), T(pad(3, 254), copy(1))))
    if deep or h in ("h_roundtrip", "h_minimal"):
        js.append(J(h, m(1), 3, T(sym(1, 2), pad(66000), end=KEEP), T(pad(3, 65534), copy(1), end=KEEP)))
    # more lines than 16 bits count
    if deep or h in ("h_roundtrip", "h_minimal"):
        js.append(J(h, m(0), 3, T(pad(66000), sym(1, 2), pad(20, 100000), sym(1, 1), end=KEEP), T(copy(0), sym(2, 2), copy(2), end=KEEP)))
    # a hunk of more lines than 16 bits count
    if deep or h in ("h_describe", "h_print_parse"):
        js.append(J(h, m(1), 70000, T(pad(66000), sym(1, 2), pad(20, 100000), sym(1, 1), end=KEEP), T(copy(0), sym(1, 2), copy(2), sym(1, 2), end=KEEP)))
    return js


BLOCKS = (16, 32, 64, 128, 256, 1024, 4096, 65536)


def blocks(f):
    """f(mode, text) for texts whose line feeds are free around the end of a block."""
    return [f(i % 2, n) for i, n in enumerate(BLOCKS)]


def pairs(h, deep, modes=(S, B)):
    """Shapes for harnesses `mode ctx old new`."""
    m = lambda i: modes[i % len(modes)]
    js = []
    # everything small, every context length
    for c in (0, 1, 2, D):
        js.append(J(h, m(c), c, T(sym(3, 3)), T(sym(3, 3))))
    # empty texts
    js += [J(h, m(0), 3, T(), T(sym(3, 2))), J(h, m(1), 0, T(sym(3, 2)), T()), J(h, m(0), 1, T(), T())]
    # different lengths, repeated lines
    js += [J(h, m(1), 0, T(sym(5, 2)), T(sym(2, 2))), J(h, m(0), 1, T(sym(2, 2)), T(sym(5, 2)))]
    # unchanged stretches around and between changes, as long as decides whether hunks are split
    for c, gaps in ((0, (1, 2)), (1, (1, 2, 3)), (2, (4, 5)), (3, (5, 6, 7, 8))):
        for g in gaps:
            js.append(J(h, m(g), c, T(pad(c + 1), sym(1, 2), pad(g, 20), sym(1, 2), pad(c + 1, 40)), T(copy(0), sym(1, 3), copy(2), sym(1, 3), copy(4))))
    for c in (0, 1, 3):
        # the same where lines repeat, and with one side's stretch empty
        js.append(J(h, m(c), c, T(rep(c, 0), sym(2, 3), rep(2 * c, 0), sym(1, 3)), T(copy(0), sym(1, 3), copy(2), sym(2, 3))))
    # at the very start and end
    js.append(J(h, m(0), 2, T(sym(1, 2), pad(5), sym(1, 2)), T(sym(1, 2), copy(1), sym(1, 2))))
    js.append(J(h, m(1), 3, T(sym(2, 2), pad(9)), T(sym(1, 2), copy(1))))
    js.append(J(h, m(0), 3, T(pad(9), sym(1, 2)), T(copy(0), sym(2, 2))))
    # line numbers of two and three digits
    js.append(J(h, m(1), 1, T(pad(12), sym(2, 2), pad(3, 200)), T(copy(0), sym(2, 2), copy(2))))
    # free bytes
    js.append(J(h, S, 1, T(raw(3, 2), end=KEEP), T(raw(3, 2), end=KEEP)))
    js.append(J(h, B, 0, T(raw(2, 1), end=KEEP), T(raw(2, 1), end=KEEP)))
    js.append(J(h, S, 3, T(raw(3, 4), end=KEEP), T(raw(2, 4), end=KEEP)))
    # lines that look like patch syntax
    js.append(J(h, S, 1, T(raw(3, 3), end=KEEP), T(raw(2, 3), end=KEEP)))
    # the larger shapes
    for c in (0, 1, D):
        js.append(J(h, m(c), c, T(sym(4, 3)), T(sym(4, 3))))
    js.append(J(h, m(0), 2, T(blank(4, 3)), T(blank(3, 3))))
    js.append(J(h, m(1), 1, T(sym(6, 2)), T(sym(6, 2))))
    js.append(J(h, m(0), 0, T(sym(5, 3)), T(sym(5, 3))))
    js.append(J(h, m(1), D, T(sym(3, 3), pad(6), sym(2, 2)), T(sym(2, 3), copy(1), sym(3, 2))))
    js[4:4] = bigs(h, deep, modes)
    if deep:
        for c in (0, 1, 2, 3):
            js.append(J(h, m(c), c, T(sym(6, 3)), T(sym(6, 3))))
        js.append(J(h, S, 1, T(raw(5, 2), end=KEEP), T(raw(5, 2), end=KEEP)))
        js.append(J(h, B, 1, T(raw(3, 1), end=KEEP), T(raw(3, 1), end=KEEP)))
        js.append(J(h, S, 1, T(raw(4, 3), end=KEEP), T(raw(4, 3), end=KEEP)))
        js.append(J(h, m(0), 1, T(sym(8, 2)), T(sym(8, 2))))
        js.append(J(h, m(1), 3, T(sym(3, 3), pad(6), sym(3, 3)), T(sym(3, 3), copy(1), sym(3, 3))))
        js.append(J(h, m(1), 2, T(sym(2, 2), pad(4), sym(2, 2), pad(5, 20), sym(2, 2)), T(sym(2, 2), copy(1), sym(2, 2), copy(3), sym(2, 2))))
        js.append(J(h, m(0), 0, T(sym(7, 3)), T(sym(7, 3))))
        js.append(J(h, m(1), 0, T(sym(10, 2)), T(sym(10, 2))))
    return js


@prop
def C01(deep):
    return pairs("h_roundtrip", deep)


@prop
def C02(deep):
    js = pairs("h_reverse", deep)
    h = "h_reverse_parsed"
    for i, t in enumerate(hunks(deep)):
        js.insert(8, J(h, i % 2, t))
    js[8:8] = [
        J(h, S, T(lit(8), lit(15), raw(1, 5), num(1), lit(6), digits(1), lit(3), num(1), lit(6), digits(1), lit(4), lit(9), body(3, 0), end=KEEP)),
        J(h, B, T(lit(10), body(3, 1), end=EITHER)),
        J(h, S, T(lit(11), lit(20), lit(2), digits(1), lit(3), digits(1), lit(4), lit(5), lit(20))),
        J(h, S, T(lit(0), raw(2, 6), lit(5), lit(1), raw(2, 6), lit(5), lit(11), lit(20), end=KEEP)),
    ]
    return js


@prop
def C03(deep):
    js = pairs("h_describe", deep)
    for c in (4, 5, 7, 8, 10, 16, 33):
        for g in (2 * c, 2 * c + 1):
            js.insert(8, J("h_describe", c % 2, c, T(pad(c + 2, 200), sym(1, 2), pad(g), sym(1, 2), pad(c + 2, 400)), T(copy(0), sym(1, 2), copy(2), sym(1, 3), copy(4))))
    for i, n in enumerate((130, 1100, 2000)):
        js.insert(8, J("h_describe", i % 2, 3, T(pad(5), sym(1, 2), pad(4, 20), sym(1, 2)), T(copy(0), sym(1, 2), pad(n, 1000), copy(2), sym(2, 2))))
        js.insert(8, J("h_describe", i % 2, 3, T(pad(5), sym(1, 2), pad(n, 1000), pad(6, 20), sym(1, 2)), T(copy(0), sym(1, 2), copy(3), sym(2, 2))))
    for i in range(2):
        js.insert(8, J("h_describe", i, 1 << 20, T(pad(1100), sym(1, 2), pad(1100, 2000)), T(copy(0), sym(1, 2), copy(2))))
        js.insert(8, J("h_describe", i, 0, T(pad(12000), sym(1, 2), pad(3, 20000), end=KEEP), T(copy(0), sym(1, 2), copy(2), end=KEEP)))
        js.insert(8, J("h_describe", i, 0, T(pad(12000), sym(1, 2), pad(3, 20000), end=KEEP), T(copy(0), copy(2), sym(1, 2), end=KEEP)))
        js.insert(8, J("h_describe", i, i, T(pad(10), sym(2, 2), pad(101, 100)), T(copy(0), sym(1, 2), copy(2))))
        js.insert(8, J("h_describe", i, i, T(pad(10), sym(1, 2), pad(101, 100)), T(copy(0), sym(2, 2), copy(2))))
    for c in (4, 1 << 20, (1 << 63) - 1):
        js.insert(8, J("h_describe", S, c, T(sym(1, 2), pad(9), sym(1, 2)), T(sym(1, 2), copy(1), sym(1, 2))))
    return js


@prop
def C04(deep):
    h = "h_minimal"
    js = [J(h, S, 3, T(sym(4, 3)), T(sym(4, 3))), J(h, B, 0, T(sym(5, 3)), T(sym(4, 3))), J(h, S, 1, T(), T(sym(3, 2))), J(h, S, 1, T(sym(3, 2)), T()),
          J(h, B, 3, T(sym(7, 2)), T(sym(7, 2)))]
    # much to delete and insert around few free lines
    js += [J(h, S, 3, T(pad(10), sym(2, 2), pad(10, 20)), T(pad(10, 40), sym(2, 2), pad(10, 60))),
           J(h, S, 0, T(pad(30), sym(3, 2)), T(pad(30, 100), sym(3, 2))),
           J(h, B, 3, T(sym(3, 2), pad(20)), T(copy(1), sym(3, 2)) if False else T(pad(20), sym(3, 2))),
           J(h, S, 3, T(sym(2, 2), pad(6), sym(2, 2), pad(6, 20)), T(pad(6, 20), sym(2, 2), pad(6), sym(2, 2))),
           J(h, S, 1, T(pad(3), sym(3, 3), pad(4, 10)), T(pad(2, 1), sym(4, 3), pad(3, 11))),
           J(h, B, 2, T(rep(4), sym(3, 2), rep(3)), T(sym(3, 2), rep(5), sym(2, 2))),
           J(h, B, 2, T(sym(2, 3), rep(8), sym(2, 3)), T(rep(3), sym(3, 3), rep(4)))]
    # few common lines, off the diagonal, in texts that differ otherwise
    js += [J(h, S, 3, T(pad(15), sym(2, 2), pad(15, 100)), T(pad(10, 200), sym(2, 2), pad(20, 300))),
           J(h, B, 3, T(pad(8), sym(1, 2), pad(20, 50), sym(1, 2), pad(12, 100)), T(pad(20, 200), sym(1, 2), pad(9, 250), sym(1, 2), pad(12, 300))),
           J(h, S, 3, T(pad(60), sym(2, 2), pad(40, 100)), T(pad(25, 200), sym(2, 2), pad(80, 300))),
           J(h, B, 3, T(pad(150), sym(2, 2), pad(140, 200)), T(pad(120, 400), sym(2, 2), pad(170, 600)))]
    js += [J(h, S, 3, T(pad(300), sym(1, 2)), T(pad(300, 1000), sym(1, 2)))]
    js += bigs(h, deep)
    js += [J(h, S, 3, T(sym(6, 3)), T(sym(6, 3))), J(h, B, 3, T(sym(9, 2)), T(sym(6, 2))), J(h, S, D, T(sym(5, 4)), T(sym(4, 4))),
           J(h, S, 3, T(sym(8, 2)), T(sym(8, 2)))]
    if deep:
        js += [J(h, S, 3, T(sym(9, 2)), T(sym(9, 2))), J(h, S, D, T(sym(5, 4)), T(sym(5, 4))), J(h, S, 3, T(sym(7, 3)), T(sym(7, 3))), J(h, B, 3, T(sym(6, 4)), T(sym(6, 4))), J(h, S, 3, T(sym(11, 2)), T(sym(11, 2))),
               J(h, S, 3, T(pad(150), sym(2, 2)), T(pad(150, 200), sym(2, 2))), J(h, S, 3, T(sym(8, 3)), T(sym(8, 3)))]
    return js


@prop
def C05(deep):
    h = "h_print_parse"
    js = pairs(h, deep)
    js[4:4] = [J(h, B, 1, T(raw(2, 3), lit(5), raw(1, 3), end=KEEP), T(raw(2, 3), lit(5), raw(1, 3), end=KEEP)),
               J(h, S, 1, T(lit(23), raw(1, 2), end=KEEP), T(raw(1, 2), lit(7), end=KEEP)),
               J(h, S, 0, T(lit(8), raw(1, 3), end=KEEP), T(lit(11), raw(1, 3), end=KEEP)),
               J(h, S, 1, T(pad(1), says(1), pad(1, 9)), T(copy(0), says(1), copy(2))), J(h, B, 1, T(pad(1), says(1)), T(pad(1), says(1))),
               J(h, S, 0, T(says(2, 8)), T(says(1, 8))),
               J(h, S, 3, T(chars(1, 2), lit(5), chars(1, 3), lit(5)), T(chars(1, 4), lit(5), chars(1, 2), lit(5)))]
    return js


# ---------------------------------------------------------------- patch texts
def wide(deep):
    """Numbers with free digits: small ones, and around the ends of the integer types."""
    k = 1 if deep else 0
    return [[digits(2 + k)], [num(184467440737095516), digits(2)], [num(42949672), digits(2)], [num(92233720368547758), digits(2)],
            [nines(17), digits(2)], [digits(1), nines(17 + k), digits(1)], [digits(1), nines(1), num(0), digits(1)], [digits(1), num(8446744073709551615)]]


def headers(deep):
    """Patch texts with free header fields."""
    js = []
    for i, w in enumerate(wide(deep)):
        # the wide number as old start, old length, new start, new length; all four in thorough, two in quick
        f = [T(lit(2), *w, lit(6), num(1), lit(3), digits(1), lit(6), digits(1), lit(4), lit(5), lit(20)),
             T(lit(2), digits(1), lit(6), *w, lit(3), digits(1), lit(4), lit(5), lit(20)),
             T(lit(2), digits(1), lit(3), *w, lit(4), lit(5), lit(20)),
             T(lit(2), digits(1), lit(3), num(1), lit(6), *w, lit(4), lit(5), lit(20))]
        js += f if deep else [f[i % 2], f[2 + (i // 2) % 2]]
    return js + [
        T(lit(2), nines(18), digits(2), lit(6), digits(1), lit(3), num(1), lit(4), lit(5), lit(20)),
        T(lit(2), num(1844674407370955161), digits(1), lit(3), num(1844674407370955161), digits(1), lit(4), lit(5), lit(20)),
        T(lit(2), num(1844674407370955161), digits(1), lit(6), digits(1), lit(3), num(1), lit(6), num(0), lit(4), lit(5), (7, 1, 16), raw(1, 0), lit(5)),
    ]


def bodies(deep):
    k = 1 if deep else 0
    return [
        T(lit(10), raw(4 + k, 3), end=KEEP),
        T(lit(10), body(3, 1)),
        T(lit(22), body(4, 0)),
        T(lit(22), lit(18), raw(1, 0), lit(5), body(2, 1), lit(7), body(1 + k, 1)),
        T(lit(2), num(1), lit(6), digits(1), lit(3), num(1), lit(6), digits(1), lit(4), lit(5), body(3 + k, 0)),
        T(lit(11), lit(16), raw(2, 0), lit(5), lit(17), raw(2, 0), end=EITHER),
        T(lit(11), lit(20), lit(7), raw(2, 3)),
        T(lit(12), raw(2, 0), lit(13)),
        T(lit(10), lit(16), says(1), lit(17), says(1), lit(18), says(1, 12)),
        T(lit(8), lit(10), lit(13), says(1)),
        T(lit(2), zeros(40), digits(1), lit(6), zeros(25), num(1), lit(3), zeros(30), num(1), lit(4), lit(5), lit(20)),
        T(lit(2), zeros(300), num(1), lit(3), num(1), lit(6), zeros(300), digits(1), lit(4), lit(5), lit(20)),
        T(lit(12), lit(18), raw(3, 0), lit(5), lit(13)),
        T(lit(11), lit(16), raw(3, 4), lit(7), lit(17), raw(3, 4), lit(7)),
        T(lit(2), num(1), lit(6), num(5), lit(3), num(1), lit(6), digits(1), lit(4), lit(5), lit(13), lit(13), kinds(4, 4)),
        T(lit(10), lit(13), lit(2), digits(1), lit(6), digits(1), lit(3), digits(1), lit(6), digits(1), lit(4), lit(5), lit(13)),
        T(lit(11), lit(20), lit(2), digits(1), lit(3), digits(1), lit(4), lit(5), lit(20), lit(2), digits(1), lit(3), num(9), lit(4), lit(5), lit(20)),
    ]


def large(deep):
    """Long patch texts with few free bytes."""
    return [
        T(many(12, 1), hunk(2, 1, 1)),
        T(many(300), hunk(1, 1), kinds(1, 1)),
        T(many(40, 2), hunk(1, 3, 1, 1), hunk(1, 3, 1, 1)),
        T(hunk(50, 6, 1), hunk(2, 3)),
        T(lit(12), lit(18), fill(300), raw(2, 0), lit(5), lit(13)),
        T(lit(22), lit(18), fill(300), raw(1, 0), lit(5), lit(16), fill(9), raw(1, 0), fill(9), lit(5), lit(17), fill(2000), raw(1, 3), lit(5), lit(18), raw(1, 0), lit(5)),
        T(lit(0), fill(300), raw(2, 6), fill(5), lit(5), lit(11), lit(20)),
        T(lit(1), lit(19), fill(300), raw(2, 6), fill(5), lit(19), lit(5), lit(11), lit(20)),
        T(pad(300), raw(1, 3), lit(8), lit(12), lit(18), raw(1, 5), lit(5), lit(13)),
        T(says(1), pad(120), says(1), lit(11), lit(20)),
        T(says(2, 8), lit(8), lit(11), lit(20)),
        T(chars(1, 5), lit(8), lit(12), lit(18), chars(1, 5), lit(5), lit(13)),
    ] + [T(lit(10), lit(18), fill(n - 3), raw(3, 2), lit(5), lit(20)) for n in BLOCKS] + [
        T(lit(0), fill(60), raw(3, 7), fill(1), lit(5), lit(11), lit(20)),
        T(lit(12), lit(18), fill(48), raw(3, 7), lit(5), lit(13)),
    ]


def hunks(deep):
    """Patch texts whose headers count their lines."""
    k = 1 if deep else 0
    return large(deep) + [
        T(hunk(3 + k, 1)),
        T(hunk(4, 4)),
        T(hunk(3, 2)),
        T(hunk(2, 1), hunk(2, 1, 1)),
        T(hunk(2, 0, 0, 1), hunk(1, 0, 1, 1)),
        T(hunk(1, 0, 1), hunk(1, 0, 1, 1), hunk(1, 0, 1, 1)),
        T(hunk(2 + k, 0), kinds(2, 2)),
        T(kinds(1, 2), hunk(2, 5, 2), lit(7), kinds(1, 2)),
        T(hunk(1, 3, 1), lit(7), hunk(2 + k, 3, 1), lit(7)),
        T(lit(10), raw(2, 0), lit(20), end=KEEP),
        T(lit(10), lit(20), raw(3, 3), end=KEEP),
        T(lit(1), raw(1, 6), lit(5), hunk(2, 3)),
        T(lit(0), raw(1, 6), lit(5), hunk(2, 3)),
    ]


def raws(deep, c=0):
    k = 1 if deep else 0
    return [
        T(raw(4 + k, c), end=KEEP),
        T(lit(15), raw(4 + k, c), end=KEEP),
        T(lit(2), raw(5 + k, 5), lit(4), lit(5), end=KEEP),
        T(lit(2), num(1), raw(3 + k, c), lit(4), lit(5), lit(20), end=KEEP),
        T(lit(15), raw(4 + k, 5), lit(4), raw(1, c), end=KEEP),
        T(lit(0), raw(3 + k, c), end=KEEP),
        T(lit(1), raw(4 + k, 6), lit(5), end=KEEP),
        T(raw(2, c), lit(8), raw(2, c), end=KEEP),
        T(lit(14), raw(1, 5), lit(8), lit(12), raw(1 + k, 5), lit(5), lit(13), raw(1, c), end=KEEP),
        T(lit(11), raw(3 + k, c), end=KEEP),
        T(lit(8), lit(12), raw(3, c), end=KEEP),
    ]


@prop
def C06(deep):
    h = "h_parse_safe"
    base = T(sym(2, 2))
    js = []
    for i, t in enumerate(raws(deep)):
        js.append(J(h, S, 7, t, base))
    for i, t in enumerate(raws(deep, 1)):
        js.append(J(h, B, 7, t, T(raw(1, 1), end=KEEP)))
    for i, t in enumerate(headers(deep)):
        js.append(J(h, i % 2, 7, t, T(rep(1), pad(1))))
    for i, t in enumerate(bodies(deep)):
        js.append(J(h, (i + 1) % 2, 7, t, base))
    for i, t in enumerate(hunks(deep)):
        js.append(J(h, i % 2, 7, t, T(pad(400), sym(1, 2)) if i < 3 else T(sym(3, 2), end=KEEP) if i != 3 else T(rep(50), sym(1, 2))))
    # multi-byte characters where the parser cuts
    js += [J(h, S, 7, T(lit(0), chars(1, 2), lit(5), lit(1), lit(19), chars(1, 3), lit(19), lit(5), lit(12), lit(18), chars(1, 4), lit(5), lit(13), end=KEEP), base),
           J(h, S, 15, T(lit(0), raw(3, 1), end=KEEP), T()),
           J(h, S, 15, T(lit(12), raw(3, 1), end=KEEP), T()),
           J(h, S, 7, T(lit(10), lit(18), chars(1, 2), lit(5), lit(16), chars(1, 2), lit(5), lit(17), chars(1, 3), end=KEEP), T(chars(2, 2), lit(5)))]
    return js


@prop
def C07(deep):
    h = "h_parse_spec"
    js = []
    for i, t in enumerate(hunks(deep) + headers(deep) + bodies(deep)):
        js.append(J(h, i % 2, t))
    for i, t in enumerate(raws(deep)):
        js.append(J(h, i % 2, t))
    js += [J(h, S, T(lit(22), body(4, 1))), J(h, B, T(lit(2), num(1), lit(6), digits(1), lit(3), num(1), lit(6), digits(1), lit(4), lit(5), body(4, 1)))]
    js += [J(h, S, T(lit(10), lit(13), lit(7), raw(1, 3), lit(10), lit(13))), J(h, S, T(lit(10), lit(16), chars(1, 2), lit(5), lit(17), chars(1, 3), lit(5), lit(18), chars(1, 4), lit(5)))]
    if deep:
        js += [J(h, S, T(lit(22), body(5, 1))), J(h, B, T(lit(2), digits(1), lit(6), digits(1), lit(3), digits(1), lit(6), digits(1), lit(4), lit(5), body(4, 1))), J(h, B, T(lit(10), raw(6, 3), end=KEEP))]
    return js


@prop
def C08(deep):
    h = "h_reprint"
    js = []
    for i, t in enumerate(hunks(deep) + bodies(deep) + headers(deep)):
        js.append(J(h, i % 2, t))
    for i, t in enumerate(raws(deep)):
        js.append(J(h, i % 2, t))
    js += [J(h, S, T(lit(12), lit(18), raw(3, 4), lit(5), lit(13), lit(12)), ),
           J(h, B, T(lit(0), raw(2, 6), lit(5), lit(1), lit(19), raw(2, 6), lit(19), lit(5), lit(12), lit(18), raw(2, 5), lit(5), lit(13))),
           J(h, S, T(lit(1), raw(2, 6), lit(5), lit(0), raw(2, 6), lit(5), lit(11), lit(20))),
           J(h, S, T(lit(0), raw(2, 5), lit(5), lit(11), lit(20))),
           J(h, S, T(lit(12), lit(18), chars(1, 2), lit(5), lit(13))),
           J(h, B, T(lit(22), blank(3, 3), lit(18), raw(1, 3), lit(5))),
           J(h, S, T(lit(11), lit(20), lit(5), raw(2, 9)))]
    return js


# ---------------------------------------------------------------- applying
@prop
def C09(deep):
    h = "h_apply_sound"
    js = [J(h, S, 1, 2, 0, 2, 0, 2, T(sym(3, 2))), J(h, B, 1, 1, 0, 2, 0, 3, T(sym(3, 2))), J(h, S, 1, 3, 0, 2, 0, 0, T(sym(4, 2))),
          J(h, S, 1, 2, 0, 2, 0, 1, T()), J(h, B, 1, 2, 3, 2, 102, 0, T(sym(3, 2))),
          J(h, B, 2, 1, 0, 2, 0, 2, 1, 0, 2, 0, 3, T(sym(3, 2))), J(h, S, 2, 2, 0, 2, 0, 1, 1, 0, 2, 1, 3, T(sym(4, 2))),
          J(h, S, 3, 1, 3, 2, 0, 0, 1, 2, 2, 1, 1, 1, 3, 2, 2, 3, T(sym(4, 2))),
          J(h, B, 2, 2, 3, 2, 1, 1, 2, 0, 2, 2, 3, T(sym(5, 2))), J(h, S, 1, 3, 3, 3, 1, 2, T(sym(5, 3))),
          J(h, B, 1, 4, 0, 2, 1, 1, T(sym(4, 2)))]
    # far from the line named, in large texts; lines of a later hunk in reach of an earlier one
    js += [J(h, S, 1, 2, 3, 2, 1150, 2, T(pad(300), sym(3, 2), pad(300, 1000))), J(h, B, 1, 1, 0, 2, 1000, 0, T(pad(400), sym(2, 2))),
           J(h, B, 1, 3, 3, 2, 1599, 2, T(sym(3, 2), pad(600))),
           J(h, S, 2, 1, 0, 2, 1010, 1, 2, 3, 2, 1500, 1, T(pad(20), sym(2, 2), pad(300, 1000), sym(2, 2), pad(100, 2000))),
           J(h, B, 2, 2, 0, 2, 1250, 0, 1, 5, 2, 1260, 0, T(pad(200), sym(3, 2), pad(100, 1000), sym(1, 2)))]
    js += [J(h, i % 2, 1, 1, 3, 2, 1000, 1, T(pad(n), sym(1, 2))) for i, n in enumerate((1100, 5000, 33000))] + [J(h, i % 2, 1, 1, 3, 2, 1000 + n, 1, T(sym(2, 2), pad(n + 10))) for i, n in enumerate((1100, 5000, 33000))]
    # hunks with many lines, many hunks
    js += [J(h, i % 2, 1, n, 7 if i % 2 else 5, 1, 1000, 2, T(rep(n - n // 4), sym(1, 2), rep(n // 2), sym(1, 2))) for i, n in enumerate((20, 40, 70, 140, 300))]
    q = "h_apply_placed"
    js += [J(q, i, T(many(300), hunk(1, 3, 1)), T(pad(300), sym(2, 2))) for i in range(2)] + [J(q, i, T(many(300)), T(pad(255 + i), says(1, 12), pad(44 - i, 256 + i))) for i in range(2)]
    js += [J(q, 0, T(lit(10), lit(16), says(1), lit(17), says(1, 3), lit(18), says(1, 2)), T(pad(2), says(1), says(1, 2))),
           J(q, 1, T(lit(10), lit(18), fill(300), raw(1, 0), lit(5), lit(16), fill(70), raw(1, 2), lit(5), lit(17), raw(1, 1), lit(5)), T(fill(300), raw(1, 0), lit(5), fill(70), raw(1, 2), lit(5))),
           J(q, 0, T(lit(12), lit(5), lit(18), chars(1, 2), lit(5), lit(16), chars(1, 3), lit(5), lit(7), lit(17), chars(1, 4), lit(5)), T(chars(1, 2), lit(5), chars(1, 3))),
           J(q, 1, T(hunk(2, 1, 1)), T(pad(1), sym(1, 1), says(1, 4))),
           J(q, 0, T(lit(10), lit(18), fill(300), raw(1, 0), lit(5), lit(16), fill(70), raw(1, 2), lit(5), lit(17), raw(1, 9), lit(5)), T(pad(5), fill(300), raw(1, 0), lit(5), fill(70), raw(1, 2), lit(5), pad(2, 20))),
           J(q, 0, T(hunk(2, 1), hunk(2, 1, 2)), T(sym(2, 2), pad(2), sym(2, 2)))]
    js += [J(h, S, 1, 9, 7, 1, 0, 1, T(rep(3), sym(2, 2), rep(9))), J(h, B, 1, 12, 5, 1, 0, 2, T(pad(2), rep(7), sym(1, 2), rep(6))),
           J(h, S, 4, *[x for i in range(3) for x in (1, 5, 1, 1000 + 3 * i, 0)], 1, 2, 2, 1010, 0, T(*[x for i in range(3) for x in (pad(3, 10 * i), rep(1))], pad(2, 900), sym(2, 2)))]
    if deep:
        js += [J(h, S, 2, 2, 0, 2, 0, 2, 2, 0, 2, 0, 3, T(sym(5, 2))), J(h, S, 3, 1, 0, 2, 0, 2, 1, 0, 2, 0, 3, 1, 0, 2, 0, 4, T(sym(4, 2))),
               J(h, B, 1, 4, 0, 2, 0, 3, T(sym(6, 2))), J(h, S, 2, 3, 0, 2, 0, 1, 2, 0, 2, 3, 3, T(sym(6, 2)))]
    return js


@prop
def C10(deep):
    h = "h_apply_nearest"
    js = [J(h, S, 1, 2, 0, 2, 0, 4, T(sym(4, 2), end=KEEP)), J(h, B, 1, 1, 3, 2, 0, 7, T(sym(6, 2), end=KEEP)), J(h, S, 1, 1, 3, 2, 102, 1, T(sym(3, 2), end=KEEP)), J(h, S, 1, 1, 3, 2, 102, 2, T(sym(3, 2), end=KEEP)), J(h, S, 1, 1, 3, 2, 102, 3, T(sym(3, 2), end=KEEP)),
          J(h, B, 1, 2, 0, 2, 103, 0, T(sym(4, 2), end=KEEP)), J(h, S, 1, 2, 4, 2, 0, 5, T(sym(5, 2), end=KEEP)),
          J(h, S, 2, 1, 0, 2, 0, 3, 1, 0, 2, 0, 5, T(sym(4, 2), end=KEEP)), J(h, B, 2, 2, 3, 2, 0, 2, 1, 3, 2, 2, 5, T(sym(5, 2), end=KEEP)),
          J(h, S, 2, 1, 2, 2, 0, 3, 2, 3, 2, 2, 4, T(sym(5, 2), end=KEEP)), J(h, S, 1, 3, 0, 2, 0, 3, T(sym(5, 2), end=KEEP)),
          J(h, S, 1, 1, 3, 2, 0, 12, T(sym(4, 2), pad(8), sym(1, 2), end=KEEP)), J(h, B, 1, 2, 3, 2, 102, 4, T(sym(5, 2), end=KEEP))]
    # far from the line named
    e = dict(end=KEEP)
    js += [J(h, S, 1, 2, 3, 2, 1150, 2, T(pad(300), sym(3, 2), pad(300, 1000), **e)), J(h, B, 1, 1, 3, 2, 1000, 0, T(pad(1100), sym(2, 2), **e)),
           J(h, S, 1, 1, 3, 2, 1100, 3, T(sym(2, 2), pad(200), sym(2, 2), **e)), J(h, B, 1, 1, 3, 2, 1998, 9, T(sym(2, 2), pad(900), **e)),
           J(h, S, 1, 1, 3, 2, 1256, 1, T(sym(1, 2), pad(255), sym(1, 2), pad(255, 1000), sym(1, 2), **e)), J(h, B, 1, 2, 3, 2, 1060, 1, T(sym(2, 2), pad(58), sym(2, 2), pad(58, 1000), sym(2, 2), **e)),
           J(h, B, 2, 1, 0, 2, 1250, 1, 2, 3, 2, 1255, 1, T(pad(200), sym(2, 2), pad(100, 1000), sym(3, 2), **e)),
           J(h, S, 1, 100, 7, 1, 1000, 2, T(rep(80), sym(1, 2), rep(40), sym(1, 2), rep(30), **e)), J(h, B, 1, 300, 5, 1, 1090, 1, T(rep(280), sym(1, 2), rep(100), sym(1, 2), rep(25), **e)),
          J(h, S, 13, *[x for i in range(12) for x in (1, 5, 1, 1000 + 7 * i, 0)], 1, 3, 2, 1070, 2, T(*[x for i in range(12) for x in (pad(3, 10 * i), rep(1))], pad(2, 900), sym(2, 2), **e)),
           J(h, S, 1, 12, 5, 1, 0, 2, T(pad(2), rep(7), sym(1, 2), rep(6), **e))]
    for i, n in enumerate((1100, 2100, 5000, 10000, 33000)):
        js += [J(h, i % 2, 1, 1, 3, 2, 1000, 1, T(pad(n), sym(1, 2), **e)), J(h, i % 2, 1, 1, 3, 2, 1000 + n, 1, T(sym(2, 2), pad(n + 10), **e))]
    js += [J(h, B, 1, 1, 3, 2, 1000 + n, 1, T(sym(1, 2), pad(n - 1), sym(1, 2), pad(n + 2, 100000), **e)) for n in ((130, 600, 1100, 2100, 5000) if deep else (130, 600, 1100))]
    if deep:
        js += [J(h, S, 1, 1, 3, 2, 1000, 1, T(pad(66000), sym(1, 2), **e)), J(h, B, 1, 1, 3, 2, 67000, 1, T(sym(2, 2), pad(66500), **e))]
        js += [J(h, S, 1, 3, 0, 2, 0, 8, T(sym(7, 2), end=KEEP)), J(h, B, 2, 2, 0, 2, 0, 3, 2, 0, 2, 0, 5, T(sym(6, 2), end=KEEP)),
               J(h, S, 3, 1, 0, 2, 0, 2, 1, 0, 2, 0, 3, 1, 0, 2, 0, 4, T(sym(5, 2), end=KEEP)), J(h, S, 1, 2, 3, 2, 0, 12, T(sym(11, 2), end=KEEP))]
    return js


@prop
def C19(deep):
    h = "h_work"
    js = []
    pats = [T(lit(2), digits(3), lit(6), digits(3), lit(3), digits(3), lit(6), digits(3), lit(4), lit(5), lit(20), end=KEEP)]
    for i, w in enumerate(wide(deep)):
        f = [T(lit(2), *w, lit(3), *w, lit(4), lit(5), lit(20), end=KEEP),
             T(lit(2), digits(1), lit(6), *w, lit(3), digits(1), lit(4), lit(5), lit(20), end=KEEP),
             T(lit(2), digits(1), lit(3), *w, lit(6), digits(1), lit(4), lit(5), lit(20), end=KEEP),
             T(lit(11), lit(20), lit(2), *w, lit(3), *w, lit(4), lit(5), lit(20), end=KEEP)]
        pats += f if deep else [f[i % 2 * 3], f[(1, 2)[i % 2]]]
    js += [J(h, S, 400, 64, T(many(40, 2), lit(2), *w, lit(3), *w, lit(4), lit(5), lit(20), end=KEEP), T(pad(300), end=KEEP)) for w in [[num(12), digits(1)]] + wide(deep)[1:2]]
    js += [J(h, B, 400, 64, T(lit(2), *w, lit(6), num(1), lit(3), *w, lit(6), num(1), lit(4), lit(5), lit(20), end=KEEP), T(pad(20), sym(1, 2), end=KEEP)) for w in wide(deep)[:4]]
    bases = [T(sym(2, 2), end=KEEP), T(), T(sym(3, 3), end=KEEP)]
    for i, p in enumerate(pats):
        for b in (bases if deep or i < 3 else bases[i % 3:][:1]):
            js.append(J(h, i % 2, 400, 64, p, b))
    return js


# ---------------------------------------------------------------- merging
def triples(h, pre, deep, ends=(KEEP,), modes=(S, B)):
    """`h mode *pre ancestor ours theirs`; pre is a function of the job's number."""
    js = []

    def add(a, b, c):
        i = len(js)
        js.append(J(h, modes[i % len(modes)], pre(i), a, b, c))
    e = ends[0]
    add(T(sym(2, 3), end=e), T(sym(2, 3), end=e), T(sym(2, 3), end=e))
    add(T(), T(sym(2, 2), end=e), T(sym(2, 2), end=e))
    add(T(sym(3, 2), end=e), T(), T(sym(2, 2), end=e))
    add(T(sym(3, 2), end=e), T(sym(1, 2), end=e), T(sym(4, 2), end=e))
    # a fixed ancestor, changed freely in places that touch, overlap or lie apart
    add(T(pad(3), end=e), T(pad(1), sym(1, 2), pad(1, 2), end=e), T(sym(1, 2), pad(1, 1), sym(1, 2), end=e))
    add(T(pad(4), end=e), T(pad(1), sym(2, 2), pad(2, 2), end=e), T(pad(2), sym(1, 2), pad(1, 3), end=e))
    add(T(pad(4), end=e), T(pad(1), sym(1, 2), pad(3, 1), end=e), T(pad(1), sym(1, 2), pad(1, 2), sym(1, 2), end=e))
    add(T(pad(5), end=e), T(sym(1, 2), pad(2, 1), sym(1, 2), pad(1, 4), end=e), T(pad(2), sym(2, 2), pad(1, 4), end=e))
    add(T(pad(2), rep(2), pad(2, 2), end=e), T(pad(2), sym(3, 2), pad(2, 2), end=e), T(pad(1), sym(3, 2), pad(2, 2), end=e))
    add(T(sym(1, 2), pad(2), sym(1, 2), end=e), T(sym(2, 2), pad(2), sym(1, 2), end=e), T(sym(1, 2), pad(1), sym(2, 2), end=e))
    add(T(sym(3, 3), end=e), T(sym(3, 3), end=e), T(sym(3, 3), end=e))
    add(T(sym(4, 2), end=e), T(sym(4, 2), end=e), T(sym(4, 2), end=e))
    add(T(sym(5, 2), end=e), T(sym(4, 2), end=e), T(sym(3, 2), end=e))
    # large texts, many changes, many conflicts
    add(T(pad(300), sym(1, 2), pad(300, 1000), end=e), T(pad(300), sym(2, 2), pad(300, 1000), end=e), T(pad(300), sym(1, 2), pad(299, 1001), end=e))
    add(T(pad(200), end=e), T(pad(100), sym(2, 2), pad(100, 100), end=e), T(pad(99), sym(1, 2), pad(100, 100), end=e))
    add(T(pad(4), sym(1, 2), pad(4, 10), end=e), T(pad(4), pad(100, 1000), sym(1, 2), pad(4, 10), end=e), T(pad(4), sym(1, 2), pad(100, 2000), pad(4, 10), end=e))
    add(T(pad(4), pad(100, 1000), sym(1, 2), end=e), T(pad(4), sym(1, 2), end=e), T(pad(4), pad(50, 1000), sym(2, 2), end=e))
    # long stretches replaced, removed or put in on one side or both
    for i in range(2):
        add(T(pad(4), pad(300, 1000), pad(4, 10), end=e), T(pad(4), sym(1, 2), pad(4, 10), end=e), T(pad(4), pad(300, 1000), sym(1, 2), pad(3, 11), end=e))
    for i in range(2):
        add(T(pad(4), pad(300, 1000), pad(4, 10), end=e), T(pad(4), sym(1, 2), pad(4, 10), end=e), T(pad(4), pad(299, 1000), sym(1, 2), pad(4, 10), end=e))
        add(T(pad(8), end=e), T(pad(4), pad(300, 1000), sym(1, 2), pad(4, 4), end=e), T(pad(4), sym(1, 2), pad(4, 4), end=e))
        add(T(pad(8), end=e), T(pad(4), pad(300, 1000), sym(1, 2), pad(4, 4), end=e), T(pad(4), pad(300, 1000), sym(1, 2), pad(4, 4), end=e))
        add(T(pad(8), end=e), T(pad(4), sym(1, 2), pad(4, 4), end=e), T(pad(4), sym(1, 2), pad(300, 1000), pad(4, 4), end=e))
        add(T(pad(4), pad(300, 1000), pad(4, 10), end=e), T(pad(4), sym(1, 2), pad(300, 1000), pad(4, 10), end=e), T(pad(4), sym(1, 2), pad(3, 11), end=e))
    a, b, c = [], [], []
    for i in range(12):
        f = i in (1, 10)
        a += [pad(2, 10 * i), rep(1, 0)]
        b += [pad(2, 10 * i), sym(1, 2) if f else rep(1, (1, 0, 1, 2)[i % 4])]
        c += [pad(2, 10 * i), sym(1, 3) if f else rep(1, (2, 1, 1, 0)[i % 4])]
    add(T(*a, end=e), T(*b, end=e), T(*c, end=e))
    a, b, c = [sym(1, 2)], [sym(1, 2)], [sym(1, 2)]
    for i in range(40):
        a += [pad(1, 10 * i), rep(1, 0)]
        b += [pad(1, 10 * i), rep(1, 1)]
        c += [pad(1, 10 * i), rep(2, i % 4)]
    add(T(*a, end=e), T(*b, end=e), T(*c, end=e))
    for n in ((140, 300, 700) if deep else (140, 300)):
        add(T(alt(n, 0), sym(1, 2), end=e), T(alt(n, 1), sym(1, 2), end=e), T(alt(n, 2, 7), sym(1, 2), end=e))
    add(T(fill(300), raw(1, 2), fill(9), lit(5), end=e), T(fill(300), raw(1, 2), fill(9), lit(5), end=e), T(fill(300), raw(1, 2), fill(9), lit(5), end=e))
    if len(ends) > 1:
        for x in ends[1:]:
            add(T(sym(2, 2), end=x), T(sym(2, 2), end=x), T(sym(2, 2), end=x))
            add(T(pad(2), sym(1, 2), end=x), T(pad(2), sym(1, 2), end=x), T(pad(2), sym(2, 2), end=x))
            add(T(pad(1), end=x), T(pad(1), sym(1, 2), end=x), T(sym(2, 2), end=x))
            add(T(sym(3, 2), end=x), T(sym(3, 2), end=x), T(sym(2, 2), end=x))
    if deep:
        add(T(sym(4, 3), end=e), T(sym(4, 3), end=e), T(sym(4, 3), end=e))
        add(T(sym(6, 2), end=e), T(sym(5, 2), end=e), T(sym(5, 2), end=e))
        add(T(pad(7), end=e), T(sym(1, 2), pad(2, 1), sym(2, 2), pad(2, 4), end=e), T(pad(2), sym(2, 2), pad(2, 4), sym(1, 2), end=e))
    return js


@prop
def C11(deep):
    h = "h_merge_identity"
    js = []
    sh = [(T(sym(3, 3)), T(sym(3, 3))), (T(), T(sym(3, 2))), (T(sym(3, 2)), T()), (T(sym(5, 2)), T(sym(3, 2))), (T(sym(2, 2)), T(sym(5, 2))),
          (T(raw(3, 2), end=KEEP), T(raw(3, 2), end=KEEP)), (T(raw(2, 1), end=KEEP), T(raw(2, 1), end=KEEP)),
          (T(sym(1, 2), pad(4), sym(2, 2)), T(sym(2, 2), pad(4), sym(1, 2))), (T(rep(3), sym(2, 2), rep(2)), T(sym(2, 2), rep(3), sym(2, 2))),
          (T(pad(3), sym(2, 2), pad(2, 8)), T(pad(2), sym(3, 2), pad(3, 8))),
          (T(sym(4, 3)), T(sym(4, 3))), (T(sym(6, 2)), T(sym(6, 2))), (T(sym(5, 3)), T(sym(5, 3)))]
    sh += [(T(pad(300), sym(2, 2), pad(300, 1000)), T(pad(299), sym(2, 2), pad(300, 1000))), (T(pad(20), sym(2, 2)), T(pad(10), sym(1, 2), pad(300, 500), sym(1, 2))),
           (T(*[x for i in range(30) for x in (pad(2, 10 * i), rep(1))], sym(1, 2)), T(*[x for i in range(30) for x in (pad(2, 10 * i), rep(i % 4, i % 3))], sym(1, 2))),
           (T(fill(300), raw(1, 2), fill(300), lit(5), sym(1, 2)), T(fill(300), raw(1, 2), fill(300), lit(5), sym(1, 2)))]
    sh += [x for x in ((T(pad(2), pad(300, 1000), sym(1, 2)), T(pad(2), sym(1, 2))), (T(pad(2), sym(1, 2)), T(pad(2), pad(300, 1000), sym(1, 2))), (T(pad(300), sym(1, 2)), T(sym(1, 2), pad(300, 1000)))) for i in range(2)]
    sh += blocks(lambda m, n: (T(fill(n - 2), raw(3, 7), end=KEEP), T(copy(0), raw(2, 7), lit(5), end=KEEP)))
    sh += [(T(alt(n, 0), sym(1, 2), end=KEEP), T(alt(n, 1), sym(1, 2), end=KEEP)) for n in ((140, 270, 700) if deep else (140, 270))]
    if deep:
        sh += [(T(sym(6, 3)), T(sym(6, 3))), (T(sym(9, 2)), T(sym(8, 2))), (T(sym(5, 4)), T(sym(5, 4))), (T(sym(7, 3)), T(sym(6, 3)))]
    for i, (a, b) in enumerate(sh):
        m = B if (2 in b[1:2] and b[3:4] == [1]) else i % 2
        js.append(J(h, m, (i // 2) % 2, (7, 1, 13)[i % 3], a, b))
    return js


@prop
def C12(deep):
    return marked("h_merge_full", lambda i: [1 - i // 2 % 2, (7, 2, 7, 8)[i % 4]], deep) + triples("h_merge_spec", lambda i: [], deep)


@prop
def C13(deep):
    lens = (7, 1, 12, 0, 30)
    js = triples("h_merge_render", lambda i: [i % 2, lens[i % 5]], deep, ends=(KEEP, EITHER))
    js[6:6] = marked("h_merge_full", lambda i: [i // 2 % 2, (7, 7, 3, 7, 0, 1, 12)[i % 7]], deep)
    js += [J("h_merge_render", i % 2, i % 2, n, T(pad(1), sym(1, 2)), T(pad(1), sym(2, 2)), T(pad(1), sym(1, 2))) for i, n in enumerate((2, 8, 64, 300, 1025))]
    js += [J("h_merge_render", S, 0, 7, T(sym(1, 2)), T(sym(1, 2)), T(sym(1, 2))), J("h_merge_render", B, 1, 3, T(sym(1, 2)), T(sym(1, 2)), T(sym(1, 2)))]
    return js


def marked(h, pre, deep, full=True):
    """Triples whose texts contain what markers are made of."""
    js = []

    def add(a, b, c):
        i = len(js)
        js.append(J(h, i % 2, pre(i), a, b, c))
    add(T(marks(1, 3)), T(marks(2, 3)), T(marks(1, 3)))
    add(T(pad(1), marks(1, 2), pad(1, 1)), T(pad(1), marks(1, 5), pad(1, 1)), T(pad(1), marks(2, 5), pad(1, 1)))
    add(T(), T(marks(2, 8)), T(marks(1, 8)))
    add(T(marks(1, 8), end=KEEP), T(marks(1, 8), end=KEEP), T(marks(1, 8), end=KEEP))
    add(T(raw(2, 10), end=KEEP), T(raw(2, 10), end=KEEP), T(raw(2, 10), end=KEEP))
    add(T(raw(1, 10), lit(5)), T(raw(1, 10), lit(5)), T(raw(3, 10), end=KEEP))
    add(T(raw(2, 4), end=KEEP), T(raw(2, 4), end=KEEP), T(raw(2, 4), end=KEEP))
    add(T(blank(2, 2)), T(blank(2, 3)), T(blank(2, 3)))
    add(T(blank(1, 2), pad(1), blank(1, 2)), T(blank(2, 2), pad(1), blank(1, 3)), T(blank(1, 3), pad(1), blank(2, 2)))
    add(T(pad(2), sym(1, 2)), T(pad(2), sym(2, 2)), T(pad(2), blank(2, 2)))
    if full:
        add(T(sym(3, 2)), T(sym(3, 2)), T(sym(3, 2)))
        add(T(sym(2, 3)), T(sym(2, 3)), T(sym(2, 3)))
        add(T(raw(1, 1), end=KEEP), T(raw(1, 1), end=KEEP), T(raw(1, 1), end=KEEP)) if len(js) % 2 else None
    if deep:
        add(T(marks(2, 3)), T(marks(2, 4)), T(marks(2, 4)))
        add(T(marks(2, 5)), T(marks(2, 5)), T(marks(1, 5)))
        add(T(raw(3, 10), end=KEEP), T(raw(3, 10), end=KEEP), T(raw(2, 10), end=KEEP))
    return js


@prop
def C14(deep):
    return marked("h_merge_swap", lambda i: [i % 2, (7, 2, 9)[i % 3]], deep, False) + triples("h_merge_symmetric", lambda i: [i % 2], deep)


# ---------------------------------------------------------------- the rest
@prop
def C15(deep):
    js = []
    for c in (0, 1, D):
        js.append(J("h_twin_create", c, T(sym(3, 3)), T(sym(3, 3))))
    js += [J("h_twin_create", 1, T(multi(3, 3)), T(multi(3, 3))), J("h_twin_create", 1, T(chars(1, 2), lit(5), chars(1, 3), lit(5)), T(chars(1, 3), lit(5), chars(1, 4), lit(5))),
           J("h_twin_create", 1, T(raw(3, 4), end=KEEP), T(raw(3, 4), end=KEEP)), J("h_twin_create", 3, T(sym(1, 2), pad(7), sym(1, 2)), T(sym(1, 2), copy(1), sym(1, 2))),
           J("h_twin_create", 0, T(raw(2, 0), end=KEEP), T(raw(2, 0), end=KEEP)), J("h_twin_create", 2, T(sym(4, 3)), T(sym(4, 3)))]
    js += [J("h_twin_create", c, T(pad(300), sym(1, 2), pad(300, 5000)), T(copy(0), sym(2, 2), copy(2))) for c in (0, 4)]
    js += [J("h_twin_create", 1, T(fill(300), chars(1, 3), fill(5), lit(5), sym(1, 2)), T(fill(300), chars(1, 3), fill(5), lit(5), sym(1, 2))), J("h_twin_create", 1, T(chars(1, 5), lit(5)), T(chars(1, 5), sym(1, 2))),
           J("h_twin_apply", T(many(30, 3), hunk(1, 3, 1)), T(pad(130), sym(1, 2))), J("h_twin_apply", T(many(300), hunk(1, 3, 1)), T(pad(300), sym(2, 2))), J("h_twin_apply", T(many(300)), T(pad(255), says(1, 12), pad(44, 256))),
           J("h_twin_apply", T(many(300)), T(pad(298), says(1, 12), pad(1, 299))), J("h_twin_apply", T(lit(2), num(1), digits(2), lit(3), num(1), digits(2), lit(4), lit(5), lit(20), end=KEEP), T(pad(15), sym(2, 2), pad(5, 1000)))]
    js += [J("h_twin_merge", i, (7, 300)[i], T(pad(100), sym(1, 2), pad(4, 1000)), T(pad(100), sym(2, 2), pad(3, 1001)), T(pad(99), sym(1, 2), pad(4, 1000))) for i in (0, 1)]
    js += blocks(lambda m, n: J("h_twin_create", m, T(fill(n - 2), raw(4, 7), fill(2), raw(1, 7), end=KEEP), T(copy(0), raw(2, 7), fill(3), lit(5))))
    js += blocks(lambda m, n: J("h_twin_merge", m, 7, T(fill(n - 2), raw(3, 7), end=KEEP), T(copy(0), raw(2, 7), lit(5), end=KEEP), T(copy(0), raw(2, 7), fill(3), lit(5), end=KEEP)))
    js += blocks(lambda m, n: J("h_twin_merge", m, 7, T(fill(n - 2), raw(1, 7), end=KEEP), T(copy(0), raw(2, 7), lit(5), end=KEEP), T(copy(0), raw(2, 7), lit(5), end=KEEP)))
    js += blocks(lambda m, n: J("h_twin_apply", T(lit(11), lit(16), fill(n - 3), raw(3, 2), lit(5), lit(17), fill(5)), T(fill(n - 2), raw(3, 2), sym(1, 2))))
    js += [J("h_twin_merge", 1, 7, T(fill(300), chars(1, 2), lit(5)), T(fill(300), chars(1, 2), lit(5)), T(fill(300), chars(1, 2), lit(5)))]
    for t in hunks(deep) + bodies(deep) + headers(deep)[:3] + raws(deep):
        js.append(J("h_twin_parse", t))
    js += [J("h_twin_parse", T(lit(0), chars(1, 2), lit(5), lit(1), lit(19), chars(1, 3), lit(19), lit(5), lit(12), lit(18), chars(1, 4), lit(5), lit(13), end=KEEP)),
           J("h_twin_apply", T(lit(10), body(3, 1)), T(sym(3, 2))), J("h_twin_apply", T(lit(11), lit(16), chars(1, 2), lit(5), lit(17), chars(1, 2), lit(5)), T(chars(1, 2), lit(5), chars(1, 2))),
           J("h_twin_apply", T(lit(2), digits(1), lit(3), digits(1), lit(4), lit(5), body(2, 2), end=KEEP), T(sym(3, 2))),
           J("h_twin_apply", T(lit(11), lit(20), lit(2), digits(1), lit(3), digits(1), lit(4), lit(5), body(2, 2), end=KEEP), T(sym(3, 2)))]
    for i in range(2):
        js += [J("h_twin_merge", i, (7, 3)[i], T(sym(2, 2)), T(sym(2, 2)), T(sym(2, 2))), J("h_twin_merge", i, (7, 12)[i], T(multi(2, 2), end=KEEP), T(multi(2, 2), end=KEEP), T(multi(2, 2), end=KEEP)),
               J("h_twin_merge", i, 7, T(pad(2), sym(1, 2)), T(sym(2, 2), pad(1, 1)), T(pad(1), sym(2, 2))), J("h_twin_merge", i, 7, T(), T(sym(2, 2)), T(sym(1, 2)))]
    js += [J("h_twin_merge", 0, 7, T(raw(2, 4), end=KEEP), T(raw(2, 4), end=KEEP), T(raw(2, 4), end=KEEP)), J("h_twin_merge", 1, 7, T(sym(3, 2)), T(sym(3, 2)), T(sym(3, 2)))]
    if deep:
        js += [J("h_twin_create", c, T(sym(5, 3)), T(sym(5, 3))) for c in (0, 1, 3)]
        js += [J("h_twin_merge", i, 7, T(sym(4, 2)), T(sym(4, 2)), T(sym(4, 2))) for i in (0, 1)]
    return js


@prop
def C16(deep):
    h = "h_format"
    js = [J(h, c % 2, c, T(sym(2, 3)), T(sym(2, 3))) for c in (0, 1, D)]
    js += [J(h, S, 3, T(blank(3, 2)), T(blank(3, 2))), J(h, B, 1, T(blank(3, 3)), T(blank(2, 3))), J(h, S, 3, T(pad(1), blank(2, 2)), T(copy(0), blank(2, 3))),
           J(h, B, 2, T(raw(2, 9), lit(5), sym(1, 2)), T(raw(2, 9), lit(5), sym(1, 2))), J(h, S, 1, T(raw(2, 4), end=KEEP), T(raw(3, 4), end=KEEP)),
           J(h, S, 0, T(sym(1, 2), pad(2), sym(1, 2)), T(sym(1, 2), copy(1), sym(1, 2))), J(h, B, D, T(sym(1, 2), pad(8), sym(1, 2)), T(sym(1, 2), copy(1), sym(1, 2))),
           J(h, B, 3, T(sym(3, 2)), T(sym(3, 2))), J(h, B, 1, T(raw(2, 1), end=KEEP), T(raw(1, 1), end=KEEP)), J(h, S, 1, T(chars(1, 2), lit(5)), T(chars(1, 3), lit(5))),
           J(h, S, 3, T(), T(blank(2, 2))), J(h, B, 3, T(blank(2, 2)), T())]
    js += bigs(h, deep)
    # patches from elsewhere: headings, one name or none, hunks of any kind of line
    js += [J("h_format_parsed", i % 2, t) for i, t in enumerate(bodies(deep) + headers(deep)[:3] + large(deep)[:8])]
    js += [J("h_format_parsed", S, T(hunk(3, 5))), J("h_format_parsed", B, T(lit(0), lit(19), raw(2, 6), lit(19), lit(5), hunk(2, 2))),
           J("h_format_parsed", S, T(lit(1), raw(2, 6), lit(5), lit(12), lit(18), raw(2, 5), lit(5), lit(20), lit(7))),
           J("h_format_parsed", B, T(lit(0), raw(1, 1), lit(5), lit(12), lit(18), raw(1, 1), lit(5), lit(16), raw(1, 1), lit(5), lit(17), raw(1, 1), lit(5)))]
    if deep:
        js += [J(h, S, 3, T(blank(4, 3)), T(blank(4, 3))), J(h, B, 1, T(sym(4, 3)), T(sym(4, 3))), J(h, S, 2, T(raw(3, 9), end=KEEP), T(raw(3, 9), end=KEEP))]
    return js


@prop
def C17(deep):
    h = "h_writer"
    js = []
    one = (T(sym(1, 2)), T(sym(1, 2)))
    two = (T(blank(2, 2)), T(blank(2, 2)))
    spl = (T(sym(1, 2), pad(3), sym(1, 2)), T(sym(1, 2), pad(3), sym(1, 2)))
    for fl in range(8):
        js.append(J(h, fl % 2, fl, 1, 0, 64, 60, *one))
        js.append(J(h, (fl + 1) % 2, fl, 0, 0, 64, 90, *spl))
    for fl in (8, 9):
        js.append(J(h, fl % 2, fl, 1, 0, 64, 60, *one))
    for k in (1, 2, 4):
        js.append(J(h, S, 0, 1, k, 64, 60, *one))
        js.append(J(h, B, 9, 1, k, 64, 70, *two))
    for ch in (1, 2, 3, 7):
        js.append(J(h, B, ch % 8, 1, 0, ch, 250, *two))
    for fl in (0, 1, 2, 4):
        js.append(J(h, S, fl, 1, 0, 64, 60, *two))
    js.append(J(h, S, 0, 1, 3, 64, 30, *one))
    # long lines, many lines, many hunks
    for ch in (10000, 100, 4096):
        js.append(J(h, B, ch % 8, 1, 0, ch, 90, T(fill(300), raw(1, 2), fill(5000), lit(5), sym(1, 2)), T(fill(300), raw(1, 2), lit(5), sym(1, 2))))
    for k in (0, 1, 2):
        js.append(J(h, S, k, 3, k, 500, 200, T(pad(30), rep(1), pad(30, 100), sym(1, 2)), T(copy(0), rep(2, 1), copy(2), sym(1, 2))))
    js.append(J(h, B, 3, 0, 0, 7, 255, T(pad(30), sym(1, 2)), T(pad(30, 1000), sym(1, 2))))
    # patches from elsewhere: headings, one name or none, markers within a hunk
    q = "h_writer_parsed"
    head = T(lit(12), lit(18), fill(20), raw(1, 0), lit(5), lit(13))
    mark = T(lit(1), lit(19), lit(21), raw(1, 6), lit(19), lit(5), lit(12), lit(18), raw(1, 0), lit(5), lit(16), raw(1, 2), lit(5), lit(7), lit(17), raw(1, 2), lit(5), lit(7))
    name = T(lit(0), fill(9), raw(2, 6), lit(5), lit(11), lit(20))
    for i, ch in enumerate((1, 3, 7, 64)):
        js += [J(q, i % 2, i, 0, ch, 120, head), J(q, (i + 1) % 2, i + 4, (2, 0, 1, 0)[i], ch, 120, mark), J(q, i % 2, i, (0, 2, 0, 1)[i], ch, 90, name)]
    js += [J(q, S, 0, 3, 64, 40, head), J(q, B, 1, 4, 9, 60, mark), J(q, S, 0, 0, 5, 150, T(hunk(3, 5))), J(q, B, 1, 4, 3, 150, T(lit(22), body(4, 1))),
           J(q, S, 0, 0, 11, 120, T(lit(12), lit(18), fill(300), raw(1, 0), lit(5), lit(13))), J(q, B, 4, 4, 4096, 60, T(lit(12), lit(18), fill(5000), raw(1, 0), lit(5), lit(13)))]
    if deep:
        for fl in range(8):
            js.append(J(h, fl % 2, fl, 1, 3, 64, 50, *two))
            js.append(J(h, fl % 2, fl, 1, 0, 1, 250, *spl))
    return js


@prop
def C18(deep):
    k = 1 if deep else 0
    h = "h_names_set"
    js = [J(h, S, 0, T(fill(300), raw(1, 0), fill(5), end=KEEP), T(fill(60), raw(1, 6), fill(300, "\t"), end=KEEP)), J(h, B, 0, T(fill(300, "\\"), raw(1, 0), end=KEEP), T(fill(1030), raw(2, 6), fill(9, '"'), end=KEEP)),
          J(h, S, 0, T(chars(1, 5), raw(1, 6), end=KEEP), T(raw(1, 6), chars(1, 5), end=KEEP)),
          J(h, S, 0, T(raw(1, 0), end=KEEP), T(raw(1, 0), end=KEEP)), J(h, B, 0, T(raw(2 + k, 6), end=KEEP), T(raw(2, 6), end=KEEP)), J(h, S, 1, T(), T(raw(3 + k, 6), end=KEEP)),
          J(h, B, 2, T(raw(3 + k, 6), end=KEEP), T()), J(h, B, 2, T(raw(2 + k, 0), end=KEEP), T()), J(h, S, 1, T(), T(raw(2 + k, 0), end=KEEP)),
          J(h, S, 0, T(chars(1, 2), raw(1, 6), end=KEEP), T(raw(1, 6), chars(1, 3), end=KEEP)), J(h, S, 1, T(), T(raw(1, 6), chars(1, 4), end=KEEP)), J(h, S, 3, T(), T()),
          J(h, S, 0, T(), T(), ), J(h, S, 0, T(lit(20, 3), raw(1, 6), lit(21), raw(1, 6), lit(19)), T(lit(19), raw(2, 6), lit(19), end=KEEP))]
    h = "h_names_parse"
    js += [J(h, S, T(lit(0), raw(4 + k, 6), lit(5), end=KEEP)), J(h, B, T(lit(1), raw(4 + k, 6), lit(5), end=KEEP)), J(h, S, T(lit(0), lit(19), raw(4 + k, 6), lit(19), lit(5), end=KEEP)),
           J(h, B, T(lit(1), raw(3, 0), lit(5), end=KEEP)), J(h, S, T(lit(0), lit(19), raw(3, 0), lit(19), lit(5), end=KEEP)), J(h, S, T(lit(0), raw(2, 6), lit(21), raw(2, 6), lit(5), end=KEEP)),
           J(h, S, T(lit(0), raw(2, 6), lit(5), lit(1), raw(2, 6), lit(5), end=KEEP)), J(h, B, T(lit(1), raw(2, 6), lit(5), lit(0), raw(2, 6), end=KEEP)),
           J(h, S, T(lit(0), lit(19), chars(1, 2), raw(2, 6), lit(19), raw(1, 6), end=KEEP)), J(h, S, T(lit(0), raw(1, 5), lit(5), lit(0), raw(1, 5), lit(5), end=KEEP)),
           J(h, S, T(raw(5, 5), raw(1, 6), lit(5), end=KEEP)), J(h, S, T(lit(0), fill(300), raw(2, 6), fill(3), lit(5), end=KEEP)), J(h, B, T(lit(1), lit(19), fill(300), raw(2, 6), lit(19), lit(5), end=KEEP)),
           J(h, S, T(lit(0), chars(1, 5), raw(1, 6), lit(5), end=KEEP))]
    return js


@prop
def C20(deep):
    h = "h_final_newline"
    js = pairs(h, deep)
    for c in (0, 1, 3):
        js.insert(6, J(h, c % 2, c, T(pad(5), sym(1, 2)), T(copy(0), sym(1, 2))))
        js.insert(6, J(h, c % 2, c, T(sym(1, 2), pad(4)), T(sym(1, 2), pad(4))))
    return js


@prop
def C21(deep):
    h = "h_standard"
    js = pairs(h, deep)
    js[4:4] = [J(h, B, 1, T(raw(2, 3), lit(5), raw(1, 3), end=KEEP), T(raw(2, 3), lit(5), raw(1, 3), end=KEEP)),
               J(h, S, 1, T(pad(1), says(1), pad(1, 9)), T(copy(0), says(1), copy(2))), J(h, B, 1, T(pad(1), says(1)), T(pad(1), says(1))),
               J(h, B, 0, T(pad(12000), sym(1, 2), pad(3, 20000), end=KEEP), T(copy(0), sym(1, 2), copy(2), end=KEEP)),
               J(h, S, 0, T(pad(12000), sym(1, 2), pad(3, 20000), end=KEEP), T(copy(0), copy(2), sym(1, 2), end=KEEP)),
               J(h, B, 0, T(pad(10), sym(2, 2), pad(101, 100)), T(copy(0), sym(1, 2), copy(2))), J(h, S, 0, T(pad(10), sym(1, 2), pad(101, 100)), T(copy(0), sym(2, 2), copy(2))),
               J(h, S, 3, T(chars(1, 2), lit(5), chars(1, 3), lit(5)), T(chars(1, 4), lit(5), chars(1, 2), lit(5)))]
    h = "h_standard_parsed"
    plain = [t for t in hunks(deep) + bodies(deep) + headers(deep) if not any(x[1] == 2 and x[3] == 6 for x in [[0] + t[1 + 3 * i:4 + 3 * i] for i in range(t[0])])]
    js[8:8] = [J(h, i % 2, t) for i, t in enumerate(plain)]
    js[8:8] = [J(h, S, T(lit(12), lit(18), raw(2, 0), lit(5), lit(13))), J(h, B, T(lit(12), lit(18), raw(2, 1), lit(5), lit(13))),
               J(h, B, T(lit(22), blank(3, 3), lit(18), raw(1, 3), lit(5))), J(h, S, T(lit(12), lit(18), chars(1, 2), lit(5), lit(13)))]
    return js


@prop
def C22(deep):
    h = "h_pure"
    js = []
    k = 1 if deep else 0
    for c in (0, 1, D):
        js.append(J(h, c % 2, c, T(sym(3, 3)), T(sym(3, 3))))
    js += [J(h, S, 3, T(), T(sym(3, 2))), J(h, B, 0, T(sym(3, 2)), T()), J(h, S, 1, T(), T()),
           J(h, S, 2, T(blank(3, 3)), T(blank(2, 3))), J(h, B, 1, T(sym(4 + k, 2)), T(sym(4, 2))),
           J(h, B, D, T(pad(1), sym(2, 2), pad(9, 20), sym(1, 2)), T(copy(0), sym(1, 2), copy(2), sym(2, 2))),
           J(h, S, 1, T(raw(2 + k, 2), end=KEEP), T(raw(3, 2), end=KEEP)), J(h, B, 0, T(raw(2, 7), raw(1, 1), end=KEEP), T(raw(2, 7), end=KEEP)),
           J(h, S, 1, T(multi(2, 2), sym(1, 2)), T(multi(1, 3))),
           J(h, S, 3, T(pad(300), sym(1, 2), pad(100, 1000)), T(copy(0), sym(2, 2), copy(2))),
           J(h, B, 1, T(alt(40, 0), sym(1, 2)), T(alt(40, 1), sym(1, 2))), J(h, S, 0, T(sym(2, 2), pad(300)), T(sym(1, 2), copy(1), sym(1, 2)))]
    h = "h_pure_merge"
    for i, t in enumerate([(T(sym(2, 2)), T(sym(2, 2)), T(sym(2, 2))), (T(sym(1, 3)), T(sym(2, 2)), T(sym(1, 2))), (T(), T(sym(2, 2)), T(sym(1, 2))),
                           (T(pad(3)), T(pad(1), sym(1, 2), pad(1, 2)), T(sym(1, 2), pad(1, 1), sym(1, 2))),
                           (T(sym(3, 2), end=KEEP), T(sym(2 + k, 2), end=KEEP), T(sym(2, 2), end=KEEP)),
                           (T(pad(60), sym(1, 2), pad(60, 100)), T(pad(60), sym(1, 2), pad(60, 100)), T(pad(59), sym(2, 2), pad(60, 100))),
                           (T(raw(1, 7), end=KEEP), T(raw(2, 7), end=KEEP), T(raw(1 + k, 7), end=KEEP))]):
        js.append(J(h, i % 2, i % 2, (7, 3, 1)[i % 3], *t))
        js.append(J(h, 1 - i % 2, 1 - i % 2, (7, 3, 1)[i % 3], *t))
    return js


@prop
def C23(deep):
    h = "h_late"
    js, seen = [], set()
    more = [J(h, i % 2, 3, *x) for i, x in enumerate([(T(alt(30, 0), sym(2, 2)), T(alt(30, 1), sym(3, 2))), (T(alt(300, 0), sym(1, 2)), T(alt(300, 1), sym(2, 2))),
            (T(alt(30, 0), sym(3, 2)), T(alt(30, 1), sym(2, 2))), (T(rep(150), sym(1, 2)), T(rep(300), sym(2, 2))), (T(rep(300), sym(1, 2)), T(rep(150), sym(2, 2))), (T(sym(1, 2), rep(3000)), T(rep(1500), sym(1, 2))),
             (T(sym(2, 2), pad(1), alt(30, 0)), T(sym(3, 2), pad(1), alt(30, 1)))])]
    for x in pairs(h, deep)[:6] + more + pairs(h, deep)[6:] + C04(deep):
        y = J(h, x.cfg[0], x.cfg[2:])
        key = tuple(y.cfg[1:])
        # (what takes more paths than fit a quick check is left to the thorough one)
        big = T(sym(6, 3)), T(sym(8, 2)), T(sym(9, 2))
        if key not in seen and (deep or not any(y.cfg[1:1 + len(t)] == t for t in big)):
            seen.add(key)
            js.append(y)
    return js


DIFF_COST = (300, 500, 300)
MERGE_COST = (300, 500, 300)


@prop
def C24(deep):
    js = []
    e = KEEP
    h = "h_cost_diff"
    ps = [(T(sym(3, 3)), T(sym(3, 3))), (T(), T(pad(300), sym(1, 2))), (T(pad(300), sym(1, 2)), T()),
          (T(pad(2000), sym(2, 2), pad(2000, 5000), end=e), T(copy(0), sym(2, 2), copy(2), end=e)),
          (T(pad(30000), sym(1, 2), end=e), T(copy(0), sym(2, 2), end=e)),
          (T(sym(1, 2), pad(30000), end=e), T(sym(2, 2), copy(1), end=e)),
          (T(rep(8000), sym(2, 2), end=e), T(rep(7990), sym(2, 2), end=e)),
          (T(sym(1, 2), pad(1000), sym(1, 2), pad(1000, 2000), end=e), T(sym(1, 2), copy(1), pad(20, 9000), sym(1, 2), copy(3), end=e)),
          (T(alt(300, 0), sym(1, 2), end=e), T(alt(300, 1), sym(1, 2), end=e)),
          (T(pad(400), sym(1, 2), end=e), T(pad(400, 1000), sym(1, 2), end=e)),
          (T(pad(2), sym(1, 2), end=e), T(pad(2), pad(1200, 100), sym(1, 2), end=e)),
          (T(fill(20000), raw(2, 7), fill(20000), end=e), T(copy(0), raw(1, 7), copy(2), end=e)),
          (T(pad(3000), fill(30000), raw(1, 7), end=e), T(copy(0), copy(1), raw(1, 7), end=e)),
          (T(lit(5, 20000), blank(2, 2), end=e), T(lit(5, 20000), blank(2, 2), end=e))]
    for i, (a, b) in enumerate(ps):
        js.append(J(h, i % 2, (3, 0, 1, D)[i % 4], DIFF_COST, a, b))
        js.append(J(h, 1 - i % 2, (0, 3, 100, 1 << 20)[i % 4], DIFF_COST, b, a)) if not any(x == 4 for x in b[1::3]) else None
    h = "h_cost_merge"
    ts = [(T(sym(2, 3), end=e), T(sym(2, 3), end=e), T(sym(2, 2), end=e)),
          (T(pad(2000), end=e), T(pad(1000), sym(2, 2), pad(1000, 1000), end=e), T(pad(999), sym(1, 2), pad(1000, 1000), end=e)),
          (T(pad(15000), end=e), T(pad(15000), sym(1, 2), end=e), T(sym(1, 2), pad(15000), end=e)),
          (T(alt(200, 0), sym(1, 2), end=e), T(alt(200, 1), sym(1, 2), end=e), T(alt(200, 2, 7), sym(1, 2), end=e)),
          (T(alt(200, 0), sym(1, 2), end=e), T(alt(200, 1), sym(1, 2), end=e), T(alt(200, 0), sym(1, 2), end=e)),
          (T(rep(600), sym(1, 2), end=e), T(rep(590), sym(2, 2), end=e), T(rep(605), sym(1, 2), end=e)),
          (T(pad(2), sym(1, 2), end=e), T(pad(2), pad(1000, 100), sym(1, 2), end=e), T(pad(2), sym(1, 2), pad(1000, 5000), end=e))]
    for i, t in enumerate(ts):
        js.append(J(h, i % 2, i % 2, MERGE_COST, *t))
        js.append(J(h, 1 - i % 2, 1 - i % 2, MERGE_COST, *t))
    return js


# ---------------------------------------------------------------- patches as values
@prop
def C25(deep):
    h = "h_undo"
    js = []
    ts = [(T(hunk(2, 0)), T(sym(2, 2))), (T(hunk(3, 1)), T(sym(2, 2))), (T(hunk(3, 3, 2)), T(sym(3, 2))), (T(hunk(2, 4, 1)), T(sym(2, 2))),
          (T(hunk(2, 0), hunk(1, 0, 1)), T(sym(3, 2))), (T(hunk(1, 3, 1), hunk(1, 3, 1), hunk(1, 3, 1)), T(sym(3, 2))),
          (T(hunk(1, 0, 1), hunk(2, 3, 2)), T(sym(4, 2))), (T(hunk(1, 3, 1, 1), hunk(1, 0, 1, 1)), T(sym(3, 2))),
          (T(hunk(1, 3), kinds(1, 4), hunk(1, 3, 1)), T(sym(2, 2))), (T(hunk(1, 7, 1), hunk(1, 7, 1), hunk(2, 3, 1)), T(sym(4, 2))),
          (T(), T(sym(2, 2))), (T(lit(8)), T(sym(1, 2))), (T(lit(8), lit(14)), T()),
          (T(lit(0), raw(1, 6), lit(5), lit(1), raw(1, 6), lit(5), hunk(2, 3)), T(sym(1, 2))),
          (T(lit(2), digits(1), lit(6), digits(1), lit(3), digits(1), lit(6), digits(1), lit(4), lit(9), kinds(2, 3)), T(sym(3, 2))),
          (T(lit(2), digits(1), lit(3), digits(1), lit(4), lit(18), raw(1, 0), lit(5), lit(20)), T(pad(3), lit(16), sym(1, 2))),
          (T(lit(2), digits(1), lit(6), num(0), lit(3), digits(1), lit(4), lit(5), lit(17), sym(1, 2)), T(pad(4))),
          (T(lit(2), digits(1), lit(3), digits(1), lit(6), num(0), lit(4), lit(5), lit(16), sym(1, 2)), T(pad(2), sym(2, 2), pad(2, 9))),
          (T(lit(10), lit(16), says(1), lit(17), says(1, 3), lit(18), says(1, 2)), T(says(1, 2), says(1, 2))),
          (T(lit(12), lit(5), lit(18), chars(1, 2), lit(5), lit(16), chars(1, 3), lit(5), lit(7), lit(17), chars(1, 4), lit(5)), T(chars(1, 2), lit(5), chars(1, 3))),
          (T(many(300), hunk(1, 3, 1)), T(pad(300), sym(2, 2))), (T(many(300, 2), hunk(1, 3, 1)), T(pad(900), sym(2, 2))), (T(many(40, 2), hunk(2, 0, 1)), T(pad(120), sym(2, 2))),
          (T(lit(12), lit(9), kinds(3, 0)), T(sym(2, 2))), (T(lit(8), lit(12), lit(9), kinds(3, 0)), T(sym(2, 2))), (T(lit(22), kinds(4, 0)), T(sym(3, 2))),
          (T(lit(10), lit(18), fill(300), raw(1, 0), lit(5), lit(17), says(1, 3), lit(16), fill(70), raw(1, 2), lit(5)), T(fill(300), raw(1, 0), lit(5), fill(70), raw(1, 2), lit(5))),
          (T(hunk(2, 1)), T(sym(2, 1)))]
    for i, (p, b) in enumerate(ts):
        js.append(J(h, i % 2, p, b))
        if deep:
            js.append(J(h, 1 - i % 2, p, b))
    if deep:
        js += [J(h, S, T(hunk(4, 0, 1)), T(sym(4, 2))), J(h, B, T(hunk(2, 0, 1), hunk(2, 0, 1)), T(sym(4, 2))), J(h, S, T(hunk(5, 1)), T(sym(4, 2))),
               J(h, B, T(hunk(1, 0, 1), hunk(1, 0, 1), hunk(1, 0, 1), hunk(1, 0, 1)), T(sym(5, 2)))]
    return js


@prop
def C26(deep):
    h = "h_equal"
    js = []
    k = 1 if deep else 0
    head = [lit(2), digits(1), lit(6), digits(1), lit(3), digits(1), lit(6), digits(1), lit(4)]
    ts = [(T(hunk(2, 0)), T(hunk(2, 0))), (T(hunk(1, 4), kinds(1, 4)), T(hunk(1, 4), kinds(1, 4))), (T(hunk(3, 1)), T(copy(0), lit(7))),
          (T(hunk(1, 3, 1), hunk(1, 3, 1)), T(hunk(1, 3, 1), hunk(1, 3, 1))),
          (T(lit(11), lit(16), raw(1, 0), lit(5), lit(17), raw(1, 0), lit(5)), T(lit(11), lit(16), raw(1, 0), lit(5), lit(17), raw(1, 0), lit(5))),
          (T(lit(12), lit(18), raw(1 + k, 6), lit(5), lit(13)), T(lit(12), lit(18), raw(1 + k, 6), lit(5), lit(13))),
          (T(lit(12), lit(18), raw(1, 0), lit(5), lit(13)), T(lit(12), lit(5), lit(13))),
          (T(lit(0), raw(2, 6), lit(5), lit(11), lit(20)), T(lit(0), raw(2, 6), lit(5), lit(11), lit(20))),
          (T(lit(1), raw(2, 6), lit(5), lit(11), lit(20)), T(lit(1), raw(1, 6), lit(5), lit(11), lit(20))),
          (T(lit(0), raw(1, 0), lit(5), lit(1), raw(1, 0), lit(5)), T(lit(0), raw(1, 0), lit(5), lit(1), raw(1, 0), lit(5))),
          (T(lit(0), raw(1, 6), lit(5)), T(lit(1), raw(1, 6), lit(5))), (T(), T(lit(8))),
          (T(lit(2), digits(2), lit(3), digits(2), lit(4), lit(5), lit(20)), T(lit(2), digits(2), lit(3), digits(2), lit(4), lit(5), lit(20))),
          (T(*head, lit(5), kinds(2, 3)), T(*head, lit(5), copy(10))),
          (T(lit(2), num(1844674407370955), digits(1), lit(3), digits(1), lit(4), lit(5), lit(20)), T(lit(2), num(1844674407370955), digits(1), lit(3), digits(1), lit(4), lit(5), lit(20))),
          (T(lit(11), lit(16), fill(300), raw(1, 0), fill(300), lit(5), lit(17), lit(5)), T(lit(11), lit(16), fill(300), raw(1, 0), fill(300), lit(5), lit(17), lit(5))),
          (T(lit(11), lit(16), lit(5), lit(17), chars(1, 3), lit(5)), T(lit(11), lit(16), lit(5), lit(17), chars(1, 3), lit(5))),
          (T(*head, lit(9), kinds(1, 0)), T(*head, lit(5), kinds(1, 0))), (T(*head, lit(18), raw(1, 0), lit(5)), T(*head, lit(18), raw(1, 0), lit(5))),
          (T(lit(2), num(1), lit(6), digits(1), lit(3), num(1), lit(6), digits(1), lit(4), lit(18), raw(1, 0), lit(5), kinds(1, 0)), T(copy(0), copy(1), copy(2), copy(3), copy(4), copy(5), copy(6), copy(7), copy(8), lit(18), raw(1, 0), lit(5), copy(12))),
          (T(many(60), hunk(1, 3)), T(many(60), hunk(1, 3))), (T(many(60), hunk(1, 3)), T(many(60))), (T(many(60, 1)), T(many(59, 1)))]
    for i, (p, b) in enumerate(ts):
        js.append(J(h, i % 2, p, b))
        if deep:
            js.append(J(h, 1 - i % 2, p, b))
    if deep:
        js += [J(h, B, T(hunk(3, 0)), T(hunk(3, 0))), J(h, S, T(hunk(2, 0, 1), hunk(1, 3, 1)), T(hunk(2, 0, 1), hunk(1, 3, 1)))]
    return js


@prop
def C27(deep):
    h, m = "h_opaque_diff", "h_opaque_merge"
    js = []
    k = KEEP
    # what stands for the letters: anything without a newline, all different
    vocab = [
        (T(raw(1, 0), end=k), T(raw(1, 0), end=k), T(raw(1, 0), end=k)),
        (T(end=k), T(raw(1, 0), end=k), T(raw(2, 0), end=k)),
        (T(raw(2, 3), end=k), T(raw(2, 3), end=k), T(raw(1, 3), end=k)),
        (T(fill(300), raw(1, 0), end=k), T(fill(300), raw(1, 0), end=k), T(fill(300), raw(2, 0), end=k)),
        (T(raw(1, 0), fill(300), end=k), T(raw(1, 0), fill(300), end=k), T(fill(300), end=k)),
        (T(fill(70), raw(1, 0), fill(4100), end=k), T(fill(70), raw(1, 0), fill(4100), end=k), T(fill(70), raw(1, 0), fill(4101), end=k)),
        (T(raw(1, 4), raw(1, 0), raw(1, 4), end=k), T(raw(1, 0), raw(1, 4), end=k), T(raw(1, 9), end=k)),
        (T(chars(1, 2), end=k), T(chars(1, 2), end=k), T(chars(1, 3), end=k)),
        (T(marks(1), end=DROP), T(marks(1), end=DROP), T(raw(1, 10), end=k)),
    ]
    for i, w in enumerate(vocab):
        two = w[:2]
        if i == 5 and not deep:
            js += [J(h, S, 1, 2, *two, 2, 2, 1), J(h, B, D, 2, *two, 3, 3, 1), J(m, S, 0, 2, *two, 2, 1, 2), J(m, B, 1, 2, *two, 2, 2, 2)]
            continue
        for j, (x, y, z) in enumerate(((3, 3, 1), (4, 2, 1), (2, 2, 3)) if deep else (((2, 2, 1), (2, 3, 1), (2, 2, 2))[i % 3],)):
            js.append(J(h, (i + j) % 2, (0, 1, D)[(i + j) % 3], 3, *w, x, y, z))
        js.append(J(h, 1 - i % 2, (1, 0)[i % 2], 2, *two, *((4, 5, 1) if deep else ((3, 4, 1), (4, 3, 1), (2, 3, 3))[i // 2 % 3])))
        js.append(J(m, i % 2, i % 2, 3, *w, 2, 2 if deep or i % 2 else 1, 2 if deep or i == 8 else 1))
        js.append(J(m, 1 - i % 2, 1 - i % 2, 2, *two, 3, 3, 3 if deep else 2))
    for i, v in enumerate((T(fill(1), end=k), T(raw(1, 3), end=k) if deep else T(fill(2, "-"), end=k))):
        js += [J(h, i, i, 2, T(says(1), end=DROP), v, 2, 2, 1), J(m, 1 - i, i, 2, T(says(1), end=DROP), v, 2, 2, 1)]
    js.append(J(h, B, 1, 3, T(raw(2, 1), end=k), T(raw(2, 1), end=k), T(raw(1, 1), end=k), 2, 2, 1))
    js.append(J(m, B, 1, 3, T(raw(2, 1), end=k), T(raw(2, 1), end=k), T(raw(1, 1), end=k), 2, 1, 1))
    return js
