"""What each check runs."""
import json, os, shutil, zlib
import core

CHECKS = {}

# What a check has to have seen in recorded executions before it may pass: counted by the trace specifications.
EXPECTED = {
    "C01": "out", "C02": "enc canonical", "C05": "cut cutat", "C06": "nest pack", "C07": "cat nest", "C08": "Packed PackedMalformed Scalar elems",
    "C10": "c10", "C11": "consistent inconsistent decls fields", "C12": "consistent dup notfound kind", "C13": "consistent dup notfound kind",
    "C14": "open malformed consistent", "C15": "malformed consistent chars", "C16": "accepted refused kept parsed",
    "C17": "accepted refused number name missing conflict exists", "C18": "accepted refused number name missing conflict consistent",
    "C19": "way1 way2 nested oneofs decoded", "C20": "consistent malformed literal", "C21": "consistent",
    "C22": "dec enc again own parallel repeated ins refused", "C23": "parsed failed decoded", "C24": "malformed consistent open chars literal",
    "C25": "decoded nested packed enums unknown damaged several",
}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


# ---------------------------------------------------------------------------
# Wire format (Wire.tla, MCWire.tla, WireTrace.tla)

WIRE_CFG = """SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 8, 10, 13, 18, 128, 255}
  MaxBytes = %d
  MaxPieces = %d
  Emit = %s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""


def mcwire(c, invariants, bytes_=(4, 5), pieces=(2, 3), emit=True, properties="", spec=None):
    """Exhausts the decoder machine; returns the file of vectors it printed."""
    vec = c.path("vectors.ndjson")
    sch = open(vec + ".sch", "w")
    out = open(vec, "w")
    n = [0]

    def on_vec(v):
        n[0] += 1
        out.write(v + "\n")
    schemas = []
    cfg = WIRE_CFG % (bytes_[c.thorough], pieces[c.thorough], "TRUE" if emit else "FALSE",
                      invariants + (" Vectors" if emit else ""), ("PROPERTY " + properties) if properties else "")
    if spec:
        cfg = cfg.replace("SPECIFICATION Spec", "SPECIFICATION " + spec)
    c.tlc("MCWire", cfg, lines={"VEC": on_vec, "SCH": lambda v: schemas.append(v)})
    sch.write("\n".join(schemas) + "\n")
    sch.close()
    out.close()
    c.exhaustive = True
    if emit and n[0] == 0:
        raise core.ToolError("TLC printed no vectors")
    return vec


def replay_vectors(c, cls, vec):
    out, summ = c.path("replay.out"), c.path("replay.sum")
    if not c.pf("replay", class_=cls, in_=vec, out=out, summary=summ):
        return
    s = json.load(open(summ))
    if s["used"] == 0:
        raise core.ToolError("no vector concerns this property")
    c.traces += s["used"]
    c.note("replay", vectors=s["vectors"], stepped_through_implementation=s["used"])
    for line in open(out):
        v = json.loads(line)
        c.violation(v["what"], v)


def record(c, cls, n, seed=None, **kw):
    tr = c.path("trace.ndjson")
    if not c.pf("rec", class_=cls, seed=c.seed if seed is None else seed, n=n, out=tr, **kw):
        return None
    return tr


def batches(c, cls, quick, thorough, batch=20000):
    total = thorough if c.thorough else quick
    k = 0
    while total > 0 and not c.violations:
        n = min(batch, total)
        tr = record(c, cls, n, seed=c.seed * 1000 + k)
        if tr is None:
            return
        c.validate(tr)
        total -= n
        k += 1
    # Long strings and arrays, many fields: sizes around the limits an implementation may have.
    for k in range(10 if c.thorough else 1):
        if c.violations:
            return
        tr = record(c, cls, LARGE, seed=c.seed * 1000 + 500 + k, big=1)
        if tr is None:
            return
        c.validate(tr, what="large execution")


LARGE = 120


def wire_check(prop, cls, invariants, quick, thorough, replayed, from_vectors=False):
    @check(prop)
    def run(c):
        vec = mcwire(c, invariants)
        if replayed:
            replay_vectors(c, cls, vec)
        if from_vectors:
            sub = thin(c, vec, 12000 if not c.thorough else 150000)
            tr = record(c, cls, 0, in_=sub)
            if tr:
                c.validate(tr)
        batches(c, cls, quick, thorough)
    return run


def chosen(c, line, n, total):
    """Whether a line is in the part of about n lines: a function of the seed and the line, as TLC prints in any order."""
    return n >= total or zlib.crc32(line.encode(), c.seed) * total < n << 32


def thin(c, vec, n):
    """A part of the vectors, chosen by the seed, in a fixed order."""
    total = sum(1 for _ in open(vec))
    out = c.path("thin.ndjson")
    with open(out, "w") as f:
        f.writelines(sorted(line for line in open(vec) if chosen(c, line, n, total)))
    shutil.copy(vec + ".sch", out + ".sch")
    return out


def merge_builds(c, dbg, rel, dest):
    with open(dest, "w") as f:
        for a, b in zip(open(dbg), open(rel)):
            x, y = json.loads(a), json.loads(b)
            x["rok"], x["rdigest"], x["rmsg"] = y["ok"], y["digest"], y["msg"]
            f.write(json.dumps(x) + "\n")
    os.replace(dbg + ".sch", dest + ".sch") if os.path.exists(dbg + ".sch") else open(dest + ".sch", "w").write("{}\n")


@check("C01")
def c01(c):
    vec = mcwire(c, "TypeOk Bounded", properties="Progress")
    # Termination as a temporal property of the machine under fairness, on a smaller space.
    mcwire_small = WIRE_CFG % (3, 1, "FALSE", "TypeOk", "PROPERTY Terminates")
    c.tlc("MCWire", mcwire_small.replace("SPECIFICATION Spec", "SPECIFICATION FairSpec"))
    for k, (cmd, n) in enumerate([("replay", 0), ("rec", 200000 if c.thorough else 20000)]):
        files = {}
        for prof in ("debug", "release"):
            tr = c.path("c01-%s-%s.ndjson" % (cmd, prof))
            kw = {"in_": vec, "summary": c.path("sum")} if cmd == "replay" else {"n": n, "seed": c.seed}
            if not c.pf(cmd, profile=prof, class_="c01", out=tr, **kw):
                return
            files[prof] = tr
        merged = c.path("c01-%s.ndjson" % cmd)
        merge_builds(c, files["debug"], files["release"], merged)
        for part in split(merged, 60000):
            c.validate(part, what="outcome")


def split(path, size):
    """The trace itself, or its parts when it is too long for one run of TLC."""
    parts, f, n = [], None, 0
    for line in open(path):
        if f is None or n == size:
            p = "%s.%d" % (path, len(parts))
            parts.append(p)
            if f:
                f.close()
            f, n = open(p, "w"), 0
            if os.path.exists(path + ".sch"):
                open(p + ".sch", "w").write(open(path + ".sch").read())
        f.write(line)
        n += 1
    if f:
        f.close()
    return parts


wire_check("C02", "c02", "Lossless Stable", 15000, 300000, True)
wire_check("C03", "c03", "KnownKinds ZigzagInverse Tiled", 12000, 200000, True)
wire_check("C04", "c04", "Skipping Tiled", 12000, 200000, True)
wire_check("C05", "c05", "Cuts", 4000, 80000, False, from_vectors=True)
wire_check("C06", "c06", "Contained PackedContained", 10000, 150000, False, from_vectors=True)
wire_check("C07", "c07", "Compositional Contained", 10000, 150000, False, from_vectors=True)


@check("C08")
def c08(c):
    vec = mcwire(c, "BothForms PackedContained")
    replay_vectors(c, "c08", vec)
    batches(c, "c08", 15000, 200000)
    # Finding F1: the packed form of a repeated enum is kept as unknown bytes.
    out = c.path("f1.ndjson")
    if c.pf("probe-f1", out=out):
        text = c.listed("packed-enum")
        for line in open(out):
            p = json.loads(line)
            as_listed = len(p["ev"]) == 2 and p["ev"][0]["k"] == "UBytes" and p["ev"][0]["v"] == p["body"] and p["ev"][0]["n"] == [1]
            if text and as_listed:
                if text not in c.findings:
                    c.finding(text)
            else:
                c.violation("a packed repeated enum decodes to something else than listed", p)


VALUE_CFG = "SPECIFICATION Spec\nCONSTANT MaxFields = %d\nINVARIANTS %s Vectors\nCHECK_DEADLOCK FALSE\n"


def value_check(prop, cls, invariants, quick, thorough):
    @check(prop)
    def run(c):
        vec = c.path("values.ndjson")
        schemas = []
        with open(vec, "w") as out:
            c.tlc("MCValue", VALUE_CFG % (3 if c.thorough else 2, invariants),
                  lines={"VEC": lambda v: out.write(v + "\n"), "SCH": lambda v: schemas.append(v)})
        open(vec + ".sch", "w").write("\n".join(schemas) + "\n")
        c.exhaustive = True
        out, summ = c.path("replay.out"), c.path("replay.sum")
        if c.pf("replay-values", class_=cls, in_=vec, out=out, summary=summ):
            s = json.load(open(summ))
            c.traces += s["used"]
            c.note("replay", vectors=s["vectors"], stepped_through_implementation=s["used"])
            for line in open(out):
                v = json.loads(line)
                c.violation(v["what"], v)
        batches(c, cls, quick, thorough)
    return run


value_check("C09", "c09", "RoundTrip", 15000, 200000)
value_check("C10", "c10", "Minimal", 15000, 200000)


# ---------------------------------------------------------------------------
# Sources (Source.tla, Meaning.tla, Literals.tla, MCSource.tla, SourceTrace.tla)

SOURCE_CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Bound = %d
 Emit = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def collect(c, module, cfg, name, env=None):
    """Runs TLC and keeps the vectors it prints."""
    vec = c.path(name)
    n = [0]
    with open(vec, "w") as out:
        def on(v):
            n[0] += 1
            out.write(v + "\n")
        c.tlc(module, cfg, env=env, lines={"VEC": on})
    c.exhaustive = c.exhaustive or env is None
    if n[0] == 0:
        raise core.ToolError("TLC printed no vectors")
    return vec, n[0]


def mcsource(c, mode, bound, invariants):
    return collect(c, "MCSource", SOURCE_CFG % (mode, bound, "TRUE", invariants + " Vectors"), "src-%s.ndjson" % mode)


def sample_lines(c, vec, n, total):
    """A part of the vectors, chosen by the seed, in a fixed order."""
    out = vec + ".thin"
    with open(out, "w") as f:
        f.writelines(sorted(line for line in open(vec) if chosen(c, line, n, total)))
    return out


def judge(c, trace, module="SourceTrace", what="outcome of parsing", size=20000):
    os.environ["PROPERTY"] = c.prop
    for part in split(trace, size):
        c.validate(part, module=module, what=what)
        if c.violations:
            break


def replay_sources(c, mode, bound, invariants, n, layouts=False):
    """Exhausts one mode of the machine and parses (a part of) its sources."""
    vec, total = mcsource(c, mode, bound, invariants)
    part = sample_lines(c, vec, n, total)
    out = c.path("replay-%s.ndjson" % mode)
    if c.pf("replay-src", class_="layouts" if layouts else "one", seed=c.seed, in_=part, out=out):
        k = sum(1 for _ in open(out))
        c.note("replay", mode=mode, vectors=total, stepped_through_implementation=k)
        judge(c, out)


LEXER_CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Bound = %d
 Emit = TRUE
INVARIANTS LayoutOnly Pieces Vectors
CHECK_DEADLOCK FALSE
"""


def replay_texts(c, mode, bound, n):
    """Exhausts one mode of the machine that varies the characters of a text; parses (a part of) the texts."""
    vec, total = collect(c, "MCLexer", LEXER_CFG % (mode, bound), "lex-%s.ndjson" % mode)
    part = sample_lines(c, vec, n, total)
    out = c.path("lex-%s.out" % mode)
    if c.pf("rec-chars", class_=c.prop.lower(), seed=c.seed, in_=part, out=out):
        c.note("replay", machine="MCLexer", mode=mode, vectors=total, stepped_through_implementation=sum(1 for _ in open(out)))
        judge(c, out, what="outcome of parsing a text")


EDITS_CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Bound = %d
 Emit = TRUE
INVARIANTS Shape Vectors
CHECK_DEADLOCK FALSE
"""


def replay_edits(c, mode, bound, n):
    """Exhausts one mode of the machine that edits sample files token by token; parses (a part of) the outcomes."""
    vec, total = collect(c, "MCEdits", EDITS_CFG % (mode, bound), "edits-%s.ndjson" % mode)
    part = sample_lines(c, vec, n, total)
    out = c.path("edits-%s.out" % mode)
    if c.pf("replay-src", class_="one", seed=c.seed, in_=part, out=out):
        c.note("replay", machine="MCEdits", mode=mode, vectors=total, stepped_through_implementation=sum(1 for _ in open(out)))
        judge(c, out)


def random_texts(c, cls, quick, thorough, batch=20000):
    total, k = (thorough if c.thorough else quick), 0
    while total > 0 and not c.violations:
        out = c.path("chars.ndjson")
        if not c.pf("rec-chars", class_=cls, seed=c.seed * 1000 + k, n=min(batch, total), out=out):
            return
        judge(c, out, what="outcome of parsing a text")
        total, k = total - batch, k + 1


def random_sources(c, quick, thorough, cls=None, batch=2500):
    total = thorough if c.thorough else quick
    k = 0
    while total > 0 and not c.violations:
        n = min(batch, total)
        out = c.path("random.ndjson")
        if not c.pf("rec-src", class_=cls or c.prop.lower(), seed=c.seed * 1000 + k, n=n, out=out):
            return
        judge(c, out)
        total -= n
        k += 1
    # Sources with many of one thing (fields, oneofs, rpcs, files, nested levels, digits ...), each kind in turn.
    for k in range(10 if c.thorough else 1):
        out = c.path("large.ndjson")
        if c.violations or not c.pf("rec-src", class_=cls or c.prop.lower(), seed=c.seed * 1000 + 42 * k, n=42, big=1, out=out):
            return
        judge(c, out, what="outcome of parsing a large source")


@check("C11")
def c11(c):
    t = c.thorough
    replay_sources(c, "places", 4 if t else 3, "TypeOk Closable EmptyStatement Integrity", 20000 if t else 1800)
    if not c.violations:
        replay_sources(c, "scope", 4 if t else 3, "TypeOk Integrity", 40000 if t else 2000)
    random_sources(c, 1200, 30000)


@check("C12")
def c12(c):
    t = c.thorough
    replay_sources(c, "scope", 5 if t else 4, "TypeOk Scoping", 120000 if t else 9000)
    if not c.violations:
        replay_sources(c, "clash", 4, "TypeOk Scoping", 60000 if t else 6000)
    random_sources(c, 2000, 30000)


@check("C13")
def c13(c):
    t = c.thorough
    replay_sources(c, "scope", 5 if t else 4, "TypeOk ErrorsIff", 120000 if t else 8000)
    if not c.violations:
        replay_sources(c, "clash", 4, "TypeOk ErrorsIff", 60000 if t else 6000)
    random_sources(c, 2000, 40000)


@check("C14")
def c14(c):
    t = c.thorough
    vec, total = mcsource(c, "tokens", 6 if t else 4, "TypeOk Closable")
    part = sample_lines(c, vec, 500000 if t else 30000, total)
    for name, kw in (("vectors", {"in_": part, "n": 0}), ("texts", {"n": 400000 if t else 40000})):
        out = c.path("text-%s.ndjson" % name)
        if not c.pf("rec-text", seed=c.seed, out=out, **kw):
            return
        judge(c, out, what="outcome of parsing a text", size=200000)
        if c.violations:
            return
    # The same texts in a build without overflow checks and debug assertions.
    if not c.pf("rec-text", profile="release", seed=c.seed + 1, n=200000 if t else 40000, out=c.path("text-release.ndjson")):
        return
    judge(c, c.path("text-release.ndjson"), what="outcome of parsing a text", size=200000)
    random_sources(c, 1000, 20000)


@check("C15")
def c15(c):
    t = c.thorough
    for mode, bound, n in (("words", 0, 8000 if t else 3500), ("places", 4 if t else 3, 20000 if t else 1700),
                           ("tokens", 5 if t else 4, 60000 if t else 6000)):
        if not c.violations:
            replay_sources(c, mode, bound, "TypeOk Closable EmptyStatement", n, layouts=True)
    if not c.violations:
        replay_edits(c, "blocks", 14, 20000 if t else 5000)
    if not c.violations:
        replay_texts(c, "gaps", 2 if t else 1, 150000 if t else 7000)
    if not c.violations:
        replay_texts(c, "comments", 5 if t else 4, 60000 if t else 4000)
    random_sources(c, 500, 10000)
    # Map fields are grammatical and rejected.
    out = c.path("map.ndjson")
    if not c.violations and c.pf("probe-map", out=out):
        text = c.listed("map-field")
        for line in open(out):
            p = json.loads(line)
            if p["out"] == "ok":
                continue
            if text and p["out"] == "syntax":
                if text not in c.findings:
                    c.finding(text)
            else:
                c.violation("a map field is neither accepted nor rejected as listed", p)


@check("C24")
def c24(c):
    t = c.thorough
    for mode, bound, n in (("typos", 1, 36000), ("gaps", 1, 6000), ("comments", 4, 3000)) + (
            (("typos", 2, 150000), ("gaps", 2, 150000), ("comments", 5, 60000)) if t else ()):
        if not c.violations:
            replay_texts(c, mode, bound, n)
    for mode, bound, n in (("blocks", 14, 7000), ("tokens", 1, 14000)) + ((("blocks", 60, 80000), ("moves", 3, 150000)) if t else ()):
        if not c.violations:
            replay_edits(c, mode, bound, n)
    if not c.violations:
        replay_sources(c, "tokens", 6 if t else 4, "TypeOk Closable", 200000 if t else 12000)
    random_texts(c, "random", 9000, 600000)
    random_texts(c, "bombs", 1, 1)
    random_sources(c, 1000, 60000)


@check("C20")
def c20(c):
    t = c.thorough
    replay_sources(c, "lits", 5 if t else 4, "ZeroPad", 200000 if t else 20000)
    if not c.violations:
        replay_sources(c, "options", 12 if t else 9, "TypeOk OptName", 60000 if t else 5000)
    random_sources(c, 1500, 40000)


@check("C21")
def c21(c):
    t = c.thorough
    replay_sources(c, "mult", 4 if t else 3, "TypeOk Packing", 60000 if t else 12000)
    random_sources(c, 600, 20000)


# ---------------------------------------------------------------------------
# Modifications (Members.tla, Registry.tla, MCMembers.tla, MCRegistry.tla, RegistryTrace.tla)

CHANGE_CFG = "SPECIFICATION Spec\nCONSTANTS Bound = %d\n Emit = TRUE\nINVARIANTS %s Vectors\nPROPERTY %s\nCHECK_DEADLOCK FALSE\n"


def changes(c, module, cmd, bound, n, invariants, properties, quick, thorough, batch=20000):
    vec, total = collect(c, module, CHANGE_CFG % (bound, invariants, properties), module + ".ndjson")
    part = sample_lines(c, vec, n, total)
    out = c.path(cmd + ".ndjson")
    if not c.pf(cmd, class_="replay", seed=c.seed, in_=part, out=out):
        return
    c.note("replay", machine=module, vectors=total, stepped_through_implementation=sum(1 for _ in open(out)))
    judge(c, out, module="RegistryTrace", what="history of modifications")
    left, k = (thorough if c.thorough else quick), 0
    while left > 0 and not c.violations:
        m = min(batch, left)
        if not c.pf(cmd, class_=c.prop.lower(), seed=c.seed * 1000 + k, n=m, out=out):
            return
        judge(c, out, module="RegistryTrace", what="history of modifications")
        left -= m
        k += 1
    for k in range(10 if c.thorough else 1):
        if c.violations or not c.pf(cmd, class_=c.prop.lower(), seed=c.seed * 1000 + 500 + k, n=24, big=1, out=out):
            return
        judge(c, out, module="RegistryTrace", what="long history of modifications")


def member_changes(c, n, quick, thorough):
    changes(c, "MCMembers", "rec-members", 4 if c.thorough else 3, 400000 if c.thorough else n, "TypeOk Values Rejections", "Monotone",
            quick, thorough)


def registry_changes(c, n, quick, thorough):
    changes(c, "MCRegistry", "rec-registry", 3 if c.thorough else 2, 130000 if c.thorough else n, "Sane", "Stable Refused", quick, thorough,
            batch=5000)


@check("C16")
def c16(c):
    registry_changes(c, 5500, 1500, 30000)
    if not c.violations:
        replay_sources(c, "scope", 4 if c.thorough else 3, "Integrity", 30000 if c.thorough else 2500)
    if not c.violations:
        replay_sources(c, "clash", 4 if c.thorough else 3, "Integrity", 60000 if c.thorough else 1500)
    random_sources(c, 500, 10000)


@check("C17")
def c17(c):
    member_changes(c, 25000, 3000, 100000)
    if not c.violations:
        registry_changes(c, 5500, 1500, 30000)


@check("C18")
def c18(c):
    member_changes(c, 48000, 5000, 100000)
    random_sources(c, 1000, 20000)


# ---------------------------------------------------------------------------
# Two ways to the same context (Rearrange.tla, Rebuild.tla)

OVER_CFG = "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"


def over(c, module, invariant, sources, name):
    """The specification applied to given sources; returns what it printed."""
    vec = c.path(name)
    n = 0
    with open(vec, "w") as out:
        for part in split(sources, 10000):
            one, _ = collect(c, module, OVER_CFG % invariant, "part.ndjson", env={"TRACE": part})
            lines = sorted(open(one))
            out.writelines(lines)
            n += len(lines)
    c.note("over", machine=module, vectors=n)
    return vec


def sources_of(c, modes, quick, thorough, cls):
    """Sources of bounded spaces (a part of each), then random ones."""
    dest = c.path("sources.ndjson")
    with open(dest, "w") as f:
        for mode, bound, invariants, n in modes:
            vec, total = mcsource(c, mode, bound, invariants)
            for line in open(sample_lines(c, vec, n, total)):
                f.write(json.dumps({"files": json.loads(line)["files"]}) + "\n")
        rnd = c.path("random.ndjson")
        if c.pf("sources", class_=cls, seed=c.seed, n=thorough if c.thorough else quick, out=rnd):
            f.write(open(rnd).read())
        if c.pf("sources", class_=cls, seed=c.seed, n=420 if c.thorough else 42, big=1, out=rnd):
            f.write(open(rnd).read())
    # TLC's workers take neighbouring sources together: the large ones are spread out.
    lines = open(dest).readlines()
    step = max(1, len(lines) // 61)
    with open(dest, "w") as f:
        for k in range(step):
            f.writelines(lines[k::step])
    return dest


@check("C19")
def c19(c):
    t = c.thorough
    src = sources_of(c, [("places", 4 if t else 3, "TypeOk", 20000 if t else 700), ("scope", 4 if t else 3, "TypeOk", 40000 if t else 1500),
                         ("mult", 4 if t else 3, "TypeOk", 20000 if t else 1500)], 2500, 60000, "c19")
    vec = over(c, "MCRebuild", "Faithful", src, "rebuilds.ndjson")
    out = c.path("rebuilt.ndjson")
    if c.pf("rec-rebuilds", seed=c.seed, in_=vec, out=out):
        judge(c, out, module="RebuildTrace", what="context built by hand", size=10000)


@check("C23")
def c23(c):
    t = c.thorough
    src = sources_of(c, [("scope", 5 if t else 4, "FileOrder", 30000 if t else 1400)], 500, 20000, "c23")
    vec = over(c, "MCRearrange", "Preserved", src, "arrangements.ndjson")
    out = c.path("rearranged.ndjson")
    if c.pf("rec-arrangements", seed=c.seed, in_=vec, out=out):
        judge(c, out, module="RearrangeTrace", what="meaning of rearranged files", size=10000)
    left, k = (30000 if t else 500), 0
    while left > 0 and not c.violations:
        if not c.pf("rec-arrangements", seed=c.seed * 1000 + k, n=min(left, 5000), out=out):
            return
        judge(c, out, module="RearrangeTrace", what="meaning of rearranged files", size=10000)
        left, k = left - 5000, k + 1


@check("C25")
def c25(c):
    t = c.thorough
    src = sources_of(c, [("places", 4 if t else 3, "TypeOk", 10000 if t else 250), ("scope", 4 if t else 3, "TypeOk Scoping", 30000 if t else 700),
                         ("mult", 4 if t else 3, "TypeOk Packing", 20000 if t else 800)], 500, 30000, "c25")
    vec = over(c, "MCPayload", "Meant", src, "payloads.ndjson")
    out = c.path("decoded.ndjson")
    if c.pf("rec-payloads", seed=c.seed, in_=vec, out=out):
        judge(c, out, module="PayloadTrace", what="meaning of a payload", size=10000)


# ---------------------------------------------------------------------------
# Contexts in use (History.tla, MCHistory.tla, HistoryTrace.tla)

HISTORY_CFG = "SPECIFICATION Spec\nCONSTANTS Bound = %d\n Emit = TRUE\nINVARIANTS Sane Unlike Vectors\nPROPERTY Functional\nCHECK_DEADLOCK FALSE\n"


def merge_runs(there, back, dest):
    """The runs of the second process added to the records of the first."""
    more = {}
    for line in open(back):
        r = json.loads(line)
        more[r["id"]] = r
    with open(dest, "w") as f:
        for line in open(there):
            r = json.loads(line)
            x = more[r["id"]]
            if r["srcs"] != x["srcs"] or r["texts"] != x["texts"]:
                raise core.ToolError("two processes made up different histories")
            r["runs"] += x["runs"]
            r["fate"], r["why"] = r["fate"] or x["fate"], r["why"] or x["why"]
            f.write(json.dumps(r) + "\n")


@check("C22")
def c22(c):
    t = c.thorough
    vec, n = c.path("scripts.ndjson"), [0]
    head = []
    with open(vec + ".all", "w") as out:
        def on(v):
            n[0] += 1
            out.write(v + "\n")
        c.tlc("MCHistory", HISTORY_CFG % (4 if t else 3), lines={"VEC": on, "GRP": head.append})
    c.exhaustive = True
    part = sample_lines(c, vec + ".all", 100000 if t else 6000, n[0])
    with open(vec, "w") as f:
        f.write(head[0] + "\n")
        for line in open(part):
            f.write(line)

    def both(name, **kw):
        files = [c.path("%s-%s.ndjson" % (name, o)) for o in ("forwards", "backwards")]
        for o, f in zip(("forwards", "backwards"), files):
            if not c.pf("rec-histories", out=f, order=o, **kw):
                return
        merge_runs(files[0], files[1], c.path(name + ".ndjson"))
        c.note("histories", what=name, recorded=sum(1 for _ in open(files[0])))
        judge(c, c.path(name + ".ndjson"), module="HistoryTrace", what="history of a context in use", size=10000)
    both("scripts", in_=vec)
    left, k = (20000 if t else 800), 0
    while left > 0 and not c.violations:
        both("random", seed=c.seed * 1000 + k, n=min(left, 2000))
        left, k = left - 2000, k + 1


def replay(path):
    """Runs the check that reported the case again (everything is a function of the seed); 1 when it reports the same case."""
    import re
    case = json.load(open(path))
    prop, tier, seed, _ = re.match(r"(\w+)-(\w+)-(\d+)-(\d+)\.json", os.path.basename(path)).groups()
    print(json.dumps(case, indent=1)[:20000])
    shown = []

    class Again(core.Check):
        def violation(self, what, obj):
            if {"property": prop, "what": what, "case": json.loads(json.dumps(obj))} == case:
                shown.append(what)
            super().violation(what, obj)
    core.Check = Again
    core.main(prop, tier, int(seed), CHECKS)
    print("the same case was reported again" if shown else "the case was not reported again")
    return 1 if shown else 0
