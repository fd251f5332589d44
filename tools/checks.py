"""Which models, scripts and traces decide which property."""
from gen import reader, codec, typed, stream, sign, threshold, docs, sad, event, salter, kel, back, cred, wasm, wild, mixed, fresh

class Src:
    """model=...: a TLC configuration whose exported behaviours are executed;  make=...: generated script"""
    def __init__(s, name, model=None, cfg=None, env=None, make=None, n=0, stateful=False, sample=None, simulate=None,
                 script=True, shard=20000, jobs=8, heap="4g", theap="2g", expand=None, dedup=False, total=False, threads=0, plain=False):
        s.__dict__.update(locals())
        s.env = env or {}

class Check:
    def __init__(s, sources):
        s.sources = sources

CHECKS = {}
def prop(pid):
    def f(g):
        CHECKS[pid] = Check(g)
        return g
    return f

def material(kind, mode, tier):
    return Src(f"material_{kind}_{mode}", model="MC_Material", env={"KIND": kind, "MODE": mode, "FULL": "1" if tier == "thorough" else "0"}, heap="8g")

def k(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

@prop("C01")
def c01(tier):
    return [material("m", "keep", tier), Src("matter_raw", make=codec.matter_raw, n=k(tier, 4000, 60000)),
            Src("matter_life", make=codec.matter_life, n=k(tier, 3000, 60000)), Src("refills", make=codec.refills, n=k(tier, 500, 8000), stateful=True)]

@prop("C02")
def c02(tier):
    return [material("m", "hurt", tier), Src("matter_text", make=codec.matter_text, n=k(tier, 15000, 200000)),
            Src("matter_any", make=codec.matter_any, n=k(tier, 2000, 20000))]

@prop("C05")
def c05(tier):
    return [material("i", "keep", tier), material("i", "hurt", tier),
            Src("indexer_raw", make=codec.indexer_raw, n=k(tier, 6000, 60000)),
            Src("indexer_text", make=codec.indexer_text, n=k(tier, 8000, 100000)), Src("irefills", make=codec.irefills, n=k(tier, 400, 6000), stateful=True)]

@prop("C06")
def c06(tier):
    return [material("c", "keep", tier), material("c", "hurt", tier),
            Src("counter_text", make=codec.counter_text, n=k(tier, 8000, 100000)),
            Src("counter_new", make=codec.counter_new, n=k(tier, 4000, 40000)),
            Src("semver", make=codec.semver, n=k(tier, 8000, 80000))]

def tmodel(kind, tier):
    return Src(f"typed_{kind}", model="MC_Typed", env={"KIND": kind, "FULL": "1" if tier == "thorough" else "0"}, dedup=True)

@prop("C07")
def c07(tier):
    return [tmodel("types", tier), Src("kinds", make=typed.kinds, n=k(tier, 8000, 100000)), Src("anys", make=wasm.anys, n=k(tier, 5000, 80000))]

@prop("C18")
def c18(tier):
    return [tmodel("numbers", tier), Src("numbers", make=typed.numbers, n=k(tier, 10000, 150000))]

@prop("C19")
def c19(tier):
    return [tmodel("dates", tier), Src("dates", make=typed.dates, n=k(tier, 8000, 100000))]

@prop("C20")
def c20(tier):
    return [tmodel("texts", tier), Src("texts", make=typed.texts, n=k(tier, 8000, 100000))]

@prop("C03")
def c03(tier):
    return [Src("stream", model="MC_Stream", env={"FULL": "1" if tier == "thorough" else "0"}, expand=lambda x: x, stateful=True, sample=30000, heap="12g"),
            Src("walks", make=stream.walks, n=k(tier, 3000, 40000)),
            Src("sessions", make=stream.sessions, n=k(tier, 400, 6000), stateful=True)]

@prop("C08")
def c08(tier):
    return [Src("digest", model="MC_Digest", env={"FULL": "1" if tier == "thorough" else "0"}),
            Src("hashes", make=sign.hashes, n=k(tier, 2000, 20000)), Src("compares", make=sign.compares, n=k(tier, 4000, 60000))]

@prop("C09")
def c09(tier):
    return [Src("signers", make=sign.signers, n=k(tier, 600, 8000)), Src("signatures", make=sign.signatures, n=k(tier, 1500, 20000))]

@prop("C10")
def c10(tier):
    return [Src("sign", model="MC_Sign", env={"FULL": "1" if tier == "thorough" else "0"}), Src("indexed", make=sign.indexed, n=k(tier, 2000, 20000))]

@prop("C11")
def c11(tier):
    return [Src("threshold", model="MC_Threshold", env={"FULL": "1" if tier == "thorough" else "0"}, sample=None if tier == "thorough" else 25000, heap="12g"),
            Src("lists", make=threshold.lists, n=k(tier, 4000, 60000))]

@prop("C12")
def c12(tier):
    return [Src("forms", make=threshold.forms, n=k(tier, 8000, 100000)), Src("mixed", make=wasm.thresholds, n=k(tier, 2000, 30000)),
            Src("threshold", model="MC_Threshold", env={"FULL": "1" if tier == "thorough" else "0"}, heap="12g",
                expand=lambda x: [x] if x["op"] == "th.new" else [])]

@prop("C13")
def c13(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("said", model="MC_Sad", env={"MODE": "said", **F}, sample=k(tier, 1600, 40000), heap="12g", expand=lambda x: x, stateful=True),
            Src("saids", make=sad.saids, n=k(tier, 5000, 60000)), Src("edits", make=sad.edits, n=k(tier, 700, 9000), stateful=True),
            Src("saiders", make=wasm.saiders, n=k(tier, 1500, 20000))]

@prop("C14")
def c14(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("vs", model="MC_Sad", env={"MODE": "vs", **F}, sample=k(tier, 4000, None), heap="12g"),
            Src("frame", model="MC_Sad", env={"MODE": "frame", **F}, sample=k(tier, 6000, None), heap="12g"),
            Src("versions", make=sad.versions, n=k(tier, 4000, 60000)), Src("sizes", make=sad.sizes, n=k(tier, 2000, 30000)),
            Src("buffers", make=sad.buffers, n=k(tier, 4000, 60000)), Src("frames", make=sad.frames, n=k(tier, 3000, 40000)),
            Src("events", make=wasm.events, n=k(tier, 1500, 20000)), Src("hold", model="MC_Hold", env=F, sample=k(tier, 700, 40000), heap="12g", expand=lambda x: x, stateful=True),
            Src("holds", make=event.holds, n=k(tier, 500, 8000), stateful=True)]

@prop("C15")
def c15(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("bytes", model="MC_Bytes", env=F, script=False),
            Src("json_text", model="MC_Doc", env={"MODE": "text", **F}, sample=k(tier, 10000, 200000), heap="12g", dedup=True),
            Src("json_utf8", model="MC_Doc", env={"MODE": "utf8", **F}, sample=k(tier, 5000, 100000), heap="12g"),
            Src("json_edit", model="MC_Doc", env={"MODE": "edit", **F}, sample=k(tier, 3000, 60000), heap="12g", expand=lambda x: x, stateful=True),
            Src("parses", make=docs.parses, n=k(tier, 6000, 80000)), Src("values", make=docs.values, n=k(tier, 4000, 50000)),
            Src("edits", make=docs.sessions, n=k(tier, 800, 10000), stateful=True)]

@prop("C16")
def c16(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("prefix", model="MC_Event", env={"MODE": "prefix", **F}, sample=k(tier, 3000, 60000), heap="12g", expand=lambda x: x, stateful=True),
            Src("prefixes", make=event.prefixes, n=k(tier, 4000, 60000)), Src("bindings", make=event.bindings, n=k(tier, 700, 10000), stateful=True),
            Src("prefixers", make=wasm.prefixers, n=k(tier, 1500, 20000))]

@prop("C17")
def c17(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("path", model="MC_Event", env={"MODE": "path", **F}, sample=k(tier, 8000, 200000), heap="12g"),
            Src("names", make=event.names, n=k(tier, 5000, 80000)), Src("reaches", make=event.reaches, n=k(tier, 6000, 80000))]

@prop("C21")
def c21(tier):
    return [Src("salter", model="MC_Salter", env={"FULL": k(tier, "0", "1")}, sample=k(tier, 1500, 30000), expand=lambda x: x, stateful=True),
            Src("asks", make=salter.asks, n=k(tier, 2500, 30000)), Src("sessions", make=salter.sessions, n=k(tier, 400, 5000), stateful=True),
            Src("costly", make=salter.costly, n=k(tier, 14, 80), jobs=1, plain=True)]

@prop("C22")
def c22(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("event", model="MC_Event", env={"MODE": "says", **F}, sample=k(tier, 3000, None), heap="12g"),
            Src("says", make=event.says, n=k(tier, 3000, 40000))]

@prop("C23")
def c23(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("kel", model="MC_Kel", env=F, sample=k(tier, 1500, 30000), heap="12g", expand=lambda x: x, stateful=True),
            Src("histories", make=kel.histories, n=k(tier, 250, 4000), stateful=True)]

@prop("C27")
def c27(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("backed", model="MC_Back", env=F, sample=k(tier, 1200, 25000), heap="12g", expand=lambda x: x, stateful=True),
            Src("backed_histories", make=back.histories, n=k(tier, 220, 4000), stateful=True)]

@prop("C28")
def c28(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("cred", model="MC_Cred", env=F, sample=k(tier, 900, 20000), heap="12g", expand=lambda x: x, stateful=True),
            Src("cred_histories", make=cred.histories, n=k(tier, 240, 4000), stateful=True)]

@prop("C29")
def c29(tier):
    return [Src("reader", model="MC_Reader", env={"FULL": k(tier, "0", "1")}, sample=k(tier, 2000, 40000), heap="12g", expand=lambda x: x, stateful=True),
            Src("looks", make=reader.looks, n=k(tier, 12000, 150000)), Src("readers", make=reader.readers, n=k(tier, 700, 9000), stateful=True)]

@prop("C04")
def c04(tier):
    F = {"FULL": k(tier, "0", "1")}
    return [Src("wild", model="MC_Wild", env=F, expand=wild.everywhere, sample=k(tier, 900, None), total=True),
            Src("wild_bound", model="MC_Wild", env=F, expand=wild.through, sample=k(tier, 150, 3000), total=True),
            Src("mutants", make=wild.mutants(False), n=k(tier, 60000, 1200000), total=True),
            Src("mutants_bound", make=wild.mutants(True), n=k(tier, 12000, 200000), total=True)]

@prop("C24")
def c24(tier):
    F = {"FULL": k(tier, "0", "1")}
    W = wasm.through
    def replayed(kind, n):
        return Src(f"typed_{kind}", model="MC_Typed", env={"KIND": kind, **F}, dedup=True, expand=wasm.bound, sample=k(tier, n, None))
    kinds = ["types", "numbers", "dates", "texts"] if tier == "thorough" else ["types", "numbers"]
    return [replayed(x, 2500) for x in kinds] + [
            Src("boundary", make=wasm.boundary, n=k(tier, 600, 20000)),
            Src("calls", n=k(tier, 13000, 250000), make=W((typed.kinds, .15), (wasm.anys, .15), (typed.numbers, .1), (typed.dates, .07), (typed.texts, .07),
                (sign.hashes, .03), (sign.compares, .05), (sign.signers, .03), (sign.signatures, .03), (sign.indexed, .02),
                (threshold.forms, .09), (threshold.lists, .05), (sad.saids, .05), (sad.buffers, .04), (sad.frames, .04), (event.prefixes, .03),
                (event.says, .04), (salter.asks, .05), (wasm.events, .03), (wasm.saiders, .02), (wasm.prefixers, .02), (wasm.thresholds, .03)))]

@prop("C25")
def c25(tier):
    # every round the model reaches, and rounds of calls of every kind
    return [Src("alone", model="MC_Alone", env={"FULL": k(tier, "0", "1")}, sample=k(tier, 250, 5000), expand=lambda x: x, threads=4),
            Src("rounds", make=mixed.rounds, n=k(tier, 1400, 20000), threads=4)]

@prop("C26")
def c26(tier):
    return [Src("fresh", model="MC_Fresh", env={"FULL": k(tier, "0", "1")}, sample=k(tier, 400, 6000), expand=lambda x: x, stateful=True),
            Src("drawn", make=fresh.sessions, n=k(tier, 16, 200), stateful=True)]

TECHNIQUE = {}
LEVEL_NOTE = {}
