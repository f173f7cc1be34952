"""Which harnesses, with which bounds, decide which property."""

def J(name, harness, defs, reach=(), **kw):
    return dict(name=name, harness=harness, defs=list(defs), reach=list(reach), **kw)
PROPS = {}
# what a property's jobs assert, unless a job says so itself (every job also
# decides memory safety, initialisation and arithmetic of the code it runs)
ABOUT = dict(P05="SEQ ERR ZERO DOC SAVE LFAIL", P06="INT ERR ZERO SAVE", P07="ENUM ERR ZERO SAVE", P08="CB ERR", P12="DEF ZERO ERR", P13="NULL ERR SEQ MAP INT STR DEF SAVE COPY CFAIL",
     P09="KEY ENUM MAP", P14="IGN DOC KEY MAP ERR ZERO SAVE COPY", P15="STR ERR ZERO SAVE COPY", P16="SAVE", P17="RT", P18="SFAIL", P19="COPY", P20="CFAIL", P22="FILE LFAIL SFAIL", P23="BOOL FLOAT ERR ZERO SAVE", P25="NONE")
def prop(pid, quick, thorough=None, bounds="", outside="", assumptions=()):
    for j in quick + (thorough or []):
        if pid in ABOUT and j["harness"] not in ("h_api.c", "h_utf8.c", "h_reent.c") and not any(d.startswith("CATS=") for d in j["defs"]): j["defs"] = j["defs"] + [cats(*ABOUT[pid].split())]
    names = [j["name"] for j in quick + (thorough or [])]
    assert len(names) == len(set(names)), (pid, sorted(n for n in names if names.count(n) > 1))
    PROPS[pid] = dict(quick=quick, thorough=quick + (thorough or []), bounds=bounds, outside=outside, assumptions=list(assumptions))

Z = range(1, 17)
# ---- loading ---------------------------------------------------------------
def L(name, zoo, nev, *defs, reach=("loaded", "rejected"), **kw):
    return J(name, "h_load.c", [f"ZOO={zoo}", f"NEV={nev}"] + list(defs), reach, **kw)
def loads(prefix, zoos, nev, *defs, **kw):
    """nev: value events, one number or a dict per zoo"""
    return [L(f"{prefix}{z}", z, nev[z] if isinstance(nev, dict) else nev, *defs, **kw) for z in zoos]
def cats(*c): return "CATS=" + "|".join("C_" + x for x in c)

# value events that keep a zoo's job within seconds; at least enough to load something
N8 = {z: 8 for z in Z}; N8.update({10: 7, 11: 5, 13: 6})
NQ = {1: 9, 2: 9, 3: 10, 4: 10, 5: 9, 6: 9, 7: 9, 8: 9, 9: 10, 10: 7, 11: 5, 12: 8, 13: 6, 14: 10, 15: 8, 16: 7}
FQ = {1: 10, 2: 10, 3: 10, 4: 9, 5: 9, 6: 9, 7: 9, 8: 9, 9: 9, 10: 7, 11: 5, 12: 7, 13: 5, 14: 10, 15: 7, 16: 7}   # with one injected fault
NT = {z: n + 1 for z, n in NQ.items()}
FT = {z: n + 1 for z, n in FQ.items()}
BIG = dict(jobs=4, time=1500)
CI = "CFG=CYAML_CFG_CASE_INSENSITIVE"
UNK = "CFG=CYAML_CFG_IGNORE_UNKNOWN_KEYS"

def sc(n, typ, *d, **kw):
    return J(n, "h_scalar.c", ["TYPE=CYAML_" + typ] + list(d), kw.pop("reach", ("stored", "rejected")), **kw)
def ztypes(prefix, types, *defs, **kw):
    return [L(f"{prefix}{t}", 13, 6, f"ZTYPE={t}", *defs, reach=("loaded",) if t == 8 else ("rejected",), **kw) for t in types]

FOLD = "mem2reg,simplifycfg<bonus-inst-threshold=20;hoist-common-insts;speculate-blocks>,early-cse,simplifycfg<bonus-inst-threshold=20>"
SAVEZ = [z for z in Z if z not in (11, 13, 16)]

LOADB = "any libyaml event stream of up to NEV value events, nesting depth 3, keys and values of up to KEYSYM/VALSYM symbolic bytes plus the schema's own words, over a zoo of schemas that together use every schema type, flag and embedding"
LOADO = "longer or deeper documents, longer scalars, schemas with a shape that is not in the zoo; libyaml's own scanner (replaced by a model of its documented event grammar)"
SAVEB = "any client data of the zoo schemas with up to GSEQ entries per sequence, strings of up to GLEN bytes, three levels of allocated mappings, each number over its full range in turn"
SAVEO = "longer strings and sequences; libyaml's emitter text formatting (replaced by a model recording the events it is given)"
ENVA = ["libyaml follows its documented event grammar (modelled)", "the client's allocator returns a valid block or NULL (modelled)", "client data handed to save, copy and free fits its schema's memory layout"]

# ---- long and deep values
MEV = {0: 14, 1: 8, 2: 14, 3: 2, 4: 6, 5: 3, 6: 1, 7: 0, 8: 0, 9: 0, 10: 3, 11: 3, 12: 3, 13: 3, 14: 0, 15: 3}
def deep(n, mode, d, *defs, cat=("MAP", "IGN", "SEQ", "STR", "DOC"), **kw):
    return J(n, "h_deep.c", [cats(*cat), f"MODE={mode}", f"D={d}", *([f"ENV_MAXEV={30 + MEV[mode] * d + 150 * (mode in (7, 8))}"] if not any(x.startswith("ENV_MAXEV") for x in defs) else []), f"ENV_TXT={d + 8 if mode in (6, 14, 15) else 48}", "RX_MAX=2000"] + list(defs), kw.pop("reach", ("used",)), steps=400000000, **kw)

DEEP = {0: (260,), 1: (260,), 2: (10,), 3: (35,), 4: (260,), 5: (100, "FIELDS=70"), 6: (300,), 7: (300,), 8: (66000,), 9: (65540,), 10: (300,), 11: (300,), 12: (300,), 13: (300,), 14: (300,), 15: (300,)}
DREACH = {9: ("used", "toomany"), 14: ("used", "refused"), 5: ("used", "missing", "wrong", "repeated"), 6: ("used", "toolong")}
def HUGE(*cat): return [deep("d6h", 6, 66000, "ENV_MAXEV=24", cat=cat, reach=DREACH[6])]
def WIDE(*cat): return [deep("d8e", 8, 10, "EPAD=33000", cat=cat)]
def deeps(modes, *cat): return [deep(f"d{m}", m, *DEEP[m], cat=cat, reach=DREACH.get(m, ("used",))) for m in modes]
DF = [deep(f"df{m}", m, d, "FAULT=1", cat=("LFAIL",), reach=("used", "fault")) for m, d in ((0, 20), (1, 40), (2, 5), (3, 10), (4, 20), (6, 20))]
DL = [deep("dl0", 0, 200, **BIG), deep("dl1", 1, 200, **BIG), deep("dl2", 2, 30, **BIG), deep("dl3", 3, 400, **BIG), deep("dl4", 4, 250, **BIG), deep("dl6", 6, 5000, **BIG)]

def api(n, *d, **kw): return J(n, "h_api.c", list(d), kw.pop("reach", ("accepted", "refused")), **kw)
# ---- P01 memory safety and termination of loading
prop("P01", deeps((*range(9), 10, 11, 12, 14, 15), "NONE") + HUGE("NONE") + DF + [api("buffer", "OP=0")] + loads("z", Z, {**N8, 15: 7, 16: 5}, "DIFF=0", "LEAK=0", "KEYSYM=2", "VALSYM=2", reach=())
     + loads("a", (1, 2, 5, 9), 8, "DIFF=0", "LEAK=0", "ANCH=1", reach=())
     + loads("f", (1, 2, 3, 6, 8, 9), 8, "DIFF=0", "LEAK=0", "FAULT=1", reach=())
     + loads("ci", (2, 15), 7, "DIFF=0", "LEAK=0", "CFG=CYAML_CFG_CASE_INSENSITIVE|CYAML_CFG_IGNORE_UNKNOWN_KEYS", reach=())
     + loads("cb", (1, 2, 4, 6), 7, "DIFF=0", "LEAK=0", "WITH_CB", reach=()),
     DL + loads("y", Z, NT, "DIFF=0", "LEAK=0", reach=(), **BIG),
     bounds=LOADB + "; values nested 260 deep (anchored 10 deep), 66000 and 300 entry sequences, entries of up to 66000 bytes, strings of 300 and 66000 bytes, names, anchors and defaults of up to 300, names tables of 300; input buffers of symbolic length", outside=LOADO, assumptions=ENVA)
# ---- P02 failed loads
prop("P02", DF + loads("f", Z, FQ, "FAULT=1", cats("ERR", "LFAIL"), reach=("rejected",)) + loads("a", (1, 2, 5), 8, "FAULT=1", "ANCH=1", cats("ERR", "LFAIL"), reach=("rejected", "oom"))
     + loads("p", (1, 2, 3, 4, 8, 14), 8, cats("ERR", "LFAIL"), reach=("rejected",)) + loads("cb", (1, 3, 6, 8), 7, cats("ERR", "LFAIL"), "WITH_CB", reach=("rejected",)),
     loads("g", Z, FT, "FAULT=1", cats("ERR", "LFAIL"), reach=("rejected",), **BIG),
     bounds=LOADB + "; at most one injected failure, at any allocation (failing from there on or just once), parser event or initialisation" + "; and one failure in longer documents (20 to 40 entries or levels)", outside=LOADO + "; two independent failures in one load", assumptions=ENVA)
# ---- P04 mapping rules
MAPZ = (1, 2, 3, 5, 8, 9, 12, 16)
prop("P04", deeps((0, 5, 14), "MAP") + [deep("d5w", 5, 280, "FIELDS=260", cat=("MAP",), reach=DREACH[5])] + loads("z", MAPZ, NQ, cats("MAP", "KEY", "ERR", "ZERO", "IGN", "DOC"), reach=("loaded", "rejected"))
     + loads("u", (1, 2, 12, 16), {1: 9, 2: 8, 12: 7, 16: 6}, cats("MAP", "KEY", "ERR", "ZERO", "IGN", "DOC"), UNK)
     + loads("k", (2, 8), 8, cats("MAP", "KEY", "ERR", "ZERO"), "KEYSYM=3"),
     loads("y", MAPZ, NT, cats("MAP", "KEY", "ERR", "ZERO", "IGN", "DOC"), **BIG), bounds=LOADB + "; mappings nested 260 deep, mappings of 70 and 260 fields, keys of up to 300 bytes", outside=LOADO, assumptions=ENVA)
# ---- P05 sequences
def cnt(n, *d, **kw): return J(n, "h_count.c", list(d), kw.pop("reach", ("stored", "rejected")), **kw)
CNT_LOAD = [cnt(f"n{k}", f"KIND={k}", f"CSIZES={4 if k==3 else 10}") for k in range(6)] + [cnt("ntop", "OP=3"), cnt("nbig", "BIG=1", "CSIZES=4", "ENV_MAXEV=300"), cnt("nbigtop", "BIG=1", "OP=3", "ENV_MAXEV=300")]
CNT_F = [cnt(f"nf{k}", f"KIND={k}", "FAULT=1", "ENTS=3", "CSIZES=3") for k in (0,1,3)]
CNT_SAVE = [cnt(f"ns{k}", f"KIND={k}", "OP=1", reach=("saved",)) for k in range(6)]
CNT_COPY = [cnt(f"nc{k}", f"KIND={k}", "OP=2", reach=("saved",)) for k in range(6)]
SEQZ = (1, 3, 4, 5, 6, 8, 14)
SEQC = cats("SEQ", "ERR", "ZERO", "DOC")
prop("P05", deeps((4, 8, 9, 10, 11, 12), "SEQ") + WIDE("SEQ") + CNT_LOAD + CNT_F + CNT_SAVE + loads("z", SEQZ, NQ, SEQC) + ztypes("t", (6,), SEQC),
     [cnt(f"m{k}", f"KIND={k}", "ENTS=9", f"CSIZES={4 if k==3 else 10}") for k in range(6)] + loads("y", SEQZ, NT, SEQC, **BIG), bounds=LOADB + "; symbolic minimum and maximum, count members of 0 to 9 bytes, up to 4 entries (257 for one byte counts)" + "; sequences of 260, 300 and 65540 entries, entries of 66000 bytes, documents and entries of fixed sequences of 300", outside=LOADO, assumptions=ENVA)
# ---- P06 int / uint
INT = [sc(f"{t.lower()}{x}", t, f"TEXT={x}", "LIMITS", "WITH_CB") for t in ("INT", "UINT") for x in (0, 2, 3, 4, 5)]
prop("P06", INT + [sc(f"{t.lower()}7", t, "TEXT=7", "SOMESIZES=3", "ENV_TXT=320") for t in ("INT", "UINT")] + ztypes("t", (1, 9)) + [sc(f"s{t}", t, "MODE=1", reach=("saved", "rejected")) for t in ("INT", "UINT")],
     [sc(f"{t.lower()}{x}l", t, f"TEXT={x}", "LIMITS", "TLEN=4") for t in ("INT", "UINT") for x in (0, 2, 3)],
     bounds="decimal texts around the limits of every data size with free trailing digits, hex texts likewise, all texts of 3 free bytes, signs, white space and prefixes; data sizes 0 to 9, embedded and allocated, symbolic min and max; texts lengthened to 300 bytes by zeroes, nines and blanks", outside="other longer texts", assumptions=["strtoll and strtoull behave as ISO C says (modelled)"])
# ---- P07 enum, flags, bitfield
EFB = [sc(f"enum{x}", "ENUM", f"TEXT={x}", "STRICT", "SYMVALS=2", "CASES") for x in (0, 3, 4, 6)]
EFB += [sc("flags0", "FLAGS", "TEXT=0", "STRICT", "SYMVALS=2", "NENT=1"), sc("flags2", "FLAGS", "TEXT=2", "STRICT", "SYMVALS=2", "NENT=1"), sc("flags3", "FLAGS", "TEXT=3", "TLEN=2", "STRICT", "SYMVALS=1", "NENT=2", "SOMESIZES=3"), sc("flags6", "FLAGS", "TEXT=6", "STRICT", "SYMVALS=2", "CASES", "SOMESIZES=3", "NENT=2")]
EFB += [sc(f"bits{x}", "BITFIELD", f"TEXT={x}", "TLEN=2", f"SYMVALS={1+(x==6)}", f"NENT={1+(x==6)}", f"SOMESIZES={8-6*(x==6)}") for x in (0, 2, 3, 4, 6)]
EFBS = [sc("sENUM", "ENUM", "MODE=1", "STRICT", "SYMVALS=2", reach=("saved", "rejected")), sc("sBITFIELD", "BITFIELD", "MODE=1", "SYMVALS=1", reach=("saved", "rejected")), sc("sFLAGS", "FLAGS", "MODE=1", "STRICT", "SYMVALS=1", reach=("saved", "rejected"))]
EFBC = cats("ENUM", "ERR")
prop("P07", deeps((7, 14), "ENUM", "SAVE") + [sc("enum7", "ENUM", "TEXT=7", "STRICT", "SOMESIZES=2", "ENV_TXT=320"), sc("flags7", "FLAGS", "TEXT=7", "STRICT", "NENT=1", "SOMESIZES=2", "ENV_TXT=320"), sc("bits7", "BITFIELD", "TEXT=7", "NENT=1", "SOMESIZES=2", "ENV_TXT=320")] + EFB + EFBS + loads("z", (2, 7, 15), NQ, EFBC) + ztypes("t", (2, 3, 4), EFBC),
     [sc("flags6l", "FLAGS", "TEXT=6", "STRICT", "SYMVALS=2", "CASES", "NENT=2"), sc("bits6l", "BITFIELD", "TEXT=6", "TLEN=2", "SYMVALS=2", "NENT=2")],
     bounds="symbolic name values, bit offsets and widths; texts as for integers plus names; data sizes 0 to 9; up to 2 entries" + "; tables of 300 names, any of them used; names and texts of up to 300 bytes", outside="more than 300 names; symbolic values for more than 4 names or 2 bit definitions", assumptions=["strtoll and strtoull behave as ISO C says (modelled)"])
# ---- P08 validation callbacks
CBC = cats("CB", "ERR")
prop("P08", loads("z", [z for z in Z if z not in (7, 9, 10, 11, 13, 15)], {**{z: 8 for z in Z}, 4: 9, 14: 9, 16: 6}, "WITH_CB", CBC) + loads("z", (7,), 7, "WITH_CB", CBC)
     + ztypes("t", range(0, 10), "WITH_CB", CBC) + [sc(f"c{t}{x}", t, f"TEXT={x}", "WITH_CB", "LIMITS", "SOMESIZES=4") for t in ("INT", "UINT") for x in (0, 3)]
     + [sc(f"c{t}", t, "TEXT=6", "WITH_CB", "SOMESIZES=5") for t in ("ENUM", "FLAGS", "BITFIELD")] + [sc("cFLOAT", "FLOAT", "TEXT=6", "STRICT", "WITH_CB"), sc("cSTRING", "STRING", "TEXT=3", "TLEN=2", "SIZES=4", "WITH_CB")]
     + [cnt(f"n{k}", f"KIND={k}", "CSIZES=5") for k in (0, 1, 2, 3, 4, 5)] + [cnt("ntop", "OP=3")],
     bounds=LOADB, outside=LOADO, assumptions=ENVA)
# ---- P09 case rules
def case(n, zf, zi, *d): return L(n, 15, 7, f"ZFLAGS=({zf})", f"ZIFLAGS=({zi})", cats("KEY", "ENUM", "MAP"), *d)
S_, I_ = "CYAML_FLAG_CASE_SENSITIVE", "CYAML_FLAG_CASE_INSENSITIVE"
prop("P09", deeps((14,), "KEY", "ENUM") + [case("d", "0", "0"), case("c", "0", "0", CI), case("ms", S_, "0", CI), case("mi", I_, "0"), case("is", "0", S_, CI), case("ii", "0", I_), case("b", S_, I_, CI), case("b2", I_, S_),
     sc("enum", "ENUM", "TEXT=6", "CASES", "STRICT", "SOMESIZES=2"), sc("flags", "FLAGS", "TEXT=6", "CASES", "STRICT", "SOMESIZES=1"), sc("bits", "BITFIELD", "TEXT=6", "CASES", "SOMESIZES=1", reach=("stored", "rejected")), sc("enum3", "ENUM", "TEXT=3", "TLEN=2", "CASES", "STRICT", "SOMESIZES=1")],
     [L("l" + n, 15, 8, f"ZFLAGS=({a})", f"ZIFLAGS=({b})", cats("KEY", "ENUM", "MAP"), *d, **BIG) for n, a, b, d in (("d", "0", "0", ()), ("c", "0", "0", (CI,)), ("b", S_, I_, (CI,)))],
     bounds=LOADB + "; every combination of configuration and schema case flags; names of up to 300 bytes differing in the last", outside=LOADO + "; non-ASCII keys (see P10)", assumptions=ENVA)
# ---- P10 UTF-8 comparison
def u8(n, *d, **kw): return J(n, "h_utf8.c", list(d), ("equal", "different"), **kw)
prop("P10", [u8("long", "ASCII=1", "LA=1", "LB=1", "PRE=300"), u8("long2", "ASCII=1", "LA=1", "LB=1", "PRE=300", "PREU=1"), u8("long3", "RAW=1", "LA=1", "LB=1", "PRE=33"), u8("two", "TWO=1", "LA=2", "LB=2", passes=FOLD, jobs=2), u8("ascii", "ASCII=1", "LA=3", "LB=3"), u8("raw22", "RAW=1", "LA=2", "LB=2"), u8("raw41", "RAW=1", "LA=4", "LB=1"), u8("raw33", "RAW=1", "LA=3", "LB=3"), u8("raw32", "RAW=1", "LA=3", "LB=2")],
     [u8("raw43", "RAW=1", "LA=4", "LB=3", **BIG), u8("ascii5", "ASCII=1", "LA=5", "LB=5", **BIG)],
     bounds="any two byte strings of up to 3 bytes (4 against 1), all pairs of two-byte letters; these after an equal prefix of 33 or 300 letters", outside="longer strings otherwise", assumptions=["the reference fold table in harness/fold_ref.h (documented Unicode ranges) is right"])
# ---- P11 aliases
ALC = cats("DOC", "ERR", "MAP", "SEQ", "INT", "STR", "ENUM", "KEY")
prop("P11", deeps((2, 3, 13, 14), "DOC", "FREE", "LFAIL") + [deep("d3w", 3, 300, cat=("DOC", "FREE", "LFAIL")), deep("d2w", 2, 260, "SPARSE", "ENV_MAXEV=6500", cat=("DOC", "FREE", "LFAIL"))] + loads("a", (2, 3, 4, 5, 6, 9, 14), {2: 8, 3: 8, 4: 9, 5: 8, 6: 8, 9: 9, 14: 8}, "ANCH=1", ALC) + loads("b", (2, 5, 9), {2: 8, 5: 8, 9: 8}, "ANCH=2", ALC)
     + loads("x", (2, 5), 7, "ANCH=1", "CFG=CYAML_CFG_NO_ALIAS", ALC) + loads("f", (2, 5, 9), 7, "ANCH=1", "FAULT=1", ALC) + loads("i", (12,), 7, "ANCH=1", ALC) + loads("u", (2,), 7, "ANCH=1", UNK, ALC) + loads("d", (5,), 7, "ANCH=1", "DOCS=2", ALC),
     loads("la", (1, 2, 3, 4, 5, 6, 8, 9, 14), {1: 9, 2: 9, 3: 9, 4: 10, 5: 9, 6: 9, 8: 9, 9: 10, 14: 9}, "ANCH=1", ALC, **BIG) + loads("lb", (1, 4, 5, 9, 12), 8, "ANCH=2", ALC, **BIG),
     bounds=LOADB + "; up to two anchor names, used and redefined anywhere" + "; 35 and 300 anchors, 10 nested ones, anchored values nested 260 deep, an anchored sequence of 300 entries used again, anchors of up to 300 bytes", outside=LOADO + "; an anchor name redefined inside the node that bears it", assumptions=ENVA)
# ---- P12 defaults
DEFC = cats("DEF", "ZERO", "MAP", "ERR")
prop("P12", deeps((15,), "DEF") + [sc("d" + t, t, "MODE=3", "STRICT", "SYMVALS=1") for t in ("INT", "UINT", "ENUM", "FLAGS", "BITFIELD", "BOOL")] + [sc("dFLOAT", "FLOAT", "MODE=3", "SOMESIZES=4")]
     + loads("z", (11, 3, 10, 16), {11: 5, 3: 8, 10: 7, 16: 7}, DEFC) + loads("f", (11, 10), {11: 5, 10: 6}, "FAULT=1", DEFC, reach=("rejected",)) + loads("o", (2, 5, 6, 8, 9), 6, DEFC),
     loads("y", (11, 3, 10), {11: 6, 3: 10, 10: 8}, DEFC, **BIG), bounds=LOADB + "; symbolic default numbers of any data size; default strings, arrays and sequences of up to 300 bytes or entries, empty ones included", outside=LOADO + "; NaN and negative zero defaults", assumptions=ENVA)
# ---- P13 NULL
NULC = cats("NULL", "ERR", "SEQ", "MAP", "INT", "STR", "DEF")
prop("P13", [L("z10", 10, 7, NULC)] + ztypes("t", (2, 9), NULC) + [cnt("n5", "KIND=5", "CSIZES=3", "ENTS=4")]
     + [J("s10", "h_save.c", ["ZOO=10", "GHOT=3", "GLEN=1", "GSEQ=1", "GNULL=1"]), J("c10", "h_copy.c", ["ZOO=10", "GSEQ=1", "GLEN=1", "GNULL=1"])],
     [L("y10", 10, 8, NULC, **BIG)], bounds=LOADB, outside=LOADO, assumptions=ENVA)
# ---- P14 ignored values, first document only
IGNC = cats("IGN", "DOC", "KEY", "MAP", "ERR", "ZERO")
prop("P14", deeps((1,), "IGN", "DOC") + [deep("du1", 1, 30, UNK, cat=("IGN", "DOC"))] + loads("z", (12,), 8, IGNC) + loads("u", (1, 2, 3, 5, 8, 12), {1: 8, 2: 7, 3: 8, 5: 8, 8: 8, 12: 7}, UNK, IGNC) + loads("w", (1, 12), {1: 8, 12: 7}, "CFG=CYAML_CFG_IGNORE_UNKNOWN_KEYS|CYAML_CFG_IGNORED_KEY_WARNING", IGNC)
     + loads("d", (2, 4, 9, 12), 5, "DOCS=2", IGNC) + loads("a", (12,), 7, "ANCH=1", UNK, IGNC, reach=()) + ztypes("t", (8,), IGNC)
     + [J("s12", "h_save.c", ["ZOO=12"], ("saved",)), J("c12", "h_copy.c", ["ZOO=12"])],
     loads("y", (12,), 9, IGNC, **BIG) + loads("yu", (1, 2, 3, 5, 8, 12), 9, UNK, IGNC, **BIG), bounds=LOADB + "; ignored values nested 260 deep", outside=LOADO, assumptions=ENVA)
# ---- P15 strings
STRC = cats("STR", "ERR", "ZERO")
prop("P15", deeps((6,), "STR") + HUGE("STR") + [sc("str", "STRING", "TEXT=3", "TLEN=3", "SIZES=5"), sc("str1", "STRING", "TEXT=3", "TLEN=1", "SIZES=3"), sc("ystr", "STRING", "MODE=1", "SIZE=3", reach=("saved",))]
     + loads("z", (1, 4, 5, 6, 8), 8, STRC, "VALSYM=3") + ztypes("t", (0,), STRC, "VALSYM=3") + [J(f"c{z}", "h_copy.c", [f"ZOO={z}"], ("copied",)) for z in (4, 8)],
     [sc("strl", "STRING", "TEXT=3", "TLEN=6", "SIZES=10")], bounds="strings of up to 3 symbolic bytes, symbolic min and max, embedded arrays of 1 to 4 bytes and allocations" + "; strings of 300 and 66000 bytes", outside="longer strings; strings with an embedded NUL", assumptions=ENVA)
# ---- P23 bool and float
BFC = cats("BOOL", "FLOAT", "ERR", "ZERO")
prop("P23", [sc("words", "BOOL", "TEXT=8", "SOMESIZES=2", reach=("stored",)), sc("bool7", "BOOL", "TEXT=7", "SIZE=1", "ENV_TXT=320", reach=("stored",)), sc("float7", "FLOAT", "TEXT=7", "STRICT", "SOMESIZES=4", "ENV_TXT=320"), sc("bool", "BOOL", "TEXT=3", "TLEN=6", "SOMESIZES=4", reach=("stored",)), sc("bool2", "BOOL", "TEXT=3", "TLEN=2"), sc("float", "FLOAT", "TEXT=6", "STRICT"), sc("sBOOL", "BOOL", "MODE=1", reach=("saved", "rejected")), sc("sFLOAT", "FLOAT", "MODE=1", reach=("saved", "rejected"))]
     + [L("z7", 7, 7, BFC, "VALSYM=3")] + ztypes("t", (7,), BFC, "VALSYM=5"),
     [sc("booll", "BOOL", "TEXT=3", "TLEN=8", **BIG)], bounds="bool texts of any 6 bytes, every documented word with a byte changed or added, and texts of 300; floats: any value, range result and consumed length strtod can return; data sizes 0 to 9", outside="strtod's own conversion of text (modelled as any result)", assumptions=["strtod behaves as ISO C says (modelled)"])
# ---- saving
def S(n, z, *d, **kw): return J(n, "h_save.c", [f"ZOO={z}"] + list(d), kw.pop("reach", ("saved",)), **kw)
STY = [sc("y" + t, t, "MODE=1", "SIZE=2", "STYLES=1", "SYMVALS=0", reach=("saved",)) for t in ("STRING", "BITFIELD", "FLAGS", "ENUM", "BOOL", "INT", "UINT")]
def g10(z): return ["GSEQ=1"] if z == 10 else []
prop("P16", deeps((0, 4, 7, 8, 9, 10, 11, 12, 14, 15), "SAVE") + HUGE("SAVE") + WIDE("SAVE") + [S(f"z{z}", z, "GHOT=3", *g10(z)) for z in SAVEZ] + [sc("s" + t, t, "MODE=1", "STRICT", f"SYMVALS={1+(t not in ('BITFIELD','FLAGS'))}", reach=("saved", "rejected")) for t in ("INT", "UINT", "ENUM", "BITFIELD", "FLAGS", "BOOL", "FLOAT")] + STY + CNT_SAVE
     + [S(f"k{z}", z, "CFG=CYAML_CFG_STYLE_FLOW|CYAML_CFG_DOCUMENT_DELIM", "GSEQ=1", "GLEN=1") for z in (1, 4)],
     [S(f"l{z}", z, "GHOT=5", "GSEQ=3", "GLEN=3", **BIG) for z in SAVEZ], bounds=SAVEB + "; values nested 260 deep, sequences of 260 to 65540 entries, documents and entries of fixed sequences of 300, tables of 300 names, entries and offsets beyond 255 and up to 66000 bytes", outside=SAVEO, assumptions=ENVA)
# ---- round trip
prop("P17", deeps((0, 4, 6, 7, 8, 9, 10, 11, 12, 14), "RT") + HUGE("RT") + WIDE("RT") + [S(f"z{z}", z, "GHOT=3", "RT=1", "GRT=1", *(["GSEQ=1"] if z in (6, 10) else []), reach=("roundtrip",)) for z in SAVEZ]
     + [sc("rt" + t, t, "MODE=1", "STRICT", "SYMVALS=1", "RT=1", "SOMESIZES=4", reach=("roundtrip",)) for t in ("INT", "UINT", "ENUM", "BOOL", "FLOAT")]
     + [sc("rtFLAGS", "FLAGS", "MODE=1", "STRICT", "RT=1", "SOMESIZES=2", reach=("roundtrip",)), sc("rtBITFIELD", "BITFIELD", "MODE=1", "SYMVALS=1", "RT=1", "SOMESIZES=3", reach=("roundtrip",)), sc("rtBITFIELD0", "BITFIELD", "MODE=1", "RT=1", "SOMESIZES=4", reach=("roundtrip",))],
     [S(f"l{z}", z, "GHOT=4", "RT=1", "GRT=1", "GSEQ=3", **BIG) for z in SAVEZ], bounds=SAVEB + "; values nested 260 deep, sequences of 260 to 65540 entries, documents and entries of fixed sequences of 300, tables of 300 names, entries and offsets beyond 255 and up to 66000 bytes", outside=SAVEO + "; data whose YAML text is ambiguous (for example a number that is a valid name); floating point values outside a table of 16 single and 16 double precision values (the C library's conversions run concretely)", assumptions=ENVA + ["libyaml's parser returns the scalars its emitter was given"])
# ---- failing save, buffer
FSZ = [z for z in SAVEZ]
prop("P18", [S(f"f{z}", z, f"GHOT={1 if z==10 else 3}", "FAULT=1", "GSEQ=1", f"GLEN={0 if z==10 else 1}", reach=("fault",)) for z in FSZ] + [S("c13", 13, "ZTYPE=5", "CHUNKS=3", reach=("saved", "output")), S("cb13", 13, "ZTYPE=5", "CHUNKS=2", "BIGCHUNK=1", "ENV_WRITTEN=50000", reach=("saved", "output"), steps=40000000), S("cl13", 13, "ZTYPE=5", "CHUNKS=5", "BIGCHUNK=2", "ENV_WRITTEN=90000", reach=("saved", "output"), steps=100000000), S("cf13", 13, "ZTYPE=5", "CHUNKS=3", "FAULT=1", reach=("fault", "oom")), S("c4", 4, "GSEQ=1", "GLEN=0", "CHUNKS=2", reach=("saved", "output"))],
     [S("lc13", 13, "ZTYPE=5", "CHUNKS=5", "ENV_CHUNK=3", reach=("saved", "output"), **BIG)], bounds=SAVEB + "; at most one injected failure, at any allocation, event initialisation, emission or flush; the emitter pushes up to 3 chunks of up to 8 symbolic bytes each, or up to 80 KiB in chunks of up to 16 KiB", outside=SAVEO, assumptions=ENVA)
# ---- copying
CPZ = [z for z in Z if z not in (11, 16)]
def C(n, z, *d, **kw): return J(n, "h_copy.c", [f"ZOO={z}"] + list(d), kw.pop("reach", ()), **kw)
prop("P19", deeps((0, 4, 6, 8, 9, 10, 11, 12, 15), "COPY") + HUGE("COPY") + WIDE("COPY") + [C(f"z{z}", z) for z in CPZ if z != 13] + [C(f"n{z}", z, "NP=1") for z in CPZ if z != 13] + CNT_COPY,
     [C(f"l{z}", z, "GSEQ=3", "GLEN=3", **BIG) for z in CPZ if z != 13], bounds=SAVEB + "; values nested 260 deep, sequences of 260 to 65540 entries, documents and entries of fixed sequences of 300, tables of 300 names, entries and offsets beyond 255 and up to 66000 bytes", outside="longer strings and sequences", assumptions=ENVA)
prop("P20", [C(f"f{z}", z, "FAULT=1", reach=("oom",) if z not in (15,) else ()) for z in CPZ if z != 13] + [C(f"b{z}", z, "GNULL=1", "GSEQ=1", "GLEN=1") for z in CPZ if z not in (13,)] + [C(f"nf{z}", z, "FAULT=1", "NP=1") for z in (1, 2, 3, 5, 6, 8)] + [cnt(f"nc{k}", f"KIND={k}", "OP=2", "FAULT=1", "CSIZES=3", "ENTS=4", reach=("saved",)) for k in (0, 3, 5)],
     [C(f"l{z}", z, "GSEQ=3", "FAULT=1", **BIG) for z in CPZ if z != 13], bounds=SAVEB + "; allocation failing once or from any point on", outside="longer strings and sequences", assumptions=ENVA)
# ---- P03 free
prop("P03", deeps((0, 2, 4, 6, 8, 9, 10, 11, 12, 15), "FREE") + WIDE("FREE") + loads("z", Z, N8, "DIFF=0", cats("FREE"), reach=("loaded",)) + loads("a", (2, 5, 9), 7, "ANCH=1", "DIFF=0", cats("FREE")) + [S(f"s{z}", z, "GSEQ=1", "GLEN=1", "GNULL=1", cats("FREE")) for z in (1, 2, 3, 5, 6, 8, 9, 10, 14)] + [C(f"c{z}", z, cats("FREE")) for z in (1, 2, 3, 5, 6, 8, 9, 10, 14)] + [cnt(f"nc{k}", f"KIND={k}", "OP=2", cats("FREE"), reach=("saved",)) for k in range(6)] + [api("free", "OP=3")],
     loads("y", Z, NT, "DIFF=0", cats("FREE"), **BIG), bounds=LOADB + "; values nested 260 deep, sequences of 260 to 65540 entries, documents and entries of fixed sequences of 300, tables of 300 names, entries and offsets beyond 255 and up to 66000 bytes", outside=LOADO, assumptions=ENVA)
# ---- P21 parameters
prop("P21", [api("load", "OP=0"), api("loadfile", "OP=0", "FILEAPI=1"), api("save", "OP=1"), api("savefile", "OP=1", "FILEAPI=1"), api("copy", "OP=2"), api("free", "OP=3"),
     api("fload", "OP=0", "FAULT=1"), api("floadfile", "OP=0", "FILEAPI=1", "FAULT=1"), api("fsave", "OP=1", "FAULT=1"), api("fsavefile", "OP=1", "FILEAPI=1", "FAULT=1"), api("fcopy", "OP=2", "FAULT=1")],
     bounds="every combination of missing and present config, allocator, schema, data, count and target, for nine top-level schemas", outside="schemas with a NULL field table or entry", assumptions=ENVA)
# ---- P22 files
prop("P22", [api("load", "OP=0", "FILEAPI=1", "PATHS"), api("save", "OP=1", "FILEAPI=1", "PATHS"), api("fload", "OP=0", "FILEAPI=1", "FAULT=1", reach=("accepted", "refused", "fault")), api("fsave", "OP=1", "FILEAPI=1", "FAULT=1", reach=("accepted", "refused", "fault"))]
     + loads("l", (1, 2, 4, 9), {1: 9, 2: 8, 4: 8, 9: 8}, "FILEAPI=1", "FAULT=1", reach=("noopen", "rejected", "loaded")) + [S(f"s{z}", z, "FILEAPI=1", "FAULT=1", "GSEQ=1", "GLEN=1", reach=("noopen", "fault", "saved")) for z in (1, 3, 4, 9)],
     loads("y", (3, 5, 6, 8), 8, "FILEAPI=1", "FAULT=1", reach=("noopen", "rejected"), **BIG) + [S(f"ls{z}", z, "FILEAPI=1", "FAULT=1", reach=("noopen", "fault", "saved"), **BIG) for z in (2, 5, 6, 8)],
     bounds="file names of three symbolic bytes, ten unusual ones, and lengths up to 5000 letters; one failure at any open, close, flush, allocation, parser event, event initialisation or emission", outside="the operating system's file handling (stdio is modelled)", assumptions=ENVA + ["fopen, fclose and fflush behave as ISO C says (modelled)"])
# ---- P24 reentrancy
def ree(n, *d, **kw): return J(n, "h_reent.c", ["ENV_MAXEV=120"] + list(d), kw.pop("reach", ("nested", "alone")), **kw)
prop("P24", [ree(f"n{k}", f"OUTER={k}") for k in range(5)] + [ree(f"l{k}", f"OUTER={k}", "LOGGED=1") for k in range(5)] + [ree(f"h{k}", "NEST=0", "HIST=4", f"OUTER={k}", reach=("history",)) for k in range(6)] + [ree(f"m{k}", "NEST=0", "HIST=3", "MUT", f"OUTER={k}", reach=("history",)) for k in (0, 1, 2, 3, 4, 6, 7, 8)] + [ree("rep", "NEST=0", "REPEAT=70", reach=("history",), steps=400000000)],
     [ree(f"hl{k}", "NEST=0", "HIST=5", "LOGGED=0", f"OUTER={k}", reach=("history",), **BIG) for k in range(6)] + [ree("repl", "NEST=0", "REPEAT=1000", reach=("history",), steps=4000000000, **BIG)],
     bounds="one call (load, failing load, save, failing save, copy with free, error text; two data sets and configurations) nested at any one callback of another; any history of four calls, of three with the client changing its schema and configuration in place between them; 70 calls of one kind", outside="two or more nested calls; threads (the library has no locks or shared writable state for them to race on)", assumptions=ENVA)
def sch(n, op, kind, place, *d):
    reach = [] if kind in (1, 4) else ["accepted"]
    if not (kind, op) in ((5, 2), (0, 2)): reach.append("refused")
    return J(n, "h_schema.c", [f"OP={op}", f"KIND={kind}", f"PLACE={place}"] + list(d), reach)
# ---- P25 logging
prop("P25", loads("l", (1, 2, 3, 4, 5, 8, 9, 11, 12, 15), {**{z: 6 for z in Z}, 11: 5}, "LOG=2", "FAULT=1", reach=("rejected", "fault")) + loads("a", (2, 5), 7, "LOG=1", "ANCH=1", "FAULT=1", reach=()) + loads("w", (1, 12), 6, "LOG=2", "CFG=CYAML_CFG_IGNORE_UNKNOWN_KEYS|CYAML_CFG_IGNORED_KEY_WARNING", reach=())
     + ztypes("t", range(0, 10), "LOG=2", "WITH_CB") + loads("c", (1, 3, 6), {1: 8, 3: 7, 6: 7}, "LOG=1", "WITH_CB")
     + [S(f"s{z}", z, f"LOG={1 if z == 8 else 2}", "FAULT=1", "GSEQ=1", "GLEN=1", "GNULL=1", reach=("fault",)) for z in (1, 3, 5, 8, 9, 14)] + [C(f"cp{z}", z, f"LOG={1 if z == 6 else 2}", "FAULT=1", "GNULL=1", "GSEQ=1", "GLEN=1") for z in (1, 2, 3, 5, 6, 8, 9)]
     + [sc(f"x{t}", t, "TEXT=3", "TLEN=1", "LOG=1", "WITH_CB", "SOMESIZES=3") for t in ("INT", "UINT", "ENUM", "FLAGS", "BITFIELD")] + [cnt(f"n{k}", f"KIND={k}", "CSIZES=2", "ENTS=2", "LOG=1") for k in (0, 1, 3)]
     + [sc(f"e{t}", t, "TEXT=4", "LOG=1", "LOGCMP", "SIZE=8") for t in ("INT", "UINT", "ENUM")] + [sc("eFLOAT", "FLOAT", "TEXT=6", "STRICT", "LOG=1", "LOGCMP", "SIZE=8")]
     + [sch(f"y{o}k{k}p{p}", o, k, p, "LOG=1") for o, k, p in ((0, 1, 0), (0, 1, 1), (0, 1, 2), (1, 1, 0), (1, 1, 1), (2, 1, 0), (2, 1, 1), (0, 0, 0), (1, 0, 0), (0, 3, 0), (1, 3, 0), (2, 3, 0), (0, 4, 0), (1, 4, 0), (2, 4, 0), (0, 5, 0), (1, 5, 0))]
     + [api("log", "OP=6", reach=("logged",)), api("fload", "OP=0", "FAULT=1", "LOG=3"), api("fsavefile", "OP=1", "FILEAPI=1", "FAULT=1", "LOG=3"), api("fcopy", "OP=2", "FAULT=1", "LOG=3"), api("free", "OP=3", "LOG=3")],
     loads("y", Z, N8, "LOG=2", "FAULT=1", reach=(), **BIG) + [S(f"ls{z}", z, "LOG=1", "FAULT=1", "GSEQ=1", "GLEN=1", "GNULL=1", reach=("fault",), **BIG) for z in (2, 4, 6, 7)],
     bounds=LOADB + "; every log level, with and without a log function", outside=LOADO, assumptions=ENVA)
# ---- P26 helpers
prop("P26", [api("loglong", "OP=6", "LONG=5000", "ENV_TEXT=6000", reach=("logged",)), api("mem", "OP=4", reach=("freed", "resized")), api("strerror", "OP=5", reach=("valid", "invalid")), api("log", "OP=6", reach=("logged",))], bounds="every 32-bit error value; blocks of up to 5 symbolic bytes; every log level; messages of up to 5000 bytes", outside="allocation failure inside the C library", assumptions=["the C library's realloc, free and vfprintf behave as documented"])

# ---- P27 bad schemas
SCH = [(op, k, p) for op in (0, 1, 2) for k in (0, 1, 3, 4, 5) for p in (0, 1, 2)] + [(3, k, 0) for k in (0, 1, 3)]
prop("P27", [sch(f"o{o}k{k}p{p}", o, k, p) for o, k, p in SCH], [sch(f"f{o}k{k}p{p}", o, k, p, "FAULT=1") for o, k, p in SCH],
     bounds="every 32 bit type number, data size (up to 12 bytes where something of it is allocated), bit offset and width, fixed sequence minimum (maximum up to 4)", outside="a pointer to a value of data size 0; several mistakes in one schema", assumptions=ENVA)

# ---- the engine itself: not a property, run by hand (run.py SELF)
prop("SELF", [J("models", "t_models.c", [], reach=("done",))])
