"""The properties and how each is decided."""
import subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
check = sys.modules["__main__"]
split, Broken = check.split, check.Broken

LLVM = ["clang 18 front end (source to LLVM IR)", "LLVM 18 inliner/SROA/early-CSE used to normalise the IR"]


def isa(ctx):
    enc, dec = ctx.buffer_api()
    names = sorted(ctx.api())
    obl, n = split(ctx.hsa(["dispatch", ctx.bc(), ctx.argfile(names)]))
    return obl, n, "must-dataflow of tested capability flags over every control-flow path from every public function to every function compiled for an instruction-set extension"


def cpuid(ctx):
    obl, n = split(ctx.hsa(["cpuid", ctx.bc()]))
    return obl, n, "bit-provenance dataflow from the CPUID/XGETBV results to every store that can set a capability flag"


def _effects(ctx, rules):
    lines = []
    for n, (ret, ps) in sorted(ctx.api().items()):
        lines.append(n + ":" + ",".join(str(i) for i, (t, _) in enumerate(ps) if t.startswith("const ") and "*" in t))
    obl, n = split(ctx.hsa(["effects", ctx.bc(), ctx.argfile(lines)]))
    return [o for o in obl if o["rule"] in rules], n


def source_ro(ctx):
    obl, n = _effects(ctx, {"source-read-only"})
    return obl, n, "provenance of the destination of every store, block write and vector store in the fully inlined body of every public function"


def stateless(ctx):
    obl, n = _effects(ctx, {"no-hidden-state"})
    return obl, n, "provenance of every global access and the callee of every remaining call in the fully inlined body of every public function"


# Encoders whose bounds rest on an argument outside the abstract domain (DESIGN.md, "Not decided"):
PERMUTATION = {"mmtf128_encode", "mmtf128_decode", "mmtf256_encode", "mmtf256_decode"}   # history table is a permutation of 0..255
AMORTISED = {"rle8_single_compress"}                                                     # a long packet is paid for by earlier runs
BITSTREAM = {"rle8_mmtf128_compress", "rle8_sh_compress"}                                # vector-mask driven bit packing
PHASE1, TOTAL, ROOT_LIMIT = 420.0, 720.0, 300.0   # seconds


def _encode(ctx, what, rules, exclude, roots=None, extra=None):
    """Analyse every encoder; what the default domain cannot prove is analysed again in a refined domain (more
    templates, later widening, paths into small loops kept apart) before it is reported."""
    enc, dec = ctx.buffer_api()
    if roots is None:
        roots = sorted(set(enc) | {d for d in dec if d.endswith("_decode")})
    skipped = sorted(set(exclude) & set(roots))
    roots = [n for n in roots if n not in exclude]
    bc, t0 = ctx.bc(), time.time()
    def run(r, limit):
        if limit <= 1:
            return None
        try:
            return ctx.hsa(["encode", bc, what, r + (" " + extra(r.lstrip("+")) if extra else "")], timeout=limit)
        except subprocess.TimeoutExpired:
            return None
    def failing(recs):
        return [o for o in recs if "rule" in o and o["rule"] in rules | {"analysis"} and not o["ok"]]
    def loops(recs):
        return [o for o in recs if o.get("rule") == "progress"]
    def same_loops(a, b):
        return [o["loc"] for o in loops(a)] == [o["loc"] for o in loops(b)]
    def secs(recs):
        return max([o["secs"] for o in recs if "secs" in o] or [0])
    # neighbours in the alphabet share code: interleave, so that every family is decided early
    order = [r for k in range(8) for r in roots[k::8]]
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(order, ex.map(lambda r: run(r, min(ROOT_LIMIT, PHASE1 - (time.time() - t0))), order)))
    again = sorted([r for r in roots if res[r] and failing(res[r])], key=lambda r: secs(res[r]))
    confirmed, refined, undecided = [], [], [r for r in roots if res[r] is None]
    def second(r):
        if len(confirmed) >= 6:
            return
        more = run("+" + r, min(ROOT_LIMIT, TOTAL - (time.time() - t0)))
        if more is None:
            undecided.append(r)
            res[r] = None
        elif what == "progress" and len(failing(more)) and same_loops(res[r], more):
            # a loop proven in either domain is proven
            ok = {i for i, o in enumerate(loops(res[r])) if o["ok"]}
            for i, o in enumerate(loops(more)):
                o["ok"] = o["ok"] or i in ok
            (confirmed if failing(more) else refined).append(r)
            res[r] = more
        elif failing(more):
            confirmed.append(r)
            res[r] = more
        else:
            refined.append(r)
            res[r] = more
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(second, again))
    if confirmed:
        for r in again: # the refined domain was not needed any more to decide
            if r not in confirmed and r not in refined:
                res[r] = None
    obl, undefined, insts, steps = [], [], 0, 0
    for r in roots:
        for o in res[r] or []:
            if "rule" in o:
                if o["rule"] == "analysis":
                    undecided.append(r + ": " + o["detail"])
                elif o["rule"] in rules:
                    obl.append(o)
            elif "undefined" in o:
                undefined.append(o["undefined"])
            elif "root" in o:
                insts += o["insts"]
                steps += o["steps"]
    if len(undecided) * 2 > len(roots) and not confirmed:
        raise Broken("the analysis did not finish for %d of %d functions" % (len(undecided), len(roots)))
    return obl, {"functions": len([r for r in roots if res[r]]) - len(undefined), "ir_instructions": insts, "abstract_steps": steps, "not_finished": undecided,
                 "needed_refined_domain": refined, "declared_but_not_defined": undefined, "excluded": skipped}


def dest_bounds(ctx):
    obl, n = _encode(ctx, "mem", {"write-dest", "read-dest", "unknown-pointer"}, AMORTISED | BITSTREAM)
    return obl, n, "relational abstract interpretation (linear inequalities between sizes, cursors and counters) of every path of every encoder; every access to the destination is an obligation offset >= 0 and offset + length <= destination size"


def source_bounds(ctx):
    obl, n = _encode(ctx, "mem", {"read-source", "unknown-pointer"}, {"rle8_sh_compress"})
    return obl, n, "relational abstract interpretation of every path of every encoder; every access to the source is an obligation offset >= 0 and offset + length <= source size"


def table_bounds(ctx):
    obl, n = _encode(ctx, "mem", {"read-local", "write-local", "read-global", "write-global", "unknown-pointer"}, PERMUTATION | BITSTREAM)
    return obl, n, "relational abstract interpretation of every path of every encoder; every indexed access to a stack table or constant table is an obligation inside that table"


def header(ctx):
    obl, n = _encode(ctx, "stream", {"header-input-size", "header-stream-size", "size-is-input-size"}, AMORTISED | BITSTREAM)
    return obl, n, "relational abstract interpretation with two ghost variables holding the last value stored in each header field; at every successful return they must equal input size and returned size"


def fully_written(ctx):
    obl, n = _encode(ctx, "stream", {"gap-free", "fully-written", "size-in-range"}, AMORTISED | BITSTREAM | {"mmtf128_encode", "mmtf256_encode"})
    return obl, n, "relational abstract interpretation with a ghost variable for the end of the contiguously written prefix; each write must start inside or adjacent to the prefix, each returned size must be covered by it and not exceed the destination size"


def fields(ctx):
    enc, dec = ctx.buffer_api()
    obl, n = _encode(ctx, "fields", {"field-fits", "fields-disjoint", "escape-distinct"}, AMORTISED | BITSTREAM, sorted(e for e in enc if "compress" in e))
    return obl, n, "relational abstract interpretation; every quantity that flows into a store to the destination through casts, shifts and | is an obligation: it fits the field, does not overlap the other parts of the field, and differs from a fixed code stored in the same field"


def terminates(ctx):
    obl, n = _encode(ctx, "progress", {"progress"}, AMORTISED | BITSTREAM | PERMUTATION)
    return obl, n, "relational abstract interpretation; for every loop a lexicographic order of loop-carried counters is sought that advances by at least one, towards a limit given by the buffer sizes, on every path around the loop"


def alignment(ctx):
    obl, n = split(ctx.hsa(["align", ctx.bc(), ctx.argfile(sorted(ctx.api()))]))
    return obl, n, "alignment dataflow over the inlined body of every public function: every access the compiler is told to be aligned for a vector unit must hit an object of the library aligned that far or an address tested or brought to that alignment"


def exit_status(ctx):
    obl, n = split(ctx.hsa(["exit", ctx.bc()]))
    return obl, n, "path exploration of the inlined main(): from every call whose failure matters, with the failing result assumed, every path (undecided branches both ways) must end in a non-zero exit status; from every decoder call, every path must pass the comparison with what was read"


UNINIT = ["-Wno-everything", "-Wuninitialized", "-Wsometimes-uninitialized", "-Wconditional-uninitialized"]


def undefined_ops(ctx):
    # rle8_sh_decompress: the number of bits left in its bit reader follows from the stream (DESIGN.md)
    obl, n = split(ctx.hsa(["undef", ctx.bc(), ctx.argfile(sorted(set(ctx.api()) - {"rle8_sh_decompress"}))]))
    def uninit(f):
        r = check.sh([check.CLANG] + [x for x in check.FLAGS if x != "-w"] + UNINIT + ["-fsyntax-only", "-fno-caret-diagnostics", f])
        base = f.rsplit("/", 1)[1]
        out = [{"rule": "uninitialised-variable", "instance": base, "loc": base, "ok": True, "detail": "no local variable can be read before it is written"}]
        bad = sorted({l for l in r.stderr.splitlines() if " warning: " in l})
        for l in bad:
            where, what = l.split(": warning: ", 1)
            out.append({"rule": "uninitialised-variable", "instance": base, "loc": where.rsplit("/", 1)[-1], "ok": False, "detail": what})
        return out[1:] or out
    files = [f for f in ctx.sources() if not f.endswith("rle_fuzz.c")]
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(uninit, files):
            obl += o
    return obl, n, "for every bit search, shift and division in the inlined body of every public function: dominating comparisons, value ranges and known bits must exclude the operand for which the result is undefined; every read of a local array or structure must be preceded by a write on all paths; clang's flow analysis of uninitialised local variables"


BOUNDS = [("rle8_low_entropy_short", "rle8_low_entropy_short_compress_bounds"), ("rle8_low_entropy", "rle8_low_entropy_compress_bounds"), ("rle8m_", "rle8m_compress_bounds"),
          ("rle8_mmtf128", "rle8_mmtf128_compress_bounds"), ("rle8_mmtf256", "rle8_mmtf256_compress_bounds"), ("rle8_sh", "rle8_sh_bounds"), ("", "rle_compress_bounds")]
NO_ARGUMENT_CHECKS = {"mmtf128_encode", "mmtf128_decode", "mmtf256_encode", "mmtf256_decode",            # documented as raw transforms: the caller guarantees valid buffers
                      "rle8_low_entropy_decompress_with_info", "rle8_low_entropy_short_decompress_with_info"}  # inner stage, called with checked arguments


def bounds_of(name):
    return [b for p, b in BOUNDS if name.startswith(p)][0]


def _compressors(ctx):
    return [n for n, (ret, ps) in sorted(ctx.api().items()) if ret == "uint32_t" and len(ps) in (4, 5) and ("_compress" in n) and not n.endswith("_with_info") and "bounds" not in n]


def arguments(ctx):
    comp = set(_compressors(ctx))
    lines = []
    for n, (ret, ps) in sorted(ctx.api().items()):
        if n in NO_ARGUMENT_CHECKS or "bounds" in n:
            continue
        for i, (t, _) in enumerate(ps):
            last = i == len(ps) - 1
            if "*" in t or (t.replace("const ", "") == "uint32_t" and not (last and (n in comp or n.startswith("bitmmtf")))):
                lines.append("%s %d" % (n, i))
    obl, notes = split(ctx.hsa(["args", ctx.bc(), ctx.argfile(lines)]))
    recs = ctx.hsa(["prologue", ctx.bc(), "refuse", ctx.argfile(["%s %s" % (n, bounds_of(n)) for n in sorted(comp)])])
    obl += [o for o in recs if "rule" in o]
    notes["compressors"] = len([r for r in recs if "root" in r])
    return obl, notes, "constant propagation through the inlined call for each argument known to be null or zero (nothing that touches caller memory may remain, every return is 0), and relational abstract interpretation up to the first access to a caller buffer: destination size >= bound and bound > 0 must hold there"


def declared(ctx):
    enc, dec = ctx.buffer_api()
    recs = ctx.hsa(["prologue", ctx.bc(), "declared", ctx.argfile([d for d in dec if d.endswith("decompress")])])
    return [o for o in recs if "rule" in o], {"decoders": len([r for r in recs if "root" in r]), "return_not_traced": [r["undecided_return"] for r in recs if "undecided_return" in r]}, \
        "relational abstract interpretation of every decoder from entry to the first access beyond the stream header, with the two header fields as symbolic values; every value that can be returned traced back to 0 or the declared size"


def promise(ctx):
    api = ctx.api()
    bf = sorted({b for _, b in BOUNDS} | {n for n in api if n.endswith("compress_bounds")})
    recs = ctx.hsa(["prologue", ctx.bc(), "bounds", ctx.argfile(bf)])
    enc, dec = ctx.buffer_api()
    obl, n = _encode(ctx, "promise", {"succeeds"}, AMORTISED | BITSTREAM, sorted(e for e in enc if "compress" in e), bounds_of)
    n["bounds_functions"] = bf
    return [o for o in recs if "rule" in o] + obl, n, "relational abstract interpretation of every bounds function for all input sizes, and of every compressor under the assumption valid buffers, non-empty input, destination size >= bound > 0: the result at every return must be non-zero"


ENGINE = LLVM + ["the abstract transfer functions of tool/absint.cc and the exact rational simplex of tool/poly.cc"]
CHECKS = {
    "P07": {"run": dest_bounds, "min_instances": 5000, "level": "proof", "trusted": ENGINE, "assumptions": ["the destination size argument is the real size of the destination buffer"]},
    "P08": {"run": source_bounds, "min_instances": 1500, "level": "proof", "trusted": ENGINE, "assumptions": ["the input size argument is the real size of the source buffer"]},
    "P09": {"run": table_bounds, "min_instances": 1500, "level": "proof", "trusted": ENGINE},
    "P05": {"run": arguments, "min_instances": 900, "level": "proof", "trusted": ENGINE},
    "P06": {"run": declared, "min_instances": 1000, "level": "proof", "trusted": ENGINE},
    "P12": {"run": promise, "min_instances": 90, "level": "proof", "trusted": ENGINE},
    "P10": {"run": header, "min_instances": 150, "level": "proof", "trusted": ENGINE},
    "P11": {"run": fully_written, "min_instances": 5000, "level": "proof", "trusted": ENGINE},
    "P15": {"run": alignment, "min_instances": 60, "level": "proof", "trusted": LLVM},
    "P14": {"run": exit_status, "min_instances": 15, "level": "proof", "trusted": LLVM, "assumptions": ["with --test: the CPU has every capability a codec asks for (a codec refused for lack of one is skipped by design)"]},
    "P19": {"run": undefined_ops, "min_instances": 2000, "level": "proof", "trusted": LLVM + ["LLVM 18 known-bits and value-range analyses", "clang 18 -Wuninitialized family"]},
    "P17": {"run": terminates, "min_instances": 400, "level": "proof", "trusted": ENGINE},
    "P18": {"run": fields, "min_instances": 5000, "level": "proof", "trusted": ENGINE},
    "P01": {"run": isa, "min_instances": 300, "level": "proof", "trusted": LLVM + ["table: which machine features each capability flag guarantees"],
            "assumptions": ["an instruction-set extension implies the ones the compiler's target(...) attribute implies (AVX2 => AVX => SSE4.2 => POPCNT, AVX-512F => FMA, F16C)"]},
    "P02": {"run": cpuid, "min_instances": 40, "level": "proof", "trusted": LLVM + ["table of CPUID leaf/register/bit and XCR0 bits from the x86 manuals"]},
    "P03": {"run": source_ro, "min_instances": 3000, "level": "proof", "trusted": LLVM, "assumptions": ["caller does not pass overlapping source and destination"]},
    "P04": {"run": stateless, "min_instances": 500, "level": "proof", "trusted": LLVM},
}
