"""What each property runs, and how a run is turned into a verdict and an evidence file."""
import json, os, re, time
from concurrent.futures import ThreadPoolExecutor, as_completed
import vlib
from vlib import Job, BuildError, ref, avx, uref, uavx, x4, m4, m0, m4_configs, host_configs

KEM = ["harness/h_kem.c", "spec/spec_saber.c"]
PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def kem_jobs(entry, tier):
    js = []
    for c in host_configs():
        js.append(Job(c, KEM, entry, cost=c.defs["SP_L"] ** 2))
    return js


@prop("C01")
def c01(tier): return kem_jobs("harness_dec", tier)


@prop("C02")
def c02(tier): return kem_jobs("harness_keygen", tier)


@prop("C03")
def c03(tier): return kem_jobs("harness_enc", tier)


X4 = ["harness/h_x4.c", "spec/spec_saber.c"]


@prop("C04")
def c04(tier): return [Job(x4(), X4, "harness_keygen"), Job(x4(), X4, "harness_enc")]


@prop("C05")
def c05(tier): return [Job(x4(), X4, "harness_dec")]


HASH = ["harness/h_sha3.c", "spec/spec_hash.c"]
X4HASH = ["fips202.c", "fips202x4.c", "keccak4x/KeccakP-1600-times4-SIMD256.c"]


M0_FIPS = ["src/fips202.c"]


def ranged(cfg, impl, entry, lo, hi, step, cost, funcs, uf=True, light=False, **k):
    out = []
    for a in range(lo, hi, step):
        d = {"H_LO": a, "H_HI": min(hi, a + step), "H_FUNCS": funcs}
        if light:
            d["H_LIGHT"] = 1
        if uf:
            d["SPEC_KECCAK_UF"] = None
        out.append(Job(cfg, HASH, entry, d, impl=impl, cost=cost, what="%s[%d..%d)%s" % (entry, a, d["H_HI"], "" if uf else " full permutation"), **k))
    return out


@prop("C12")
def c12(tier):
    js = []
    top = 1500 if tier == "quick" else 3400
    for c, f in ((ref(3), 13), (uref(3, True, False), 13), (avx(3), 29), (uavx(3, False), 29), (x4(), 29)):
        for a, b in ((0, 750), (750, 1200), (1200, 1500)) if tier == "quick" else ((i, i + 100) for i in range(0, top, 100)):
            js += ranged(c, ["fips202.c"], "harness_inlen", a, b, b - a, b, f)
        js += ranged(c, ["fips202.c"], "harness_outlen", 0, 1000 if tier == "quick" else 3000, 500, 30, f)
        js += ranged(c, ["fips202.c"], "harness_kemlen", 0, 1, 1, 2, f)
        js += ranged(c, ["fips202.c"], "harness_inplace", 0, 1, 1, 2, f)
        js += ranged(c, ["fips202.c"], "harness_inlen", 336, 337, 1, 100, f, uf=False)
    for a, b in ((0, 700), (700, 1100), (1100, 1400)) if tier == "quick" else ((i, i + 100) for i in range(0, top, 100)):
        js += ranged(m0(), M0_FIPS, "harness_inlen", a, b, b - a, b, 63, light=True)
    js += ranged(m0(), M0_FIPS, "harness_outlen", 0, 1000 if tier == "quick" else 3000, 500, 30, 63, light=True)
    for a, b in ((0, 24), (70, 74), (134, 138), (166, 170)):
        js += ranged(m0(), M0_FIPS, "harness_inlen", a, b, b - a, 100, 63)
    js += ranged(m0(), M0_FIPS, "harness_kemlen", 0, 1, 1, 2, 63, light=True)
    js += ranged(m0(), M0_FIPS, "harness_inplace", 0, 1, 1, 2, 63)
    for e in ("harness_perm", "harness_round", "harness_xor", "harness_extract", "harness_init"):
        js.append(Job(m0(), ["harness/h_keccakm0.c", "spec/spec_hash.c"], e, {"SPEC_KECCAK_UF": None}, impl=[], elf=arm_objects))
    for a in range(0, 1200 if tier == "quick" else 3000, 100):
        js += ranged(x4(), X4HASH, "harness_inlen4", a, a + 100, 100, 40, 13)
    js += ranged(x4(), X4HASH, "harness_outlen4", 0, 1000, 250, 40, 13)
    js += ranged(x4(), X4HASH, "harness_kemlen4", 0, 1, 1, 10, 13)
    js += ranged(x4(), X4HASH, "harness_inlen4", 336, 337, 1, 2000, 13, uf=False, gb=5)
    return js


def function_configs():
    """one configuration per distinct copy of function-level code: the levels change macros only"""
    out = []
    for L in (3, 2, 4):
        out += [ref(L), avx(L), uref(L, False, False), uref(L, True, False), uavx(L, False)]
    return out


VER = ["harness/h_verify.c"]


@prop("C17")
def c17(tier):
    js = []
    for c in (ref(3), avx(3), uref(3, True, False), uavx(3, False), x4(), m0()):
        for e in ("harness_verify", "harness_onebyte", "harness_cmov"):
            js.append(Job(c, VER, e, impl=["src/verify.c" if c.arch == "m0" else "verify.c"]))
    for c in m4_configs():
        js.append(Job(c, VER + ["spec/spec_saber.c"], "harness_cmov", {"H_NOVERIFY": 1}, impl=["verify.c", "pack_unpack.c"]))
        js.append(Job(c, VER + ["spec/spec_saber.c"], "harness_packcmp", {"H_NOVERIFY": 1}, impl=["verify.c", "pack_unpack.c"]))
    return js


GENSEC = ["harness/h_gensec.c"]
M4 = ["harness/h_m4.c", "spec/spec_saber.c"]
M4_IMPL = "SABER_indcpa.c cbd.c kem.c pack_unpack.c poly.c verify.c".split()      # poly_mul.c is C07's business
def arm_objects(work, cfg):
    """assembles every assembly source of a Cortex-M configuration from the current tree"""
    def make():
        d = work.tree(cfg); outs = []
        mk = re.sub(r"#.*|^OBJECTS.*", "", open(d + "/Makefile", errors="replace").read(), flags=re.M) if cfg.arch == "m0" and os.path.exists(d + "/Makefile") else None
        for dp, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith((".s", ".S")) and (mk is None or re.search(r"(?<![\w])" + re.escape(f) + r"\b", mk)):
                    o = "%s/%s/%s.%s.o" % (work.dir, cfg.name, f, cfg.arch)
                    rc, t = vlib.sh(["arm-none-eabi-gcc", "-mcpu=cortex-m4" if cfg.arch == "m4" else "-mcpu=cortex-m0", "-mthumb", "-I" + dp, "-I" + d, "-I" + d + "/include", "-c", os.path.join(dp, f), "-o", o])
                    if rc:
                        raise BuildError("assembling %s: %s" % (f, t[-800:]))
                    outs.append(o)
        return outs
    return work.once(("asm", cfg.name), make)


CBD = ["harness/h_cbd.c", "spec/spec_saber.c"]


@prop("C06")
def c06(tier):
    return [Job(c, M4, e, {"H_POLYSTUB": 1, "H_KEM": 1}, impl=M4_IMPL, cost=c.defs["SP_L"] ** 2, gb=4) for c in m4_configs(True) for e in ("harness_keygen", "harness_enc", "harness_dec")]


ARMMUL = ["harness/h_armmul.c", "spec/spec_saber.c"]


@prop("C07")
def c07(tier):
    js = []
    for c in m4_configs():
        for e in ("harness_mul", "harness_mulacc"):
            js.append(Job(c, ARMMUL, e, impl=["poly_mul.c"], elf=arm_objects))
    return js


M0_IMPL = ["src/" + s for s in "cbd.c kem.c pack_unpack.c poly.c poly_mul.c encode.c SABER_indcpa.c verify.c fips202.c".split()]


@prop("C08")
def c08(tier):
    return [Job(m0(), ["harness/h_kem.c", "spec/spec_saber.c", "spec/spec_hash.c"], e, {"SPEC_KECCAK_UF": None, "SP_SPONGE": None, "H_LIGHT": 1}, impl=M0_IMPL, cost=9, gb=6) for e in ("harness_keygen", "harness_enc", "harness_dec")] + [
        Job(m0(), ["harness/h_kem.c", "spec/spec_saber.c", "spec/spec_hash.c"], "harness_keybits", {"SPEC_KECCAK_UF": None, "SP_SPONGE": None, "H_LIGHT": 1, "H_KEYBITS": None}, impl=M0_IMPL, args=["--atompoly"])]


def m0prng():
    return vlib.Config("m0-prng", m0().src, {}, ["src/prng.c"], {}, cflags=["-I" + vlib.VERIF + "/harness/m0prng"], arch="m0")


@prop("C20")
def c20(tier):
    defs = {} if tier == "quick" else {"H_LENS": ", ".join(map(str, list(range(300)) + [511, 512, 736, 1000]))}
    return [Job(m0prng(), ["harness/h_m0prng.c"], "harness_prng", defs, impl=["src/prng.c"])]


@prop("C11")
def c11(tier):
    js = []
    for c in [c for c in function_configs() if not c.defs.get("SP_USABER")] + [x4()] + m4_configs() + [m0()]:
        js.append(Job(c, CBD, "harness_cbd", impl=["src/cbd.c" if c.arch == "m0" else "cbd.c"]))
    js.append(Job(m0(), CBD, "harness_part", impl=["src/cbd.c"]))
    js.append(Job(m0(), GENSEC + ["spec/spec_saber.c", "spec/spec_hash.c"], "harness_gensecret", {"SPEC_KECCAK_UF": None, "SP_SPONGE": None, "H_LIGHT": 1}, impl=["src/" + f for f in ("poly.c", "cbd.c", "fips202.c")]))
    for c in host_configs():
        js.append(Job(c, GENSEC + KEM, "harness_gensecret"))
    for e in ("harness_gensecret", "harness_gensecret4"):
        js.append(Job(x4(), GENSEC + X4, e))
    for c in m4_configs(True):
        for e in ("harness_gensecret", "harness_gensecret_pack"):
            js.append(Job(c, GENSEC + M4, e, {"H_POLYSTUB": 1}, impl=M4_IMPL))
    return js


MUL = ["harness/h_mul.c", "spec/spec_saber.c"]


@prop("C09")
def c09(tier):
    js = [Job(m0(), MUL, "harness_poly", impl=["src/poly_mul.c"], cost=2)]
    hosts = [ref(4), ref(3), ref(2), uref(4, True, False), uref(3, False, False)] + [avx(4), avx(3), avx(2), uavx(4, False), uavx(3, False), x4()]
    if tier != "quick":
        hosts = function_configs() + [x4()]
    for c in hosts:
        L = c.defs["SP_L"]
        es = ["harness_vector", "harness_matrix", "harness_matrix_t"]
        if "H_AVX" not in c.defs:
            es.append("harness_poly")
        for e in es:
            js.append(Job(c, MUL, e, impl=["pack_unpack.c", "cbd.c"] if "H_AVX" in c.defs else ["poly.c", "poly_mul.c"], cost=3 * (L * L if "matrix" in e else 1), gb=6))
    return js


AES = ["harness/h_aes.c", "spec/spec_hash.c"]
LENS = "0, 1, 15, 16, 17, 63, 64, 65, 127, 128, 129, 200"
AVX_AES = ["crypto_stream_aes256ctr.c", "symmetric-aes.c"]
REF_AES = ["aes256ctr.c", "symmetric-aes.c"]
U90 = lambda: [uref(3, False, True), uavx(3, True)]


@prop("C13")
def c13(tier):
    r, a = U90()
    js = [Job(r, AES, "harness_sbox", {"H_SBOX": 1, "H_LENS": 1}, impl=[], args=["--sweep"])]
    for c, im, es in ((r, REF_AES, ("harness_prf", "harness_stream", "harness_blocks")), (a, AVX_AES, ("harness_prf", "harness_stream", "harness_carry"))):
        for e in es:
            js.append(Job(c, AES, e, {"H_LENS": LENS, "H_LO": 1, "H_HI": 30}, impl=im, args=["--sweep"]))
    for f, h in (("harness_sha256", 64), ("harness_sha512", 128)):
        for lo in range(0, 600, 200):
            js.append(Job(r, AES, f, {"H_SHA": 1, "SPEC_SHA2_UF": None, "H_LO": lo, "H_HI": lo + 200}, impl=[f[8:] + ".c"], what="%s[%d..%d)" % (f, lo, lo + 200)))
        js.append(Job(r, AES, f, {"H_SHA": 1, "H_LO": h, "H_HI": h + 1}, impl=[f[8:] + ".c"], args=["--atompoly"], what=f + " full compression"))
    return js


CT = {"H_NOSPEC": None, "H_SECRET": "sx_secret", "H_PUBLIC": "sx_secret"}
M0KEM = ["harness/h_kem.c", "spec/spec_saber.c", "spec/spec_hash.c"]
M0DEFS = {"SPEC_KECCAK_UF": None, "SP_SPONGE": None, "H_LIGHT": 1}
ENTRIES = ("harness_keygen", "harness_enc", "harness_dec")


def all_kem_jobs(defs, **k):
    """the three API calls of every configuration, without the specification"""
    js = [Job(c, KEM, e, defs, **k) for c in host_configs() for e in ENTRIES]
    js += [Job(x4(), X4, e, defs, **k) for e in ENTRIES]
    js += [Job(c, M4, e, {"H_POLYSTUB": 1, "H_KEM": 1, **defs}, impl=M4_IMPL, **k) for c in m4_configs(True) for e in ENTRIES]
    js += [Job(m0(), M0KEM, e, {**M0DEFS, **defs}, impl=M0_IMPL, **k) for e in ENTRIES]
    return js


def part_jobs(defs, **k):
    """the functions the API calls rest on, run on their own without the specification"""
    js = []
    for c, f in ((ref(3), 13), (uref(3, True, False), 13), (avx(3), 29), (uavx(3, False), 29), (x4(), 29)):
        for e, lo, hi in (("harness_kemlen", 0, 1), ("harness_inlen", 0, 340), ("harness_outlen", 0, 340), ("harness_inplace", 0, 1)):
            js.append(Job(c, HASH, e, {"SPEC_KECCAK_UF": None, "H_FUNCS": f, "H_LO": lo, "H_HI": hi, **defs}, impl=["fips202.c"], **k))
        js.append(Job(c, HASH, "harness_inlen", {"H_FUNCS": f, "H_LO": 336, "H_HI": 337, **defs}, impl=["fips202.c"], what="harness_inlen full permutation", **k))
    for e, lo, hi in (("harness_inlen4", 0, 300), ("harness_outlen4", 0, 340), ("harness_kemlen4", 0, 1)):
        js.append(Job(x4(), HASH, e, {"SPEC_KECCAK_UF": None, "H_FUNCS": 13, "H_LO": lo, "H_HI": hi, **defs}, impl=X4HASH, **k))
    js.append(Job(x4(), HASH, "harness_inlen4", {"H_FUNCS": 13, "H_LO": 336, "H_HI": 337, **defs}, impl=X4HASH, what="harness_inlen4 full permutation", gb=5, **k))
    for e, lo, hi in (("harness_kemlen", 0, 1), ("harness_inlen", 0, 340), ("harness_outlen", 0, 340), ("harness_inplace", 0, 1)):
        js.append(Job(m0(), HASH, e, {"SPEC_KECCAK_UF": None, "H_FUNCS": 63, "H_LO": lo, "H_HI": hi, "H_LIGHT": 1, **defs}, impl=M0_FIPS, **k))
    for e in ("harness_perm", "harness_xor", "harness_extract", "harness_init"):
        js.append(Job(m0(), ["harness/h_keccakm0.c", "spec/spec_hash.c"], e, {"SPEC_KECCAK_UF": None, **defs}, impl=[], elf=arm_objects, **k))
    for c in m4_configs():
        for e in ("harness_mul", "harness_mulacc"):
            js.append(Job(c, ARMMUL, e, defs, impl=["poly_mul.c"], elf=arm_objects, **k))
    for c in (ref(3), avx(3), uref(3, True, False), uavx(3, False), x4(), m0()):
        for e in ("harness_verify", "harness_cmov"):
            js.append(Job(c, VER, e, defs, impl=["src/verify.c" if c.arch == "m0" else "verify.c"], **k))
    for c in m4_configs():
        for e in ("harness_cmov", "harness_packcmp"):
            js.append(Job(c, VER + ["spec/spec_saber.c"], e, {"H_NOVERIFY": 1, **defs}, impl=["verify.c", "pack_unpack.c"], **k))
    r, a = U90()
    for c, im, es in ((r, REF_AES, ("harness_prf", "harness_stream", "harness_blocks")), (a, AVX_AES, ("harness_prf", "harness_stream"))):
        for e in es:
            js.append(Job(c, AES, e, {"H_LENS": LENS, **defs}, impl=im, **k))
    for f in ("harness_sha256", "harness_sha512"):
        js.append(Job(r, AES, f, {"H_SHA": 1, "SPEC_SHA2_UF": None, "H_LO": 0, "H_HI": 300, **defs}, impl=[f[8:] + ".c"], **k))
        js.append(Job(r, AES, f, {"H_SHA": 1, "H_LO": 130, "H_HI": 131, **defs}, impl=[f[8:] + ".c"], args=["--atompoly"], what=f + " full compression", **k))
    return js


@prop("C14")
def c14(tier):
    js = all_kem_jobs(CT, events=("branch", "addr")) + part_jobs(CT, events=("branch", "addr"))
    for j in js:
        j.args += ["--ct"]; j.obl = False      # one path is all there is unless a branch depends on data
    return js


MEM = {"H_NOSPEC": None, "H_ALIGN": 1}
MEMEV = ("oob", "null", "align", "readonly", "uninit", "unreachable", "div")


@prop("C15")
def c15(tier):
    js = all_kem_jobs(MEM, events=MEMEV) + part_jobs(MEM, events=MEMEV)
    for j in js:
        if j.cfg.arch == "m0":      # that processor faults on any unaligned access
            j.args.append("--strict-align")
    return js


def hist(base):
    return ["harness/h_hist.c"] + base[1:]


def hist_jobs(ops, tier):
    d = {"H_OPS": ops}; k = {"gb": 5, "rehavoc": True, "timeout": 300 if tier == "quick" else 1500}
    js = [Job(c, hist(KEM), "harness_hist", d, cost=c.defs["SP_L"] ** 2, **k) for c in host_configs()]
    js += [Job(x4(), hist(X4), "harness_hist", d, cost=30, **k)]
    js += [Job(c, hist(M4), "harness_hist", {"H_POLYSTUB": 1, "H_KEM": 1, **d}, impl=M4_IMPL, **k) for c in m4_configs(True)]
    js += [Job(m0(), hist(M0KEM), "harness_hist", {**M0DEFS, **d}, impl=M0_IMPL, cost=20, **k)]
    return js


@prop("C16")
def c16(tier):
    return hist_jobs(7, tier)


RNG = ["harness/h_rng.c", "spec/spec_saber.c", "spec/spec_hash.c"]


def rows(r):
    return {"H_REQS": ", ".join("{%s}" % ", ".join(map(str, x)) for x in r), "H_MAXREQ": max(max(x) for x in r)}


@prop("C18")
def c18(tier):
    js = []; top = 64 if tier == "quick" else 272
    three = [(n, (n * 7 + 3) % (top + 1), (n * 5 + 1) % 49) for n in range(top + 1)]
    four = [(n, (n * 7 + 3) % 37, (n * 5 + 1) % 49, 33 - n % 34) for n in range(top + 1)]
    big = [(1, 1000, 16)] if tier == "quick" else [(1, 1000, 16), (16, 10000, 3)]
    xbig = [(7, 4096 + 40, 15, 1)] if tier == "quick" else [(7, 4096 + 40, 15, 1), (16 * 65536 - 20, 39, 16, 1)]
    for c in (ref(3), avx(3), uref(3, False, False), uavx(3, False), x4()):
        for k in range(0, len(three), 13):
            js.append(Job(c, RNG, "harness_drbg", {"H_DRBG": 1, **rows(three[k:k + 13])}, impl=["rng.c"], what="harness_drbg %d.." % k))
            js.append(Job(c, RNG, "harness_expand", rows(four[k:k + 13]), impl=["rng.c"], what="harness_expand %d.." % k))
        js.append(Job(c, RNG, "harness_drbg", {"H_DRBG": 1, **rows(big)}, impl=["rng.c"], what="harness_drbg long", cost=20))
        js.append(Job(c, RNG, "harness_expand", rows(xbig), impl=["rng.c"], what="harness_expand long", cost=20))
        js.append(Job(c, RNG, "harness_badmax", rows([(1, 1, 1, 1)]), impl=["rng.c"]))
    return js


PACK = ["harness/h_pack.c", "spec/spec_saber.c"]


@prop("C10")
def c10(tier):
    js = []
    for c in function_configs() + [x4()] + m4_configs() + [m0()]:
        for e in ("harness_pack", "harness_roundtrip"):
            js.append(Job(c, PACK, e, impl=["src/pack_unpack.c" if c.arch == "m0" else "pack_unpack.c"]))
    js.append(Job(x4(), PACK, "harness_pack4", native=True))
    return js


# ------------------------------------------------------------------------------------------------ verdicts
def run_job(work, job, pid, seed, t0, budget):
    try:
        r = vlib.run_engine(work, job, deadline=t0 + budget - 60)
    except BuildError as e:
        return {"job": job.name, "failed": "build: " + str(e)[-600:]}
    if r.get("failed"):
        return r
    seen = [e for e in r["events"] if e["kind"] in job.events and (e["kind"] not in ("branch", "addr") or e["secret"])]
    if seen:
        r["seen"] = seen; hit = None
        if job.native and budget - (time.time() - t0) > 5:
            try:
                hit = vlib.confirm_events(work, job, r, seen, pid, seed)
            except BuildError as e:
                r["replay_notes"] = [str(e)[-300:]]
        if hit:
            r["violation"] = hit; return r
    if not job.obl:                 # this property is about how the code computes; what it computes is judged elsewhere
        r["unresolved"] = 0; r["unresolved_at"] = []
    if r["unresolved"] and job.native:
        left = budget - (time.time() - t0)
        if left > 5:
            try:
                hit = vlib.replay(work, job, r, pid, seed)
            except BuildError as e:
                hit = None; r["replay_notes"] = [str(e)[-300:]]
            if hit:
                r["violation"] = hit
    return r


def run_property(work, pid, tier, seed, t0, budget):
    jobs = sorted(PROPS[pid](tier), key=lambda j: -j.cost)
    results, viol = [], []
    with ThreadPoolExecutor(vlib.JOBS) as ex:
        futs = {ex.submit(run_job, work, j, pid, seed, t0, budget): j for j in jobs}
        for f in as_completed(futs):
            j = futs[f]
            try:
                r = f.result()
            except Exception as e:
                r = {"job": j.name, "failed": "%s: %s" % (type(e).__name__, e)}
            results.append(r)
            if r.get("violation"):
                viol.append(r["violation"])
                if tier == "quick":
                    for g in futs:
                        g.cancel()
                    break
    return finish(pid, tier, seed, t0, results, viol, len(jobs))


def finish(pid, tier, seed, t0, results, viol, njobs, extra=None):
    ok = [r for r in results if not r.get("failed")]
    tot = lambda k: sum(r.get(k, 0) for r in ok)
    undecided = []
    for r in results:
        if r.get("failed"):
            undecided.append("%s: %s" % (r["job"], r["failed"][:300]))
        elif not r.get("violation"):
            if not r["obligations"] or not r["reached_end"]:
                undecided.append("%s: the harness did not run to its end" % r["job"])
            if r["unresolved"]:
                undecided.append("%s: %d obligations not discharged and not reproduced (%s) %s" % (r["job"], r["unresolved"], ", ".join(r["unresolved_at"][:3]), r.get("replay_notes", "")))
            if r.get("seen"):
                e = r["seen"][0]; undecided.append("%s: %s in %s line %s, not reproduced natively %s" % (r["job"], e["msg"], e["fn"], e["line"], r.get("replay_notes", "")))
            if r["incomplete"]:
                undecided.append("%s: %s" % (r["job"], r["incomplete"][:2]))
    fns = sorted({f for r in ok for f in r.get("functions", [])})
    ob = tot("obligations")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": ["bitcode from clang 18 at -O1 without passes stands for the code", "uninterpreted symbols stand for the primitives named under uninterpreted (each decided by its own property)",
                          "identity of polynomial terms rests on a 128-bit hash of their canonical form"],
          "coverage": {"explanation": "symbolic execution of the real code to LLVM IR terms; every obligation is an equality decided for all values of the symbolic inputs",
                       "configurations": len(ok), "jobs": njobs, "obligations": ob, "discharged": ob - tot("unresolved"),
                       "identical_terms": tot("identical"), "proved_by_z3": tot("z3_proved"), "proved_by_bit_expansion": tot("deep"), "proved_by_sweeping": tot("swept"),
                       "queries": tot("queries"), "unsat": tot("unsat"), "impl_branches_and_selects": tot("impl_branches"), "sat": tot("sat"), "unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 2),
                       "paths": tot("paths"), "ir_instructions": tot("instructions"), "functions_encoded": fns,
                       "uninterpreted": sorted({u for r in ok for u in r.get("ufs", [])}), "undecided": undecided[:20],
                       "samples": [{k: r[k] for k in ("job", "obligations", "paths", "seconds", "labels") if k in r} for r in ok[:3]],
                       "per_job_seconds": {r["job"]: r.get("seconds") for r in results}}}
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(vlib.VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (vlib.VERIF, pid), "w"), indent=1)
    for u in undecided[:10]:
        print("UNDECIDED property=%s %s" % (pid, u))
    print("property=%s jobs=%d obligations=%d discharged=%d queries=%d wall=%.1fs" % (pid, njobs, ob, ob - tot("unresolved"), tot("queries"), time.time() - t0))
    if viol:
        for p, t in viol:
            print(t)
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0
