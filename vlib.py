"""Configurations of the repository, compilation to bitcode, engine runs and native replay."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SX = VERIF + "/build/sx"
LEVELS = {2: "LightSaber", 3: "Saber", 4: "FireSaber"}
JOBS = min(8, os.cpu_count() or 4)


class BuildError(Exception):
    pass


def choose(text, macro, value):
    n = [0]
    def line(m):
        on = m.group(2) == value
        n[0] += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)
    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if n[0] != 1:
        raise BuildError("expected one '#define %s %s' line" % (macro, value))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro, ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise BuildError("expected one '#define %s' line" % macro)
    return text


class Config:
    def __init__(self, name, src, edits, sources, defs, cflags=(), arch="x86", extra=(), incs=()):
        self.name, self.src, self.edits, self.sources, self.defs = name, src, edits, sources, dict(defs)
        self.cflags, self.arch, self.extra, self.incs = list(cflags), arch, list(extra), list(incs)

    def __repr__(self):
        return self.name


REF_SRC = "pack_unpack.c poly.c fips202.c verify.c cbd.c SABER_indcpa.c kem.c".split()
AVX_SRC = "pack_unpack.c verify.c fips202.c SABER_indcpa.c kem.c cbd.c".split()
UREF_SRC = REF_SRC + "sha256.c sha512.c aes256ctr.c symmetric-aes.c".split()
UAVX_SRC = AVX_SRC + "symmetric-aes.c crypto_stream_aes256ctr.c".split()
X4_SRC = "pack_unpack.c verify.c fips202.c fips202x4.c SABER_indcpa.c kem.c cbd.c keccak4x/KeccakP-1600-times4-SIMD256.c".split()


def ref(L):
    return Config("ref-" + LEVELS[L], "Reference_Implementation_KEM", {"SABER_params.h": [(choose, "SABER_L", str(L))]}, REF_SRC, {"SP_L": L})


def avx(L):
    return Config("avx-" + LEVELS[L], "AVX_Implementation_KEM", {"api.h": [(choose, "SABER_TYPE", LEVELS[L])]}, AVX_SRC, {"SP_L": L, "H_AVX": 1})


def uref(L, u, n):
    return Config("uref-%s%s%s" % ("u" if u else "", LEVELS[L], "-90s" if n else ""), "Variants/uSaber-90s/ref",
                  {"SABER_params.h": [(choose, "SABER_L", str(L)), (switch, "uSaber", u), (switch, "Saber90s", n)]}, UREF_SRC,
                  {"SP_L": L, "SP_USABER": int(u), "SP_90S": int(n)})


def uavx(L, n):
    return Config("uavx-%s%s" % (LEVELS[L], "-90s" if n else ""), "Variants/uSaber-90s/avx2",
                  {"api.h": [(choose, "SABER_TYPE", LEVELS[L])], "SABER_params.h": [(switch, "Saber90s", n)]}, UAVX_SRC,
                  {"SP_L": L, "SP_90S": int(n), "H_AVX": 1}, ["-fcommon"])


def x4():
    return Config("x4-Saber", "Variants/SaberX4_avx2", {}, X4_SRC, {"SP_L": 3, "H_AVX": 1, "H_X4": 1}, ["-fcommon"])


ARMINC = "/usr/lib/arm-none-eabi/include"
M4_SRC = "SABER_indcpa.c cbd.c kem.c pack_unpack.c poly.c poly_mul.c verify.c".split()
M0_SRC = ["src/" + s for s in "cbd.c kem.c pack_unpack.c poly.c poly_mul.c encode.c SABER_indcpa.c verify.c fips202.c".split()]


def m4(L, v, small=False):
    d = {"SP_L": L, "H_M4": 1}
    if small:
        d["SP_SKBITS"] = 4
    return Config("m4-%s-%s%s" % (LEVELS[L], v, "-compressed" if small else ""), "Cortex-M_Implementation_KEM/Cortex-M4/src/%s/m4-%s" % (LEVELS[L].lower(), v),
                  {"SABER_params.h": [(switch, "SABER_COMPRESS_SECRETKEY", small)]}, M4_SRC, d, arch="m4", incs=[VERIF + "/harness/m4inc"])


def m0():
    return Config("m0-Saber", "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem", {}, M0_SRC, {"SP_L": 3, "H_M0": 1, "SP_H1C": 0, "SP_H2": 224}, arch="m0")


def m4_configs(both=False):
    return [m4(L, v, c) for L in (4, 3, 2) for v in ("striding", "tc4kara") for c in ((False, True) if both else (False,))]


def host_configs():
    out = []
    for L in (4, 3, 2):
        out += [ref(L), avx(L)] + [uavx(L, n) for n in (False, True)] + [uref(L, u, n) for u in (False, True) for n in (False, True)]
    return out


# ------------------------------------------------------------------------------------------------ helpers
def _limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
    return f


def sh(cmd, timeout=300, cwd=None, env=None, gb=None):
    try:
        r = subprocess.run(cmd, preexec_fn=_limit(gb) if gb else None, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, cwd=cwd, env=env)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\ntimeout"


def ensure_engine():
    """setup_cmd builds it; a check run without set-up builds it itself."""
    srcs = [VERIF + "/engine/" + f for f in os.listdir(VERIF + "/engine")]
    if os.path.exists(SX) and all(os.path.getmtime(f) <= os.path.getmtime(SX) for f in srcs):
        return
    rc, out = sh(["make", "-C", VERIF + "/engine", "-j8"], timeout=1500)
    if rc:
        print(out[-3000:]); raise SystemExit("cannot build the engine")


class Work:
    """Scratch directory with configuration copies; every run starts from /repo's current files."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vsx-")
        self.lock = threading.Lock(); self.locks = {}; self.done = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def once(self, key, fn):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.done:
                try:
                    self.done[key] = (True, fn())
                except BuildError as e:
                    self.done[key] = (False, e)
        ok, v = self.done[key]
        if not ok:
            raise v
        return v

    def tree(self, cfg):
        def make():
            d = "%s/%s/src" % (self.dir, cfg.name)
            root = os.path.join(REPO, cfg.src)
            if not os.path.isdir(root):
                raise BuildError(cfg.src + " is missing")
            shutil.copytree(root, d, symlinks=False, ignore=lambda p, ns: [n for n in ns if n.endswith((".o", ".elf", ".a")) or n == "obj" or not os.path.exists(os.path.join(p, n))])
            for f, edits in cfg.edits.items():
                p = os.path.join(d, f)
                try:
                    t = open(p, encoding="utf-8", errors="surrogateescape").read()
                except OSError:
                    raise BuildError(f + " is missing")
                for fn, *a in edits:
                    t = fn(t, *a)
                open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)
            return d
        return self.once(("tree", cfg.name), make)

    def sources(self, cfg):
        """the Makefile's own list when it has one, the list known to this framework otherwise"""
        d = self.tree(cfg)
        try:
            mk = open(d + "/Makefile", errors="replace").read().replace("\\\n", " ")
            m = re.search(r"^SOURCES\s*=(.*)$", mk, flags=re.M)
            got = [re.sub(r"\.o$", ".c", w) for w in m.group(1).split()] if m else []
            got = [g for g in got if g.endswith(".c") and os.path.exists(os.path.join(d, g)) and os.path.basename(g) not in ("rng.c", "cpucycles.c")]
            if cfg.arch == "x86" and "kem.c" in got:
                return got
        except OSError:
            pass
        return [s for s in cfg.sources if os.path.exists(os.path.join(d, s))]

    def target_flags(self, cfg):
        if cfg.arch == "x86":
            return ["-march=haswell", "-maes"]
        if cfg.arch == "m4":
            return ["--target=armv7em-none-eabi", "-mcpu=cortex-m4", "-mfloat-abi=soft", "-mthumb", "-ffreestanding", "-fno-builtin", "-fshort-enums", "-isystem", ARMINC]
        return ["--target=armv6m-none-eabi", "-mcpu=cortex-m0", "-mthumb", "-ffreestanding", "-fno-builtin", "-fshort-enums", "-isystem", ARMINC]

    def bitcode(self, cfg, src, out, flags):
        cmd = ["clang-18" if shutil.which("clang-18") else "clang", "-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-g1", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-emit-llvm", "-c", *self.target_flags(cfg), *flags, src, "-o", out + ".0"]
        rc, o = sh(cmd, cwd=os.path.dirname(src))
        if rc:
            raise BuildError("clang %s: %s" % (os.path.basename(src), o[-1500:]))
        rc, o = sh(["opt-18", "-passes=always-inline,sroa", out + ".0", "-o", out])
        os.remove(out + ".0")
        if rc:
            raise BuildError("opt %s: %s" % (os.path.basename(src), o[-500:]))
        return out

    def impl_bc(self, cfg):
        def make():
            d = self.tree(cfg); od = "%s/%s/bc" % (self.dir, cfg.name); os.makedirs(od, exist_ok=True); outs = []
            for s in self.sources(cfg) + cfg.extra:
                p = s if s.startswith("/") else os.path.join(d, s)
                outs.append(self.bitcode(cfg, p, "%s/%s.bc" % (od, s.replace("/", "_")), cfg.cflags + ["-I" + d, "-I" + d + "/include"] + ["-I" + i for i in cfg.incs]))
            return outs
        return self.once(("impl", cfg.name), make)

    def harness_bc(self, cfg, files, defs, tag):
        def make():
            d = self.tree(cfg); od = "%s/%s/h-%s" % (self.dir, cfg.name, tag); os.makedirs(od, exist_ok=True); outs = []
            for f in files:
                p = VERIF + "/" + f
                outs.append(self.bitcode(cfg, p, "%s/%s.bc" % (od, f.replace("/", "_")), defflags(cfg, defs) + ["-DSX_ENGINE", "-I" + VERIF + "/spec", "-I" + VERIF + "/harness", "-I" + d, "-I" + d + "/include"] + ["-I" + i for i in cfg.incs] + cfg.cflags))
            return outs
        return self.once(("h", cfg.name, tag, tuple(files)), make)


def defflags(cfg, defs):
    x = dict(cfg.defs); x.update(defs)
    return ["-D%s=%s" % (k, v) if v is not None else "-D" + k for k, v in x.items()]


class Job:
    def __init__(self, cfg, files, entry, defs=None, tag=None, args=(), timeout=800, replay=True, impl=True, elf=None, cost=1, what=None, events=(), secret=False, replay_secs=25, native=True, gb=3.5, rehavoc=False):
        self.obl = True; self.rehavoc = rehavoc; self.gb = gb   # address space left to the engine besides its 8 GB (untouched) stack
        self.cfg, self.files, self.entry, self.defs = cfg, list(files), entry, dict(defs or {})
        self.tag = tag or hashlib.md5(repr(sorted((k, str(v)) for k, v in self.defs.items())).encode()).hexdigest()[:8]
        self.args, self.timeout, self.impl, self.elf, self.cost = list(args), timeout, impl, elf, cost
        self.tag += "-" + hashlib.md5(repr(self.files).encode()).hexdigest()[:4]
        self.name = "%s/%s" % (cfg.name, what or entry)
        self.events, self.native, self.replay_secs = tuple(events), native, replay_secs


def run_engine(work, job, extra=(), deadline=None):
    limit = job.timeout
    if deadline is not None:
        limit = min(limit, deadline - time.time())
        if limit < 5:
            return {"job": job.name, "failed": "no time left"}
    bcs = (work.impl_bc(job.cfg) if job.impl is True else [work.once(("one", job.cfg.name, s), lambda s=s: work.bitcode(job.cfg, os.path.join(work.tree(job.cfg), s), "%s/%s/one-%s.bc" % (work.dir, job.cfg.name, s.replace("/", "_")), job.cfg.cflags + ["-I" + work.tree(job.cfg) + "/include"] + ["-I" + i for i in job.cfg.incs])) for s in (job.impl or [])]) + work.harness_bc(job.cfg, job.files, job.defs, job.tag)
    out = "%s/%s-%s-%s.json" % (work.dir, job.cfg.name, job.entry, job.tag)
    cmd = [SX, "--entry", job.entry, "--out", out, "--budget", str(int(limit * 0.6)), *job.args, *extra]
    for e in (job.elf(work, job.cfg) if job.elf else []):
        cmd += ["--elf", e]
    t0 = time.time()
    rc, o = sh(cmd + bcs, timeout=limit, gb=8 + job.gb)
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = {"failed": "engine ended with %s: %s" % (rc, o[-400:])}
    if job.rehavoc and '--written' not in extra and not r.get("failed"):      # static storage first written after the havoc: once more, with it
        late = sorted(set(r["globals_written"]) - set(r["globals_havocked"]))
        if late:
            return run_engine(work, job, list(extra) + [x for n in late + r["globals_havocked"] for x in ("--written", n)], deadline)
    if job.rehavoc and r.get("failed") and "--havoc-min" not in extra:
        # weaker histories: scalars (positions, counters) as the first calls left them; then everything as they left it
        for m in ("8", "999999999"):
            d2 = min(time.time() + 180, deadline or 1e12)
            r2 = run_engine(work, job, list(extra) + ["--havoc-min", m], d2)
            if not r2.get("failed"):
                r2["incomplete"] = r2["incomplete"] + ["static storage only partly arbitrary: " + r["failed"][-80:].strip()]
                return r2
    r["job"] = job.name; r["seconds"] = round(time.time() - t0, 2); r["bcs"] = bcs
    return r


# ------------------------------------------------------------------------------------------------ native replay
def native_build(work, job, mode):
    """mode: real (repository code as it is), override (hashes replaced), asan, ct"""
    cfg = job.cfg; d = work.tree(cfg); od = "%s/%s/n-%s-%s-%s" % (work.dir, cfg.name, mode, job.entry, job.tag); os.makedirs(od, exist_ok=True)
    exe = od + "/replay"; defs = ["-DENTRY=" + job.entry]
    inc = ["-I" + VERIF + "/spec", "-I" + VERIF + "/harness", "-I" + d, "-I" + d + "/include"]
    fl = ["-march=haswell", "-maes"]
    if cfg.arch != "x86":       # the portable C of the microcontroller code runs on this machine as well
        fl = ["-funsigned-char", "-fshort-enums"]
        if mode == "override":
            raise BuildError("no override build for " + cfg.arch)
    if mode == "override":
        bcs = (work.impl_bc(cfg) if job.impl is True else []) + work.harness_bc(cfg, job.files, job.defs, job.tag)
        rc, o = sh([SX, "--emit-redirected", od + "/all.bc", *bcs])
        if rc:
            raise BuildError("redirect: " + o[-500:])
        rc, o = sh(["clang", "-O1", "-w", *fl, "-DOVERRIDE", *defs, *inc, od + "/all.bc", VERIF + "/replay/replay.c", VERIF + "/spec/spec_hash.c", "-o", exe, "-lcrypto"])
    else:
        cc = ["gcc", "-O3"]
        if mode == "asan":
            cc = ["gcc", "-O1", "-g", "-fsanitize=address,bounds" + (",alignment" if cfg.arch == "m0" else ""), "-fno-sanitize-recover=all"]; defs.append("-DASAN")
        if mode == "align":
            cc = ["gcc", "-O0", "-g", "-fgnu89-inline", "-Wl,-z,muldefs"]
        if mode == "vg":
            cc = ["gcc", "-O1", "-g"]; defs += ["-DCTGRIND", "-DVGMEM"]
        if mode.startswith("ct"):
            cc = {"ct3": ["gcc", "-O3"], "ct1": ["gcc", "-O1"], "ctc": ["clang", "-O2"]}[mode] + ["-g"]; defs.append("-DCTGRIND")
        srcs = [os.path.join(d, s) for s in (work.sources(cfg) if job.impl is True else job.impl)] + cfg.extra
        hs = [VERIF + "/" + f for f in job.files if f != "spec/spec_hash.c"]
        objs = []
        for i, s in enumerate(srcs + hs + [VERIF + "/replay/replay.c", VERIF + "/spec/spec_hash.c"]):
            ob = "%s/%d.o" % (od, i)
            isimpl = s in srcs
            rc, o = sh([*cc, "-std=gnu11", "-w", "-ffunction-sections", "-fdata-sections", *fl, *(cfg.cflags), *([] if isimpl else defflags(cfg, job.defs) + defs + inc), *(["-I" + x for x in cfg.incs]), "-I" + d + "/include", "-c", s, "-o", ob], cwd=d)
            if rc:
                raise BuildError("native %s: %s" % (os.path.basename(s), o[-800:]))
            objs.append(ob)
        rc, o = sh([*cc, *objs, "-Wl,--gc-sections", "-o", exe, "-lcrypto"])
    if rc:
        raise BuildError("native link: " + o[-1200:])
    return exe


def write_models(path, res):
    with open(path, "w") as f:
        for m in res.get("models", []):
            f.write("model\n")
            for k, v in m["bufs"].items():
                f.write("set %s %s\n" % (k.replace(" ", "_"), v))
            for n, a, b in m["ufs"]:
                f.write("uf %s %s %s\n" % (n, a or "-", b))


def replay(work, job, res, pid, seed):
    """returns (path, text) of a reproduced violation or None"""
    mf = "%s/%s-%s-%s.models" % (work.dir, job.cfg.name, job.entry, job.tag)
    write_models(mf, res)
    rd = "%s/evidence/replay/%s" % (VERIF, pid); os.makedirs(rd, exist_ok=True)
    notes = []
    if job.elf:                  # no processor for this code here: the assembled instructions are run on the candidate inputs
        cmd = [SX, "--entry", job.entry, *job.args]
        for e in job.elf(work, job.cfg):
            cmd += ["--elf", e]
        out = "%s/%s-%s-models.txt" % (rd, job.cfg.name, job.entry)
        n = len(res.get("models", []))
        for k in range(n + 3):
            rc, o = sh(cmd + ["--concrete", mf, "--model", str(k), "--cseed", str(seed + k)] + res["bcs"], timeout=120, gb=12)
            hit = [l for l in o.splitlines() if l.startswith("REPRODUCED")]
            if rc == 3 and hit:
                shutil.copyfile(mf, out)
                with open(out, "a") as f:
                    f.write("# property %s, configuration %s, harness %s %s, defines %s, model %d, seed %d\n# %s\n" % (pid, job.cfg.name, " ".join(job.files), job.entry, job.defs, k, seed + k, hit[0]))
                return out, "%s %s" % (job.name, hit[0])
            if rc:
                notes.append("concrete run %d: exit %s %s" % (k, rc, o[-200:]))
        res["replay_notes"] = notes
        return None
    for mode in ("real", "override"):
        out = "%s/%s-%s-%s.txt" % (rd, job.cfg.name, job.entry, mode)
        try:
            exe = native_build(work, job, mode)
        except BuildError as e:
            notes.append("%s: %s" % (mode, str(e)[-300:])); continue
        rc, o = sh([exe, mf, out, str(job.replay_secs if mode == "real" else 1), str(seed)], timeout=job.replay_secs * 4 + 60)
        hit = [l for l in o.splitlines() if l.startswith("REPRODUCED")]
        if rc == 3 and hit:
            with open(out, "a") as f:
                f.write("# property %s, configuration %s, harness %s %s, defines %s\n# %s\n" % (pid, job.cfg.name, " ".join(job.files), job.entry, job.defs, hit[0]))
            return out, "%s (%s code%s) %s" % (job.name, "the repository's", "" if mode == "real" else ", hash outputs chosen by the solver", hit[0])
        if rc not in (0, 3):
            notes.append("%s: exit %s %s" % (mode, rc, o[-200:]))
    res["replay_notes"] = notes
    return None


def impl_names(work, job):
    return {os.path.basename(s) for s in (work.sources(job.cfg) if job.impl is True else job.impl)} | {f for _, _, fs in os.walk(work.tree(job.cfg)) for f in fs if f.endswith((".h", ".c"))}


def vg_blocks(out):
    """valgrind's reports: (headline, [(function, file)])"""
    blocks = []
    for l in out.splitlines():
        m = re.match(r"==\d+==\s(.*)$", l)
        if not m:
            continue
        t = m.group(1)
        f = re.match(r"\s+(?:at|by) 0x[0-9A-F]+: (\S+) \((?:in )?([^:)]*)", t)
        if f:
            if blocks:
                blocks[-1][1].append((f.group(1), os.path.basename(f.group(2))))
        elif t.strip() and not t.startswith("  "):
            blocks.append((t.strip(), []))
    return blocks


def confirm_events(work, job, res, evs, pid, seed):
    """what the engine saw happen (a data-dependent branch or address, a bad access), looked for in the compiled program"""
    rd = "%s/evidence/replay/%s" % (VERIF, pid); os.makedirs(rd, exist_ok=True)
    mf = "%s/%s-%s-%s.models" % (work.dir, job.cfg.name, job.entry, job.tag)
    write_models(mf, res); notes = []
    out = "%s/%s-%s-events.txt" % (rd, job.cfg.name, job.entry)
    def report(text, log):
        with open(out, "w") as f:
            f.write("# property %s, configuration %s, harness %s %s, defines %s, seed %d\n# %s\n" % (pid, job.cfg.name, " ".join(job.files), job.entry, job.defs, seed, text))
            for e in evs:
                f.write("# symbolic: %s in %s line %d: %s\n" % (e["kind"], e["fn"], e["line"], e["msg"]))
            f.write(log[-20000:])
        return out, "%s: %s" % (job.name, text)
    kinds = {e["kind"] for e in evs}
    first = "%s in %s line %d" % (evs[0]["msg"], evs[0]["fn"], evs[0]["line"])
    if job.elf:
        cmd = [SX, "--entry", job.entry, *job.args]
        for e in job.elf(work, job.cfg):
            cmd += ["--elf", e]
        traces, log = {}, ""
        for k in range(6):
            rc, o = sh(cmd + ["--concrete", "-", "--cseed", str(seed + k)] + res["bcs"], timeout=120, gb=12)
            for l in o.splitlines():
                if l.startswith("TRACE"):
                    traces[l] = seed + k
                if l.startswith("EVENT ") and l.split()[1] in kinds - {"branch", "addr"}:
                    return report("running the assembled code in the interpreter: " + l[6:], o)
            log += o
        if kinds & {"branch", "addr"} and len(traces) > 1:
            return report("the assembled code takes different instructions or addresses for input seeds %s (%s)" % (sorted(traces.values())[:2], first), log)
        res["replay_notes"] = ["no difference between %d runs" % 6]
        return None
    if kinds & {"branch", "addr"}:
        names = impl_names(work, job)
        for mode in ("ct1", "ct3", "ctc"):
            try:
                exe = native_build(work, job, mode)
            except BuildError as e:
                notes.append("%s: %s" % (mode, str(e)[-300:])); continue
            rc, o = sh(["valgrind", "-q", "--error-limit=no", "--num-callers=16", "--read-inline-info=yes", "--vex-guest-max-insns=20", exe, mf, out, "1", str(seed)], timeout=200)
            for head, frames in vg_blocks(o):
                if ("Conditional jump" in head or "Use of uninitialised" in head) and frames:
                    i = next((i for i, f in enumerate(frames) if f[1] in names), None)
                    if i is not None and i <= 3:
                        return report("%s; in the code built by %s, valgrind with the inputs marked: %s in %s (%s)" % (first, mode, head, frames[i][0], frames[i][1]), o)
            notes.append("%s: no report, exit %s" % (mode, rc))
    modes = (["asan"] if kinds & {"oob", "null", "readonly", "div", "unreachable"} or (job.cfg.arch == "m0" and "align" in kinds) else []) + (["align"] if "align" in kinds else []) + (["vg"] if "uninit" in kinds else [])
    for mode in modes:
        try:
            exe = native_build(work, job, mode)
        except BuildError as e:
            notes.append("%s: %s" % (mode, str(e)[-300:])); continue
        cmd = [exe, mf, out, "8", str(seed)]
        if mode == "vg":
            cmd = ["valgrind", "-q", "--error-limit=no", "--num-callers=16", "--vex-guest-max-insns=20"] + cmd
        rc, o = sh(cmd, timeout=200, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        bad = [l for l in o.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l or l.startswith("REPRODUCED")]
        if bad:
            return report("%s; natively: %s" % (first, bad[0][:300]), o)
        if rc in (-11, -7, 139):
            return report("%s; natively: ended by a signal" % first, o)
        notes.append("%s: exit %s, nothing reported" % (mode, rc))
    res["replay_notes"] = notes
    return None
