#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      run the check of one property
   check.py <property> replay <file> [-v]    run one saved case again
"""
import os, sys, json, time, subprocess, shutil, tempfile, signal, struct, re, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = 8

import registry

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self, tag):
        base = "/tmp"
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % tag, dir=base)
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ build
INC = """runtime runtime/base runtime/os runtime/lib runtime/json runtime/runtime
 server server/user server/auth server/http server/client server/server
 db db/row db/transaction db/storage db/object db/tier db/heap db/index db/part db/catalog db/wal""".split()
LIBS = "-lpthread -lssl -lcrypto -lpcre2-8 -lzstd -lm -ldl".split()

def scope_sources():
    res = []
    for top in ("runtime", "server", "db"):
        for root, dirs, files in os.walk(os.path.join(REPO, "amelie", top)):
            rel = os.path.relpath(root, os.path.join(REPO, "amelie"))
            if rel.startswith("db/service") or rel.startswith("db/db"):
                continue
            res += [os.path.join(root, f) for f in sorted(files) if f.endswith(".c")]
    return sorted(res)

# the whole database: the same sources with db/db and everything above; db/service is completed by the
# overlay (see DESIGN.md), on a copy
FULL_TOPS = ("runtime", "server", "db", "sync", "compiler", "vm", "system")
def full_tree(sc):
    root = sc.path("full")
    if not os.path.exists(root):
        src = os.path.join(REPO, "amelie")
        for top in FULL_TOPS:
            shutil.copytree(os.path.join(src, top), os.path.join(root, "amelie", top),
                            ignore=shutil.ignore_patterns("*.o", "*.a"))
        for f in os.listdir(os.path.join(HERE, "overlay/service")):
            shutil.copy(os.path.join(HERE, "overlay/service", f), os.path.join(root, "amelie/db/service", f))
        # these still use a field of Part under its old name
        for top in ("vm", "system", "compiler"):
            for d, dirs, files in os.walk(os.path.join(root, "amelie", top)):
                for f in files:
                    path = os.path.join(d, f)
                    text = open(path, errors="surrogateescape").read()
                    if "list_at(Part, id.link)" in text:
                        with open(path, "w", errors="surrogateescape") as out:
                            out.write(text.replace("list_at(Part, id.link)", "list_at(Part, link)"))
    return root

def full_sources(root):
    srcs, incs = [], []
    for top in FULL_TOPS:
        for d, dirs, files in os.walk(os.path.join(root, "amelie", top)):
            incs.append(d)
            srcs += [os.path.join(d, f) for f in sorted(files) if f.endswith(".c")]
    return sorted(srcs), sorted(incs)

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def cflags(h):
    f = ["-w", "-g1", "-O1", "-fPIC", "-D_GNU_SOURCE", "-std=gnu2x" if False else "-D_PBT=1"]
    san = h.get("san", "address")
    if san == "address":
        f += ["-fsanitize=address", "-mllvm", "-asan-stack=0", "-fno-omit-frame-pointer"]
    elif san == "thread":
        f += ["-fsanitize=thread"]
    if h.get("cov", True):
        f += ["-fsanitize-coverage=inline-8bit-counters"]
    f += h.get("cflags", [])
    return f

def build(h, sc):
    """compile /repo's working tree and the harness, return the binary path"""
    if h.get("full"):
        root = full_tree(sc)
        sources, incs = full_sources(root)
        inc = ["-I" + i for i in incs] + ["-DPBT_FULL=1"]
    else:
        root, sources = REPO, scope_sources()
        inc = ["-I" + os.path.join(REPO, "amelie", i) for i in INC]
    inc += ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "lib/include")]
    fl = cflags(h)
    tag = "obj-%08x" % (hash((tuple(fl), bool(h.get("full")))) & 0xffffffff)
    odir = sc.path(tag)
    jobs = []
    archive = os.path.join(odir, "scope.a")
    if not os.path.exists(archive):
        os.makedirs(odir, exist_ok=True)
        for s in sources:
            o = os.path.join(odir, os.path.relpath(s, root).replace("/", "_")[:-2] + ".o")
            jobs.append((["clang", "-c", s, "-o", o] + fl + inc, o))
        objs = [o for _, o in jobs]
    else:
        objs = None
    name = os.path.basename(h["src"])[:-2] + "-" + h["name"]
    hobj = []
    nocov = [x for x in fl if not x.startswith("-fsanitize-coverage")]
    srcs = [os.path.join(HERE, h["src"])] + [os.path.join(HERE, s) for s in h.get("extra", [])]
    for s in srcs:
        o = os.path.join(odir, "h_" + name + "_" + os.path.basename(s)[:-2] + ".o")
        jobs.append((["clang", "-c", s, "-o", o] + fl + h.get("hflags", []) + inc, o)); hobj.append(o)
    for s in ("lib/pbt.c", "lib/boot.c"):
        o = os.path.join(odir, os.path.basename(s)[:-2] + ".o")
        if not os.path.exists(o):
            jobs.append((["clang", "-c", os.path.join(HERE, s), "-o", o] + nocov + inc, o))
        hobj.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[0][2]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: sh(j[0]), jobs))
    if objs:
        sh(["ar", "rcs", archive] + objs)
    out = os.path.join(odir, name)
    san = [x for x in fl if x.startswith("-fsanitize=")]
    sh(["clang", "-o", out] + san + ["-rdynamic"] + hobj + h.get("ldflags", []) +
       [archive] + LIBS)
    return out

# ------------------------------------------------------------------ running
ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS="detect_leaks=0:exitcode=76:abort_on_error=0:allocator_may_return_null=1:"
                        "detect_stack_use_after_return=0:handle_abort=1:allow_user_segv_handler=0:"
                        "max_malloc_fill_size=0:quarantine_size_mb=16",
           TSAN_OPTIONS="exitcode=76:report_bugs=1:halt_on_error=1",
           LC_ALL="C.UTF-8", TZ="UTC")

def known_entries(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k["property"] == prop]

def spawn(binary, args, out, env, h):
    os.makedirs(out, exist_ok=True)
    f = open(os.path.join(out, "log"), "wb")
    cmd = h.get("wrapper", []) + [binary] + args + ["--out", out]
    return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=out,
                            stdin=subprocess.DEVNULL, start_new_session=True)

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()

def read_choices(out):
    with open(os.path.join(out, "choices"), "rb") as f:
        n, case = struct.unpack("<QQ", f.read(16))
        data = f.read(8 * n)
    return case, list(struct.unpack("<%dQ" % (len(data) // 8), data))

def log_tail(out, n=4000):
    try:
        with open(os.path.join(out, "log"), "rb") as f:
            t = f.read().decode("utf-8", "replace")
    except OSError:
        return ""
    return t[-n:]

def signature(out, rc):
    t = log_tail(out, 200000)
    m = re.findall(r"PBT-FAIL: (.*)", t)
    if m:
        return "fail"
    return "crash"

class Runner:
    def __init__(self, prop, h, sc, tier, seed, env):
        self.prop, self.h, self.sc, self.tier, self.seed, self.env = prop, h, sc, tier, seed, env
        self.n = 0

    def replay_choices(self, choices, fast=False, verbose=False):
        """True if the case fails"""
        self.n += 1
        out = self.sc.path("r%d" % self.n)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "case")
        with open(path, "w") as f:
            f.write("".join("%d\n" % c for c in choices))
        args = ["--replay", path]
        if fast:
            args += ["--hang-cpu", "10", "--hang-wall", "30"]
        if verbose:
            args += ["-v"]
        if self.tier == "thorough":
            args += ["--thorough"]
        p = spawn(self.bin, args, out, self.env, self.h)
        try:
            p.wait(timeout=400)
        except subprocess.TimeoutExpired:
            pass
        rc = p.poll()
        kill(p)
        t = log_tail(out)
        rec = choices
        if rc not in (0, None):
            try:
                rec = read_choices(out)[1]
            except Exception:
                pass
        shutil.rmtree(out, ignore_errors=True)
        if rc in (2, 3):
            raise RuntimeError("harness error: " + t)
        return (rc != 0 and rc is not None), t, rec

    def shrink(self, choices, budget):
        end = time.time() + budget
        cur = list(choices)
        def try_many(cands):
            # evaluates a batch in parallel; returns the first failing candidate
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(lambda c: self.replay_choices(c, True), cands))
            for c, (bad, _, rec) in zip(cands, res):
                if bad:
                    return rec if len(rec) <= len(c) else c
            return None
        improved = True
        while improved and time.time() < end:
            improved = False
            # delete spans
            size = max(1, len(cur) // 2)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(cur) and time.time() < end:
                    cands = []
                    j = i
                    while j < len(cur) and len(cands) < NCPU:
                        cands.append(cur[:j] + cur[j + size:])
                        j += size
                    got = try_many(cands)
                    if got is not None and len(got) < len(cur):
                        cur = got; improved = True
                    else:
                        i = j
                size //= 2
            # lower values
            i = 0
            idx = [k for k in range(len(cur)) if cur[k]]
            for s in range(0, len(idx), NCPU):
                if time.time() > end:
                    break
                cands = [cur[:k] + [0] + cur[k + 1:] for k in idx[s:s + NCPU] if k < len(cur)]
                got = try_many(cands) if cands else None
                if got is not None and (len(got), sum(got)) < (len(cur), sum(cur)):
                    cur = got; improved = True
        return cur

    def run(self, workers, cases, secs):
        procs = []
        for w in range(workers):
            out = self.sc.path("%s-w%d" % (os.path.basename(self.bin), w))
            seed = (self.seed * 1000003 + w * 7919 + 13) & 0x7fffffffffffffff
            args = ["--seed", str(seed), "--cases", str(cases), "--secs", str(secs)]
            if self.h.get("schedule"):
                args += ["--hang-wall", "45"]
            if self.tier == "thorough":
                args += ["--thorough"]
            procs.append((spawn(self.bin, args, out, self.env, self.h), out, seed))
        end = time.time() + secs + 240
        failed = None
        pending = list(procs)
        while pending and failed is None:
            for it in list(pending):
                rc = it[0].poll()
                if rc is not None:
                    pending.remove(it)
                    if rc != 0:
                        failed = (rc, it)
                        break
            if time.time() > end:
                log("time is over for", len(pending), "workers")
                break
            time.sleep(0.05)
        if failed:
            # prefer the lowest case number among those that fail soon
            time.sleep(0.3)
        for p, _, _ in procs:
            if p.poll() is None:
                kill(p)
        stats = []
        for p, out, _ in procs:
            path = os.path.join(out, "stats.json")
            if os.path.exists(path):
                st = json.load(open(path))
                raw = open(os.path.join(out, "hashes"), "rb").read()
                st["hashes"] = set(struct.unpack("<%dQ" % (len(raw) // 8), raw))
                stats.append(st)
        if not failed:
            for p, out, _ in procs:
                shutil.rmtree(out, ignore_errors=True)
        return stats, failed

# ------------------------------------------------------------------ violation
def save_replay(prop, h, header, choices):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    k = 0
    while os.path.exists(os.path.join(d, "%s-%s-%d" % (prop, h["name"], k))):
        k += 1
    path = os.path.join(d, "%s-%s-%d" % (prop, h["name"], k))
    with open(path, "w") as f:
        for l in header:
            for x in str(l).split("\n"):
                f.write("# %s\n" % x)
        for c in choices:
            f.write("%d\n" % c)
    return path

def handle_failure(r, failed):
    """returns the replay path if the failure is confirmed"""
    h = r.h
    rc, (p, out, seed) = failed
    tail = log_tail(out)
    if rc in (2, 3):
        raise RuntimeError("harness error (%d): %s" % (rc, tail))
    case, choices = read_choices(out)
    log("worker failed: rc=%d case=%d choices=%d" % (rc, case, len(choices)))
    log(tail[-3000:])
    need = 3
    got = 0
    steady = h.get("full") and all(r.replay_choices(choices)[0] for _ in range(3))
    if h.get("schedule") and not steady:
        # depends on timing: one more failure confirms; an explicit contradiction in the recorded history
        # (not a timeout) is a violation by itself
        hit = None
        for _ in range(5):
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(lambda _: r.replay_choices(choices, True), range(NCPU)))
            hit = next((t for bad, t, _ in res if bad), None)
            if hit:
                break
        explicit = ("PBT-FAIL" in tail and "TIMEOUT" not in tail and "did not finish" not in tail) or "AddressSanitizer" in tail
        if hit is None and not explicit:
            o = r.sc.path("again")
            ps = [spawn(r.bin, ["--seed", str(seed + i), "--cases", "1000000", "--secs", "40", "--hang-wall", "40"],
                        o + str(i), r.env, h) for i in range(NCPU)]
            end = time.time() + 100
            for i, pp in enumerate(ps):
                try:
                    pp.wait(timeout=max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    pass
                if pp.poll() not in (0, None):
                    hit = log_tail(o + str(i))
                kill(pp)
        if hit is None and not explicit:
            log("the failure was not reproduced; not reported")
            return None
        text = hit or tail
        log("---- failing history" + ("" if hit else " (seen once)"))
        log(text)
        return save_replay(r.prop, h, ["property %s" % r.prop, "harness %s" % h["name"],
                                       "kind case", "tier %s" % r.tier] + text.split("\n"), choices)
    for _ in range(3):
        bad, _, _ = r.replay_choices(choices)
        got += bad
        if not bad:
            break
    if got >= need:
        small = r.shrink(choices, 60 if r.tier == "quick" else 180)
        ok = all(r.replay_choices(small)[0] for _ in range(3))
        if not ok:
            small = choices
        _, text, _ = r.replay_choices(small, verbose=True)
        log("---- reduced case (%d choices)" % len(small))
        log(text)
        return save_replay(r.prop, h, ["property %s" % r.prop, "harness %s" % h["name"],
                                       "kind case", "tier %s" % r.tier] + text.split("\n"), small)
    # state carried between cases: run the same worker again up to this case
    got = 0
    for i in range(3):
        o = r.sc.path("again%d" % i)
        args = ["--seed", str(seed), "--until", str(case)]
        if r.tier == "thorough":
            args += ["--thorough"]
        pp = spawn(r.bin, args, o, r.env, h)
        try:
            pp.wait(timeout=240)
        except subprocess.TimeoutExpired:
            pass
        bad = pp.poll() not in (0, None)
        kill(pp)
        shutil.rmtree(o, ignore_errors=True)
        got += bad
        if not bad:
            break
    if got == 3:
        return save_replay(r.prop, h, ["property %s" % r.prop, "harness %s" % h["name"],
                                       "kind run seed=%d until=%d" % (seed, case),
                                       "tier %s" % r.tier] + tail.split("\n"), choices)
    log("the failure was not reproduced; not reported")
    return None

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    entry = registry.CHECKS[prop]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if mode not in ("quick", "thorough", "replay"):
        mode = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env = dict(ENV)
    known = known_entries(prop)
    env["PBT_KNOWN"] = ",".join(k["key"] for k in known if k["status"] == "known")
    sc = Scratch(prop)
    start = time.time()
    def on_term(*a):
        sc.cleanup(); os._exit(2)
    signal.signal(signal.SIGTERM, on_term)
    try:
        if "python" in entry:
            mod = __import__(entry["python"])
            return mod.main(prop, entry, mode, seed, sc, sys.argv[3:])
        if mode == "replay":
            path = os.path.abspath(sys.argv[3])
            head = [l[2:].strip() for l in open(path) if l.startswith("# ")]
            name = [l.split()[1] for l in head if l.startswith("harness ")][0]
            tier = [l.split()[1] for l in head if l.startswith("tier ")][:1] or ["quick"]
            h = [x for x in entry["harness"] if x["name"] == name][0]
            r = Runner(prop, h, sc, tier[0], seed, env)
            r.bin = build(h, sc)
            kind = [l for l in head if l.startswith("kind run")]
            if kind:
                m = re.match(r"kind run seed=(\d+) until=(\d+)", kind[0])
                o = sc.path("run")
                pp = spawn(r.bin, ["--seed", m.group(1), "--until", m.group(2)], o, env, h)
                pp.wait(); bad = pp.returncode != 0; text = log_tail(o)
            else:
                choices = [int(l) for l in open(path) if l.strip() and not l.startswith("#")]
                bad = False
                for _ in range(40 if h.get("schedule") else 1):
                    bad, text, _ = r.replay_choices(choices, verbose=True)
                    if bad:
                        break
            log(text)
            log("replay:", "FAILS" if bad else "passes")
            return 1 if bad else 0
        total, hashes, classes, samples, edges = 0, 0, {}, [], 0
        nontriv = 0
        violation = None
        seen_known = {}
        for h in entry["harness"]:
            r = Runner(prop, h, sc, mode, seed, env)
            t0 = time.time()
            r.bin = build(h, sc)
            log("[%s/%s] built in %.1fs" % (prop, h["name"], time.time() - t0))
            workers = h.get("workers", NCPU)
            cases, secs = (h["quick"] if mode == "quick" else h["thorough"])
            stats, failed = r.run(workers, cases, secs)
            allh = set()
            for st in stats:
                total += st["cases"]
                nontriv += st["nontrivial"]
                allh |= st["hashes"]
                edges = max(edges, st["edges"])
                for k, v in st["classes"].items():
                    c = classes.setdefault(h["name"] + "/" + k, [0, 0])
                    c[0] += v[0]; c[1] += v[1]
                    if k.startswith("known:"):
                        seen_known[k[6:]] = seen_known.get(k[6:], 0) + v[0]
            hashes += len(allh)
            for st in stats[:2]:
                samples += ["[%s] %s" % (h["name"], s) for s in st["samples"][-2:]]
            log("[%s/%s] cases=%d distinct nontrivial=%d edges=%d %.1fs" %
                (prop, h["name"], sum(s["cases"] for s in stats), len(allh),
                 max([s["edges"] for s in stats] or [0]), time.time() - t0))
            if failed:
                violation = handle_failure(r, failed)
                if violation:
                    break
            if not stats and not failed:
                log("no worker finished"); return 2
        ev = dict(property=prop, tier=mode, seed=seed, level="exploration",
                  coverage=dict(evaluations=total, distinct_nontrivial=hashes,
                                rule=entry["rule"], samples=samples[:8] or ["(none)"],
                                classes={k: (v[0] if not v[1] else v) for k, v in sorted(classes.items())},
                                code_edges_reached=edges,
                                harnesses=[x["name"] for x in entry["harness"]]),
                  assumptions=entry.get("assumptions", []),
                  wall_s=round(time.time() - start, 1), violations=1 if violation else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + (".mut" if os.environ.get("VERIF_NOEVIDENCE") else "") + ".json"), "w") as f:
            json.dump(ev, f, indent=1); f.write("\n")
        for k in known:
            if k["status"] == "known":
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for k, v in sorted(classes.items()):
            log("   %-48s %s" % (k, v[0] if not v[1] else v))
        if violation:
            log("VIOLATION property=%s replay=%s" % (prop, violation))
            return 1
        return 0
    except BuildError as e:
        log("build failed:\n%s" % e)
        return 2
    finally:
        sc.cleanup()

if __name__ == "__main__":
    sys.exit(main())
