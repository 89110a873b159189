#!/usr/bin/env python3
"""Runs the generated-input check of one property against /repo's working tree.

  check.py run ID [--tier quick|thorough]   the registered check
  check.py build                            build everything (setup_cmd)
  check.py replay FILE                      re-run a replay file against the current tree
  check.py list                             properties and their runs

Exit 0: held on everything generated.  Exit 1: a VIOLATION line was printed.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
EVID = os.path.join(V, "evidence")

from runs import PROPS, CAPS_DEFAULT, SOURCES  # noqa: E402  (table of properties)

SAN = "-fsanitize=address,undefined,bounds-strict -fno-sanitize-recover=all -fno-omit-frame-pointer"
LIBFLAGS = {
    "plain": "-O2 -g",
    "asan": "-O1 -g " + SAN,
    "tsan": "-O0 -g -fsanitize=thread",
    "float": "-O2 -g -DSINGLE_PRECISION",
    "release": "-O3 -DNDEBUG",
    "asannd": "-O1 -g -DNDEBUG " + SAN,
}
LINKFLAGS = {"asan": "-fsanitize=address,undefined", "asannd": "-fsanitize=address,undefined", "tsan": "-fsanitize=thread"}


def sh(cmd, cwd=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (cmd, r.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(2)
    return r.stdout.decode(errors="replace")


def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, ["CMakeLists.txt", "config", "src", "deprecated"]), (H, ["."])]
    for base, subs in roots:
        for s in subs:
            p = os.path.join(base, s)
            files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in files:
                if not f.endswith((".c", ".h", ".cc", ".cpp", ".hpp", ".txt", ".in", ".cmake")):
                    continue
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def need(path, make):
    """build a file once; make(tmp_path) writes it"""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path):
            make(path + ".tmp")
            os.rename(path + ".tmp", path)
    return path


class Builder:
    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        olds = sorted((d for d in os.listdir(BUILD) if re.fullmatch("[0-9a-f]{16}", d) and d != self.hash),
                      key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in olds[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

    def lib(self, variant, cap):
        """the library, built by the repository's own CMake files"""
        out = os.path.join(self.dir, "lib-%s-%d" % (variant, cap), "libr3d.a")

        def make(tmp):
            b = os.path.dirname(out)
            sh(["cmake", "-S", REPO, "-B", b, "-DR3D_MAX_VERTS=%d" % cap, "-DENABLE_UNIT_TESTS=OFF", "-DCMAKE_BUILD_TYPE=None",
                "-DBUILD_SHARED_LIBS=OFF", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_C_FLAGS=" + LIBFLAGS[variant]])
            sh(["cmake", "--build", b, "--target", "r3d", "-j4"])
            shutil.move(out, tmp)
        return need(out, make)

    def obj(self, src, defs, cap, variant, first=None):
        """harness objects do not depend on the sanitizer: only the library is instrumented"""
        tag = "float" if variant == "float" else "d"
        if variant == "tsan":
            tag = "tsan"
        key = "%s-%s-%d-%s" % (os.path.splitext(src)[0], hashlib.md5(defs.encode()).hexdigest()[:6], cap, tag)
        out = os.path.join(self.dir, "obj", key + ".o")

        def make(tmp):
            cfg = os.path.dirname(self.lib("tsan" if tag == "tsan" else "float" if tag == "float" else "plain", cap)) if cap else None
            inc = (["-I" + first] if first else []) + (["-I" + cfg] if cfg else [])
            extra = ["-DSINGLE_PRECISION"] if tag == "float" else ["-fsanitize=thread"] if tag == "tsan" else []
            sh(["g++", "-O1", "-g", "-std=c++17", "-w", "-pthread", "-DREPO_DIR=\"%s\"" % REPO] + extra + inc + ["-I" + H, "-I" + os.path.join(REPO, "src"), "-I" + REPO] + defs.split() +
               ["-c", os.path.join(H, src), "-o", tmp])
        return need(out, make)

    def cobj(self, path, defs, variant):
        """a C source compiled directly (legacy libraries)"""
        key = "%s-%s-%s" % (path.replace("/", "_"), hashlib.md5(defs.encode()).hexdigest()[:6], variant)
        out = os.path.join(self.dir, "cobj", key + ".o")
        return need(out, lambda tmp: sh(["gcc", "-std=gnu99", "-w"] + LIBFLAGS[variant].split() + defs.split() + ["-c", os.path.join(REPO, path), "-o", tmp]))

    def nd(self, dim, variant):
        """the N-dimensional sources built for another RND_DIM: (include directory, objects)"""
        base = os.path.join(self.dir, "nd-%d" % dim)

        def src(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for f in os.listdir(os.path.join(REPO, "src")):
                if f.endswith((".c", ".h")):
                    t = open(os.path.join(REPO, "src", f), errors="replace").read()
                    t = re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+RND_DIM)\b[^\n]*", r"\g<1> %d" % dim, t)
                    open(os.path.join(tmp, f), "w").write(t)
        need(base, src)
        cfg = os.path.dirname(self.lib("plain", CAPS_DEFAULT))
        objs = []
        for f in ("rNd.c", "vNd.c"):
            out = os.path.join(self.dir, "cobj", "nd-%d-%s-%s.o" % (dim, f, variant))
            objs.append(need(out, lambda tmp: sh(["gcc", "-std=gnu99", "-w", "-DRND_DIM=%d" % dim] + LIBFLAGS[variant].split() +
                                                 ["-I" + base, "-I" + cfg, "-I" + REPO, "-c", os.path.join(base, f), "-o", tmp])))
        return base, objs

    def binary(self, name, variant, cap=CAPS_DEFAULT):
        s = SOURCES[name]
        out = os.path.join(self.dir, "bin", "%s-%s-%d" % (name, variant, cap))

        def make(tmp):
            legacy = s.get("legacy")
            if s.get("nddim"):
                base, objs = self.nd(s["nddim"], variant)
                objs.append(self.obj("pbt.cpp", "", 0, variant))
                objs += [self.obj(f, "-DKDIM=%d -I%s" % (s["nddim"], base), 0, variant, base) for f in s["src"]]
                sh(["g++", "-pthread"] + objs + ["-lm"] + LINKFLAGS.get(variant, "").split() + ["-o", tmp])
                return
            with ThreadPoolExecutor(8) as ex:
                jobs = []
                if not legacy:
                    jobs.append(ex.submit(self.lib, variant, cap))
                    tg = "tsan" if variant == "tsan" else "float" if variant == "float" else "plain"
                    jobs.append(ex.submit(self.lib, tg, cap))
                oj = [ex.submit(self.obj, f, s.get("defs", ""), 0 if legacy else cap, variant) for f in s["src"]]
                oj.append(ex.submit(self.obj, "pbt.cpp", "", 0, variant))
                cj = [ex.submit(self.cobj, f, s.get("cdefs", ""), variant) for f in (legacy or [])]
                objs = [j.result() for j in oj] + [j.result() for j in cj]
                libs = [] if legacy else [jobs[0].result()]
            sh(["g++", "-pthread"] + objs + libs + ["-lm"] + LINKFLAGS.get(variant, "").split() + ["-o", tmp])
        return need(out, make)


def known(pid):
    p = os.path.join(V, "KNOWN-FINDINGS.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def run_one(exe, r, pid, tier, seed, scale, maxsec, rundir):
    os.makedirs(rundir, exist_ok=True)
    out = os.path.join(rundir, "out.json")
    cmd = [exe, "--prop", r.get("prefix", pid + "/"), "--seed", str(seed), "--scale", repr(scale), "--maxsec", str(maxsec), "--out", out,
           "--rundir", rundir, "--replaydir", REPLAYS, "--variant", r["tag"], "--workers", str(os.cpu_count() or 4)]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    if d is None or p.returncode not in (0, 1, 3):
        sys.stderr.write("runner %s ended with %s\n%s\n" % (r["tag"], p.returncode, p.stderr.decode(errors="replace")[-2000:]))
        return None
    return d


def run(pid, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = PROPS[pid]
    b = Builder()
    with ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda r: b.binary(r["bin"], r["variant"], r.get("cap", CAPS_DEFAULT)), spec["runs"]))
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    viol, ev, dn, disc, planned, samples, subs, unrep = [], 0, 0, 0, 0, [], [], []
    findings = known(pid)
    hit = set()
    try:
        for i, r in enumerate(spec["runs"]):
            r = dict(r)
            r["tag"] = "%s-%s-%d" % (r["bin"], r["variant"], r.get("cap", CAPS_DEFAULT))
            if r.get("tier") and r["tier"] != tier:
                continue
            scale = r.get(tier, r.get("quick", 1.0))
            maxsec = r.get("maxsec", 60) if tier == "quick" else r.get("tmaxsec", 900)
            done = False
            for attempt in range(4):
                d = run_one(exes[i], r, pid, tier, seed + 1000003 * attempt * (attempt > 1), scale, maxsec, os.path.join(tmp, "%d-%d" % (i, attempt)))
                if d is None:
                    continue
                if attempt == 0 or d["status"] == 0:
                    pass
                if d["status"] == 3:
                    # a failing case that did not fail again on replay: run again; report it only if it keeps happening
                    unrep.append(d["message"])
                    continue
                done = True
                break
            if not done and d is None:
                sys.stderr.write("no result from %s\n" % r["tag"])
                shutil.rmtree(tmp, ignore_errors=True)
                raise SystemExit(2)
            ev += d["evaluations"]; dn += d["distinct_nontrivial"]; disc += d["discarded"]; planned += d["planned"]
            for s in d["subproperties"]:
                samples += [{"check": s["name"], "variant": r["tag"], "case": x} for x in s.pop("samples", [])[:2]]
                s["variant"] = r["tag"]
                subs.append(s)
            msg = d["message"]
            if d["status"] == 0:
                continue
            kf = [k for k in findings if d["status"] == 1 and re.search(k[0], msg)]
            if kf:
                hit.add(kf[0][1])
                continue
            replay = d["replay"]
            if d["status"] == 3:
                replay = os.path.join(REPLAYS, "%s-%s-unreproduced.txt" % (pid, r["tag"]))
                with open(replay, "w") as f:
                    f.write("repeatedly failing, but not when replayed alone:\n" + "\n".join(unrep) + "\n")
            viol.append((replay, msg))
            break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rule = "; ".join(dict.fromkeys("%s: %s" % (s["name"], s.pop("rule", "")) for s in subs))
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": "cases drawn from the choice-tape generators in harness/; non-trivial = " + rule,
                        "samples": samples[:12], "discarded": disc, "planned": planned, "subchecks": subs},
           "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    tmpf = os.path.join(EVID, pid + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(tmpf, os.path.join(EVID, pid + ".json"))
    for h in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    if viol:
        print(viol[0][1][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][0]))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev, dn, time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "list":
        for p in PROPS:
            print(p, [(r["bin"], r["variant"], r.get("cap", CAPS_DEFAULT)) for r in PROPS[p]["runs"]])
        return 0
    if a[0] == "build":
        b = Builder()
        todo = list(dict.fromkeys((r["bin"], r["variant"], r.get("cap", CAPS_DEFAULT)) for p in PROPS.values() for r in p["runs"]))
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda t: b.binary(*t), todo))
        print("built %d binaries" % len(todo)); return 0
    if a[0] == "replay":
        s = open(a[1]).read()
        m = re.search(r"variant: (\S+)-(\w+)-(\d+)", s)
        b = Builder()
        exe = b.binary(m.group(1), m.group(2), int(m.group(3)))
        return subprocess.run([exe, "--replay", a[1], "--rundir", tempfile.mkdtemp(prefix="verif-")]).returncode
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        if tier not in ("quick", "thorough"):
            tier = "quick"
        return run(a[1], tier)
    print(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main())
