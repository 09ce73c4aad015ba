#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo from its current source, statically.

Exit 0: property holds. Exit 1 + VIOLATION line: broken. Exit 2: the analysis itself could not run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HSA_REPO", "/repo")
HSA = os.path.join(VERIF, "build", "hsa")
FLAGS = ["-m64", "-ffast-math", "-mxsave", "-D_CRT_SECURE_NO_WARNINGS", "-DSSE2", "-w"]
CLANG = "clang-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool():
    r = sh(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tool"), "OUT=" + os.path.join(VERIF, "build")])
    if r.returncode or not os.path.exists(HSA):
        raise Broken("the analyser does not build:\n" + r.stderr[-2000:])


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.tmp = tempfile.mkdtemp(prefix="hsa.")
        self.notes = {}
        self._bc = None
        self._api = None

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def sources(self):
        out = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            out += [os.path.join(d, f) for f in fs if f.endswith(".c")]
        return sorted(out)

    def bc(self):
        """LLVM IR (before any optimisation) of every translation unit the build compiles, linked."""
        if self._bc:
            return self._bc
        srcs = self.sources()
        if not srcs:
            raise Broken("no sources in %s/src" % REPO)
        def one(i_s):
            i, s = i_s
            o = os.path.join(self.tmp, "%03d.bc" % i)
            r = sh([CLANG] + FLAGS + ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-delete-null-pointer-checks", "-emit-llvm", "-c", s, "-o", o])
            if r.returncode:
                raise Broken("does not compile: %s\n%s" % (s, r.stderr[-1500:]))
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        out = os.path.join(self.tmp, "all.bc")
        r = sh([LINK] + objs + ["-o", out])
        if r.returncode:
            raise Broken("link failed: " + r.stderr[-1500:])
        self.notes["translation_units"] = len(srcs)
        self._bc = out
        return out

    def api(self):
        """Functions declared in the public header: name -> list of (type, name)."""
        if self._api is not None:
            return self._api
        f = os.path.join(self.tmp, "api.c")
        hdr = os.path.join(REPO, "src", "rle.h")
        open(f, "w").write('#include "%s"\n' % hdr)
        r = sh([CLANG] + FLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump=json", f])
        if r.returncode:
            raise Broken("rle.h does not parse: " + r.stderr[-800:])
        ast = json.loads(r.stdout)
        api, cur = {}, None
        for n in ast["inner"]:
            loc = n.get("loc", {})
            loc = loc.get("expansionLoc", loc)
            if "file" in loc:
                cur = loc["file"]
            if n.get("kind") == "FunctionDecl" and cur and os.path.basename(cur) == "rle.h":
                ps = [(c["type"]["qualType"], c.get("name", "")) for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"]
                api[n["name"]] = (n["type"]["qualType"].split("(")[0].strip(), ps)
        if len(api) < 100:
            raise Broken("only %d public functions found in rle.h" % len(api))
        self._api = api
        return api

    def buffer_api(self):
        """(encoders, decoders) with the uniform signature (source, size, destination, size)."""
        sig = ["const uint8_t *", "uint32_t", "uint8_t *", "uint32_t"]
        enc, dec = [], []
        for n, (ret, ps) in sorted(self.api().items()):
            if ret == "uint32_t" and [re.sub(r"^const (uint32_t)$", r"\1", t) for t, _ in ps] == sig:
                (dec if ("decompress" in n or "decode" in n) else enc).append(n)
        return enc, dec

    def hsa(self, args, timeout=800):
        r = sh([HSA] + args, timeout=timeout)
        recs = []
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                recs.append(json.loads(l))
        for x in recs:
            if "broken" in x:
                raise Broken(x["broken"])
        if r.returncode not in (0,):
            raise Broken("analyser failed (%d): %s %s" % (r.returncode, " ".join(args[:1]), (r.stderr or r.stdout)[-800:]))
        return recs

    def argfile(self, lines):
        p = os.path.join(self.tmp, "args%d" % len(os.listdir(self.tmp)))
        open(p, "w").write("\n".join(lines) + "\n")
        return "@" + p


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def split(recs):
    obl = [r for r in recs if "rule" in r]
    notes = {r["note"]: r["value"] for r in recs if "note" in r}
    return obl, notes


import checks  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ctx = Ctx(tier)
    try:
        build_tool()
        spec = checks.CHECKS[pid]
        obl, notes, explain = spec["run"](ctx)
        notes = dict(ctx.notes, **notes)
        if len(obl) < spec["min_instances"] and all(o["ok"] for o in obl):
            raise Broken("only %d rule instances found, at least %d expected" % (len(obl), spec["min_instances"]))
        bad = [o for o in obl if not o["ok"]]
        kf = known_findings(pid)
        def key(o):
            return re.sub(r"\s+", "", "%s|%s|%s" % (o["rule"], o["instance"], re.sub(r":\d+", "", o["loc"])))
        listed, fresh = [], []
        for o in bad:
            (listed if any(k == key(o) for k, _ in kf) else fresh).append(o)
        rules = {}
        for o in obl:
            r = rules.setdefault(o["rule"], {"instances": 0, "hold": 0})
            r["instances"] += 1
            r["hold"] += o["ok"]
        cov = {"obligations": len(obl), "discharged": sum(o["ok"] for o in obl), "checker_cmd": "python3 check.py %s %s" % (pid, tier),
               "trusted_base": spec["trusted"], "explanation": explain, "rules": rules, "analysed": notes,
               "samples": [{k: o[k] for k in ("rule", "instance", "loc", "ok", "detail")} for o in (obl[:2] + bad[:3] + obl[len(obl) // 2:len(obl) // 2 + 2])]}
        ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "0")), "level": spec["level"], "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        done = set()
        for o in listed:
            k = key(o)
            if k in done:
                continue
            done.add(k)
            print("KNOWN-FINDING: property=%s %s" % (pid, [d for q, d in kf if q == k][0]))
        if fresh:
            rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
            with open(rp, "w") as f:
                for o in fresh:
                    f.write("%s: %s [%s] %s\n  key=%s\n" % (o["loc"], o["rule"], o["instance"], o["detail"], key(o)))
            for o in fresh[:12]:
                print("%s: rule %s, %s: %s" % (o["loc"], o["rule"], o["instance"], o["detail"][:400]))
            if len(fresh) > 12:
                print("... %d more in %s" % (len(fresh) - 12, rp))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("%s holds: %d rule instances, %s (%.1f s)" % (pid, len(obl), ", ".join("%s %d" % (k, v["instances"]) for k, v in sorted(rules.items())), time.time() - t0))
        return 0
    except Broken as e:
        print("ANALYSIS BROKEN for %s: %s" % (pid, e))
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())
