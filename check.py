#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree together with the
property harness, runs the generated-input search and writes the evidence.

  check.py ID               run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py --replay FILE    run one saved reproduction against the current tree
  check.py --setup          prebuild everything
  check.py --all            run every check (local use)
"""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
SRC = os.path.join(REPO, "src", "PROPOSAL")
DET = os.path.join(SRC, "detail", "PROPOSAL")
SPDLOG = "-DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL"

BASE = ["math", "geometry", "density_distr", "medium", "particle", "decay",
        "Constants", "EnergyCutSettings", "Logging", "methods"]
XS = BASE + ["crosssection/parametrization", "crosssection/CrossSection",
             "propagation_utility", "scattering"]
SCAT = XS
SEC = XS + ["secondaries"]
ALL = [""]

# property -> (flavour, first guess of the sources needed; everything is built
# if that guess does not link)
CHECKS = {}
for _p in ("M01", "M02", "M03", "M04", "M05", "M06", "M07",
           "G01", "G02", "G03", "D01", "P01", "P02", "P03", "K02"):
    CHECKS[_p] = ("san", BASE)
CHECKS["K01"] = ("opt", BASE)
for _p in ("X01", "X02", "X03", "X04", "X06", "U01", "U02", "U03"):
    CHECKS[_p] = ("opt", XS)
CHECKS["X05"] = ("opt", ALL)
for _p in ("S01", "S02"):
    CHECKS[_p] = ("opt", SCAT)
CHECKS["S03"] = ("opt", SEC)
for _p in ("T01", "T02", "T03", "T04", "T05"):
    CHECKS[_p] = ("opt", ALL)

FLAVOUR = {
    "opt": "-O2 -fno-fast-math",
    "san": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined"
           " -fno-omit-frame-pointer",
}


def available():
    return [p for p in sorted(CHECKS)
            if os.path.exists(os.path.join(HERE, "harness", p + ".cxx"))]


def builddir():
    d = os.path.join(HERE, "build")
    if REPO != "/repo":
        d = os.path.join(os.environ.get("VERIF_BUILD", "/tmp/verif_build"),
                         hashlib.md5(REPO.encode()).hexdigest()[:8])
    return d


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def version_header(bd):
    ver = {}
    for line in open(os.path.join(REPO, "CMakeLists.txt")):
        m = re.match(r"\s*set\(PROPOSAL_VERSION_(MAJOR|MINOR|PATCH) (\d+)", line, re.I)
        if m:
            ver[m.group(1)] = m.group(2)
    full = ".".join(ver.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH"))
    text = open(os.path.join(SRC, "PROPOSAL", "version.h.in")).read()
    subst = {"PROPOSAL_VERSION": full}
    for k in ("MAJOR", "MINOR", "PATCH"):
        subst["PROPOSAL_VERSION_" + k] = ver.get(k, "0")
    text = re.sub(r"@(\w+)@", lambda m: subst.get(m.group(1), ""), text)
    text = re.sub(r"\$\{(\w+)\}", lambda m: subst.get(m.group(1), ""), text)
    write_if_changed(os.path.join(bd, "gen", "PROPOSAL", "version.h"), text)


def sources():
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(DET)
                  for f in fs if f.endswith(".cxx"))


def ninja_file(bd):
    out = ["builddir = " + bd, "ninja_required_version = 1.5"]
    inc = f"-I{HERE}/stubs -I{SRC} -I{bd}/gen"
    for fl, opts in FLAVOUR.items():
        out.append(f"""
rule lib_{fl}
  command = g++ -std=c++14 {opts} -w -DNDEBUG -ffunction-sections {inc} {SPDLOG} -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule har_{fl}
  command = g++ -std=c++17 {opts.replace('-O2', '-O1')} -w -DNDEBUG -ffunction-sections {inc} {SPDLOG} -I{HERE}/harness -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $in
rule link_{fl}
  command = g++ {opts} -Wl,--gc-sections $in -o $out -lspdlog -lfmt -lpthread
  description = LINK $out""")
        objs = {}
        for s in sources():
            rel = os.path.relpath(s, DET)[:-4]
            o = f"{bd}/{fl}/lib/{rel.replace('/', '__')}.o"
            objs[rel] = o
            out.append(f"build {o}: lib_{fl} {s}")
        for h in ("pbt", "common") + (("xs",) if fl == "opt" else ()):
            out.append(f"build {bd}/{fl}/{h}.o: har_{fl} {HERE}/harness/{h}.cxx")
        for p in available():
            if CHECKS[p][0] != fl:
                continue
            out.append(f"build {bd}/{fl}/{p}.o: har_{fl} {HERE}/harness/{p}.cxx")
            har = f"{bd}/{fl}/{p}.o {bd}/{fl}/pbt.o {bd}/{fl}/common.o"
            if p[0] in "XUST":
                har += f" {bd}/{fl}/xs.o"
            sub = [o for r, o in objs.items()
                   if any(r.startswith(x) for x in CHECKS[p][1])]
            out.append(f"build {bd}/bin/{p}: link_{fl} {har} {' '.join(sub)}")
            out.append(f"build {bd}/bin/{p}.full: link_{fl} {har} {' '.join(objs.values())}")
    write_if_changed(f"{bd}/build.ninja", "\n".join(out) + "\n")


def build(p):
    bd = builddir()
    version_header(bd)
    ninja_file(bd)
    log = ""
    for target in (f"{CHECKS[p][0]}/{p}.o", f"bin/{p}", f"bin/{p}.full"):
        r = subprocess.run(["ninja", "-C", bd, f"{bd}/{target}"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log = r.stdout
        if r.returncode == 0 and target.startswith("bin/"):
            return f"{bd}/{target}"
        if r.returncode != 0 and not target.startswith("bin/"):
            break
    sys.stdout.write(log[-6000:])
    print("BUILD FAILED for", p)
    return None


def known_ids(p):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e["id"] for e in json.load(open(path)).get("findings", [])
            if e["property"] == p]


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    e["LC_ALL"] = "C.UTF-8"
    return e


ASSUME = {
    "opt": "g++ -O2 -DNDEBUG build of every library source; the CubicInterpolation "
           "library is replaced by the functional stand-in in /verif/stubs",
    "san": "g++ -O1 -DNDEBUG build with address and undefined-behaviour sanitizers",
}


def run(p, tier=None, extra=()):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    exe = build(p)
    if exe is None:
        return 2
    tb = time.time() - t0
    ev = os.path.join(HERE, "evidence", p + ".json")
    rd = os.path.join(HERE, "replays")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    os.makedirs(rd, exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    with tempfile.TemporaryDirectory() as td:
        js = os.path.join(td, "ev.json")
        cmd = [exe, "--tier", tier, "--seed", str(seed), "--json", js,
               "--replaydir", rd, "--known", ",".join(known_ids(p)),
               "--cap", "420" if tier == "quick" else "7200"] + list(extra)
        rc = subprocess.run(cmd, cwd=td, env=env()).returncode
        if os.path.exists(js):
            d = json.load(open(js))
            d["wall_s"] = round(time.time() - t0, 2)
            d["coverage"]["build_s"] = round(tb, 2)
            d["assumptions"] = [
                ASSUME[CHECKS[p][0]],
                "evidence of absence only for the generated cases; tolerances as stated in DESIGN.md"]
            with open(ev, "w") as f:
                json.dump(d, f, indent=1)
                f.write("\n")
    return rc if rc in (0, 1) else 2


def replay(path):
    law = open(path).read()
    p = re.search(r"^property (\w+)", law, re.M).group(1)
    exe = build(p)
    if exe is None:
        return 2
    with tempfile.TemporaryDirectory() as td:
        return subprocess.run([exe, "--replay", os.path.abspath(path)], cwd=td,
                              env=env()).returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        bd = builddir()
        version_header(bd)
        ninja_file(bd)
        t = [f"{bd}/bin/{p}" for p in available()]
        r = subprocess.run(["ninja", "-k", "0", "-C", bd] + t, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        print(r.stdout[-2000:])
        return 0
    if a and a[0] == "--all":
        bad = []
        for p in (a[1:] or available()):
            t = time.time()
            r = run(p)
            print(f"== {p}: exit {r}, {time.time() - t:.1f} s", flush=True)
            if r:
                bad.append(p)
        print("not quiet:", bad)
        return 1 if bad else 0
    return run(a[0], extra=a[1:])


if __name__ == "__main__":
    sys.exit(main())
