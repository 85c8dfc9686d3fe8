#!/usr/bin/env python3
"""Build the simulator from a phosphor-pid-control tree (default /repo), one binary
per configuration variant, with a content-addressed per-file cache."""
import threading, ast, concurrent.futures, hashlib, json, os, re, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
# name -> config.h values
OPTS = ["STRICT_FAILSAFE_PWM", "OFFLINE_FAILSAFE_PWM", "UNC_FAILSAFE", "HANDLE_MISSING_OBJECT_PATHS"]
VARIANTS = {
    "default": (0, 0, 0, 0),
    "allon": (1, 1, 1, 1),
    "strict": (1, 0, 0, 0),
    "offline": (0, 1, 0, 0),
    "unc": (0, 0, 1, 0),
    "missing": (0, 0, 0, 1),
}
CXXFLAGS = ["-std=c++23", "-O0", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_ASIO_DISABLE_EPOLL",
            "-DBOOST_ASIO_DISABLE_IO_URING", "-fno-strict-aliasing", "-pipe"]
EXTRA_INC = ["", "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors", "sysfs"]


def meson_list(repo, name):
    txt = open(os.path.join(repo, "meson.build")).read()
    m = re.search(r"^%s\s*=\s*(\[.*?\])" % re.escape(name), txt, re.S | re.M)
    if not m:
        raise SystemExit("cannot find %s in meson.build" % name)
    body = re.sub(r"#.*", "", m.group(1))
    return [x for x in ast.literal_eval(body)]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_fh = {}


def fhash(path):
    try:
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in _fh:
            _fh[key] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        return _fh[key]
    except OSError:
        return "missing"


class BuildError(Exception):
    pass


def compile_one(src, rel, flags, incs, repo, cfgdir, compiler):
    """returns object path"""
    pool = os.path.join(BUILD, "obj")
    deps = os.path.join(BUILD, "deps")
    os.makedirs(pool, exist_ok=True)
    os.makedirs(deps, exist_ok=True)
    base = sha(rel, " ".join(flags), compiler)

    def norm(p):
        if p.startswith(cfgdir + "/"):
            return "CFG/" + p[len(cfgdir) + 1:]
        if p.startswith(repo + "/"):
            return "REPO/" + p[len(repo) + 1:]
        return p

    def real(p):
        if p.startswith("CFG/"):
            return os.path.join(cfgdir, p[4:])
        if p.startswith("REPO/"):
            return os.path.join(repo, p[5:])
        return p

    dfile = os.path.join(deps, base + ".json")

    def key_for(dl):
        return sha(base, *[d + "=" + fhash(real(d)) for d in dl])

    sets = []
    if os.path.exists(dfile):
        try:
            sets = json.load(open(dfile))
        except ValueError:
            sets = []
    for dl in sets:
        o = os.path.join(pool, key_for(dl) + ".o")
        if os.path.exists(o):
            os.utime(o)
            return o
    tmp = os.path.join(pool, base + ".%d.%d.tmp" % (os.getpid(), threading.get_ident()))
    cmd = [compiler] + flags + incs + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-6000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    dl = sorted(set(norm(os.path.normpath(os.path.join(repo, x))) for x in txt.split(":", 1)[1].split()))
    os.unlink(tmp + ".d")
    o = os.path.join(pool, key_for(dl) + ".o")
    os.rename(tmp + ".o", o)
    with open(dfile + ".lk", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sets = []
        if os.path.exists(dfile):
            try:
                sets = json.load(open(dfile))
            except ValueError:
                pass
        sets = [x for x in sets if x != dl]
        sets.insert(0, dl)
        with open(dfile + ".tmp", "w") as f:
            json.dump(sets[:6], f)
        os.rename(dfile + ".tmp", dfile)
    return o


def build(repo="/repo", variants=("default",), quiet=True):
    repo = os.path.abspath(repo)
    os.makedirs(BUILD, exist_ok=True)
    compiler = os.environ.get("VERIF_CXX", "g++")
    d_src = meson_list(repo, "libswampd_sources")
    i_src = meson_list(repo, "libmanualcmds_sources")
    s_src = meson_list(repo, "setsensor_sources")
    jobs = []
    res = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for k, v in enumerate(variants):
            if k == 1:
                # most files do not depend on the options: later variants share them
                concurrent.futures.wait(jobs[0][1])
            cfgdir = os.path.join(BUILD, "cfg", v)
            os.makedirs(cfgdir, exist_ok=True)
            txt = "#pragma once\n" + "".join("#define %s %d\n" % kv for kv in zip(OPTS, VARIANTS[v]))
            ch = os.path.join(cfgdir, "config.h")
            if not os.path.exists(ch) or open(ch).read() != txt:
                with open(ch + ".t", "w") as f:
                    f.write(txt)
                os.rename(ch + ".t", ch)
            incs = ["-I" + cfgdir, "-I" + os.path.join(HERE, "stubs")] + \
                   ["-I" + os.path.normpath(os.path.join(repo, x)) for x in EXTRA_INC]
            extra = CXXFLAGS
            srcs = []
            seen = set()
            for s in d_src:
                srcs.append((s, ["-Dmain=swampd_main"] if s == "main.cpp" else []))
                seen.add(s)
            for s in i_src:
                if s not in seen:
                    srcs.append((s, []))
            for s in s_src:
                if s not in seen:
                    srcs.append((s, ["-Dmain=setsensor_main"] if s == "setsensor.cpp" else []))
            # heavy files first
            heavy = {"main.cpp": 0, "dbus/dbusconfiguration.cpp": 0, "pid/buildjson.cpp": 1, "sensors/buildjson.cpp": 1,
                     "buildjson/buildjson.cpp": 1}
            lst = [ex.submit(compile_one, os.path.join(HERE, "sim.cpp"), "SIM", extra, incs, repo, cfgdir, compiler)]
            for s, f in sorted(srcs, key=lambda x: heavy.get(x[0], 2)):
                lst.append(ex.submit(compile_one, os.path.join(repo, s), s, extra + f, incs, repo, cfgdir, compiler))
            jobs.append((v, lst))
        for v, lst in jobs:
            objs = [j.result() for j in lst]
            key = sha(compiler, *sorted(os.path.basename(o) for o in objs))
            bindir = os.path.join(BUILD, "bin")
            os.makedirs(bindir, exist_ok=True)
            out = os.path.join(bindir, "sim-" + key)
            if not os.path.exists(out):
                tmp = out + ".%d" % os.getpid()
                cmd = [compiler] + [f for f in extra if f.startswith("-fsan")] + objs + ["-o", tmp, "-lsystemd", "-lpthread", "-ldl"]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError("link failed\n" + r.stderr[-6000:])
                os.rename(tmp, out)
            res[v] = out
    return res


if __name__ == "__main__":
    repo = os.environ.get("VERIF_REPO", "/repo")
    vs = sys.argv[1:] or ["default"]
    try:
        for v, p in build(repo, vs).items():
            print(v, p)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
