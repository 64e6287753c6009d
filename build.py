#!/usr/bin/env python3
"""Builds the simulator: /repo's sources (as they are now) + /verif/sim, instrumented, into <out>/sim.

/repo is compiled with `clang++ -fsanitize=thread` so that every memory access becomes a call into
sim/rt.cpp, which replaces the ThreadSanitizer runtime.  Sources are compiled in unity chunks; a chunk
that does not compile as a whole is compiled file by file.  Objects are cached by content hash.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CXX = "clang++"
INC = ["-I%s/include" % REPO, "-I%s/src" % REPO] + \
      ["-I%s/extensions/%s/include" % (REPO, e) for e in ("iidm", "entsoe", "sld")] + \
      ["-I/usr/include/libxml2", "-I%s/sim" % HERE]
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-include", HERE + "/sim/pre.h", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
          "-D_GLIBCXX_ASSERTIONS", "-fno-pie", "-pthread", "-fno-sanitize-recover"]
TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=0"]
REPO_STD = ["-std=c++11"]
SIM_STD = ["-std=c++14"]
LIBS = ["-lxml2", "-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-ldl", "-lpthread"]
WRAP = ["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base",
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"]


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, LC_ALL="C.UTF-8"))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def main():
    t0 = time.time()
    os.makedirs(OUT + "/obj", exist_ok=True)
    srcs = sorted(p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if "/src/test/" not in p)
    ext = sorted(p for e in ("iidm", "entsoe", "sld") for p in glob.glob("%s/extensions/%s/src/**/*.cpp" % (REPO, e), recursive=True))
    hdrs = sorted(p for pat in ("include", "src", "extensions") for x in ("hpp", "hxx", "h") for p in glob.glob("%s/%s/**/*.%s" % (REPO, pat, x), recursive=True) if "/test/" not in p.replace("/powsybl/test/", ""))
    hh = sha(*[p + "\n" + hashlib.sha256(rd(p)).hexdigest() for p in hdrs])
    simh = sha(*[rd(p) for p in sorted(glob.glob(HERE + "/sim/*.h"))])
    jobs = []   # (name, [files], flags, key)
    # unity chunks, balanced by size; files that share static names stay together by directory
    groups = {}
    for p in srcs + ext:
        d = os.path.dirname(p)
        key = "xml" if d.endswith("converter/xml") else "net" if "/src/network" in d else "ext_" + d.split("/extensions/")[1].split("/")[0] if "/extensions/" in d else "iidm" if "/src/iidm" in d else "misc"
        groups.setdefault(key, []).append(p)
    for key, files in sorted(groups.items()):
        n = {"iidm": 16, "xml": 5, "net": 2, "misc": 2, "ext_iidm": 4, "ext_entsoe": 2, "ext_sld": 1}.get(key, 2)
        files = sorted(files)
        for i in range(n):
            part = files[i::n]
            if part:
                ren = ["-DcreateSerializers=createSerializers_" + key[4:]] if key.startswith("ext_") else []
                jobs.append(("u_%s_%d" % (key, i), part, REPO_STD + TSAN + COMMON + INC + ren, hh))
    for p in sorted(glob.glob(HERE + "/sim/*.cpp")):
        b = os.path.basename(p)
        if b in ("rt.cpp", "xmlfault.cpp"):     # not part of what is observed
            jobs.append((b[:-4], [p], SIM_STD + ["-O2", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-pthread", "-Wall", "-I/usr/include/libxml2", "-I%s/sim" % HERE], simh))
        else:
            jobs.append((b[:-4], [p], SIM_STD + TSAN + COMMON + INC, hh + simh))

    def compile_one(name, files, flags, key):
        k = sha(key, *flags, *[f + "\n" for f in files], *[rd(f) for f in files])
        obj = "%s/obj/%s-%s.o" % (OUT, name, k)
        if os.path.exists(obj):
            return [obj], 0.0
        t = time.time()
        if len(files) == 1:
            r = sh([CXX] + flags + ["-c", files[0], "-o", obj + ".tmp"])
            if r.returncode:
                raise SystemExit("BUILD FAILED: %s\n%s" % (files[0], r.stdout[-6000:]))
        else:
            u = "%s/obj/%s.cpp" % (OUT, name)
            with open(u, "w") as f:
                f.write("".join('#include "%s"\n' % x for x in files))
            r = sh([CXX] + flags + ["-c", u, "-o", obj + ".tmp"])
            if r.returncode:
                objs = []
                for i, x in enumerate(files):
                    o, _ = compile_one("%s_s%d" % (name, i), [x], flags, key)
                    objs += o
                return objs, time.time() - t
        os.replace(obj + ".tmp", obj)
        return [obj], time.time() - t

    # biggest first
    jobs.sort(key=lambda j: -(sum(os.path.getsize(f) for f in j[1]) + 20000 * len(j[1]) + (400000 if not j[0].startswith("u_") and j[0] != "rt" else 0)))
    objs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for name, (o, t) in zip([j[0] for j in jobs], ex.map(lambda j: compile_one(*j), jobs)):
            objs += o
            if t > 0 and os.environ.get("SIM_V"):
                print("  %-16s %.1fs" % (name, t))
    key = sha(*objs)
    exe = OUT + "/sim"
    stamp = OUT + "/sim.key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        r = sh([CXX, "-no-pie", "-pthread", "-rdynamic", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in WRAP] + LIBS)
        if r.returncode:
            raise SystemExit("LINK FAILED\n" + r.stdout[-6000:])
        os.replace(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(key)
    keep = set(objs)
    for f in glob.glob(OUT + "/obj/*.o"):
        if f not in keep and time.time() - os.path.getmtime(f) > 86400:
            os.unlink(f)
    print("build: %d objects, %.1fs" % (len(objs), time.time() - t0))
    return exe


if __name__ == "__main__":
    main()
