#!/usr/bin/env python3
"""Build the kernel from /repo's *current working tree* into /verif/.build/<variant>/.

Nothing is written under /repo: the files cmake generates at configure time
(include/meevax/unicode/*.hpp and src/kernel/system.cpp) are regenerated here
from configure/* and library/*.ss into /verif/.build/gen, which comes first on
the include path.
"""
import glob, os, re, subprocess, sys, shutil, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MEEVAX_REPO", "/repo")
OUT = os.environ.get("MEEVAX_VERIF_BUILD", os.path.join(VERIF, ".build"))

COMMON = ("-std=c++20 -pipe -w -DMEEVAX_VERIF -fPIC")
VARIANTS = {
    # Release-like: what users run (assertions off), plus the collector hook.
    "opt": dict(flags="-O2 -DNDEBUG", boot="-O1 -DNDEBUG", ld=""),
    # Sanitized: ASan + UBSan, assertions on (upstream CI also builds Debug).
    "san": dict(flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -D_GLIBCXX_ASSERTIONS",
                boot="-O0 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS",
                ld="-fsanitize=address,undefined"),
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, check=True, stdout=subprocess.PIPE, **kw).stdout


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def generate():
    gen = os.path.join(OUT, "gen")
    data = open(os.path.join(REPO, "configure/UnicodeData.txt"), encoding="utf-8").read().splitlines()
    rows = [l.split(";") for l in data if l]
    u = os.path.join(gen, "include/meevax/unicode")

    def table(index, hexed, optional):
        out = []
        for r in rows:
            v = r[index]
            if optional and v == "":
                continue
            out.append("case 0x%s: return %s%s;\n" % (r[0], "0x" if hexed else "", v))
        return "".join(out)
    # Same columns, same "drop the empty ones" filter as CMakeLists.txt.
    write_if_changed(u + "/property.hpp", table(2, False, False))
    write_if_changed(u + "/digit_value.hpp", table(7, False, True))
    write_if_changed(u + "/upcase.hpp", table(12, True, True))
    write_if_changed(u + "/downcase.hpp", table(13, True, True))
    version = open(os.path.join(REPO, "VERSION")).read().strip()
    env = {"PROJECT_NAME": "meevax", "PROJECT_VERSION": version,
           "CMAKE_SYSTEM_PROCESSOR": os.uname().machine,
           "CMAKE_SHARED_LIBRARY_PREFIX": "lib", "CMAKE_SHARED_LIBRARY_SUFFIX": ".so",
           "CMAKE_INSTALL_PREFIX": "/usr/local",
           "meevax_SYSTEM_NAME": os.uname().sysname.lower()}
    for p in sorted(glob.glob(os.path.join(REPO, "library/*.ss"))):
        with open(p, "rb") as f:
            src = f.read()
        env[os.path.basename(p)] = sh(["awk", "-f", os.path.join(REPO, "script/format.awk")],
                                      input=src, env=dict(os.environ, LC_ALL="C.UTF-8")).decode()
    text = open(os.path.join(REPO, "configure/system.cpp")).read()
    text = text.replace("${${PROJECT_NAME}_SYSTEM_NAME}", env["meevax_SYSTEM_NAME"])
    text = re.sub(r"\$\{([A-Za-z0-9_.-]+)\}", lambda m: env.get(m.group(1), ""), text)
    write_if_changed(os.path.join(gen, "src/kernel/system.cpp"), text)
    return gen


def ninja_for(variant, programs):
    gen = os.path.join(OUT, "gen")
    v = VARIANTS[variant]
    d = os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*/**/*.cpp"), recursive=True))
    srcs = [s for s in srcs if not s.endswith("/src/kernel/system.cpp")]
    srcs.append(os.path.join(gen, "src/kernel/system.cpp"))
    cc = "ccache g++" if shutil.which("ccache") else "g++"
    inc = "-I%s/include -I%s/include -I%s" % (gen, REPO, os.path.join(VERIF, "harness"))
    L = ["ninja_required_version = 1.5",
         "rule cc\n command = %s %s $fl %s -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CC $out" % (cc, COMMON, inc),
         "rule ar\n command = rm -f $out && ar rcs $out $in\n description = AR $out",
         "rule ld\n command = g++ %s -rdynamic -o $out $in -Wl,--whole-archive $lib -Wl,--no-whole-archive -lgmp -ldl -lpthread\n description = LD $out" % v["ld"]]
    objs = []
    for s in srcs:
        o = "obj/" + re.sub(r"[^A-Za-z0-9]+", "_", s.replace(REPO, "").replace(gen, "gen")) + ".o"
        fl = v["boot"] if s.endswith("/boot.cpp") else v["flags"]
        # the unicode tables are one enormous switch each
        L.append("build %s: cc %s\n fl = %s" % (o, s, fl))
        objs.append(o)
    objs.sort(key=lambda o: "boot" not in o)
    L.append("build libkernel.a: ar " + " ".join(objs))
    for p in programs:
        o = "obj/h_%s.o" % p
        L.append("build %s: cc %s/harness/%s.cpp\n fl = %s" % (o, VERIF, p, v["flags"]))
        L.append("build %s: ld %s | libkernel.a\n lib = libkernel.a" % (p, o))
    L.append("default " + " ".join(programs))
    write_if_changed(os.path.join(d, "build.ninja"), "\n".join(L) + "\n")
    return d


def programs_of():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, "harness/*.cpp")))


def build(variant, programs=None, quiet=True):
    """Returns the build directory. Raises BuildError if the tree does not compile."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate()
        d = ninja_for(variant, programs_of())
        env = dict(os.environ, CCACHE_DIR=os.path.join(OUT, "ccache"), CCACHE_BASEDIR="/",
                   CCACHE_COMPILERCHECK="content", CCACHE_MAXSIZE="2G", LC_ALL="C.UTF-8",
                   CCACHE_NOHASHDIR="1", CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros")
        cmd = ["ninja", "-C", d, "-j", str(os.cpu_count() or 4)] + (programs or [])
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace")[-6000:])
        if not quiet:
            sys.stdout.write(r.stdout.decode(errors="replace")[-400:])
    return d


if __name__ == "__main__":
    for variant in (sys.argv[1:] or list(VARIANTS)):
        print(variant, build(variant, quiet=False))
