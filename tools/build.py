"""Build satyr (from /repo's working tree) and the harnesses, offline, into /verif/build.

Everything is keyed by content, so a check always sees /repo as it is now."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "satyr_src")

SAN = ["-fsanitize=address,bounds,null,return,shift-exponent,signed-integer-overflow,"
       "integer-divide-by-zero,unreachable,vla-bound,bool", "-fno-sanitize-recover=all"]
PKGS = ["glib-2.0", "json-c", "libdw", "libelf", "rpm"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def pkg(what):
    return sh(["pkg-config", what] + PKGS).split()


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def sync_sources():
    """Mirror lib/, include/ (and python/*.c, satyr.c) into the build directory."""
    wanted = {}
    for pat in ("lib/*.c", "lib/*.h", "lib/*.gperf", "include/*.h", "include/*/*.h", "python/*.c",
                "python/*.h", "python/*.py", "satyr.c"):
        for p in glob.glob(os.path.join(REPO, pat)):
            rel = os.path.relpath(p, REPO)
            if rel == "lib/normalize_hash.h":
                continue
            with open(p, "rb") as f:
                wanted[rel] = f.read()
    if "lib/config.h" not in wanted:
        with open(os.path.join(VERIF, "mc", "config.h.fallback"), "rb") as f:
            wanted["lib/config.h"] = f.read()
    g = subprocess.run(["gperf", os.path.join(REPO, "lib", "normalize_hash.gperf")],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if g.returncode:
        raise BuildError("gperf: " + g.stderr.decode())
    wanted["lib/normalize_hash.h"] = g.stdout
    for rel, data in wanted.items():
        write_if_changed(os.path.join(SRC, rel), data)
    for root, _, files in os.walk(SRC):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), SRC)
            if rel not in wanted:
                os.unlink(os.path.join(root, f))
    return wanted


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def compile_many(jobs):
    def one(j):
        out, cmd = j
        if os.path.exists(out):
            return
        tmp = out + ".tmp%d" % os.getpid()
        sh(cmd + ["-o", tmp])
        os.rename(tmp, out)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, jobs))


def prune(d, keep):
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if p not in keep and os.path.isfile(p):
            os.unlink(p)


def build_lib(variant="san"):
    wanted = sync_sources()
    objdir = os.path.join(BUILD, "obj-" + variant)
    os.makedirs(objdir, exist_ok=True)
    cflags = pkg("--cflags")
    base = ["-std=gnu99", "-D_GNU_SOURCE", "-g1", "-w", "-fno-omit-frame-pointer"]
    if variant == "san":
        cc = ["clang", "-O1"] + SAN
    elif variant == "pic":
        cc = ["gcc", "-O1", "-fPIC"]
    base += ["-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "lib")]
    hdr = digest(*[r + "\0" + wanted[r].decode("latin1") for r in sorted(wanted)
                   if r.endswith((".h", ".gperf")) and not r.startswith("python/")])
    jobs, objs = [], []
    for rel in sorted(wanted):
        if not (rel.startswith("lib/") and rel.endswith(".c")):
            continue
        key = digest(hdr, wanted[rel], " ".join(cc + base + cflags), rel)
        out = os.path.join(objdir, os.path.basename(rel)[:-2] + "-" + key + ".o")
        objs.append(out)
        jobs.append((out, cc + base + cflags + ["-c", os.path.join(SRC, rel)]))
    compile_many(jobs)
    prune(objdir, set(objs))
    return objs, hdr


def build_python(wanted, hdr):
    """The Python bindings, sanitized, to be linked into a harness that embeds the interpreter."""
    objdir = os.path.join(BUILD, "obj-python")
    os.makedirs(objdir, exist_ok=True)
    inc = sh(["python3-config", "--includes"]).split()
    cmd = ["clang", "-std=gnu99", "-D_GNU_SOURCE", "-g1", "-w", "-O1", "-fno-omit-frame-pointer"] + SAN
    cmd += ["-I" + os.path.join(SRC, d) for d in ("include", "lib", "python")] + inc + pkg("--cflags")
    key0 = digest(hdr, " ".join(cmd), *[r + "\0" + wanted[r].decode("latin1") for r in sorted(wanted)
                                       if r.startswith("python/") and r.endswith(".h")])
    jobs, objs = [], []
    for rel in sorted(wanted):
        if rel.startswith("python/") and rel.endswith(".c"):
            out = os.path.join(objdir, os.path.basename(rel)[:-2] + "-" + digest(key0, wanted[rel]) + ".o")
            objs.append(out)
            jobs.append((out, cmd + ["-c", os.path.join(SRC, rel)]))
    compile_many(jobs)
    prune(objdir, set(objs))
    return objs, inc, sh(["python3-config", "--ldflags", "--embed"]).split()


def build_cli(wanted, hdr):
    """The command line tool, sanitized, with its main renamed and its exits announced; what it leaves uninitialised is poisoned."""
    objdir = os.path.join(BUILD, "obj-cli")
    os.makedirs(objdir, exist_ok=True)
    cmd = ["clang", "-std=gnu99", "-D_GNU_SOURCE", "-g1", "-w", "-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
           "-Dmain=satyr_cli_main", "-Dexit=satyr_cli_exit"] + SAN
    cmd += ["-I" + os.path.join(SRC, d) for d in ("include", "lib")] + pkg("--cflags")
    out = os.path.join(objdir, "satyr-" + digest(hdr, " ".join(cmd), wanted["satyr.c"]) + ".o")
    compile_many([(out, cmd + ["-c", os.path.join(SRC, "satyr.c")])])
    prune(objdir, {out})
    return [out]


def build_harness(name, extra_src=(), ldflags=()):
    """Compile harness/<name>.cc + mc and link it with the sanitized library."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, hdr = build_lib("san")
        ldflags, pyinc = list(ldflags), []
        if "PYTHON" in ldflags:
            ldflags.remove("PYTHON")
            pyobjs, pyinc, pyld = build_python(sync_sources(), hdr)
            objs, ldflags = objs + pyobjs, ldflags + pyld
        if "CLI" in ldflags:
            ldflags.remove("CLI")
            objs = objs + build_cli(sync_sources(), hdr)
        hd = os.path.join(BUILD, "harness")
        os.makedirs(hd, exist_ok=True)
        cflags = pkg("--cflags")
        incs = ["-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "lib"), "-I" + os.path.join(VERIF, "mc"), "-I" + os.path.join(VERIF, "harness")] + pyinc
        local = digest(*[read(p) for p in sorted(glob.glob(VERIF + "/mc/*.h") + glob.glob(VERIF + "/harness/*.h"))])
        san = SAN
        jobs, hobjs = [], []
        for src in [os.path.join(VERIF, "harness", name + ".cc"), os.path.join(VERIF, "mc", "mc.cc"),
                    os.path.join(VERIF, "mc", "glib_setup.c")] + [os.path.join(VERIF, "harness", e) for e in extra_src]:
            if src.endswith(".c"):
                cmd = ["clang", "-std=gnu99", "-D_GNU_SOURCE", "-O1", "-g1", "-w"] + san + incs + cflags
            else:
                cmd = ["clang++", "-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"] + san + incs + cflags
            key = digest(hdr if "/harness/" in src else "", local, read(src), " ".join(cmd))
            out = os.path.join(hd, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
            hobjs.append(out)
            jobs.append((out, cmd + ["-c", src]))
        compile_many(jobs)
        link = list(ldflags)
        exe = os.path.join(hd, name + "-" + digest("\n".join(hobjs + objs), " ".join(link)) + ".exe")
        if not os.path.exists(exe):
            tmp = exe + ".tmp"
            sh(["clang++"] + san + hobjs + objs + link + pkg("--libs") + ["-ldl", "-lstdc++", "-o", tmp])
            os.rename(tmp, exe)
        for f in glob.glob(os.path.join(hd, name + "-*.exe")):
            if f != exe:
                os.unlink(f)
        return exe


if __name__ == "__main__":
    names = sys.argv[1:] or [os.path.basename(p)[:-3] for p in sorted(glob.glob(VERIF + "/harness/*.cc"))]
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import config
    for n in names:
        c = config.HARNESS.get(n, {})
        print(build_harness(n, c.get("extra_src", ()), c.get("ldflags", ())))
