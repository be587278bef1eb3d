#!/usr/bin/env python3
"""Out-of-tree sanitizer builds of /repo's working tree.

usage: build.py VARIANT [TARGET...]
  VARIANT: asan (address+undefined), tsan, plain
  TARGET:  lib | rrr | progs | modules | h:<harness>    (default: everything)

The tree is mirrored (content based) into /verif/build/mirror, the committed
cfg/ files (config.h with jemalloc off etc.) are laid over it, and one ninja
file per variant compiles it.  Nothing in /repo is written.
"""
import fcntl, filecmp, glob, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
MIRROR = os.path.join(BUILD, "mirror")

CLANG = "/usr/bin/clang"
SAN = {
    "asan": "-O1 -fsanitize=address,undefined -fno-sanitize=function,alignment,nonnull-attribute,pointer-overflow "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer",
    "tsan": "-O1 -fsanitize=thread -fno-omit-frame-pointer",
    "plain": "-O1",
}
SAN_LD = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=function,alignment,nonnull-attribute,pointer-overflow",
    "tsan": "-fsanitize=thread",
    "plain": "",
}

EXCLUDE_LIB = re.compile(
    r"^src/lib/(js/|http3/|http/http_application_http3\.c|net_transport/net_transport_quic\.c|"
    r"net_transport/net_transport_libressl\.c|mysql\.c|messages/msg_dump\.x|rrr_shm_x|"
    r"sha1/sha1test|perl5_xsi\.c)")

PERL = ("-D_REENTRANT -D_GNU_SOURCE -DDEBIAN -fwrapv -fno-strict-aliasing "
        "-D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -I/usr/lib/x86_64-linux-gnu/perl/5.38/CORE")
PY = "-I/usr/include/python3.12 -fno-strict-overflow -DNDEBUG"
LUA = "-I/usr/include/lua5.4"
# the sources' own -include list, see configure.ac
STD = ("-std=c11 -include ./config.h -include ./build_timestamp.h -include ./src/lib/intercept.h "
       "-I. -Isrc/lib -D_XOPEN_SOURCE=700 -DHAVE_CONFIG_H -g1 -fPIC -w -Werror=implicit-function-declaration")
ALLOW = " ".join("-DRRR_INTERCEPT_ALLOW_" + x for x in
                 "READDIR STRERROR FORK PRINTF PTHREAD_MUTEX_INIT UMASK GETTID WAITPID".split())
LIBS = ("-llua5.4 -ljson-c -lnghttp2 -lpython3.12 -lz -lssl -lcrypto -lcrypt -lsystemd -lbsd "
        "-L/usr/lib/x86_64-linux-gnu/perl/5.38/CORE -lperl -levent -levent_pthreads -lpthread -ldl -lm")


def sync_mirror():
    """Content-based mirror of tracked and new source files of /repo."""
    os.makedirs(MIRROR, exist_ok=True)
    out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co",
                          "--exclude-standard", "--", "src", "misc", "VERSION*", "variables.sh.in"],
                         stdout=subprocess.PIPE)
    files = [f for f in out.stdout.decode().split("\0") if f] if out.returncode == 0 else []
    if not files:
        for root, dirs, fs in os.walk(os.path.join(REPO, "src")):
            dirs[:] = [d for d in dirs if d not in (".libs", "blib")]
            for f in fs:
                files.append(os.path.relpath(os.path.join(root, f), REPO))
    want = set()
    for f in files:
        if not re.search(r"\.(c|h|xs|pm|pl|PL|py|lua|cxx|hxx|conf|crt|key|pem|sh)$|typemap$", f) and not f.startswith("misc/ssl"):
            continue
        s, d = os.path.join(REPO, f), os.path.join(MIRROR, f)
        if not os.path.isfile(s):
            continue
        want.add(f)
        put(s, d)
    for f in ("config.h", "build_timestamp.h", "build_directory.h"):
        put(os.path.join(VERIF, "cfg", f), os.path.join(MIRROR, f))
        want.add(f)
    put(os.path.join(VERIF, "cfg/config.h"), os.path.join(MIRROR, "src/lib/rrr-build-config.h"))
    put(os.path.join(VERIF, "cfg/perl5_xsi.c"), os.path.join(MIRROR, "src/lib/perl5_xsi.c"))
    put(os.path.join(VERIF, "cfg/paths.c"), os.path.join(MIRROR, "src/paths.c"))
    want |= {"src/lib/rrr-build-config.h", "src/lib/perl5_xsi.c", "src/paths.c"}
    for root, _, fs in os.walk(MIRROR):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), MIRROR)
            if p not in want:
                os.unlink(os.path.join(root, f))
    return sorted(want)


def put(s, d):
    if os.path.isfile(d) and filecmp.cmp(s, d, shallow=False):
        return
    os.makedirs(os.path.dirname(d), exist_ok=True)
    tmp = d + ".tmp~"
    shutil.copyfile(s, tmp)
    os.replace(tmp, d)


def modname(c):
    b = os.path.basename(c)[:-2]
    return re.sub(r"^(p|d|src)_", "", b)


def write_ninja(variant, files):
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    n = []
    w = n.append
    w("builddir = %s" % out)
    w("cc = %s" % CLANG)
    w("out = %s" % out)
    w("san = %s" % SAN[variant])
    w("sanld = %s" % SAN_LD[variant])
    w("std = %s" % STD)
    w("allow = %s" % ALLOW)
    w("libs = %s" % LIBS)
    w("rule cc\n  command = $cc $san $std $flags -MMD -MF $out.d -c $in -o $out\n"
      "  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    w("rule so\n  command = $cc -shared $sanld -Wl,-rpath,'$$ORIGIN' -Wl,-rpath,'$$ORIGIN/..' -L$outdir -o $out @$out.rsp $libs\n"
      "  rspfile = $out.rsp\n  rspfile_content = $in $extra\n  description = SO $out")
    w("rule exe\n  command = $cc $sanld -rdynamic -Wl,-rpath,'$$ORIGIN' -o $out $in -L$outdir -lrrr $libs\n  description = EXE $out")
    w("outdir = %s" % out)

    def obj(src, flags):
        o = os.path.join("$out_o", src).replace("$out_o", os.path.join(out, "o")) + ".o"
        w("build %s: cc %s\n  flags = %s" % (o, os.path.join(MIRROR, src), flags))
        return o

    libobjs = []
    for f in files:
        if not f.startswith("src/lib/") or not f.endswith(".c") or EXCLUDE_LIB.match(f):
            continue
        fl = "$allow"
        if f.startswith("src/lib/perl5/"):
            fl = PERL + " -U_XOPEN_SOURCE -Isrc/lib"
            libobjs.append(perl_obj(w, out, f, fl))
            continue
        if f.startswith("src/lib/python3/"):
            fl += ' ' + PY + ' -DRRR_PYTHON3_SITE_PACKAGES_DIR=\\"\\" -DRRR_PYTHON3_PKGDIR=\\"\\"'
        if f.startswith("src/lib/lua/"):
            fl += ' ' + LUA
        libobjs.append(obj(f, fl))
    so = os.path.join(out, "librrr.so")
    w("build %s: so %s\n  extra = -Wl,-soname,librrr.so" % (so, " ".join(libobjs)))
    w("build lib: phony %s" % so)

    mods = []
    for f in files:
        m = re.match(r"^src/modules/(.*)\.c$", f)
        if not m or modname(f) in ("mysql", "voltmonitor"):
            continue
        fl = "$allow"
        if "python3" in f:
            fl += " " + PY
        if "perl5" in f:
            fl += " " + PERL
        if "lua" in f:
            fl += " " + LUA
        o = obj(f, fl)
        t = os.path.join(out, "modules", modname(f) + ".so")
        w("build %s: so %s | %s\n  extra = -lrrr" % (t, o, so))
        mods.append(t)
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "modules", "*.c"))):
        t = os.path.join(out, "modules", os.path.basename(f)[:-2] + ".so")
        o = os.path.join(out, "ho", os.path.basename(f) + ".mod.o")
        w("build %s: cc %s\n  flags = $allow -D_DEFAULT_SOURCE -I%s/src/lib" % (o, f, MIRROR))
        w("build %s: so %s | %s\n  extra = -lrrr" % (t, o, so))
        mods.append(t)
    w("build modules: phony %s" % " ".join(mods))
    # cmodules
    cms = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "cmodules", "*.c"))):
        t = os.path.join(out, "cmodules", os.path.basename(f)[:-2] + ".so")
        o = os.path.join(out, "ho", os.path.basename(f) + ".cmod.o")
        w("build %s: cc %s\n  flags = $allow -I%s/src/lib -I%s/src/cmodules" % (o, f, MIRROR, MIRROR))
        w("build %s: so %s | %s\n  extra = -lrrr" % (t, o, so))
        cms.append(t)
    w("build cmodules: phony %s" % " ".join(cms))

    mainobj = obj("src/main.c", "$allow")
    pathobj = obj("src/paths.c", "$allow")
    progs = []
    for p in ("rrr rrr_post rrr_stats rrr_passwd rrr_auth rrr_msg rrr_sub rrr_logd rrr_msgdb "
              "rrr_http_client rrr_http_server rrr_lua").split():
        f = "src/%s.c" % p
        if f not in files:
            continue
        fl = ('$allow -DRRR_MODULE_PATH=\\"%s/modules\\" -DRRR_CMODULE_PATH=\\"%s/cmodules\\" %s'
              % (out, out, LUA))
        o = obj(f, fl)
        t = os.path.join(out, p)
        w("build %s: exe %s %s %s | %s" % (t, o, mainobj, pathobj, so))
        w("build p_%s: phony %s" % (p, t))
        progs.append(t)
    w("build rrr: phony %s/rrr modules cmodules" % out)
    w("build progs: phony %s" % " ".join(progs))

    hs = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.c"))):
        b = os.path.basename(f)[:-2]
        o = os.path.join(out, "ho", b + ".o")
        w("build %s: cc %s\n  flags = $allow -D_DEFAULT_SOURCE -D_GNU_SOURCE -Wall -I%s/src/lib -I%s/harness -g1" % (o, f, MIRROR, VERIF))
        t = os.path.join(out, "h_" + b)
        w("build %s: exe %s | %s" % (t, o, so))
        w("build h_%s: phony %s" % (b, t))
        hs.append(t)
    w("build harnesses: phony %s" % " ".join(hs))
    w("build all: phony lib rrr progs harnesses modules cmodules")
    w("default all")
    txt = "\n".join(n) + "\n"
    nf = os.path.join(out, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return nf


def perl_obj(w, out, f, flags):
    o = os.path.join(out, "o", f + ".o")
    # perl sources are compiled by the project without the -include list

    w("build %s: cc %s\n  std = -g1 -fPIC -w -DHAVE_CONFIG_H\n  flags = -I. -I./src/lib -I/repo-none %s" % (o, os.path.join(MIRROR, f), flags))
    return o


def build(variant, targets=("all",), quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = sync_mirror()
        nf = write_ninja(variant, files)
        tg = ["h_" + t[2:] if t.startswith("h:") else t for t in targets]
        r = subprocess.run(["ninja", "-C", MIRROR, "-f", nf] + tg,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("\n".join(l for l in r.stdout.split("\n") if not l.startswith("["))[-5000:] + "\n")
    if r.returncode != 0:
        raise RuntimeError("build failed (%s %s)" % (variant, targets))
    return os.path.join(BUILD, variant), time.time() - t0


if __name__ == "__main__":
    v = sys.argv[1]
    d, t = build(v, sys.argv[2:] or ["all"], quiet=False)
    print("built %s in %.1fs" % (d, t))
