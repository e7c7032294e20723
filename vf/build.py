"""Builds sanitizer variants of lighttpd2 from /repo's current working tree.

Every variant lives in /verif/.build/<variant> (git-ignored); ninja tracks the
sources, so a changed tree is always rebuilt."""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))

COMMON = "-g -fno-omit-frame-pointer -fno-common"
VARIANTS = {
    # address+undefined: mempool backed by malloc so that red zones apply to
    # every pooled buffer as well
    "asan": dict(cc="gcc", cflags="-O1 %s -DMEMPOOL_MALLOC -DLI_VERIF -fsanitize=address,undefined" % COMMON,
                 ldflags="-fsanitize=address,undefined"),
    "tsan": dict(cc="gcc", cflags="-O1 %s -DMEMPOOL_MALLOC -DLI_VERIF -fsanitize=thread" % COMMON,
                 ldflags="-fsanitize=thread"),
    "plain": dict(cc="gcc", cflags="-O1 %s -DMEMPOOL_MALLOC -DLI_VERIF" % COMMON, ldflags=""),
}


class BuildError(Exception):
    pass


def builddir(variant):
    return os.path.join(BUILD, variant)


def build(variant="asan"):
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    bd = builddir(variant)
    env = {
        "PATH": "/usr/sbin:/usr/bin:/sbin:/bin", "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "CC": v["cc"], "CFLAGS": v["cflags"], "LDFLAGS": v["ldflags"], "PYTHONDONTWRITEBYTECODE": "1",
    }
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in range(2):
            if not os.path.exists(os.path.join(bd, "build.ninja")):
                subprocess.run(["rm", "-rf", "--", bd], check=True)
                r = subprocess.run(
                    ["meson", "setup", bd, REPO, "--buildtype=plain", "-Dwerror=false", "-Db_lundef=false",
                     "--wrap-mode=nodownload"],
                    env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise BuildError("meson setup failed:\n" + r.stdout.decode("utf-8", "replace")[-4000:])
            r = subprocess.run(["ninja", "-C", bd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                return bd
            if attempt == 0:
                subprocess.run(["rm", "-rf", "--", bd], check=True)
        raise BuildError("ninja failed:\n" + r.stdout.decode("utf-8", "replace")[-6000:])


def worker_bin(variant="asan"):
    return os.path.join(builddir(variant), "src/main/lighttpd2-worker")


def angel_bin(variant="asan"):
    return os.path.join(builddir(variant), "src/angel/lighttpd2")


def module_dir(variant="asan"):
    return os.path.join(builddir(variant), "src/modules")


def san_env(variant, logdir, leaks=False):
    env = {}
    log = os.path.join(logdir, "san")
    if variant == "asan":
        env["ASAN_OPTIONS"] = ("log_path=%s:detect_leaks=%d:abort_on_error=0:exitcode=86:handle_abort=1:"
                               "detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:"
                               "fast_unwind_on_malloc=1:malloc_context_size=12:verify_asan_link_order=0" % (log, 1 if leaks else 0))
        env["UBSAN_OPTIONS"] = "log_path=%s:print_stacktrace=1:halt_on_error=0" % log
        env["LSAN_OPTIONS"] = "suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "vf", "lsan.supp")
    elif variant == "tsan":
        env["TSAN_OPTIONS"] = ("log_path=%s:halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=5:"
                               "suppressions=%s" % (log, os.path.join(VERIF, "vf", "tsan.supp")))
    return env


def cc_harness(name, sources, variant="asan", extra=(), libs=("common", "main")):
    """compile a C harness (in /verif) against the variant's libraries."""
    bd = build(variant)
    v = VARIANTS[variant]
    outdir = os.path.join(BUILD, "harness-" + variant)
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, name)
    pk = subprocess.run(["pkg-config", "--cflags", "--libs", "glib-2.0", "gthread-2.0", "gmodule-2.0"],
                        stdout=subprocess.PIPE, check=True).stdout.decode().split()
    pkl = subprocess.run(["pkg-config", "--cflags", "--libs", "lua5.1"], stdout=subprocess.PIPE).stdout.decode().split()
    cfl = [x for x in pk + pkl if not x.startswith("-l")]
    lfl = [x for x in pk + pkl if x.startswith("-l")]
    ll = []
    for d, n in (("src/main", "lighttpd2-shared-2.0.0"), ("src/common", "lighttpd2-common-2.0.0")):
        p = os.path.join(bd, d, "lib%s.so" % n)
        if os.path.exists(p):
            ll += [p, "-Wl,-rpath," + os.path.dirname(p)]
    cmd = ([v["cc"]] + v["cflags"].split() + ["-std=gnu99", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I" + os.path.join(bd), "-I" + os.path.join(bd, "include"),
            "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/modules"), "-I" + REPO] + cfl + list(extra) + list(sources) +
           ["-o", out] + ll + lfl + ["-lev", "-lm", "-lpthread", "-ldl"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("harness %s failed:\n%s\n%s" % (name, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return out


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["asan"]):
        print(build(v))
