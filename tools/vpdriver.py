"""Driver: solver-based checking of keengo99/kasync.

For one property: snapshot /repo's sources into a scratch directory, generate the
build's kasync_config.h, compile the real sources and the harnesses to LLVM IR
(C++14, as the real build does), and let symx - a path-forking symbolic executor
over LLVM IR backed by Z3 (engine/symx.cpp) - decide every assertion for all
values of the symbolic inputs.  Each counterexample is replayed against the same
real sources compiled natively with g++ and ASan/UBSan; only what reproduces is a
VIOLATION.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
LLVM = "/usr/lib/llvm-18/bin/"
SYMX = os.path.join(BUILD, "symx")
JOBS = int(os.environ.get("VP_JOBS", "0")) or (os.cpu_count() or 4)
CONFIG_DEFINES = ["KSOCKET_SSL", "LINUX", "HAVE_ACCEPT4", "HAVE_MEMALIGN",
                  "HAVE_SETMNTENT", "HAVE_WRITEV", "HAVE_READV", "ENABLE_FCONTEXT"]
# environment functions: renamed in every source and harness, so that the harness
# provides them (natively too).  One that a harness does not define and that is
# reached makes the check inconclusive, never silently passing.
WRAP = """read write readv writev pread pwrite preadv pwritev recv send recvfrom sendto recvmsg sendmsg recvmmsg
accept accept4 connect close socket socketpair bind listen setsockopt getsockopt getsockname getpeername shutdown fcntl ioctl
epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait pipe pipe2 eventfd gettimeofday time clock_gettime
getaddrinfo freeaddrinfo gai_strerror getnameinfo inet_pton inet_ntop inet_addr open lseek ftruncate fdatasync fsync unlink dup dup2 sendfile poll
pthread_create pthread_join pthread_detach pthread_self pthread_exit pthread_attr_init pthread_attr_destroy
pthread_attr_setstacksize pthread_attr_setdetachstate pthread_attr_setscope
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_key_create pthread_key_delete pthread_setspecific pthread_getspecific pthread_kill pthread_cancel
pthread_spin_init pthread_spin_lock pthread_spin_unlock pthread_setaffinity_np pthread_sigmask
sem_init sem_wait sem_post sem_destroy sem_timedwait mmap munmap mprotect sysconf getpagesize nanosleep usleep sleep sigaction signal sigwait sigemptyset sigaddset
kill raise getpid gettid syscall posix_fadvise fallocate fork waitpid
io_setup io_submit io_getevents io_destroy lseek64 fstat lstat futimens setmntent getmntent endmntent
SSL_new SSL_free SSL_read SSL_write SSL_read_early_data SSL_write_early_data SSL_do_handshake SSL_shutdown SSL_get_error
SSL_set_fd SSL_get_fd SSL_set_bio SSL_get_rbio SSL_get_wbio SSL_ctrl SSL_CTX_ctrl SSL_CTX_callback_ctrl SSL_set_connect_state SSL_set_accept_state
SSL_get_shutdown SSL_set_shutdown SSL_get_early_data_status SSL_pending SSL_has_pending SSL_is_init_finished SSL_in_init SSL_get_state
SSL_set_quiet_shutdown SSL_clear SSL_get_version SSL_set_ex_data SSL_get_ex_data SSL_get_ex_new_index SSL_get_SSL_CTX SSL_set_SSL_CTX
SSL_CTX_new SSL_CTX_free SSL_CTX_set_options SSL_CTX_get_options SSL_CTX_clear_options SSL_set_options SSL_CTX_set_cipher_list
SSL_CTX_set_ciphersuites SSL_CTX_up_ref SSL_CTX_set_max_early_data SSL_set_max_early_data SSL_renegotiate SSL_get_peer_certificate
SSL_CTX_set_verify SSL_set_verify SSL_get1_session SSL_set_session SSL_session_reused SSL_SESSION_free SSL_SESSION_get_max_early_data SSL_get_session
TLS_method fopen fread fclose SSL_CTX_set_ex_data SSL_CTX_get_ex_data SSL_CTX_load_verify_locations SSL_CTX_set_session_id_context
SSL_CTX_set_alpn_protos SSL_CTX_set_alpn_select_cb SSL_CTX_set_next_protos_advertised_cb SSL_CTX_use_certificate SSL_CTX_use_PrivateKey
SSL_CTX_use_certificate_chain_file SSL_CTX_use_PrivateKey_file SSL_CTX_check_private_key SSL_CTX_get_client_CA_list BIO_new_file
PEM_read_bio_X509_AUX PEM_read_bio_X509 PEM_read_bio_PrivateKey X509_free X509_NAME_digest OPENSSL_sk_new_null OPENSSL_sk_push OPENSSL_sk_insert OPENSSL_sk_unshift OPENSSL_sk_free OPENSSL_sk_pop_free
OPENSSL_sk_num OPENSSL_sk_value EVP_sha1 EVP_MD_CTX_new EVP_MD_CTX_free EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex EVP_PKEY_free
SSL_get_servername SSL_select_next_proto SSL_get0_alpn_selected SSL_get0_next_proto_negotiated
BIO_new BIO_free BIO_free_all BIO_new_bio_pair BIO_new_mem_buf BIO_s_mem BIO_read BIO_write BIO_ctrl BIO_get_data BIO_set_data
BIO_set_init BIO_set_shutdown BIO_get_shutdown BIO_set_flags BIO_clear_flags BIO_test_flags BIO_meth_new BIO_meth_free BIO_meth_set_write BIO_meth_set_read BIO_meth_set_puts
BIO_meth_set_gets BIO_meth_set_ctrl BIO_meth_set_create BIO_meth_set_destroy
ERR_get_error ERR_peek_error ERR_clear_error ERR_error_string ERR_error_string_n ERR_print_errors_fp ERR_peek_last_error""".split()
WRAP_FLAGS = ["-D%s=vp_%s" % (w, w) for w in WRAP]
RENAMED = set("vp_" + w for w in WRAP)

MEM_LIMIT = int(os.environ.get("VP_MEM", str(8 << 30)))


class CheckError(Exception):
    pass


def gen_config(path, extra=(), drop=()):
    with open(path, "w") as f:
        f.write("#ifndef KASYNC_CONFIG_H_99\n#define KASYNC_CONFIG_H_99\n")
        for d in [c for c in CONFIG_DEFINES if c not in drop] + list(extra):
            f.write("#define %s 1\n" % d)
        f.write("#ifdef LINUX\n#undef _GNU_SOURCE\n#define _GNU_SOURCE 1\n#endif\n#endif\n")


def snapshot(dst, config=(), drop=()):
    os.makedirs(dst)
    for d in ("src", "include", "fcontext"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, d), ignore=shutil.ignore_patterns("*.o", "*.a"))
    cfg = os.path.join(dst, "include", "kasync_config.h")
    if os.path.exists(cfg):
        os.remove(cfg)
    gen_config(cfg, config, drop)


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout, cwd=None, limit=False, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=_limits if limit else None,
                         start_new_session=True, env=env, stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


def pmap(fn, items):
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return list(ex.map(fn, items))


class Unit:
    """One harness entry point with its bounds."""

    def __init__(self, file, entry, bound, tiers=("quick", "thorough"), defs=(), timeout=240, native_timeout=10,
                 config=(), drop=(), libs=(), name=None, reach=("end",), max_steps=3000000, note="",
                 native_ok=True, solver_timeout=60000, nowrap=(), exclude=(), native_defs=(), split=1, split_depth=0, points="", optional=False, finding=""):
        self.file, self.entry, self.bound = file, entry, bound
        self.tiers, self.defs = tiers, list(defs)
        self.timeout, self.native_timeout = timeout, native_timeout
        self.config, self.drop, self.libs = tuple(config), tuple(drop), list(libs)
        self.name = name or entry + "".join("_" + re.sub(r"\W", "", d) for d in self.defs) + ("_" + points if points else "")
        self.reach = tuple(reach)
        self.max_steps = max_steps
        self.note = note
        self.native_ok = native_ok
        self.solver_timeout = solver_timeout
        self.nowrap = tuple(nowrap)
        self.exclude = tuple(exclude)
        self.native_defs = list(native_defs)
        # scheduling points: "" (stubs only), "atomic", "mem" (library), "memall" (library and harness-included headers)
        self.points = points
        # optional: depends on how the code is written (names internal to a source file, stand-ins for plain C functions);
        # skipped when it cannot follow the code any more, still a violation when a replayed counterexample fails
        self.optional = optional
        # finding: the assertion that fails on the recorded known finding of this unit (known_findings.txt names the entry)
        self.finding = finding
        self.split, self.split_depth = split, split_depth or (7 if split > 1 else 0)

    @property
    def modkey(self):
        return (self.file, tuple(self.defs), self.config, self.drop, self.nowrap, self.exclude, self.points)

    @property
    def libkey(self):
        return (self.config, self.drop, self.nowrap, self.exclude, self.points)


def kid(key):
    import hashlib
    return hashlib.sha1(repr(key).encode()).hexdigest()[:10]


def incs(tree):
    return ["-I", HARN, "-I", os.path.join(tree, "src"), "-I", os.path.join(tree, "include"),
            "-I", os.path.join(tree, "fcontext", "src")]


def wraps(nowrap):
    if not nowrap:
        return WRAP_FLAGS
    # "+file" is a header of the harness that goes first in every source
    r = ["-D%s=vp_%s" % (w, w) for w in WRAP if w not in nowrap]
    for w in nowrap:
        if w[0] == "+":
            r += ["-fno-builtin", "-include", os.path.join(HARN, w[1:])]
    return r


BC_FLAGS = ["-x", "c++", "-std=gnu++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fwrapv", "-fno-strict-aliasing",
            "-fno-delete-null-pointer-checks", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-builtin", "-g", "-w",
            "-D_GNU_SOURCE=1", "-DVP_SYMX=1", "-emit-llvm", "-c", "-mno-sse4", "-fno-vectorize", "-fno-slp-vectorize",
            "-include", os.path.join(HARN, "vp_nothrow.h")]
NATIVE_FLAGS = ["-x", "c++", "-std=gnu++14", "-g", "-O0", "-w", "-fno-strict-aliasing", "-D_GNU_SOURCE=1", "-DVP_NATIVE=1",
                "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                "-fno-sanitize=alignment,signed-integer-overflow,shift,vptr,nonnull-attribute,pointer-overflow,null,enum,bool",
                "-fno-omit-frame-pointer", "-include", os.path.join(HARN, "vp_nothrow.h")]


COV_OPT = ["-passes=function(sroa),sancov-module", "-sanitizer-coverage-level=1", "-sanitizer-coverage-trace-loads", "-sanitizer-coverage-trace-stores"]


def point_defs(points):
    d = []
    if points:
        d.append("-DVP_ATOMICS=1")
    if points.startswith("mem"):
        d.append("-DVP_MEMPOINTS=1")
    return d


def native_cc(points):
    return ["clang++"] if points.startswith("mem") else ["g++"]


def cov_flags(points, lib):
    if points == "memall" or (points == "mem" and lib):
        # clang's function-type check would load from code, which the instrumentation counts as an access
        return ["-fsanitize-coverage=func,trace-loads,trace-stores", "-fno-sanitize=function"]
    return []


def instrument(bc):
    rc, so, se = run([LLVM + "opt"] + COV_OPT + [bc, "-o", bc], 120)
    if rc != 0:
        raise CheckError("opt (instrumentation): " + se[-2500:])


class Workspace:
    """Compiled artefacts of one check run."""

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.native = {}

    def tree(self, key):
        config, drop, nowrap, exclude, points = key
        k = kid((config, drop))
        d = os.path.join(self.root, "tree_" + k)
        if not os.path.exists(d):
            snapshot(d, config, drop)
        return d

    def sources(self, tree, exclude):
        s = sorted(f for f in os.listdir(os.path.join(tree, "src")) if f.endswith(".c"))
        return [f for f in s if f not in exclude]

    def build_lib_bc(self, key):
        tree = self.tree(key)
        out = os.path.join(self.root, "bc_" + kid(key))
        os.makedirs(out, exist_ok=True)
        config, drop, nowrap, exclude, points = key
        jobs = [(os.path.join(tree, "src", f), os.path.join(out, f + ".bc")) for f in self.sources(tree, exclude)]
        jobs.append((os.path.join(HARN, "vp_libc.cpp"), os.path.join(out, "vp_libc.bc")))

        def one(j):
            libc = j[0].endswith("vp_libc.cpp")
            fl = [] if libc else wraps(nowrap) + point_defs(points)
            fl += cov_flags(points, not libc)      # passes are disabled here: only the function attributes matter
            rc, so, se = run([LLVM + "clang"] + BC_FLAGS + fl + incs(tree) + [j[0], "-o", j[1]], 120)
            if rc != 0:
                return "cannot compile %s to IR:\n%s" % (os.path.basename(j[0]), se[-2500:])
            if points.startswith("mem") and not libc:
                try:
                    instrument(j[1])
                except CheckError as e:
                    return str(e)
        errs = [e for e in pmap(one, jobs) if e]
        if errs:
            raise CheckError("\n".join(errs))
        lib = os.path.join(out, "lib.bc")
        rc, so, se = run([LLVM + "llvm-link"] + [j[1] for j in jobs] + ["-o", lib], 120)
        if rc != 0:
            raise CheckError("llvm-link: " + se[-2500:])
        return lib

    def build_module(self, modkey, entries, lib):
        file, defs, config, drop, nowrap, exclude, points = modkey
        tree = self.tree((config, drop, nowrap, exclude, points))
        base = os.path.join(self.root, "mod_" + kid(modkey))
        rc, so, se = run([LLVM + "clang"] + BC_FLAGS + wraps(nowrap) + point_defs(points) + cov_flags(points, False) + ["-D" + d for d in defs] + incs(tree) +
                         [os.path.join(HARN, file), "-o", base + ".h.bc"], 120)
        if rc != 0:
            raise CheckError("cannot compile harness %s to IR:\n%s" % (file, se[-2500:]))
        if points == "memall":
            instrument(base + ".h.bc")
        rc, so, se = run([LLVM + "llvm-link", lib, "--override=" + base + ".h.bc", "-o", base + ".l.bc"], 120)
        if rc != 0:
            raise CheckError("llvm-link %s: %s" % (file, se[-2500:]))
        api = ",".join(entries)
        rc, so, se = run([LLVM + "opt", "-passes=internalize,always-inline,globaldce,function(sroa,early-cse,simplifycfg,early-cse),globaldce",
                          "-internalize-public-api-list=" + api, base + ".l.bc", "-o", base + ".bc"], 120)
        if rc != 0:
            raise CheckError("opt %s: %s" % (file, se[-2500:]))
        return base + ".bc"

    def build_native_lib(self, key):
        tree = self.tree(key)
        config, drop, nowrap, exclude, points = key
        out = os.path.join(self.root, "nat_" + kid(key))
        os.makedirs(out, exist_ok=True)
        jobs = [(os.path.join(tree, "src", f), os.path.join(out, f + ".o")) for f in self.sources(tree, exclude)]

        def one(j):
            rc, so, se = run(native_cc(points) + NATIVE_FLAGS + cov_flags(points, True) + wraps(nowrap) + point_defs(points) + incs(tree) + ["-c", j[0], "-o", j[1]], 180)
            if rc != 0:
                return "native compile of %s failed:\n%s" % (os.path.basename(j[0]), se[-2500:])
        errs = [e for e in pmap(one, jobs) if e]
        if errs:
            raise CheckError("\n".join(errs))
        objs = [j[1] for j in jobs]
        asm = os.path.join(tree, "fcontext", "src", "asm")
        for a in ("jump_x86_64_sysv_elf_gas.S", "make_x86_64_sysv_elf_gas.S"):
            p = os.path.join(asm, a)
            if os.path.exists(p):
                o = os.path.join(out, a + ".o")
                rc, so, se = run(["gcc", "-c", p, "-o", o], 60)
                if rc == 0:
                    objs.append(o)
        return objs

    def build_native(self, unit, objs, outdir):
        tree = self.tree(unit.libkey)
        os.makedirs(outdir, exist_ok=True)
        exe = os.path.join(outdir, unit.name + ".replay")
        o = os.path.join(outdir, unit.name + ".o")
        rc, so, se = run(native_cc(unit.points) + NATIVE_FLAGS + cov_flags(unit.points, False) + wraps(unit.nowrap) + point_defs(unit.points) + ["-D" + d for d in unit.defs + unit.native_defs] + incs(tree) +
                         ["-c", os.path.join(HARN, unit.file), "-o", o], 180)
        if rc != 0:
            raise CheckError("native compile of harness %s failed:\n%s" % (unit.file, se[-2500:]))
        o2 = os.path.join(outdir, unit.name + ".m.o")
        rc, so, se = run(native_cc(unit.points) + NATIVE_FLAGS + ["-DVP_ENTRY=" + unit.entry, "-c", os.path.join(HARN, "vp_native.cpp"), "-o", o2], 60)
        if rc != 0:
            raise CheckError("native main: " + se[-2000:])
        rc, so, se = run(native_cc(unit.points) + ["-no-pie", "-fsanitize=address,undefined", o, o2] + objs +
                         ["-Wl,--allow-multiple-definition", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, "-lpthread", "-ldl", "-lssl", "-lcrypto"] +
                         unit.libs, 120)
        if rc != 0:
            raise CheckError("native link of %s failed:\n%s" % (unit.name, se[-2500:]))
        os.remove(o)
        os.remove(o2)
        return exe


def native_run(unit, exe, valfile, timeout=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
                           "max_malloc_fill_size=65536:malloc_fill_byte=190:detect_stack_use_after_return=0:quarantine_size_mb=64")
    env["UBSAN_OPTIONS"] = "exitcode=66:print_stacktrace=1"
    rc, so, se = run([exe, valfile], timeout or unit.native_timeout, env=env)
    return rc, (so + se)


def native_verdict(rc, out):
    """-> (violates, why)"""
    if rc is None:
        return True, "does not terminate (native run timed out)"
    if rc == 0:
        return False, "native run passes"
    if rc == 88:
        return False, "assumption not met natively"
    if rc == 77:
        m = re.search(r"VP_FAIL: (.*)", out)
        return True, m.group(1) if m else "assertion failed"
    if rc == 66:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", out)
        return True, m.group(1) if m else "sanitizer report"
    m = re.search(r"Assertion .* failed[^\n]*", out)
    if m:
        return True, m.group(0)
    return True, "native run died with status %s" % rc


def run_symx(unit, bc, k):
    cmd = [SYMX, bc, unit.entry, "--max-steps", str(unit.max_steps), "--max-time", str(unit.timeout),
           "--solver-timeout", str(unit.solver_timeout)]
    if unit.split > 1:
        cmd += ["--split", str(k), str(unit.split), str(unit.split_depth)]
    rc, so, se = run(cmd, unit.timeout + 60, limit=True)
    try:
        r = json.loads(so)
    except ValueError:
        raise CheckError("symx gave no result on %s (rc=%s): %s %s" % (unit.name, rc, so[-300:], se[-600:]))
    return r


def merge(rs):
    """results of the processes that shared one unit's path tree"""
    if len(rs) == 1:
        return rs[0]
    o = dict(rs[0])
    for k in ("paths", "assumed_away", "error_paths", "forks", "instructions", "queries", "queries_unsat", "solver_s"):
        o[k] = sum(r[k] for r in rs)
    o["wall_s"] = max(r["wall_s"] for r in rs)
    o["complete"] = all(r["complete"] for r in rs)
    o["why"] = "; ".join(sorted(set(r["why"] for r in rs if r["why"])))
    for k in ("unsupported", "samples", "errors"):
        o[k] = [x for r in rs for x in r[k]]
    o["unsupported"] = sorted(set(o["unsupported"]))
    o["samples"] = o["samples"][:6]
    o["reached"] = {}
    for r in rs:
        for k, v in r["reached"].items():
            t = o["reached"].setdefault(k, {"count": 0, "values": v["values"]})
            t["count"] += v["count"]
    fs = {}
    for r in rs:
        for f in r["functions"]:
            t = fs.setdefault((f["name"], f["file"]), dict(f))
            t["covered"] = max(t["covered"], f["covered"])
    o["functions"] = list(fs.values())
    return o


def check(prop, units, tier, meta, verbose=False, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(SYMX):
        import build_engine
        build_engine.main()
    root = tempfile.mkdtemp(prefix=prop + "_", dir=BUILD)
    replay_root = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(replay_root, ignore_errors=True)
    sel = [u for u in units if tier in u.tiers and (only is None or u.name in only or u.entry in only)]
    infos, errors = [], []
    ws = Workspace(root)
    keep = bool(os.environ.get("VP_KEEP"))
    validated = 0
    try:
        libs, mods = {}, {}
        try:
            for k in sorted(set(u.libkey for u in sel), key=repr):
                libs[k] = ws.build_lib_bc(k)
        except CheckError as e:
            errors.append(str(e))
        if not errors:
            mk = sorted(set(u.modkey for u in sel), key=repr)

            def mod(k):
                try:
                    return ws.build_module(k, sorted(set(u.entry for u in sel if u.modkey == k)), libs[k[2:]])
                except CheckError as e:
                    return e
            for k, r in zip(mk, pmap(mod, mk)):
                mods[k] = r

            def one(uk):
                u, k = uk
                if isinstance(mods[u.modkey], CheckError):
                    return mods[u.modkey]
                try:
                    return run_symx(u, mods[u.modkey], k)
                except CheckError as e:
                    return e

            def gather(u, rs):
                info = {"unit": u.name, "harness": u.file, "entry": u.entry, "bound": u.bound}
                bad = [x for x in rs if isinstance(x, CheckError)]
                if bad:
                    skip = u.optional and str(bad[0]).startswith("cannot compile harness")
                    info.update(status="skipped" if skip else "error", error=str(bad[0]))
                    return info
                r = merge(rs)
                info["sx"] = r
                if verbose:
                    sys.stderr.write("[%s] %s paths=%d assumed=%d err=%d instr=%d queries=%d solver=%.1fs wall=%.1fs complete=%s reached=%s\n" % (
                        prop, u.name, r["paths"], r["assumed_away"], r["error_paths"], r["instructions"], r["queries"],
                        r["solver_s"], r["wall_s"], r["complete"], {k: v["count"] for k, v in r["reached"].items()}))
                    for x in r["unsupported"]:
                        sys.stderr.write("     UNSUPPORTED %s\n" % x)
                    for e in r["errors"][:12]:
                        sys.stderr.write("     ERR %s: %s at %s\n         %s\n" % (e["kind"], e["msg"], e["loc"], " <- ".join(e["stack"][:6])))
                return info
            order = sorted(sel, key=lambda u: -u.timeout)
            tasks = [(u, k) for u in order for k in range(u.split)]
            res = pmap(one, tasks)
            infos = [gather(u, [r for (v, k), r in zip(tasks, res) if v is u]) for u in order]
        # native side: replay counterexamples, validate witnesses
        if infos:
            nobjs = {}
            need = [(u, i) for u, i in zip(order, infos) if "sx" in i]
            try:
                for k in sorted(set(u.libkey for u, i in need), key=repr):
                    nobjs[k] = ws.build_native_lib(k)
            except CheckError as e:
                errors.append(str(e))

            def nat(ui):
                u, i = ui
                r = i["sx"]
                i["validated"] = 0
                if u.libkey not in nobjs:
                    return
                rdir = os.path.join(replay_root, u.name)
                try:
                    exe = ws.build_native(u, nobjs[u.libkey], rdir)
                except CheckError as e:
                    i["error"] = str(e)
                    return
                i["tried"] = []
                known = u.finding and u.entry in known_findings(prop)
                if known:
                    r["errors"].sort(key=lambda e: e["msg"] == u.finding)
                for n, e in enumerate(r["errors"][:12]):
                    vf = os.path.join(rdir, "values_%d.txt" % n)
                    with open(vf, "w") as f:
                        f.write("".join("%d\n" % v for v in e["values"]))
                    rc, out = native_run(u, exe, vf)
                    viol, why = native_verdict(rc, out)
                    i["tried"].append([e["kind"], e["msg"], e["loc"], why])
                    if verbose:
                        sys.stderr.write("     replay %s: %s -> rc=%s %s\n" % (u.name, e["msg"], rc, why))
                    if viol and known and e["msg"] == u.finding and u.finding in why:
                        i["finding"] = True
                        break
                    if viol:
                        i["violation"] = dict(e, why=why)
                        write_replay(u, rdir, e, why, vf, out)
                        break
                if "violation" not in i and not r["errors"]:
                    wit = [("reach:" + k, v["values"]) for k, v in sorted(r["reached"].items())] + \
                          [("path", s) for s in r["samples"]]
                    i["mismatch"] = []
                    for n, (what, vals) in enumerate(wit[:12]):
                        vf = os.path.join(rdir, "witness_%d.txt" % n)
                        with open(vf, "w") as f:
                            f.write("".join("%d\n" % v for v in vals))
                        rc, out = native_run(u, exe, vf)
                        viol, why = native_verdict(rc, out)
                        if rc == 0 and (not what.startswith("reach:") or ("VP_REACH " + what[6:]) in out):
                            i["validated"] += 1
                        elif r.get("unsupported") and "(pc 0x000000000000 " in out:
                            i["mismatch"].append([what, rc, "calls a function the environment has no stand-in for"])
                        elif rc in (66, 77) or (rc is not None and rc < 0):
                            rc2, out2 = native_run(u, exe, vf, u.native_timeout * 2)
                            if rc2 == rc:
                                e = {"kind": "native", "msg": "solver-derived path fails in the real code", "loc": "", "stack": [], "values": vals}
                                i["violation"] = dict(e, why=why)
                                write_replay(u, rdir, e, why, vf, out)
                                break
                        else:
                            i["mismatch"].append([what, rc, why])
                            if verbose:
                                sys.stderr.write("     MISMATCH %s %s rc=%s %s\n" % (u.name, what, rc, out[-300:]))
                    if "violation" not in i:
                        shutil.rmtree(rdir, ignore_errors=True)
            pmap(nat, need)
            for u, i in need:
                r = i["sx"]
                if "violation" in i:
                    i["status"] = "violation"
                elif u.optional and (r["errors"] or r["unsupported"] or not r["complete"]):
                    i["status"] = "skipped"
                    i["error"] = "no longer follows the code"
                elif r["errors"] and not (i.get("finding") and all(e["msg"] == u.finding for e in r["errors"])):
                    i["status"] = "inconclusive"
                elif i.get("error"):
                    i["status"] = "error"
                elif r["unsupported"]:
                    i["status"] = "error"
                    i["error"] = "not encodable: " + "; ".join(r["unsupported"][:4])
                elif not r["complete"]:
                    i["status"] = "error"
                    i["error"] = "exploration incomplete: " + r["why"]
                elif [x for x in u.reach if x not in r["reached"]]:
                    i["status"] = "vacuous"
                    i["error"] = "witness not reached: " + ", ".join(x for x in u.reach if x not in r["reached"])
                else:
                    i["status"] = "ok"
    finally:
        if not keep:
            shutil.rmtree(root, ignore_errors=True)
    infos.sort(key=lambda i: i["unit"])
    st = lambda s: [i for i in infos if i.get("status") == s]
    viol = st("violation")
    sxs = [i["sx"] for i in infos if "sx" in i]
    funcs = {}
    for s in sxs:
        for f in s["functions"]:
            if "/tree_" in f["file"] and ("/src/" in f["file"] or "/include/" in f["file"]):
                k = re.sub(r"^.*/tree_[0-9a-f]+/", "", f["file"])
                o = funcs.setdefault("%s (%s)" % (f["name"], k), [f["instructions"], 0])
                o[1] = max(o[1], f["covered"])
    samples = []
    for i in infos:
        for v in i.get("sx", {}).get("samples", [])[:1]:
            samples.append({"unit": i["unit"], "symbolic_inputs_of_one_path": v[:60]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": (meta.get("explanation", "") +
                            " The real sources are compiled to LLVM IR and executed symbolically by symx; every branch and every "
                            "assertion (harness checks, memory safety, library asserts) is decided by Z3 for all values of the symbolic "
                            "inputs within each unit's bound; all feasible paths are explored to the end.").strip(),
            "functions_encoded": {k: "%d of %d IR instructions executed symbolically" % (v[1], v[0]) for k, v in sorted(funcs.items())},
            "bounds": {i["unit"]: i["bound"] for i in infos},
            "paths_completed": sum(s["paths"] for s in sxs),
            "paths_cut_by_assumptions": sum(s["assumed_away"] for s in sxs),
            "symbolic_forks": sum(s["forks"] for s in sxs),
            "instructions_executed": sum(s["instructions"] for s in sxs),
            "solver_queries": sum(s["queries"] for s in sxs),
            "solver_queries_unsat": sum(s["queries_unsat"] for s in sxs),
            "solver_time_s": round(sum(s["solver_s"] for s in sxs), 3),
            "reachability_witnesses": {i["unit"]: {k: v["count"] for k, v in i["sx"]["reached"].items()} for i in infos if "sx" in i},
            "solver_traces_replayed_on_native_build": sum(i.get("validated", 0) for i in infos),
            "native_mismatches": [[i["unit"]] + m for i in infos for m in i.get("mismatch", [])],
            "units": [{"unit": i["unit"], "status": i.get("status"), "error": i.get("error"), "paths": i.get("sx", {}).get("paths"),
                       "queries": i.get("sx", {}).get("queries"), "wall_s": i.get("sx", {}).get("wall_s")} for i in infos],
            "samples": samples[:6],
            "errors": errors,
        },
        "assumptions": meta.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for i in infos:
        if i.get("finding"):
            print(known_findings(prop)[i["entry"]])
    for i in viol:
        v = i["violation"]
        print("counterexample: unit=%s %s: %s at %s; native replay: %s" % (i["unit"], v["kind"], v["msg"], v["loc"], v["why"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(replay_root, i["unit"])))
    for i in st("inconclusive"):
        print("inconclusive: %s %s %s" % (i["unit"], i.get("tried"), i.get("error", "")))
    for i in st("vacuous") + st("error"):
        print("%s: %s %s" % (i["status"], i["unit"], i.get("error")))
    for e in errors:
        print("error: " + e)
    bad = [i for i in infos if i.get("status") not in ("ok", "skipped")]
    print("%s %s: units=%d ok=%d violations=%d paths=%d queries=%d solver=%.1fs replayed=%d wall=%.1fs" % (
        prop, tier, len(sel), len(st("ok")), len(viol), sum(s["paths"] for s in sxs), sum(s["queries"] for s in sxs),
        sum(s["solver_s"] for s in sxs), sum(i.get("validated", 0) for i in infos), time.time() - t0))
    if viol:
        return 1
    if errors or bad or not sel:
        return 2
    return 0


def known_findings(prop):
    """entry -> its line of known_findings.txt: KNOWN-FINDING: property=<id> <entry>: <what fails>"""
    r = {}
    kf = os.path.join(VERIF, "known_findings.txt")
    for line in open(kf) if os.path.exists(kf) else []:
        m = re.match(r"KNOWN-FINDING: property=%s (\w+): " % prop, line)
        if m:
            r[m.group(1)] = line.strip()
    return r


COMMON_ASSUMPTIONS = [
    "Linux build configuration of /opt/vp/build.sh (C++14, assertions on, TLS, fcontext fibers); other platforms' code is not encoded",
    "malloc succeeds; freshly allocated and uninitialised memory holds the byte 0xbe",
    "system calls, clock, threads and TLS library calls are the harness stubs named in the unit; C library string functions are modelled in harness/vp_libc.cpp",
    "signed overflow wraps (as in the real unoptimised build)",
]


def write_replay(u, rdir, e, why, vf, out):
    with open(os.path.join(rdir, "report.txt"), "w") as f:
        f.write("solver counterexample: %s: %s\nlocation: %s\nstack: %s\nnative replay: %s\nvalues: %s\nrerun: %s %s\n\n%s\n" % (
            e["kind"], e["msg"], e["loc"], "\n   ".join(e["stack"]), why, e["values"],
            os.path.join(rdir, u.name + ".replay"), vf, out[:20000]))
    shutil.copy(os.path.join(HARN, u.file), rdir)
