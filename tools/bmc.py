"""Solver-based checking of /repo's code: encode (Kani code generation from the current source),
bound, decide (CBMC), and replay counterexamples natively.  Used by check.py."""
import concurrent.futures, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = f"{VERIF}/kani"
REPO = os.environ.get("HV_REPO", "/repo")  # development only: registered checks run on /repo
HOME = os.environ.get("HOME", "/root")
KANI = sorted(glob.glob(f"{HOME}/.kani/kani-*"))[-1] if glob.glob(f"{HOME}/.kani/kani-*") else f"{HOME}/.kani/kani-0.68.0"
KANI_C = f"{KANI}/library/kani/kani_lib.c"
BIN = f"{KANI}/bin"

# Functions whose bodies are replaced by "do nothing": dropping an error value.  binread::Error is
# recursive (Vec of errors, boxed trait objects) and its drop glue alone makes symbolic execution
# diverge; freeing it is not observable through the API.  Listed as a cut in DESIGN.md.
CUT = {
    "std::ptr::drop_glue::<binread::Error>",
    "std::ptr::drop_glue::<std::io::Error>",
    "std::ptr::drop_glue::<std::boxed::Box<dyn std::any::Any + std::marker::Send + std::marker::Sync>>",
}
# Loops that run at most once or twice per call whatever the input; unwinding assertions stay on, so
# a wrong hint costs a retry with the plain bound, never a wrong answer.
HINTS = [
    (re.compile(r"inlined_slow_read_byte"), 2),
    (re.compile(r"Iterator>::try_fold::<.*GenericShunt"), 2),
    (re.compile(r"Iterator>::try_fold::<.*[Tt]ake_?[Ww]hile"), 2),
]
CBMC_FLAGS = [
    "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
    "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16",
]
# Copy elimination and inlining on the MIR before encoding (about a third less to execute
# symbolically).  GVN is off because Kani cannot encode what it produces.
MIR_FLAGS = ["", "-Zmir-opt-level=3 -Zinline-mir=yes -Zmir-enable-passes=-GVN,+DestinationPropagation",
             "-Zmir-opt-level=3 -Zinline-mir=yes -Zmir-enable-passes=-GVN,+DestinationPropagation,+ReferencePropagation "
             "-Zinline-mir-threshold=300 -Zinline-mir-hint-threshold=600"]
IGNORED_CLASSES = {"reachability_check"}
INCONCLUSIVE = re.compile(r"unsupported_construct|sanity_check|no-body|assert_false|internal", re.I)


class Inconclusive(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = f"{HOME}/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    return e


_procs, _lock = set(), threading.Lock()


def kill_all():
    with _lock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run(cmd, timeout, cwd=None, extra_env=None, mem_gb=None, out=None):
    """Returns (rc, output); rc None on timeout."""
    e = env()
    e.update(extra_env or {})

    def limit():
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    f = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT if not out else subprocess.DEVNULL,
                         start_new_session=True, preexec_fn=limit)
    with _lock:
        _procs.add(p)
    try:
        o, _ = p.communicate(timeout=max(timeout, 1))
        return p.returncode, (o or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, (o or b"").decode("utf-8", "replace")
    finally:
        with _lock:
            _procs.discard(p)
        if out:
            f.close()


def copy_crate(config, scratch):
    src = f"{scratch}/crate-{config}"
    if not os.path.isdir(src):
        shutil.copytree(CRATE, src, ignore=shutil.ignore_patterns("target"))
        if REPO != "/repo":
            t = open(f"{src}/Cargo.toml").read()
            open(f"{src}/Cargo.toml", "w").write(t.replace('"/repo/', f'"{REPO}/'))
        if not os.path.exists(f"{src}/Cargo.lock"):
            shutil.copy(f"{REPO}/Cargo.lock", f"{src}/Cargo.lock")
    return src


def encode(prop, config, scratch, timeout, mir=1):
    """Regenerates the encoding of every harness of `prop` from /repo's current source."""
    src = copy_crate(config, scratch)
    tgt = f"{scratch}/enc-{config}"
    for flags in dict.fromkeys((MIR_FLAGS[mir], "")):
        shutil.rmtree(tgt, ignore_errors=True)
        rc, o = run(["cargo", "kani", "--only-codegen", "--no-assertion-reach-checks", "-Z", "stubbing",
                     "--no-default-features", "--features", f"c_{config},{prop.lower()}", "--target-dir", tgt],
                    timeout, cwd=src, extra_env={"RUSTFLAGS": flags} if flags else None)
        if rc == 0:
            break
    if rc != 0:
        raise Inconclusive(f"code generation failed ({rc}) for {prop}/{config}:\n" + (o[o.find("\nerror"):][:3000] if "\nerror" in o else o[-3000:]))
    metas = [m for m in glob.glob(f"{tgt}/kani/*/debug/**/hv-*.kani-metadata.json", recursive=True)]
    if len(metas) != 1:
        raise Inconclusive(f"expected one metadata file, found {metas}")
    meta = json.load(open(metas[0]))
    hs = []
    for h in meta["proof_harnesses"]:
        hs.append({"name": h["pretty_name"].split("::")[-1], "pretty": h["pretty_name"], "mangled": h["mangled_name"],
                   "symtab": h["goto_file"].replace(".out", ".symtab.out") if not h["goto_file"].endswith(".symtab.out") else h["goto_file"],
                   "unwind": (h.get("attributes") or {}).get("unwind_value") or 10, "config": config})
    for h in hs:
        if not os.path.exists(h["symtab"]):
            alt = glob.glob(os.path.join(os.path.dirname(metas[0]), f"*{h['mangled']}.symtab.out"))
            if len(alt) != 1:
                raise Inconclusive(f"no goto program for {h['pretty']}")
            h["symtab"] = alt[0]
    return hs


ALLOC_LIMIT = None  # bytes; set by check.py for the properties that forbid larger requests
_lib_lock = threading.Lock()


def kani_lib(scratch):
    """Kani's allocation functions, with an assertion on the size when the property limits it."""
    if ALLOC_LIMIT is None:
        return KANI_C
    p = f"{scratch}/kani_lib_limited.c"
    with _lib_lock:
        if not os.path.exists(p):
            t = open(KANI_C).read()
            for head, var in (("uint8_t *__rust_alloc(size_t size, size_t align)\n{", "size"),
                              ("uint8_t *__rust_alloc_zeroed(size_t size, size_t align)\n{", "size"),
                              ("uint8_t *__rust_realloc(uint8_t *ptr, size_t old_size, size_t align, size_t new_size)\n{", "new_size")):
                if head not in t:
                    raise Inconclusive("kani_lib.c has an unexpected form")
                t = t.replace(head, head + f'\n    __KANI_assert({var} <= {ALLOC_LIMIT}, "memory request larger than {ALLOC_LIMIT} bytes");')
            open(p + ".tmp", "w").write(t)
            os.rename(p + ".tmp", p)
    return p


def link(h, scratch, timeout):
    """goto-cc / goto-instrument steps of Kani, plus the drop cut.  Returns the goto binary."""
    base = f"{scratch}/{h['config']}-{h['name']}"
    names = json.load(open(h["symtab"].replace(".symtab.out", ".pretty_name_map.json")))
    h["names"] = names
    cut = sorted(k for k, v in names.items() if v in CUT)
    h["cut"] = sorted({names[k] for k in cut})
    gi = f"{BIN}/goto-instrument"
    steps = [[f"{BIN}/goto-cc", h["symtab"], kani_lib(scratch), "--function", h["mangled"], "-o", f"{base}.1"],
             [gi, "--add-library", "--no-malloc-may-fail", f"{base}.1", f"{base}.2"]]
    cur = 2
    if cut:
        rm = []
        for c in cut:
            rm += ["--remove-function-body", c]
        steps.append([gi, *rm, f"{base}.2", f"{base}.3"])
        steps.append([gi, "--generate-function-body", "|".join(re.escape(c) for c in cut),
                      "--generate-function-body-options", "nondet-return", f"{base}.3", f"{base}.4"])
        cur = 4
    steps.append([gi, "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*",
                  "--drop-unused-functions", f"{base}.{cur}", f"{base}.5"])
    steps.append([gi, "--ensure-one-backedge-per-target", f"{base}.5", f"{base}.goto"])
    for s in steps:
        rc, o = run(s, timeout)
        if rc != 0:
            raise Inconclusive(f"{os.path.basename(s[0])} failed ({rc}) on {h['name']}: {o[-1500:]}")
    for i in (1, 2, 3, 4, 5):
        try:
            os.remove(f"{base}.{i}")
        except FileNotFoundError:
            pass
    return f"{base}.goto"


def functions(goto, h, timeout):
    """Names of the functions of /repo that are part of the encoding."""
    rc, o = run([f"{BIN}/goto-instrument", "--list-goto-functions", goto], timeout)
    got = set()
    for line in o.splitlines():
        m = re.search(r"/\* (\S+) \*/", line)
        sym = m.group(1) if m else line.strip()
        nm = h["names"].get(sym, "")
        if "binread::" in nm and not nm.startswith("std::ptr::drop_glue"):
            got.add(nm)
    return got


def loops(goto, h, timeout):
    rc, o = run([f"{BIN}/goto-instrument", "--show-loops", "--json-ui", goto], timeout)
    try:
        j = json.loads(o[o.index("["):])
    except ValueError:
        return []
    out = []
    for part in j:
        for l in part.get("loops", []):
            out.append(l["name"])
    return out


def hint(h, loop):
    pretty = h["names"].get(loop.rsplit(".", 1)[0], loop)
    return next((n for rx, n in h.get("loop_hints", []) + HINTS if rx.search(pretty)), None)


def hinted(h, prop):
    """Is this unwinding assertion (FUNCTION.unwind.N) about a loop with a hint?"""
    return hint(h, prop.replace(".unwind.", ".")) is not None


def cbmc(goto, h, unwind, hints, timeout, mem_gb, trace_for=None):
    args = [f"{BIN}/cbmc", *CBMC_FLAGS, "--unwind", str(unwind), "--sat-solver", "cadical"]
    us = []
    if hints:
        for name in loops(goto, h, 60):
            n = hint(h, name)
            if n:
                us.append(f"{name}:{n}")
    if us:
        args += ["--unwindset", ",".join(us)]
    if trace_for:
        for t in trace_for:
            args += ["--property", t]
        args += ["--trace"]
    else:
        args += ["--slice-formula"]
    args += [goto, "--json-ui", "--verbosity", "8"]
    out = goto + (".trace.json" if trace_for else ".json")
    t0 = time.time()
    rc, _ = run(args, timeout, mem_gb=mem_gb, out=out)
    wall = time.time() - t0
    if rc is None:
        return {"status": "timeout", "wall": wall}
    try:
        j = json.load(open(out))
    except ValueError:
        return {"status": "error", "wall": wall, "msg": open(out, errors="replace").read()[-1500:] or f"cbmc exit {rc}"}
    finally:
        try:
            os.remove(out)
        except FileNotFoundError:
            pass
    res = {"status": "ok", "wall": wall, "results": None, "solver_s": 0.0, "symex_s": 0.0, "vccs": 0, "vccs_left": 0, "steps": 0, "solves": 0}
    errs = []
    for part in j:
        if "result" in part:
            res["results"] = part["result"]
        t = part.get("messageText", "")
        if part.get("messageType") == "ERROR":
            errs.append(t)
        m = re.search(r"Runtime Symex: ([\d.e+-]+)s", t)
        if m:
            res["symex_s"] += float(m.group(1))
        m = re.search(r"Runtime Solver: ([\d.e+-]+)s", t)
        if m:
            res["solver_s"] += float(m.group(1))
            res["solves"] += 1
        m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if m:
            res["vccs"] += int(m.group(1))
            res["vccs_left"] += int(m.group(2))
        m = re.search(r"size of program expression: (\d+) steps", t)
        if m:
            res["steps"] += int(m.group(1))
    if res["results"] is None:
        return {"status": "error", "wall": wall, "msg": f"cbmc exit {rc}: " + " ".join(errs)[-1500:]}
    return res


def pclass(name):
    parts = name.split(".")
    return parts[-2] if len(parts) >= 2 else ""


def split(results):
    """(violations, unwinding, inconclusive, covers) among the failed / all results."""
    bad, unw, inc, cov = [], [], [], {}
    for r in results:
        c = pclass(r["property"])
        st = r["status"]
        if c in IGNORED_CLASSES:
            continue
        if c == "cover":
            key = r["description"]
            cov[key] = cov.get(key, False) or st == "FAILURE"
            cov.setdefault("_p", {}).setdefault(key, []).append((r["property"], st))
            continue
        if st == "SUCCESS":
            continue
        if st != "FAILURE":
            inc.append(r)
        elif c in ("unwind", "recursion") or "unwinding assertion" in r.get("description", ""):
            unw.append(r)
        elif INCONCLUSIVE.search(c) or "is not currently supported by Kani" in r.get("description", "") or "undefined function" in r.get("description", ""):
            inc.append(r)
        else:
            bad.append(r)
    return bad, unw, inc, cov


def model(trace):
    """The values returned by sym_* calls, in execution order."""
    vals = []
    for s in trace:
        if s.get("stepType") == "assignment" and re.search(r"return_value.*sym_u(8|16|32|64)$", s.get("lhs", "")):
            b = s.get("value", {}).get("binary")
            vals.append(int(b, 2) if b else 0)
    return vals
