"""Obtain and load the MIR of /repo's crate (see ../driver), cached by the hash of its sources."""
import fcntl, hashlib, json, os, re, subprocess, sys, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CRATE = "c_to_wasm_compiler"
PARSER = "c_parser.rs"


class BuildError(Exception):
    pass


def _walk(root):
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            yield os.path.join(d, f)


def source_hash():
    h = hashlib.sha256()
    files = []
    for sub in ("src",):
        files += list(_walk(os.path.join(REPO, sub)))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    files += [os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "driver/Cargo.toml")]
    for p in files:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:32]


def _env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN",
                                                    "RUSTC_WORKSPACE_WRAPPER", "LD_LIBRARY_PATH", "RUSTC_BOOTSTRAP")}
    home = e.get("HOME") or "/root"
    if not os.path.isdir(os.path.join(home, ".cargo")):
        home = "/root"
    e["HOME"] = home
    e["PATH"] = os.path.join(home, ".cargo/bin") + ":" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    return r.returncode, r.stdout


def build_driver():
    env = _env()
    tgt = os.path.join(CACHE, "driver")
    env["CARGO_TARGET_DIR"] = tgt
    rc, out = _run(["cargo", "+" + NIGHTLY, "build", "--offline", "--quiet"], env, os.path.join(VERIF, "driver"))
    exe = os.path.join(tgt, "debug", "mirdump")
    if rc != 0 or not os.path.exists(exe):
        raise BuildError("driver build failed:\n" + out[-4000:])
    return exe


def sysroot_lib():
    env = _env()
    rc, out = _run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], env, "/")
    if rc != 0:
        raise BuildError(out)
    return os.path.join(out.strip(), "lib")


def dump():
    """Returns the paths (lib json, bin json) of the MIR of /repo's current sources."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = source_hash()
        out = os.path.join(CACHE, "mir", h)
        lib = os.path.join(out, CRATE + ".lib.json")
        bin_ = os.path.join(out, CRATE + ".bin.json")
        if os.path.exists(lib) and os.path.exists(bin_) and os.path.exists(os.path.join(out, PARSER)):
            return lib, bin_
        exe = build_driver()
        # keep the cache small
        base = os.path.join(CACHE, "mir")
        if os.path.isdir(base):
            olds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
            for _, d in olds[:-6]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = _env()
        env["MIRDUMP_OUT"] = out
        env["LD_LIBRARY_PATH"] = sysroot_lib()
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        # old proc-macro crates probe for nightly features that no longer exist: hide those
        env["RUSTFLAGS"] = "-Zallow-features=rustc_private,proc_macro_diagnostic,proc_macro_span"
        env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
        env["CARGO_PROFILE_DEV_DEBUG"] = "0"
        cmd = ["cargo", "+" + NIGHTLY, "check", "--lib", "--bins", "--offline", "--locked"]
        log = ""
        for attempt in range(2):
            rc, log = _run(cmd, env, REPO)
            if rc != 0:
                break
            if os.path.exists(lib) and os.path.exists(bin_):
                break
            # cargo considered the crate fresh: force it
            _run(["cargo", "+" + NIGHTLY, "clean", "-p", CRATE, "--offline"], env, REPO)
        if not (os.path.exists(lib) and os.path.exists(bin_)):
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("cannot obtain the MIR of /repo:\n" + "\n".join([l for l in log.splitlines() if l.startswith("error") or l.lstrip().startswith("-->")][-8:]))
        if source_hash() != h:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("/repo changed during analysis")
        # the parser LALRPOP generated for these sources, named in the MIR
        with open(lib) as fh:
            m = re.search(r'"([^"]*/%s)"' % re.escape(PARSER), fh.read())
        if m is None or not os.path.exists(m.group(1)):
            raise BuildError("no generated parser")
        shutil.copyfile(m.group(1), os.path.join(out, PARSER))
        return lib, bin_


def generated_parser():
    return os.path.join(os.path.dirname(dump()[0]), PARSER)


class Fn:
    __slots__ = ("name", "file", "line", "end", "kind", "args", "locals", "blocks", "prog", "promoted", "generics")

    def __init__(self, d, prog):
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d["end"]
        self.kind = d["kind"]
        self.args = d["args"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.promoted = d["promoted"]
        self.generics = d.get("generics", [])
        self.prog = prog

    def local_ty(self, l):
        return self.locals[l][0]

    def local_name(self, l):
        return self.locals[l][1] if len(self.locals[l]) > 1 else None

    def arg_names(self):
        return [self.local_name(i) for i in range(1, self.args + 1)]


class Program:
    def __init__(self, path):
        with open(path) as fh:
            # the generated parser's `extern crate core / alloc` is a visible path to the standard library
            d = json.loads(re.sub(r"(?:\w+::)*c_parser::(?:core|alloc)::", "std::", fh.read()))
        self.types = d["types"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.fns = {}
        self.skipped_generated = d["skipped_generated"]
        for f in d["fns"]:
            fn = Fn(f, self)
            # several closures / impls may share a printed path: keep all
            n = fn.name
            k = 2
            while n in self.fns:
                n = f"{fn.name}~{k}"
                k += 1
            self.fns[n] = fn
        self.crate = d["crate"]

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def adt(self, path):
        return self.adts[path]

    def variants(self, path):
        return [v["name"] for v in self.adts[path]["variants"]]

    def find_fns(self, suffix):
        return [f for n, f in self.fns.items() if n == suffix or n.endswith("::" + suffix)]


_cache = {}


def load():
    if "p" not in _cache:
        lib, bin_ = dump()
        _cache["p"] = (Program(lib), Program(bin_))
    return _cache["p"]


# ---------------------------------------------------------------- pretty printer
def fmt_place(p):
    s = f"_{p[0]}"
    for e in p[1:]:
        if e[0] == "d":
            s = f"(*{s})"
        elif e[0] == "f":
            s += f".{e[2]}"
        elif e[0] == "v":
            s = f"({s} as {e[2]})"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        else:
            s += str(e)
    return s


def fmt_op(o, prog):
    k = o["k"]
    if k in ("copy", "move"):
        return (k + " " if k == "move" else "") + fmt_place(o["p"])
    if k == "fn":
        return o["path"] + (f" => {o['res']}" if o["res"] != o["path"] else "")
    if k == "const":
        x = f"const {o.get('v')!r}:{prog.tystr(o['ty'])}"
        for q in ("promoted", "named", "static", "variant", "bytes"):
            if q in o:
                x += f" {q}={o[q]}"
        return x
    return k


def show(fn):
    prog = fn.prog
    out = [f"fn {fn.name} ({fn.file}:{fn.line}) args={fn.args}"]
    for i, l in enumerate(fn.locals):
        out.append(f"  let _{i}: {prog.tystr(l[0])}" + (f"  // {l[1]}" if len(l) > 1 else ""))
    for i, b in enumerate(fn.blocks):
        if b["c"]:
            continue
        out.append(f" bb{i}:")
        for s in b["s"]:
            if s[1] == "a":
                r = s[3]
                if r[0] == "use":
                    t = fmt_op(r[1], prog)
                elif r[0] in ("ref",):
                    t = "&" + ("mut " if r[2] else "") + fmt_place(r[1])
                elif r[0] == "discr":
                    t = "discr " + fmt_place(r[1])
                elif r[0] == "agg":
                    t = f"{r[1]} {r[2]} [" + ", ".join(fmt_op(o, prog) for o in r[3]) + "]"
                elif r[0] == "bin":
                    t = f"{r[1]}({fmt_op(r[2], prog)}, {fmt_op(r[3], prog)})"
                elif r[0] == "un":
                    t = f"{r[1]}({fmt_op(r[2], prog)})"
                elif r[0] == "cast":
                    t = f"cast {fmt_op(r[1], prog)} as {prog.tystr(r[3])} ({r[4]})"
                else:
                    t = str(r)
                out.append(f"   {s[0]}: {fmt_place(s[2])} = {t}")
            else:
                out.append(f"   {s}")
        t = b["t"]
        if t[0] == "call":
            out.append(f"   {b['l']}: {fmt_place(t[3])} = CALL {fmt_op(t[1], prog)} (" +
                       ", ".join(fmt_op(a, prog) for a in t[2]) + f") -> bb{t[4]}")
        elif t[0] == "switch":
            out.append(f"   {b['l']}: switch {fmt_op(t[1], prog)} {t[2]} else bb{t[3]}")
        else:
            out.append(f"   {b['l']}: {t}")
    return "\n".join(out)


if __name__ == "__main__":
    lib, bin_ = load()
    if len(sys.argv) > 1:
        for a in sys.argv[1:]:
            for p in (lib, bin_):
                for f in p.find_fns(a):
                    print(show(f))
    else:
        print(len(lib.fns), "functions", len(lib.adts), "adts", len(lib.types), "types")
