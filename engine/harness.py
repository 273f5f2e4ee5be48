"""Search for failing inputs on the real code: the real crate where it builds here, else the extracted text."""
import json, os, re, subprocess, time, shutil
from rs import *
from unit import Unit

COMMON = os.path.join(VERIF, "engine", "common.rs")


def mine_constants(mod):
    out = set()
    for rel in getattr(mod, "FILES", []):
        try:
            s = Src.get(rel)
        except Exception:
            continue
        names = getattr(mod, "CONST_FNS", None)
        for o, t, im, f in s.fns():
            if names is not None and f["name"] not in names:
                continue
            for n in walk_fn(f):
                if n["k"] == "lit" and n.get("int"):
                    v = int(n["int"])
                    if v < 2 ** 64:
                        out.add(v)
    return set(sorted(out)[:400])


def main_text(name):
    t = open(os.path.join(VERIF, "harness", name)).read()
    return re.sub(r'(?m)^include!\("([\w.]+)"\);$', lambda m: main_text(m.group(1)), t)


def prepare(mod, work):
    """Returns (cmd, build_log) or raises Unsupported."""
    h = mod.harness
    if h["kind"] == "crate":
        d = os.path.join(work, "crate")
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        deps = ""
        if h.get("setup"):
            deps += h["setup"](work)
        for name, sub in h.get("deps", {}).items():
            p = os.path.join(REPO, sub)
            if sub == "storage":
                p = storage_copy(work)
            extra = h.get("features", {}).get(name)
            deps += '%s = { path = "%s"%s }\n' % (name, p, ", features = %s" % json.dumps(extra) if extra else "")
        for name, spec in h.get("extern", {}).items():
            deps += "%s = %s\n" % (name, spec)
        toml = '[package]\nname = "h_%s"\nversion = "0.1.0"\nedition = "%s"\n[dependencies]\n%s[workspace]\n[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\n' % (h["name"], h.get("edition", "2021"), deps)
        write(os.path.join(d, "Cargo.toml"), toml)
        if h.get("lock", True):
            shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        src = open(COMMON).read() + "\n" + (h["build"](Unit(getattr(mod, "ID", "x"))) + "\n" if h.get("build") else "") + main_text(h["main"])
        write(os.path.join(d, "src", "main.rs"), src)
        target = os.path.join(BUILD, "target")
        r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target], cwd=d, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Unsupported("harness does not build:\n" + r.stdout[-9000:])
        exe = os.path.join(work, "search")
        shutil.copyfile(os.path.join(target, "debug", "h_" + h["name"]), exe)
        os.chmod(exe, 0o755)
        return exe
    u = Unit(getattr(mod, "ID", "x"))
    text = h["build"](u)
    src = open(COMMON).read() + "\n" + text
    if h.get("main"):
        src += "\n" + main_text(h["main"])
    p = os.path.join(work, "search.rs")
    write(p, src)
    exe = os.path.join(work, "search")
    cmd = ["rustc", "--edition", h.get("edition", "2021"), "-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-A", "warnings", "-o", exe, p]
    r = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Unsupported("extracted harness does not compile:\n" + r.stdout[-9000:])
    return exe


def storage_copy(work):
    d = os.path.join(work, "storage_crate")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "storage", "Cargo.toml")).read()
    t = re.sub(r"(?m)^rocksdb\s*=.*$", "", t)
    t = re.sub(r"(?m)^.*\"rocksdb\".*$|^rocksdb-backend.*$", "", t)
    t = re.sub(r"(?m)^workspace\s*=.*$", "", t)
    t = re.sub(r'path\s*=\s*"\.\./(\w+)"', lambda m: 'path = "%s/%s"' % (REPO, m.group(1)), t)
    write(os.path.join(d, "Cargo.toml"), t)
    l = os.path.join(d, "src")
    if not os.path.islink(l):
        os.symlink(os.path.join(REPO, "storage", "src"), l)
    elif os.readlink(l) != os.path.join(REPO, "storage", "src"):
        os.unlink(l)
        os.symlink(os.path.join(REPO, "storage", "src"), l)
    return d


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def run(mod, pid, work, budget, seed, tier, consts):
    res = dict(fails=[], ran=False, evaluations=0, distinct_nontrivial=0, rule=getattr(mod, "RULE", ""), samples=[], cmd="", summary="", known_seen=[])
    try:
        exe = prepare(mod, work)
    except Unsupported as e:
        res["summary"] = "not run: " + str(e)[-1500:]
        return res
    cmd = [exe, str(seed), str(budget), ",".join(map(str, consts))]
    res["cmd"] = " ".join(cmd)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget * 4 + 60, errors="replace")
        so = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        so = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc = -999
    res["ran"] = True
    for l in so.split("\n"):
        if l.startswith("FAIL "):
            res["fails"].append(l[5:])
        elif l.startswith("SAMPLE "):
            res["samples"].append(l[7:300])
        elif l.startswith("EVALS "):
            a = l.split()
            res["evaluations"], res["distinct_nontrivial"] = int(a[1]), int(a[2])
    if rc == -999 and not res["fails"]:
        cur = [l for l in so.split("\n") if l.startswith("CASE ")]
        res["summary"] = "search timed out"
        if cur:
            res["fails"].append("no answer within the time limit on: " + cur[-1][5:])
    elif rc not in (0, 10) and not res["fails"]:
        cur = [l for l in so.split("\n") if l.startswith("CASE ")]
        if rc < 0 and cur:
            res["fails"].append("the process died (signal %d) on: %s" % (-rc, cur[-1][5:]))
        res["ran"] = bool(res["fails"])
        res["summary"] = "search ended with %d: %s" % (rc, p.stderr[-800:])
    if not res["summary"]:
        res["summary"] = "%d evaluations, %d distinct, %d failing" % (res["evaluations"], res["distinct_nontrivial"], len(res["fails"]))
    return res
