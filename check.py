#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property for /repo's working tree
   check.py --replay FILE                  run again what a VIOLATION line named
   check.py --build                        build everything once (setup)
"""
import glob, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, ".build")
STRUCTURAL = {  # scenarios explored over the toy group whose every trace is replayed over the real curve
    "C01": ["complete", "numbers_complete", "long_run"], "C02": ["mac_grid", "mac_lengths"], "C03": ["verify_splice", "verify_tamper", "verify_shape", "roster_swap"],
    "C04": ["roster_pairs", "roster_splice", "roster_tamper", "roster_swap", "numbers_roster"], "C05": ["issuance_splice", "issuance_tamper", "numbers_issue"],
    "C06": ["shown_values"], "C07": ["proof_grid"], "C08": ["proof_masks"], "C09": ["proof_context"], "C14": ["entry_open", "numbers_open"],
    "C15": ["elgamal_grid"], "C22": ["history3"], "C23": ["proof_masks"],
    "C26": ["operators"],
    "C24": ["interleaved2", "interleaved3", "issuer_history3"],
}
DIRECT = {"C10": "bytes", "C11": "bytes", "C12": "bytes", "C13": "bytes", "C16": "bytes", "C17": "wipe", "C18": "ffi", "C19": "ffi", "C20": "js", "C21": "buf", "C25": "ops", "C27": "ffi", "C28": "bytes", "C29": "bytes", "C30": "jscall", "C31": "draws"}
LEVEL = {p: "model_checking" for p in STRUCTURAL}
LEVEL.update({p: "exploration" for p in DIRECT})
LEVEL["C21"] = "fault_enumeration"
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    for k in list(e):
        if k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS") or k.startswith("CARGO_"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="nightly-2019-01-15", CARGO_NET_OFFLINE="true", CARGO_HOME=os.path.join(V, "cargo-home"))
    e.setdefault("VERIF_SEED", "1")
    return e


def tree():
    """A digest of everything in /repo that is not build output."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p) and os.path.getsize(p) < 1 << 22:
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


def fresh(target):
    """Cargo goes by modification times; forget what was built from another tree, whatever its files' times are."""
    stamp = os.path.join(target, "tree")
    now = tree()
    try: old = open(stamp).read()
    except OSError: old = None
    if old != now:
        for d in glob.glob(os.path.join(target, "*", ".fingerprint", "*")):
            if re.match(r"(aeonflux|signal-credential|ffi|alloc|toy|real)-[0-9a-f]+$", os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(stamp, "w").write(now)


def cargo(crate, *args):
    """Build a crate from /repo's working tree; returns (ok, log)."""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, crate)
    fresh(e["CARGO_TARGET_DIR"])
    p = subprocess.run(["cargo", "build"] + list(args), cwd=os.path.join(V, "crates", crate), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode(errors="replace")


def parallel(jobs):
    out = [None] * len(jobs)
    def go(i):
        out[i] = cargo(*jobs[i])
        if not out[i][0] and jobs[i][0] == "ffilib":  # code that needs std is no concern of the properties
            again = cargo("ffilib", "--no-default-features", "--features", "std,nightly,u64_backend")
            if again[0]: out[i] = again
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def binary(crate, name):
    return os.path.join(BUILD, crate, "debug", name)


def jobs_for(prop):
    if prop in STRUCTURAL:
        return [("toy",), ("real", "--bin", "conform")]
    b = DIRECT[prop]
    j = [("real", "--bin", b)]
    if b == "ffi":
        j.append(("ffilib", "--features", "u64_backend"))
    return j


class Gone(Exception):
    pass


def run(cmd, out, name, deadline, extra=None):
    """Run an explorer; its report is OUT/NAME.json."""
    e = env()
    e.update(extra or {})
    log = open(os.path.join(out, name + ".log"), "wb")
    p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        rc = p.wait(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise Gone("%s did not end in time" % name)
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    f = os.path.join(out, name + ".json")
    tail = open(os.path.join(out, name + ".log"), errors="replace").read()[-1500:]
    if rc == -signal.SIGKILL:
        raise Gone("%s was killed" % name)
    if not os.path.exists(f):
        return {"violations": ["%s: the code under test ended the explorer (status %s): %s" % (" ".join(map(shlex.quote, cmd)), rc, tail.strip())], "died": True}
    return json.load(open(f))


def findings(prop):
    """Known findings: 'finding: property=ID KEY: what fails'."""
    r = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (\S+): (.*)", l.strip())
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r


def check(prop, tier):
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    if not os.path.isdir("/repo/aeonflux"):
        print("no /repo"); return 2
    shutil.rmtree(os.path.join(V, "replays", prop), ignore_errors=True)
    out = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, tier, t0, deadline, out)
    except Gone as e:
        print("no answer: %s" % e)
        return 2
    finally:
        shutil.rmtree(out, ignore_errors=True)


HEADERS = ["/repo/ffi/src/include/credential.h", "/repo/swift/Credential/credential.h"]


def header(h, out):
    """Compile a program of two parts that both use the header, one of them twice; (library, None) or (None, why not)."""
    os.makedirs(out, exist_ok=True)
    inc = os.path.dirname(h)
    try: text = open(h, encoding="utf-8").read()
    except OSError as e: return None, str(e)
    import importlib.util
    spec = importlib.util.spec_from_file_location("shim", os.path.join(V, "tools", "shim.py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    open(os.path.join(out, "a.c"), "w").write(m.shim(text))
    open(os.path.join(out, "b.c"), "w").write('#include "credential.h"\n#include "credential.h"\nuint64_t second_part(void) { return LENGTH_SEED; }\n')
    so = os.path.join(out, "shim.so")
    p = subprocess.run(["gcc", "-std=c99", "-O0", "-w", "-Werror=implicit-function-declaration", "-Werror=int-conversion", "-Werror=incompatible-pointer-types", "-shared", "-fPIC", "-I", inc,
                        "-o", so, os.path.join(out, "a.c"), os.path.join(out, "b.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL="C"))
    if p.returncode:
        return None, " / ".join(l for l in p.stdout.decode(errors="replace").split("\n") if "error" in l or "multiple" in l)[:800]
    return so, None


def decide(prop, tier, t0, deadline, out):
    built = parallel(jobs_for(prop))
    reports, assumptions = [], []
    ok = [b[0] for b in built]
    if prop in STRUCTURAL:
        if not any(ok):
            print(built[0][1][-3000:], built[1][1][-3000:]); print("no answer: /repo does not build"); return 2
        if ok[0]:
            reports.append(("toy", run([binary("toy", "toy"), prop, tier, out], out, "toy", deadline)))
            assumptions.append("the code of /repo is compiled over a small stand-in group and a random oracle the explorer controls; the replay of every structural trace over the real curve binds the two")
        else:
            print(built[0][1][-2000:])
            print("NOTE: /repo does not build over the stand-in group; explored over the real curve only")
            assumptions.append("REDUCED: the code did not build over the stand-in group")
        if ok[1]:
            a = [binary("real", "conform"), tier, out, ",".join(STRUCTURAL[prop])]
            tr = os.path.join(out, "traces.txt")
            if ok[0] and os.path.exists(tr): a.append(tr)
            reports.append(("real", run(a, out, "real", deadline)))
    else:
        for b in built:
            if not b[0]:
                print(b[1][-4000:]); print("no answer: /repo does not build"); return 2
        extra = {"VERIF_OUT": out}
        if DIRECT[prop] in ("ffi", "buf"):
            so = os.path.join(out, "track.so")
            p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(V, "crates", "real", "track.c"), "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: print(p.stdout.decode()); return 2
            extra.update(LD_PRELOAD=so, VERIF_LIB=binary("ffilib", "libcredential.so"))
        if prop == "C27":
            bad = []
            for k, h in enumerate(HEADERS):
                if k and open(h, "rb").read() == open(HEADERS[0], "rb").read():
                    assumptions.append("%s has the same bytes as %s, so one set of callers stands for both" % (h, HEADERS[0])); continue
                so, log = header(h, os.path.join(out, "shim%d" % k))
                if so is None: bad.append("%s: a C program cannot use it: %s" % (h, log)); continue
                x = dict(extra); x["VERIF_SHIM"] = so
                reports.append(("ffi%d" % k, run([binary("real", "ffi"), prop, tier, os.path.join(out, "shim%d" % k)], os.path.join(out, "shim%d" % k), "ffi", deadline, x)))
            if bad: reports.append(("header", {"violations": bad}))
        elif prop == "C30":
            reports.append(("glue", run(["node", os.path.join(V, "js", "glue.js"), tier, out, binary("real", "jscall")], out, "glue", deadline)))
        else: reports.append((DIRECT[prop], run([binary("real", DIRECT[prop]), prop, tier, out], out, DIRECT[prop], deadline, extra)))
    new = [v for n, r in reports for v in r["violations"]]
    known, seen = findings(prop), set()
    for n, r in reports:
        for key, detail in r.get("findings", []):
            if key not in known: new.append("%s %s" % (key, detail))
            elif key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
    total = lambda k: sum(r.get(k, 0) for n, r in reports)
    samples = [s for n, r in reports for s in r.get("samples", [])][:12] or ["none"]
    cov = {"parts": [p for n, r in reports for p in r.get("parts", [])], "samples": samples, "exhaustive": not any(r.get("died") for n, r in reports)}
    if LEVEL[prop] == "model_checking":
        cov.update(states=total("states"), transitions=total("transitions"), executions=total("executions"),
                   traces_validated_against_impl=total("validated"))
    else:
        cov.update(evaluations=total("evaluations"), distinct_nontrivial=total("distinct"),
                   rule="; ".join(r.get("rule", "") for n, r in reports))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": LEVEL[prop], "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        d = os.path.join(V, "replays", prop)
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:10]):
            p = os.path.join(d, "%d.txt" % i)
            with open(p, "w") as f: f.write("property=%s tier=%s\n%s\nagain: %s\n" % (prop, tier, v, again(prop, tier, v)))
            print(v[:600])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    print("%s %s: held on everything explored (%.1f s): %s" % (prop, tier, time.time() - t0,
          ", ".join("%s %s" % (k, cov[k]) for k in cov if isinstance(cov[k], int))))
    return 0


def again(prop, tier, v):
    """The command that runs one violating execution again."""
    m = re.match(r"scenario=(\S+) ell=(\d+) dim=(\d+) baseline=(\d+) tape=\[(.*?)\]", v)
    if m:
        return " ".join([binary("toy", "toy"), "replay"] + list(m.groups()[:4]) + ["'%s'" % m.group(5).replace(" ", "")])
    m = re.match(r"real (\S+) ([\d,]*):", v)
    if m:
        return "%s replay %s '%s'" % (binary("real", "conform"), m.group(1), m.group(2))
    return "%s %s %s" % (os.path.join(V, "check.py"), prop, tier)


def replay(path):
    text = open(path).read()
    prop = re.match(r"property=(\S+)", text).group(1)
    for ok, log in parallel(jobs_for(prop)):
        if not ok: print(log[-3000:])
    return subprocess.run(text.rsplit("\nagain: ", 1)[1], shell=True, env=env()).returncode


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "--build":
        r = parallel([("toy",), ("real",), ("ffilib", "--features", "u64_backend")])
        for ok, log in r:
            if not ok: print(log[-4000:])
        return 0 if all(x[0] for x in r) else 1
    if a[0] == "--replay": return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
