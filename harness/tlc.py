"""Runs TLC: on recorded scenarios (spec/Trace.tla) and on models (spec/MC_*.tla)."""
import os, subprocess, json, glob, re, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def classes():
    """Compile the evaluation of module Rat if needed."""
    src = sorted(glob.glob(os.path.join(ROOT, "spec", "java", "*.java")))
    out = os.path.join(BUILD, "classes")
    stamp = os.path.join(out, "stamp")
    want = "".join("%s:%d;" % (os.path.basename(f), hash_of(f)) for f in src)
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build") if os.path.isdir(BUILD) else None)
        os.makedirs(BUILD, exist_ok=True)
        subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(os.path.join(tmp, "stamp"), "w").write(want)
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
    return out


def hash_of(f):
    import zlib
    return zlib.crc32(open(f, "rb").read())


def run(module, consts=None, env=None, workers=8, timeout=800, mem="6g", extra=()):
    """Returns (ok, output, generated, distinct).  consts: assignments that the model leaves open."""
    cp = classes() + ":" + JARS
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    spec = os.path.join(ROOT, "spec")
    e = dict(os.environ)
    e.update(env or {})
    cfg = os.path.join(spec, module + ".cfg")
    if consts:
        text = open(cfg).read() + "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in sorted(consts.items()))
        cfg = os.path.join(meta, module + ".cfg")
        open(cfg, "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", cp, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    # The output goes to a file: a pipe would be kept open by any process forked meanwhile.
    # TLC explains an error at great length (or for ever): a few seconds of it are enough.
    log = os.path.join(meta, "log")
    stop, bad = time.time() + timeout, None
    try:
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, cwd=spec, env=e, stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT)
        with open(log, "rb") as lf:
            while p.poll() is None:
                time.sleep(0.05)
                if bad is None and b"Error:" in lf.read():
                    bad = time.time()
                if time.time() >= stop or (bad is not None and time.time() > bad + 4):
                    p.kill()
                    break
        rc = p.wait()
        with open(log, errors="replace") as lf:
            out = [x[:2000] for x in lf]
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if time.time() >= stop:
        out.append("TIMEOUT\n")
    out = "".join(out)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    w = re.findall(r"number of states generated: ([\d,]+)", out)            # (random walks)
    if not m and w:
        return rc == 0, out, int(w[-1].replace(",", "")), 0
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return rc == 0, out, gen, dis


def decide(scenarios, work, workers=8, timeout=800):
    """scenarios: list of dicts.  Returns (verdicts by id, output, generated, distinct)."""
    os.makedirs(work, exist_ok=True)
    trace, outf = os.path.join(work, "trace.json"), os.path.join(work, "out.jsonl")
    with open(trace, "w") as f:
        f.write("[" + ",\n".join(json.dumps(s) for s in scenarios) + "]\n")
    if os.path.exists(outf):
        os.remove(outf)
    ok, out, gen, dis = run("Trace", env={"TRACE": trace, "OUT": outf}, workers=workers, timeout=timeout)
    ver = {}
    if os.path.exists(outf):
        for line in open(outf):
            r = json.loads(line)
            ver[r["id"]] = r
    return ok, ver, out, gen, dis
