"""Build, record, validate."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8


class Unfinished(Exception):
    """TLC could not evaluate a trace"""


def build(out, mode=""):
    """harness against /repo's working tree, and the TLC accelerator classes"""
    os.makedirs(out, exist_ok=True)
    p1 = subprocess.Popen(["bash", HERE + "/bin/build_harness.sh", out + "/h"] + ([mode] if mode else []),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p2 = subprocess.Popen(["javac", "-nowarn", "-cp", JARS, "-d", out + "/cls"] + [HERE + "/java/GFKernel.java"],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    o1, _ = p1.communicate()
    o2, _ = p2.communicate()
    if p1.returncode:
        raise RuntimeError("harness build failed:\n" + o1[-3000:])
    if p2.returncode:
        raise RuntimeError("javac failed:\n" + o2[-3000:])


def record(out, script, trace, timeout=600, reuse=False):
    """reuse: freed memory is handed out again at once (what is read after its release looks alive)"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1" + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if reuse else ""), M4X_TIMEOUT=os.environ.get("M4X_TIMEOUT", "60"))
    p = subprocess.run([out + "/h/m4x", script, trace], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise RuntimeError("harness failed: " + p.stdout[-2000:])


def tlc(out, cfg, module, tag, env=None, xmx="3g", extra=(), timeout=800):
    e = dict(os.environ, TLC_JAVA_OPTS="-Xss64m -Xmx" + xmx, **(env or {}))
    p = subprocess.run(["bash", HERE + "/bin/tlc.sh", out + "/cls", "-metadir", "%s/meta_%s" % (out, tag), "-noGenerateSpecTE",
                        "-config", cfg, *extra, module], cwd=HERE + "/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def validate(out, trace, tag):
    """-> (events, [rejections]) ; raises when TLC did not finish"""
    rc, txt = tlc(out, HERE + "/spec/M4rieTrace.cfg", HERE + "/spec/M4rieTrace.tla", tag, {"TRACE": trace}, extra=("-workers", "1"))
    m = re.search(r'"DONE (\d+) rejected (\d+)"', txt)
    rej = []
    for l in re.findall(r'"REJECT (\{.*\})"', txt):
        rej.append(json.loads(l.replace('\\"', '"')))
    if not m or "No error has been found" not in txt or len(rej) != int(m.group(2)):
        raise Unfinished("TLC did not finish the trace %s:\n%s" % (trace, txt[-3000:]))
    st = re.search(r"(\d+) states generated, (\d+) distinct", txt)
    return int(m.group(1)), rej, int(st.group(2))


def simulate(out, seed, num, tag, steps=100):
    """behaviours of spec/M4rieGen.tla chosen by TLC -> [[script line]]"""
    rc, txt = tlc(out, HERE + "/spec/M4rieGen.cfg", HERE + "/spec/M4rieGen.tla", tag,
                  extra=("-simulate", "num=%d" % num, "-depth", str(steps + 20), "-seed", str(seed), "-workers", "1"))
    if "Error" in txt or "Finished in" not in txt:
        raise RuntimeError("TLC -simulate failed:\n" + txt[-3000:])
    hs = []
    for m in re.finditer(r'<< ?"HIST",\s*<<(.*?)>>\s*>>', txt, re.S):
        ls = re.findall(r'"([^"]*)"', m.group(1))
        # TLC looks at every successor of the last state: keep one of them
        if not hs or hs[-1][:-1] != ls[:-1]:
            hs.append(ls)
    return hs
