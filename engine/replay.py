"""replay of a violation: the failing input on the real code, compiled natively from /repo (g++-14, no rewriting)"""
import ctypes, json, os, subprocess
from . import frontend as F


def main(path):
    d = json.load(open(path))
    r = d.get("replay") or {}
    print(f"property {d['property']}, obligation: {d['obligation']}\n  {d['detail']}")
    k = r.get("kind")
    if k == "numeric" and r.get("inputs"):
        so = ctypes.CDLL(F.shared(F.harness(r["harness"]), tuple(r.get("defs", ()))))
        f = getattr(so, r["fn"])
        f.restype = None
        xs = r["inputs"]
        n = max(1, r.get("nout") or 64)
        a = (ctypes.c_double * max(1, len(xs)))(*xs)
        o = (ctypes.c_double * n)(*([float("nan")] * n))
        f(a, o, *[ctypes.c_int(i) for i in r.get("ints", ())])
        print("inputs:", dict(zip(r.get("names") or range(len(xs)), xs)))
        print("outputs of the real code:", list(o)[:n])
        print("observed", r.get("observed"), "required", r.get("required"))
        return 1
    if k == "ccall":
        so = ctypes.CDLL(F.shared(F.harness(r["harness"])))
        f = getattr(so, r["fn"])
        f.restype = ctypes.c_int
        print("returned", f(*r["args"]), "required", r.get("required"))
        return 1
    if k == "program":
        exe = F.program(F.harness(r["harness"]), defs=tuple(r.get("defs", ())), flags=tuple(r.get("flags", ("-O1", "-g"))), libs=tuple(r.get("libs", ())))
        p = subprocess.run([exe] + [str(a) for a in r.get("args", [])], capture_output=True, text=True)
        print(p.stdout[-4000:], p.stderr[-4000:])
        print("exit code", p.returncode)
        return 1 if p.returncode else 0
    print("no failing input: the failed obligations are listed in the file, with the verifier's output")
    return 1
