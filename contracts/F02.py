"""F02: symbolic derivatives are the true derivatives."""
from engine import reals as R, opaque
from engine.numeric import Harness, Contract
from . import functions_spec as S


def run(ctx):
    H = Harness(ctx, "functions.cc")
    H.setup = opaque.setup
    ctx.assume("doubles are read as real numbers; operands are opaque differentiable functions with opaque derivatives: each derivation rule is proved for arbitrary operands, which gives every expression by structural induction")
    ctx.assume("the derivatives of sin, cos, exp, log, sqrt, cbrt, acos, asin, atan are those of calculus")
    for fn, spec, nv, box in S.FUNCS:
        inputs = S.names(fn, nv, box)
        I = {n: R.var(n) for n, _, _ in inputs}
        lay, total = S.layout(spec(S.xvars(nv), I), nv)
        base = total
        if fn == "chains":
            total += 2 + 4 + 2 + 4 + 6 + 2 + 1

        def post(I, O, lay=lay, nv=nv, fn=fn, base=base):
            for label, comps, val, der, frozen in lay:
                if der is None or frozen:
                    continue
                for d in range(nv):
                    for k, (e, i) in enumerate(zip(comps, der[d])):
                        yield f"d{d} of {label}" + (f"[{k}]" if len(comps) > 1 else ""), O[i], opaque.D(e, f"x{d}")
            if fn == "chains":
                k = base
                for label, ents in S.full(S.xvars(2), I):
                    for j, (e, v) in enumerate(ents):
                        yield f"{label}[{j}]", O[k], opaque.D(e, v)
                        k += 1
        Contract(H, fn, inputs, total, post, where="mito::functions::derivative", label=fn, ufn=opaque.ufn,
                 positive={"x0"} if fn == "library" else (), requires=S.regular(fn, nv)).check()
    S.extra(H, ctx, "derivative", "mito::functions::derivative", opaque.ufn)
