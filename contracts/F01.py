"""F01: the function algebra evaluates pointwise."""
from engine import reals as R, opaque
from engine.numeric import Harness, Contract
from . import functions_spec as S


def run(ctx):
    H = Harness(ctx, "functions.cc")
    H.setup = opaque.setup
    ctx.assume("doubles are read as real numbers; operands are opaque functions (any function of the point): by structural induction over expressions the pointwise law extends from one operator to every expression")
    for fn, spec, nv, box in S.FUNCS:
        inputs = S.names(fn, nv, box)
        I = {n: R.var(n) for n, _, _ in inputs}
        lay, total = S.layout(spec(S.xvars(nv), I), nv)
        if fn == "chains":
            total += 2 + 4 + 2 + 4 + 6 + 2 + 1

        def post(I, O, lay=lay):
            for label, comps, val, der, frozen in lay:
                for k, (e, i) in enumerate(zip(comps, val)):
                    yield f"value of {label}" + (f"[{k}]" if len(comps) > 1 else ""), O[i], e
        Contract(H, fn, inputs, total, post, where="mito::functions (operators, evaluation)", label=fn, ufn=opaque.ufn,
                 positive={"x0"} if fn == "library" else (), requires=S.regular(fn, nv)).check()
    S.extra(H, ctx, "value", "mito::functions (operators, evaluation)", opaque.ufn)
