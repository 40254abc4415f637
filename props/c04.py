"""C04: failures stop the solve, are reported, and are never masked; exceptions are raised exactly on failure."""
import diffrax as dfx
from vk import scalar as S
from vk.stubs import CODES
from .loop import Loop, Trace, EPS


def failures(cfg):
    def prop(i, o, op, err=None):
        tr = Trace(cfg, i, o, op)
        N = cfg.N
        AND, IMP, NOT, OR = S.band, S.implies, S.bnot, S.bor
        iff = op.iff
        out = []
        flags = {k: v[()] for k, v in o["res"].items()}
        solver_code = [tr.pick(list(i.RS), tr.k[j]) if cfg.rs else 0 for j in range(N)]
        ctrl_code = [i.RC[j] if cfg.rc else 0 for j in range(N)]
        reach = [AND(tr.keep[j], S.ge(S.add(tr.t1[j], i.DEL[j]), tr.T1)) for j in range(N)]
        sfail = [AND(tr.keep[j], S.lt(0, solver_code[j])) for j in range(N)]
        cfail = [S.lt(0, ctrl_code[j]) for j in range(N)]
        fail = [OR(a, b) for a, b in zip(sfail, cfail)]
        for j in range(N):
            last = S.eq(tr.n, j + 1)
            if j + 1 < N:
                out.append((f"continues-iff-{j}", IMP(tr.exec[j], iff(tr.exec[j + 1], NOT(OR(fail[j], reach[j]))))))
            # a failure is reported as itself
            for c in range(1, len(CODES)):
                cause = OR(AND(tr.keep[j], S.eq(solver_code[j], c)), S.eq(ctrl_code[j], c))
                out.append((f"reported-has-cause-{CODES[c]}-{j}", IMP(AND(last, flags[CODES[c]]), cause)))
                only = AND(cause, OR(NOT(sfail[j]), S.eq(solver_code[j], c)), OR(NOT(cfail[j]), S.eq(ctrl_code[j], c)))
                out.append((f"cause-is-reported-{CODES[c]}-{j}", IMP(AND(last, only), flags[CODES[c]])))
            out.append((f"success-iff-{j}", IMP(last, iff(flags["successful"], AND(NOT(fail[j]), reach[j])))))
            out.append((f"max-steps-iff-{j}", IMP(last, iff(flags["max_steps_reached"], AND(NOT(fail[j]), NOT(reach[j]))))))
            end_t = S.ite(tr.keep[j], S.minimum(S.add(tr.t1[j], i.DEL[j]), tr.T1), tr.t0[j])
            out.append((f"final-time-{j}", IMP(last, op.eq(S.mul(tr.sg, o["ts"][-1]), end_t))))
            out.append((f"final-value-{j}", IMP(last, op.eq(o["ys"][-1], S.ite(tr.keep[j], tr.y1[j], tr.y0[j])))))
        if err is not None:
            out.append(("raises-iff-failed", iff(err, NOT(flags["successful"]))))
        return out
    return prop


def run(run):
    N = 3 if run.quick else 4
    sa = lambda d: dfx.SaveAt(t1=True, controller_state=True)
    cov = lambda i, o, op: [("later-failure", S.band(S.eq(o["n"]["steps"][()], 2), o["res"]["singular"][()]))]
    for nm, cfg in [
        ("solver", Loop(N, saveat=sa, rs=True)),
        ("controller", Loop(N, saveat=sa, rc=True)),
        ("both", Loop(N, saveat=sa, rs=True, rc=True)),
        ("both-rev", Loop(N, saveat=sa, rs=True, rc=True, rev=True)),
    ]:
        run.case(nm, cfg.fn, cfg.inputs(), failures(cfg), cfg.assumes, eps=EPS, errors="forbid", timeout=200, covers=cov)
    # with throw=True
    cfg = Loop(2, saveat=sa, rs=True, rc=True)

    def both(d):
        o = cfg.fn(d)
        cfg.throw = True
        try:
            o2 = cfg.fn(d)
        finally:
            cfg.throw = False
        return dict(o, thrown=o2["ys"])

    run.case("throw", both, cfg.inputs(), failures(cfg), cfg.assumes, eps=EPS, errors="expose", err_fn=cfg.fn, timeout=200)
    # other adjoints share the behaviour
    for nm, adj in [("recursive", dfx.RecursiveCheckpointAdjoint()), ("direct", dfx.DirectAdjoint())]:
        cfg2 = Loop(2, saveat=sa, rs=True, rc=True, adjoint=adj)
        run.case("adjoint-" + nm, cfg2.fn, cfg2.inputs(), failures(cfg2), cfg2.assumes, eps=EPS, errors="forbid", timeout=200)
