#!/opt/venv/bin/python
"""usage: check.py <property id> [quick|thorough]"""
import os, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import vk  # noqa
from vk.harness import Run


def parallel(pid, tier, seed, workers):
    """the cases are independent of each other: each is done by whichever process claims it first"""
    import subprocess, tempfile
    run = Run(pid, tier, seed)
    with tempfile.TemporaryDirectory(prefix="vk_") as d:
        env = os.environ | dict(VK_SHARD=d)
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), pid, tier], env=env) for _ in range(workers)]
        level = expl = ""
        for k, p in enumerate(ps):
            rc = p.wait()
            out = os.path.join(d, f"{p.pid}.out")
            if rc != 0 or not os.path.exists(out):
                run.errors.append(f"worker {k} ended with {rc}")
                continue
            level, expl = run.merge(out)
    rc = run.finish(level or "other", expl)
    sys.stdout.flush()
    os._exit(rc)


def main():
    pid = sys.argv[1]
    if pid == "--selftest":  # the encoder and the solver are usable in this sandbox
        import z3, diffrax, jax.numpy as jnp
        from vk.harness import Encoded, In, solve
        from vk import scalar as S
        enc = Encoded(lambda d: jnp.where(d["x"] > 0, d["x"] * 2, -d["x"]), dict(x=In()))
        assert solve([S.lt(enc.O[()], 0)])[0] == "unsat" and solve([S.lt(enc.O[()], 1)])[0] == "sat"
        print("ok: z3", z3.get_version_string(), "diffrax from", os.path.dirname(diffrax.__file__))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from props import registry
    shard = os.environ.get("VK_SHARD")
    workers = int(os.environ.get("VK_WORKERS", min(6, os.cpu_count() or 1)))
    if shard is None and workers > 1:
        return parallel(pid, tier, seed, workers)
    run = Run(pid, tier, seed)
    level, expl = "other", ""
    try:
        fn, level, expl = registry.get(pid)
        fn(run)
    except Exception as e:  # never mistaken for a verdict
        import traceback
        run.errors.append("check aborted: " + "".join(traceback.format_exception(e))[-1500:])
    if shard is not None:
        run.dump(os.path.join(shard, f"{os.getpid()}.out"), level, expl)
        rc = 0
    else:
        rc = run.finish(level, expl)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
