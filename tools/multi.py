"""multi.py SCALE PROP...: several checks in one process, no shrinking (by
hand; used by mutate.py). Prints the first property that fails."""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
from vf import engine  # noqa: E402


def main():
    scale, props = float(sys.argv[1]), sys.argv[2:]
    mods = [engine.load(p) for p in props]
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    os.chdir(tempfile.mkdtemp(prefix='vf_multi_'))
    for p, mod in zip(props, mods):
        rec = engine.Recorder()

        def body(case):
            engine.run_one(mod, case, rec)

        t = hypothesis.given(mod.strategy('quick'))(body)
        t = settings(
            max_examples=max(10, int(scale * mod.QUICK)), database=None,
            deadline=None, phases=[Phase.generate],
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False, print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(t)
        t = hypothesis.seed(4711)(t)
        try:
            t()
        except (engine.Violation, engine.NonTermination) as e:
            print('KILLED', p, str(e)[:200])
            return
        except BaseException as e:
            print('ERROR', p, type(e).__name__, str(e)[:300])
    print('NONE')


main()
