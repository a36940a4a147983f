"""Runs contracts on the real code (started with /opt/venv/bin/python):

  concrete.py PROP CONTRACT search SEED N SECONDS   random inputs
  concrete.py PROP CONTRACT replay FILE             inputs of a counterexample
  concrete.py PROP CONTRACT again FILE              a recorded failing case

Prints one JSON line."""
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import contextlib

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')


class TimeUp(BaseException):
    pass


def main():
    import numpy as np
    np.seterr(all='ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from dv import spec
    from dv.conctx import ConCtx, Skip, Failed, jsonable
    prop, name, what = sys.argv[1:4]
    c = [x for x in spec.load(prop) if x.name == name][0]
    src = os.path.join(os.environ.get('DV_SRC', '/repo/src'))
    sys.path.insert(0, src)
    import emva1288
    assert os.path.realpath(emva1288.__file__).startswith(os.path.realpath(src)), emva1288.__file__

    def one(seed, given):
        rng = random.Random(seed)
        np.random.seed(seed % (2 ** 31))
        ctx = ConCtx(rng, given)

        def alarm(*a):
            raise TimeUp()
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 30)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                c.fn(ctx)
            return 'ok', ctx, None, None
        except Skip:
            return 'skip', ctx, None, None
        except Failed as f:
            return 'fail', ctx, f.name, f.detail
        except TimeUp:
            return 'fail', ctx, 'termination', 'no result within 30 s'
        except Exception as x:
            return 'fail', ctx, 'contract evaluation', '%s: %s\n%s' % (
                type(x).__name__, x, traceback.format_exc(limit=-4))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            ctx.close()
    if what == 'search':
        seed0, n, secs = int(sys.argv[4]), int(sys.argv[5]), float(sys.argv[6])
        t0 = time.time()
        ran = skipped = checked = 0
        seen = set()
        sample = None
        k = 0
        while ran < n and time.time() - t0 < secs and k < 60 * n:
            k += 1
            seed = seed0 * 1000003 + k
            st, ctx, nm, det = one(seed, None)
            if st == 'skip':
                skipped += 1
                continue
            ran += 1
            checked += ctx.checked
            key = json.dumps({a: jsonable(b) for a, b in ctx.drawn.items()}, sort_keys=True)
            seen.add(hash(key))
            if sample is None:
                sample = {a: jsonable(b) for a, b in ctx.drawn.items()}
            if st == 'fail':
                print(json.dumps({'status': 'fail', 'seed': seed, 'clause': nm, 'detail': det, 'ran': ran,
                                  'distinct': len(seen), 'skipped': skipped,
                                  'inputs': {a: jsonable(b) for a, b in ctx.drawn.items()}}))
                return
        print(json.dumps({'status': 'ok', 'ran': ran, 'distinct': len(seen), 'skipped': skipped,
                          'checked': checked, 'sample': sample}))
        return
    with open(sys.argv[4]) as f:
        d = json.load(f)
    st, ctx, nm, det = one(d.get('seed', 1), d.get('given'))
    print(json.dumps({'status': st, 'clause': nm, 'detail': det,
                      'inputs': {a: jsonable(b) for a, b in ctx.drawn.items()}}))


if __name__ == '__main__':
    main()
