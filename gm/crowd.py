"""Running cases of scenarios in several threads at the same time.

The cases share nothing but the library; the threads give way to each other
at random lines of the library's code, so that whatever it keeps outside of
its arguments shows as a violation of some case."""
import sys
import threading
import time

import golem_messages

from gm.core import Ctx, Inconclusive, Violation

ROOT = golem_messages.__path__[0]


def crowd(*fns, threads=4, each=3, spread=10**6):
    """A scenario function that runs `each` cases of fns in each of the
    threads; spread: indexes of the cases are drawn below it."""
    def fn(ctx):
        rng = ctx.rng
        subs = []
        for _ in range(threads):
            mine = []
            for _ in range(each):
                sub = Ctx(ctx.prop, ctx.tier, ctx.seed)
                sub.begin(ctx.scenario, '%s/%d' % (
                    ctx.index, rng.getrandbits(40)))
                sub.index = rng.randrange(spread)
                sub.thorough_crowd = True
                mine.append((rng.choice(fns), sub))
            subs.append(mine)
        trail = []
        failures = []
        pace = [rng.choice([5, 20, 100]) for _ in subs]
        barrier = threading.Barrier(threads)

        def body(n):
            count = [0]

            def line(frame, event, arg):
                if event == 'line':
                    count[0] += 1
                    if not count[0] % pace[n]:
                        trail.append(n)
                        time.sleep(0)
                return line

            def call(frame, event, arg):
                if frame.f_code.co_filename.startswith(ROOT):
                    return line
                return None

            barrier.wait()
            sys.settrace(call)
            try:
                for f, sub in subs[n]:
                    try:
                        f(sub)
                    except Inconclusive:
                        pass
                    except BaseException as e:
                        failures.append((n, e))
                        return
            finally:
                sys.settrace(None)

        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=body, args=(n,), daemon=True)
                  for n in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(interval)
        for n, e in failures:
            if isinstance(e, Violation):
                raise Violation('with other threads at work: ' + e.text,
                                'threads:' + e.mechanism, e.witness)
            raise e
        for mine in subs:
            for _, sub in mine:
                for name, count in sub.events.items():
                    if name.endswith('.oracle'):
                        ctx.events[name] += count
        switches = sum(a != b for a, b in zip(trail, trail[1:]))
        ctx.event('switches', switches)
        ctx.event('crowds')
        ctx.distinct(tuple(trail))
    return fn
