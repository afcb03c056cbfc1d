"""Process-per-job pool with a global time limit."""
import multiprocessing as mp
import time

from . import harness as H


def _child(conn, job):
    try:
        r = H.job(job)
    except BaseException as e:          # noqa: B902
        r = dict(harness=job[1], cfg=job[2], mode='error', violations=[],
                 inconclusive=[], stats={}, validated=0, mismatches=0,
                 samples=[], labels=[], error=repr(e))
    conn.send(r)
    conn.close()


def run(jobs, n, limit):
    ctx = mp.get_context('fork')
    t0 = time.time()
    pending = list(jobs)
    live = []
    out = []
    while pending or live:
        while pending and len(live) < n:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j), daemon=True)
            p.start()
            b.close()
            live.append((p, a, j, time.time()))
        nl = []
        for p, a, j, t in live:
            if a.poll(0):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(_err(j, 'worker died'))
                p.join()
            elif time.time() - t > 1.6 * j[3].get('budget', 600) + 30:
                p.kill()
                p.join()
                out.append(_err(j, 'time limit of one configuration'))
            elif not p.is_alive():
                if a.poll(0.2):
                    out.append(a.recv())
                else:
                    out.append(_err(j, 'worker died (%s)' % p.exitcode))
            else:
                nl.append((p, a, j, t))
        live = nl
        if time.time() - t0 > limit:
            for p, a, j, t in live:
                p.kill()
                out.append(_err(j, 'time limit'))
            for j in pending:
                out.append(_err(j, 'time limit (not started)'))
            break
        time.sleep(0.02)
    return out


def _err(j, msg):
    return dict(harness=j[1], cfg=j[2], mode='error', violations=[],
                inconclusive=[], stats={}, validated=0, mismatches=0,
                samples=[], labels=[], error=msg)
