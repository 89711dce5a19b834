"""Run independent analysis tasks in forked processes."""
import gc, os, time
import multiprocessing as mp

_ctx = mp.get_context('fork')


def _go(fn, a, q):
    try:
        r = ('ok', fn(*a))
    except Exception as e:      # Unsup and internal errors alike: no verdict
        r = ('no', '%s: %s' % (type(e).__name__, e))
    try:
        q.send(r)
    except Exception as e:
        q.send(('no', 'result: %s' % e))
    q.close()
    os._exit(0)


def run(tasks, workers=None, timeout=300, total=780):
    """tasks: [(key, fn, args)] -> {key: ('ok', result) | ('no', reason)}"""
    import sys
    sys.setrecursionlimit(100000)
    gc.collect()
    gc.freeze()
    workers = workers or min(8, os.cpu_count() or 4)
    todo, live, out = list(tasks), [], {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < workers:
            k, fn, a = todo.pop(0)
            r, w = _ctx.Pipe(False)
            pr = _ctx.Process(target=_go, args=(fn, a, w), daemon=True)
            pr.start()
            w.close()
            live.append((k, pr, r, time.time()))
        mp.connection.wait([x[2] for x in live], 1.0)
        now = time.time()
        nxt = []
        for k, pr, r, t in live:
            if r.poll():
                try:
                    out[k] = r.recv()
                    if os.environ.get('DY_TIME'):
                        print('%.1fs %s' % (now - t, k))
                except EOFError:
                    out[k] = ('no', 'process ended')
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
            elif now - t > timeout or now - t0 > total:
                pr.kill()
                pr.join()
                out[k] = ('no', 'time limit')
            else:
                nxt.append((k, pr, r, t))
        live = nxt
        if now - t0 > total:
            for k, fn, a in todo:
                out[k] = ('no', 'time limit')
            todo = []
    gc.unfreeze()
    return out
