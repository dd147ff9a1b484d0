"""Parallel verification: tasks are explored in slices; unexplored path prefixes go back to the queue."""
import multiprocessing as mp
import os
import time

_engine = None


def _job(args):
    task, active, prefixes, budget, slice_s = args
    res, left = _engine.run_task(task, active, prefixes, budget, slice_s)
    return task, res, left


class Pool:
    def __init__(self, engine, workers=None):
        global _engine
        _engine = engine
        self.n = workers or max(2, min(8, os.cpu_count() or 2))
        self.ctx = mp.get_context("fork")
        self.pool = self.ctx.Pool(self.n)

    def run(self, tasks, active, budget, slice_s=2.0, deadline=None, known=()):
        """Verify the tasks and the contracts they turn out to use (those not known already) with the given active
        contracts; budget is processor seconds per task."""
        out = {}
        spent = {t: 0.0 for t in tasks}
        acc = {}
        open_ = {t: 0 for t in tasks}
        pending = []

        def submit(t, prefixes, sl):
            open_[t] += 1
            left = max(1.0, budget - spent[t])
            pending.append(self.pool.apply_async(_job, ((t, active, prefixes, left, sl),)))

        for t in tasks:
            submit(t, None, 0.5)
        while pending:
            done = [p for p in pending if p.ready()]
            if not done:
                time.sleep(0.005)
                continue
            for p in done:
                pending.remove(p)
                t, res, left = p.get()
                for q in res.used:
                    u = ("contract", q)
                    if u not in spent and u not in known:
                        spent[u], open_[u] = 0.0, 0
                        submit(u, None, 0.5)
                open_[t] -= 1
                spent[t] += res.wall
                r = acc.get(t)
                acc[t] = res if r is None else r.merge(res)
                r = acc[t]
                if left and not r.error:
                    if spent[t] > budget or deadline and time.time() > deadline:
                        r.error = "unsupported: time budget exhausted"
                    elif any(o.status == "refuted" and not o.inexact for o in r.obligations) and \
                            sum(o.status == "refuted" for o in r.obligations) > 3:
                        pass                        # refuted already: the remaining paths are not needed
                    else:
                        k = max(1, min(len(left), self.n))
                        for i in range(k):
                            submit(t, left[i::k], slice_s)
                if open_[t] == 0:
                    out[t] = r.finish()
        return out

    def close(self):
        self.pool.terminate()
        self.pool.join()


def cycle(results):
    """Contracts on a cycle of calls: proved against each other only, they would say nothing about termination."""
    calls = {t[1]: r.used for t, r in results.items() if t[0] == "contract"}
    reach = {q: set(u) for q, u in calls.items()}
    while True:
        grown = {q: u.union(*[calls.get(x, ()) for x in u]) if u else u for q, u in reach.items()}
        if grown == reach:
            return {q for q, u in reach.items() if q in u}
        reach = grown


def verify(engine, pool, roots, budget=600, deadline=None, log=None, standins=()):
    """Verify the root tasks and every contract they rest on; contracts that are not proved are dropped.

    A contract of `standins` that is undecided (not refuted) is kept: its users are verified against it, and the caller
    checks it by other means.  Returns {task: Result} for the roots and for every contract tried, the set of contracts
    relied on, and the stand-ins among them.
    """
    active = frozenset(engine.contracts)
    results = {}
    todo = list(roots)
    rounds = 0
    while True:
        rounds += 1
        while todo:
            got = pool.run(todo, active, budget, deadline=deadline, known=results)
            for t, r in got.items():
                results[t] = r
                if log:
                    log(r.summary())
            need = set()
            for t, r in results.items():
                need |= {("contract", q) for q in r.used}
            todo = [t for t in need if t not in results]
        open_ = {t[1]: r for t, r in results.items() if t[0] == "contract" and r.status != "proved"}
        kept = {q for q, r in open_.items() if q in standins and r.status == "undecided"}
        bad = (set(open_) - kept) & active
        bad = bad or cycle(results) & active
        if not bad or rounds > 6:
            break
        active = active - bad
        todo = [t for t, r in results.items() if r.used & bad]
        if log and todo:
            log(f"dropping {sorted(bad)}; again: {[t[1] for t in todo]}")
        for t in todo:
            results.pop(t)
        if not todo:
            break
    used = set().union(*[r.used for r in results.values()]) if results else set()
    return results, active, frozenset(kept & used)
