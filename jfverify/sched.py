"""Runs jobs in forked children, several at a time; a child that dies or overruns is an error of that job only."""
import os, pickle, select, signal, time, traceback


class Job:
    def __init__(self, name, fn, args=(), weight=1.0, limit=600):
        self.name, self.fn, self.args, self.weight, self.limit = name, fn, args, weight, limit


def run(jobs, on_result, shared=None, nproc=8, deadline=None):
    """fn(shared, *args) -> result in a child; on_result(job, result, error) -> True to stop everything"""
    todo = sorted(jobs, key=lambda j: -j.weight)
    live = {}
    stop = False
    try:
        while (todo or live) and not stop:
            while todo and len(live) < nproc:
                j = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        os.setpgid(0, 0)
                        try:
                            out = (j.fn(shared, *j.args), None)
                        except BaseException as ex:
                            out = (None, repr(ex)[:400] + '\n' + traceback.format_exc()[-1500:])
                        data = pickle.dumps(out)
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                    finally:
                        os._exit(0)
                os.close(w)
                live[r] = [j, pid, b'', time.time()]
            rd, _, _ = select.select(list(live), [], [], 1.0)
            now = time.time()
            for r in list(live):
                j, pid, buf, t0 = live[r]
                done = False
                err = None
                if r in rd:
                    x = os.read(r, 1 << 20)
                    if x:
                        live[r][2] += x
                    else:
                        done = True
                if not done and (now - t0 > j.limit or (deadline and now > deadline)):
                    kill(pid)
                    err = 'out of time'
                    done = True
                if done:
                    del live[r]
                    os.close(r)
                    _, st = os.waitpid(pid, 0)
                    res = None
                    if err is None:
                        try:
                            res, err = pickle.loads(buf)
                        except Exception:
                            err = 'the job died (status %d)' % st
                    if on_result(j, res, err):
                        stop = True
                        break
    finally:
        for r, (j, pid, buf, t0) in live.items():
            kill(pid)
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(r)


def kill(pid):
    for f, p in ((os.killpg, pid), (os.kill, pid)):
        try:
            f(p, signal.SIGKILL)
        except OSError:
            pass
