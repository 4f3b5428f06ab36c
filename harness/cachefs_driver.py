"""Runs updates of the rules cache under control of the shim, step by step.

Started with the shim preloaded; reads a list of scenarios (JSON) from a file
and writes the recorded traces.  A scenario:
  initial : is there a cached version already
  n       : number of sources
  updaters: kinds of the updates ("ok", "unsavable")
  schedule: list of [updater, decision]; decision one of
            "g" (go on), "k" (kill), "p" (half of the write, then kill),
            ["e", errno]; afterwards the rest is run in turn
"""
import contextlib
import ctypes
import io
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import threading
import time

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)

CHUNK = 70000
NEVER = 'missing'


def payload(s, v, size):
    pad = ['%d-%d-%d-%s' % (s, v, i, 'y' * 90) for i in range(size)]
    return {'key': {'u': {'p': {'apt': {
        'packages': ['s%d' % s, 'v%d' % v] + pad}}}}}


class Pause(object):
    """Looks like a text once saved, but does something while being saved."""

    def __init__(self, text, do):
        self.text, self.do = text, do

    def __reduce__(self):
        self.do()
        return str, (self.text,)


class Driver(object):

    def __init__(self, scratch):
        self.scratch = scratch
        self.shim = ctypes.CDLL(None)
        self.shim.shim_control.argtypes = [
            ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        from harness import world
        self.world = world

    def make_spec(self, n, size, version, kind, pause=None):
        from xylem.specs.plugins.rules import RulesSpec

        class S(RulesSpec):
            @property
            def name(self):
                return 'mem'

            def load_data(self, arguments):
                s = int(arguments[3:])
                if kind == 'unloadable':
                    raise IOError('cannot load')
                data = payload(s, version, size)
                if kind == 'unsavable':
                    data['key']['u']['p']['apt']['x'] = lambda: 1
                if pause and pause[0] == s:
                    packages = data['key']['u']['p']['apt']['packages']
                    packages[len(packages) // 2] = Pause(
                        packages[len(packages) // 2], pause[1])
                return data
        return S()

    def context(self, version=None, kind='ok', pause=None):
        from xylem.sources import SourcesContext
        cfg = self.world.config(sources_dir=self.sd, cache_dir=self.cd)
        return cfg, SourcesContext(cfg, spec_plugins=[
            self.make_spec(self.n, self.size, version, kind, pause)])

    def db(self, version=None, kind='ok'):
        from xylem.sources import RulesDatabase
        return RulesDatabase(self.context(version, kind)[1])

    def read(self):
        out = []
        for s, src in enumerate(self.reader.sources):
            src.data = None
            try:
                if not src.is_cache_available():
                    out.append(NEVER)
                    continue
                src.load_from_cache()
                v = int(src.data['key']['u']['p']['apt']['packages'][1][1:])
                good = src.data == payload(s, v, self.size)
                out.append('v%d' % v if good else 'mixed')
            except Exception as e:
                out.append('broken: ' + repr(e)[:80])
        return out

    def run_update(self, version, kind, strict):
        from xylem.sources import RulesDatabase
        from xylem.update import update
        cfg, ctx = self.context(version, kind)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), \
                    contextlib.redirect_stdout(io.StringIO()):
                if strict:
                    ctx.ensure_cache_dir()
                    db = RulesDatabase(ctx)
                    db.raise_on_error = True
                    db.update()
                else:
                    # as the update command does it
                    update(config=cfg, sources_context=ctx)
        except Exception:
            return 1
        return 1 if 'src' in err.getvalue() else 0

    def spawn(self, u, kind, strict):
        o_r, o_w = os.pipe()
        i_r, i_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 97
            try:
                os.close(o_r)
                os.close(i_w)
                self.shim.shim_control(self.cd.encode(), o_w, i_r, CHUNK)
                rc = self.run_update(u + 1, kind, strict)
                self.shim.shim_control(b'', -1, -1, 0)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(rc)
        os.close(o_w)
        os.close(i_r)
        return dict(u=u, pid=pid, out=o_r, inp=i_w, buf=b'', status=None,
                    ops=[], blocked=False, disturbed=kind != 'ok')

    def next_op(self, c, patience):
        """Wait for the next announcement; None if ended or not yet."""
        end = time.time() + patience
        while True:
            if b'\n' in c['buf']:
                line, c['buf'] = c['buf'].split(b'\n', 1)
                f = line.decode('utf-8', 'replace').split('\t')
                c['pending'] = f
                c['ops'].append(f)
                return f
            left = end - time.time()
            if left <= 0:
                c['blocked'] = True
                return None
            r, _, _ = select.select([c['out']], [], [], left)
            if not r:
                continue
            data = os.read(c['out'], 65536)
            if not data:
                self.reap(c)
                return None
            c['buf'] += data

    def reap(self, c):
        _, st = os.waitpid(c['pid'], 0)
        os.close(c['out'])
        os.close(c['inp'])
        c['pending'] = None
        if os.WIFSIGNALED(st):
            c['status'] = 'killed'
        else:
            c['status'] = {0: 'ok', 1: 'failed'}.get(
                os.WEXITSTATUS(st), 'lost')

    def scenario(self, sc):
        d = tempfile.mkdtemp(dir=self.scratch)
        try:
            return self._scenario(sc, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _scenario(self, sc, d):
        self.n = sc.get('n', 1)
        self.size = sc.get('size', 2000)
        self.sd, self.cd = os.path.join(d, 's'), os.path.join(d, 'c')
        self.world.write_sources(
            self.sd, [{'mem': 'src%d' % s} for s in range(self.n)])
        if sc['initial'] or not sc.get('nodir'):
            os.makedirs(os.path.join(self.cd, 'sources'))
        if sc['initial']:
            self.run_update(0, 'ok', True)
        self.reader = self.db()
        entries = [s.cache_file_path() for s in self.reader.sources]
        ev = [dict(op='read', val=self.read())]
        cs = []
        for u, kind in enumerate(sc['updaters']):
            ev.append(dict(op='begin', u=u + 1, v='v%d' % (u + 1)))
            cs.append(self.spawn(u, kind, sc.get('strict', True)))
            self.next_op(cs[u], 20)
            self.after(cs[u], ev, entries)
        applied = []
        for u, dec in list(sc['schedule']) + [[None, None]] * 2000:
            if u is None:
                live = [c for c in cs if c['status'] is None]
                if not live:
                    break
                c, dec = live[0], 'g'
            else:
                c = cs[u]
            if c['status'] is not None:
                continue
            if c['blocked']:
                # waits for another one (e.g. for a lock)
                others = [x for x in cs if x['status'] is None and
                          not x['blocked']]
                c['blocked'] = False
                if self.next_op(c, 0.05 if others else 20) is None:
                    self.after(c, ev, entries)
                    if c['status'] is None and others and u is None:
                        self.step(others[0], 'g', ev, entries, applied)
                    continue
                self.after(c, ev, entries)
            self.step(c, dec, ev, entries, applied)
        for c in cs:
            if c['status'] is None:
                os.kill(c['pid'], signal.SIGKILL)
                self.reap(c)
                ev.append(dict(op='end', u=c['u'] + 1, how='lost',
                               disturbed=True))
        # the next undisturbed update
        ev.append(dict(op='begin', u=9, v='v9'))
        how = 'ok' if self.run_update(9, 'ok', True) == 0 else 'failed'
        ev.append(dict(op='step', u=9))
        ev.append(dict(op='end', u=9, how=how, disturbed=False))
        ev.append(dict(op='read', val=self.read()))
        left = [f for _, _, fs in os.walk(self.cd) for f in fs]
        return dict(initial=sc['initial'], n=self.n, events=ev,
                    scenario=sc, applied=applied,
                    programs=[[self.op_rec(o, entries) for o in c['ops']]
                              for c in cs], files_left=len(left))

    def op_rec(self, f, entries):
        def tok(p):
            return 'entry%d' % (entries.index(p) + 1) if p in entries \
                else os.path.relpath(p, self.cd) if p else ''
        return [f[0], tok(f[1]), tok(f[2]) if f[0] == 'rename' else f[2],
                int(f[3]), int(f[4])]

    def step(self, c, dec, ev, entries, applied):
        f = c['pending']
        if dec != 'g':
            c['disturbed'] = True
        applied.append([c['u'], dec, f[0]])
        if isinstance(dec, list):
            os.write(c['inp'], b'e' + bytes([dec[1]]))
        elif dec == 'p' and f[0] != 'write':
            os.write(c['inp'], b'k')
        else:
            os.write(c['inp'], dec.encode())
        c['pending'] = None
        self.next_op(c, 0.3 if len(ev) > 400 else 5)
        self.after(c, ev, entries)

    def after(self, c, ev, entries):
        ev.append(dict(op='step', u=c['u'] + 1))
        if c['status'] is not None and not c.get('ended'):
            c['ended'] = True
            ev.append(dict(op='end', u=c['u'] + 1, how=c['status'],
                           disturbed=c['disturbed']))
        val = self.read()
        ev.append(dict(op='read', val=val))

    def threads(self, sc):
        """Updates in threads of one process: each one starts and ends while
        the one before is in the middle of saving."""
        d = tempfile.mkdtemp(dir=self.scratch)
        try:
            return self._threads(sc, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _threads(self, sc, d):
        from xylem.sources import RulesDatabase
        self.n, self.size = sc['n'], sc['size']
        self.sd, self.cd = os.path.join(d, 's'), os.path.join(d, 'c')
        self.world.write_sources(
            self.sd, [{'mem': 'src%d' % s} for s in range(self.n)])
        os.makedirs(os.path.join(self.cd, 'sources'))
        if sc['initial']:
            self.run_update(0, 'ok', True)
        self.reader = self.db()
        ev = [dict(op='read', val=self.read())]
        kinds = sc['kinds']
        ended = {}

        def update(u):
            try:
                db = RulesDatabase(self.context(
                    u + 1, 'ok', (sc['pause'], lambda: middle(u)))[1])
                db.raise_on_error = True
                db.update()
                ended[u] = 'ok'
            except Exception:
                ended[u] = 'failed'

        def look(u):
            ev.append(dict(op='step', u=u + 1))
            if u in ended:
                ev.append(dict(op='end', u=u + 1, how=ended[u],
                               disturbed=kinds[u] != 'ok'))
            ev.append(dict(op='read', val=self.read()))

        def begin(u):
            ev.append(dict(op='begin', u=u + 1, v='v%d' % (u + 1)))
            th = threading.Thread(target=update, args=(u,))
            th.daemon = True
            th.start()
            return th

        waiting, paused = [], set()

        def middle(u):
            # (in the thread of u, the others wait for it)
            first = u not in paused
            paused.add(u)
            if first:
                look(u)
            if first and u + 1 < len(kinds):
                th = begin(u + 1)
                th.join(3)
                if th.is_alive():
                    # waits for this one (e.g. for a lock)
                    waiting.append((u + 1, th))
                else:
                    look(u + 1)
            if kinds[u] != 'ok':
                raise IOError('cannot save')
        th = begin(0)
        th.join(60)
        look(0)
        for u, th in waiting:
            th.join(60)
            look(u)
        ev.append(dict(op='begin', u=9, v='v9'))
        how = 'ok' if self.run_update(9, 'ok', True) == 0 else 'failed'
        ev.append(dict(op='step', u=9))
        ev.append(dict(op='end', u=9, how=how, disturbed=False))
        ev.append(dict(op='read', val=self.read()))
        return dict(initial=sc['initial'], n=self.n, events=ev, scenario=sc,
                    applied=[], programs=[], files_left=0)

    def storm(self, sc):
        """Uncontrolled concurrent updates, with a reader."""
        d = tempfile.mkdtemp(dir=self.scratch)
        self.n, self.size = 1, sc.get('size', 2000)
        self.sd, self.cd = os.path.join(d, 's'), os.path.join(d, 'c')
        self.world.write_sources(self.sd, [{'mem': 'src0'}])
        os.makedirs(os.path.join(self.cd, 'sources'))
        self.run_update(0, 'ok', True)
        self.reader = self.db()
        pids = []
        for u in range(sc['procs']):
            pid = os.fork()
            if pid == 0:
                rc = 0
                end = time.time() + sc['seconds']
                k = 0
                while time.time() < end:
                    k += 1
                    rc |= self.run_update(u * 10000 + k + 1, 'ok', True)
                os._exit(rc)
            pids.append(pid)
        end = time.time() + sc['seconds']
        vals = {}
        killed = set()
        while time.time() < end:
            v = self.read()[0]
            k = 'complete' if v[0] == 'v' else v
            vals[k] = vals.get(k, 0) + 1
            if sc.get('kill') and len(killed) < sc['kill'] and \
                    time.time() > end - sc['seconds'] / 2:
                p = pids[len(killed)]
                os.kill(p, signal.SIGKILL)
                killed.add(p)
        rcs = []
        for p in pids:
            _, st = os.waitpid(p, 0)
            if p not in killed:
                rcs.append(st)
        last = self.read()[0]
        shutil.rmtree(d, ignore_errors=True)
        return dict(reads=vals, updaters_failed=sum(1 for r in rcs if r),
                    last='complete' if last[0] == 'v' else last)


def main():
    job, out, scratch = sys.argv[1:4]
    with open(job) as f:
        scs = json.load(f)
    drv = Driver(scratch)
    res = []
    for sc in scs:
        res.append(drv.storm(sc) if 'procs' in sc else
                   drv.threads(sc) if 'kinds' in sc else drv.scenario(sc))
    with open(out, 'w') as f:
        f.write(json.dumps(res))


if __name__ == '__main__':
    main()
