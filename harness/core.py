"""Common machinery of all checks: scratch space, TLC, evidence, verdicts."""
import atexit
import collections
import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = sys.executable


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    """The code under test did not come back in time."""


TLCResult = collections.namedtuple(
    'TLCResult', 'rc out states distinct depth emitted kind coverage')


class Ctx(object):

    def __init__(self, root, pid):
        self.root = root
        self.id = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.spec = os.path.join(root, 'spec')
        self.scratch = tempfile.mkdtemp(prefix='xv_%s_' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.samples = []
        self.coverage = collections.OrderedDict()
        self.assumptions = []
        self.models = []
        self.t0 = time.time()
        self._n = 0
        self.shown = set()

    # -- helpers ----------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name=None):
        self._n += 1
        p = os.path.join(self.scratch, '%03d' % self._n)
        os.makedirs(p)
        return os.path.join(p, name) if name else p

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            s = json.dumps(obj, default=repr, sort_keys=True)
            if len(s) > 3000:
                s = s[:3000] + '...'
                self.samples.append(s)
            else:
                self.samples.append(obj)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def violation(self, what, **detail):
        self.violations.append(dict(what=what, **detail))

    def known(self, ident):
        """Is a genuine defect listed?  If so remember that it showed."""
        for k in known_findings(self.root, self.id):
            if k['id'] == ident:
                self.shown.add(k['what'])
                return True
        return False

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=None,
            heap='3g', simulate=None):
        """Run TLC on spec/<module>.tla; cfg is the text of the config."""
        work = self.tmp()
        for f in os.listdir(self.spec):
            if f.endswith('.tla'):
                os.symlink(os.path.join(self.spec, f), os.path.join(work, f))
        cfg_path = os.path.join(work, module + '.cfg')
        if cfg is None:
            shutil.copy(os.path.join(self.spec, module + '.cfg'), cfg_path)
        else:
            with open(cfg_path, 'w') as f:
                f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-XX:ParallelGCThreads=4', '-XX:TieredStopAtLevel=%d' %
               (4 if self.thorough or workers != 1 else 4),
               '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
               '-Djava.io.tmpdir=' + work,
               '-cp', TLA_CP, 'tlc2.TLC', '-config', cfg_path,
               '-metadir', os.path.join(work, 'meta'), '-deadlock',
               '-workers', str(workers), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(args) + [module + '.tla']
        t = time.time()
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout or 840)
        out = p.stdout.decode('utf-8', 'replace')
        m = re.findall(r'([\d,]+) states generated(?:.*?), ([\d,]+) distinct',
                       out)
        states, distinct = [int(x.replace(',', '')) for x in m[-1]] \
            if m else (0, 0)
        if simulate:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                states = distinct = int(m[-1].replace(',', ''))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        depth = int(m.group(1)) if m else 0
        emitted = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
        if p.returncode == 0:
            kind = 'ok'
        elif p.returncode == 12:
            kind = 'invariant'
        elif p.returncode == 13:
            kind = 'liveness'
        elif p.returncode == 11:
            kind = 'deadlock'
        elif p.returncode == 10:
            kind = 'assumption'
        elif p.returncode == 14:
            kind = 'postcondition'
        elif p.returncode == 75 or 75 < p.returncode < 100:
            kind = 'eval'
        else:
            kind = 'error'
        self.models.append(dict(module=module, states=states,
                                distinct=distinct, depth=depth,
                                checked=checked_names(cfg_path),
                                wall_s=round(time.time() - t, 2)))
        shutil.rmtree(os.path.join(work, 'meta'), ignore_errors=True)
        return TLCResult(p.returncode, out, states, distinct, depth, emitted,
                         kind, None)

    def model_check(self, module, cfg=None, env=None, workers=1, **kw):
        """Exhaustive check of the design; failing is a fault of the model."""
        r = self.tlc(module, cfg, env, workers, **kw)
        if r.rc != 0:
            raise MachineryError('model %s does not check (rc %d):\n%s' % (
                module, r.rc, tail(r.out)))
        self.states += r.distinct
        self.transitions += r.states
        return r

    def judge(self, module, records, cfg=None, env=None, what=None,
              label=None, batch=None, heap='3g'):
        """Let TLC judge recorded (case, observation) pairs one by one.

        The module (see TraceKit.tla) writes the list of <<index, clause>> of
        rejected records to OUT.
        """
        if not records:
            raise MachineryError('no records for ' + module)
        rejected = []
        batch = batch or len(records)
        for start in range(0, len(records), batch):
            part = records[start:start + batch]
            rejected += [(i + start, c) for i, c in self._judge(
                module, part, cfg, env, heap)]
        self.traces += len(records)
        for i, clause in rejected:
            self.violation(clause, module=module, record=records[i],
                           label=label)
        return rejected

    def _judge(self, module, part, cfg, env, heap):
        d = self.tmp()
        trace, out = os.path.join(d, 'trace.json'), os.path.join(d, 'out.json')
        with open(trace, 'w') as f:
            f.write(json.dumps(part, ensure_ascii=False))
        e = dict(env or {})
        e.update(TRACE=trace, OUT=out)
        r = self.tlc(module, cfg or TRACE_CFG, e, 1, heap=heap)
        if r.rc == 0 and os.path.exists(out):
            self.states += r.distinct
            self.transitions += r.states
            with open(out) as f:
                bad = json.load(f)
            return [(i - 1, c) for i, c in bad]
        if r.kind != 'eval' and r.kind != 'error' or 'Parsing or semantic' \
                in r.out or 'Error: TLC threw' not in r.out and \
                'rror: ' not in r.out or 'OutOfMemory' in r.out:
            raise MachineryError('judge %s failed (rc %d):\n%s' % (
                module, r.rc, tail(r.out)))
        # an observation the specification cannot even evaluate: find it
        if len(part) == 1:
            return [(0, 'not an observation the specification knows:\n' +
                     tail(r.out, 15))]
        half = len(part) // 2
        res = []
        for a, b in ((0, half), (half, len(part))):
            if res:
                break
            res += [(i + a, c) for i, c in self._judge(
                module, part[a:b], cfg, env, heap)]
        if not res:
            raise MachineryError('judge %s fails only on the batch:\n%s' % (
                module, tail(r.out)))
        return res

    def validate(self, module, traces, cfg=None, env=None, label=None,
                 heap='3g', batch=None):
        """Trace validation: each trace is a list of events (dicts).

        The module reports how many events of each trace it could match.
        """
        if not traces:
            raise MachineryError('no traces for ' + module)
        rejected = []
        batch = batch or len(traces)
        for start in range(0, len(traces), batch):
            part = traces[start:start + batch]
            rejected += [(i + start, n, c) for i, n, c in self._validate(
                module, part, cfg, env, heap)]
        self.traces += len(traces)
        for i, n, clause in rejected:
            ev = traces[i]['events'] if isinstance(traces[i], dict) \
                else traces[i]
            self.violation(
                clause or 'step %d is not allowed by the specification' %
                (n + 1),
                module=module, step=n + 1, label=label,
                event=ev[n] if n < len(ev) else 'end of trace',
                trace=traces[i])
        return rejected

    def _validate(self, module, part, cfg, env, heap):
        d = self.tmp()
        trace, out = os.path.join(d, 'trace.json'), os.path.join(d, 'out.json')
        with open(trace, 'w') as f:
            f.write(json.dumps(part, ensure_ascii=False))
        e = dict(env or {})
        e.update(TRACE=trace, OUT=out)
        r = self.tlc(module, cfg or VALIDATE_CFG, e, 1, heap=heap)
        if r.rc == 0 and os.path.exists(out):
            self.states += r.distinct
            self.transitions += r.states
            with open(out) as f:
                reached = json.load(f)
            if len(reached) != len(part):
                raise MachineryError('%s judged %d of %d traces' % (
                    module, len(reached), len(part)))
            res = []
            for i, (n, tr) in enumerate(zip(reached, part)):
                ev = tr['events'] if isinstance(tr, dict) else tr
                if n < len(ev) + 1:
                    res.append((i, max(n - 1, 0), None))
            return res
        if 'Parsing or semantic' in r.out or 'OutOfMemory' in r.out or \
                'rror: ' not in r.out:
            raise MachineryError('validation %s failed (rc %d):\n%s' % (
                module, r.rc, tail(r.out)))
        if len(part) == 1:
            return [(0, 0, 'not a trace the specification knows:\n' +
                     tail(r.out, 15))]
        half = len(part) // 2
        res = []
        for a, b in ((0, half), (half, len(part))):
            if res:
                break
            res += [(i + a, n, c) for i, n, c in self._validate(
                module, part[a:b], cfg, env, heap)]
        if not res:
            raise MachineryError('%s fails only on the batch:\n%s' % (
                module, tail(r.out)))
        return res


TRACE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\n'
VALIDATE_CFG = ('INIT TInit\nNEXT TNext\nCONSTRAINT TProgress\n'
                'POSTCONDITION TReport\n')


def checked_names(cfg_path):
    """Names of invariants and properties that a TLC config checks."""
    out, on = [], False
    with open(cfg_path) as f:
        for w in f.read().split():
            if re.match(r'[A-Z_]+$', w) and w in (
                    'INIT', 'NEXT', 'CONSTANT', 'CONSTANTS', 'SPECIFICATION',
                    'INVARIANT', 'INVARIANTS', 'PROPERTY', 'PROPERTIES',
                    'VIEW', 'CONSTRAINT', 'ACTION_CONSTRAINT', 'SYMMETRY',
                    'POSTCONDITION', 'CHECK_DEADLOCK'):
                on = w[:4] in ('INVA', 'PROP')
            elif on and w not in ('Emit', 'TReport', 'TProgress'):
                out.append(w)
    return out


def tail(text, n=40):
    return '\n'.join(text.splitlines()[-n:])


# -- values ---------------------------------------------------------------

def enc(v):
    """Encode a Python value as tagged tuple the specification understands."""
    if v is None:
        return ['n']
    if v is True or v is False:
        return ['b', v]
    if isinstance(v, int):
        return ['i', str(v)]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (list, tuple)):
        return ['l', [enc(x) for x in v]]
    if isinstance(v, dict):
        return ['d', {enc_key(k): enc(x) for k, x in v.items()}]
    return ['o', type(v).__name__ + ':' + repr(v)]


def enc_key(k):
    """Text keys are themselves, others a marked token."""
    return k if isinstance(k, str) else '⟦' + json.dumps(enc(k))


def dec(e):
    """Decode a value encoded by the specification."""
    t = e[0]
    if t == 'n':
        return None
    if t in ('b', 's'):
        return e[1]
    if t == 'i':
        return int(e[1])
    if t == 'f':
        return float(e[1])
    if t == 'l':
        return [dec(x) for x in e[1]]
    if t == 'd':
        return {(dec(json.loads(k[1:])) if k.startswith('⟦') else k):
                dec(x) for k, x in (e[1].items() if e[1] else ())}
    raise ValueError(e)


def token(v):
    """Canonical opaque token for a value (for comparisons by equality)."""
    return json.dumps(enc(v), sort_keys=True)


def exc_obs(e):
    """Observation of an exception: its type, base types and message."""
    return dict(types=[c.__name__ for c in type(e).__mro__
                       if c.__name__ not in ('object',)],
                msg=safe_str(e))


def safe_str(e):
    try:
        return str(e)
    except Exception as x:  # a broken __str__ is an observation as well
        return '<str failed: %s>' % type(x).__name__


class time_limit(object):
    """Raise CaseTimeout if the body takes longer than this."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(*_):
            raise CaseTimeout()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def attempt(fn, *args, **kw):
    """Call fn; returns ('ok', result), ('exc', exception) or ('hang', None)."""
    limit = kw.pop('_limit', 20)
    try:
        with time_limit(limit):
            return 'ok', fn(*args, **kw)
    except CaseTimeout:
        return 'hang', None
    except (Exception, SystemExit) as e:
        return 'exc', e


# -- environment of the code under test -------------------------------------

def setup_repo(ctx):
    """Make the code in /repo importable, without leaving files there."""
    cache = os.path.join(ctx.scratch, 'pycache')
    sys.pycache_prefix = cache
    os.environ['PYTHONPYCACHEPREFIX'] = cache
    os.environ['PYTHONWARNINGS'] = 'ignore'
    home = os.path.join(ctx.scratch, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    for k in list(os.environ):
        if k.startswith('XYLEM') or k.startswith('XDG_') or \
                k.lower().endswith('_proxy') or k == 'PYTHONPATH':
            del os.environ[k]
    os.environ['LANG'] = 'C.UTF-8'
    import warnings
    warnings.simplefilter('ignore')
    path = [REPO]
    if not os.path.exists(os.path.join(
            REPO, 'xylem.egg-info', 'entry_points.txt')):
        egg = os.path.join(ctx.scratch, 'egg')
        src = os.path.join(ctx.scratch, 'src')
        os.makedirs(egg)
        shutil.copytree(REPO, src, symlinks=True, ignore=shutil.ignore_patterns(
            '.git', '__pycache__', '*.egg-info'))
        r = subprocess.run([PY, 'setup.py', '-q', 'egg_info', '--egg-base',
                            egg], cwd=src, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise MachineryError('egg_info failed:\n' + tail(
                r.stdout.decode('utf-8', 'replace')))
        path.append(egg)
    os.environ['PYTHONPATH'] = os.pathsep.join(path)
    for p in reversed(path):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import xylem
    if not os.path.abspath(xylem.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        raise MachineryError('xylem imported from ' + xylem.__file__)


def in_repo(tb):
    """Was an exception raised in (or below) code of the repository?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(
                os.path.abspath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def misshaped(e):
    """Does an exception say that something the code under test answered
    cannot be looked at as what it should be?  (On the repository as it is,
    the harness looks at every answer without one.)"""
    if not isinstance(e, (TypeError, KeyError, IndexError, ValueError,
                          AttributeError)):
        return False
    if isinstance(e, AttributeError) and isinstance(
            getattr(e, 'obj', None), (types.ModuleType, type)):
        return False        # something is not where the harness expects it
    here = os.path.dirname(os.path.abspath(__file__))
    last = ''
    tb = e.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(here + os.sep):
            last = f
        tb = tb.tb_next
    return last.startswith(os.path.join(here, 'props') + os.sep)


def known_findings(root, pid):
    path = os.path.join(root, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == pid]


def write_evidence(ctx, level):
    cov = collections.OrderedDict()
    cov['states'] = ctx.states
    cov['transitions'] = ctx.transitions
    cov['traces_validated_against_impl'] = ctx.traces
    cov['models'] = ctx.models
    cov.update(ctx.coverage)
    cov['samples'] = ctx.samples
    d = os.path.join(ctx.root, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.id + '.json'), 'w') as f:
        json.dump(dict(
            property=ctx.id, tier=ctx.tier, seed=ctx.seed, level=level,
            coverage=cov, assumptions=ctx.assumptions,
            wall_s=round(ctx.elapsed(), 2),
            violations=len(ctx.violations)), f, indent=1, default=repr)


def write_replay(ctx):
    d = os.path.join(ctx.root, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (ctx.id, ctx.tier, ctx.seed))
    with open(path, 'w') as f:
        json.dump(dict(property=ctx.id, seed=ctx.seed, tier=ctx.tier,
                       violations=ctx.violations[:20],
                       total=len(ctx.violations)), f, indent=1, default=repr)
    return path


def main(root, pid, argv):
    from harness import registry
    if pid not in registry.CHECKS:
        sys.exit('unknown property ' + pid)
    modname, func = registry.CHECKS[pid]
    ctx = Ctx(root, pid)
    real_out = os.fdopen(os.dup(1), 'w')
    atexit.register(shutil.rmtree, ctx.scratch, True)

    def die(*_):
        shutil.rmtree(ctx.scratch, True)
        os._exit(3)
    signal.signal(signal.SIGTERM, die)
    os.chdir(ctx.scratch)
    try:
        try:
            setup_repo(ctx)
            mod = importlib.import_module('harness.props.' + modname)
            getattr(mod, func)(ctx)
        except MachineryError:
            raise
        except (Exception, SystemExit, CaseTimeout) as e:
            if in_repo(e.__traceback__):
                what = 'the code under test failed where it must not: '
            elif misshaped(e):
                what = 'an answer of the code under test is misshaped: '
            else:
                raise
            ctx.violation(what + safe_str(e),
                          traceback=traceback.format_exc())
        known = known_findings(root, pid)
        new = []
        seen = ctx.shown
        for v in ctx.violations:
            text = json.dumps(v, default=repr, sort_keys=True)
            for k in known:
                if k.get('match') and k['match'] in text:
                    seen.add(k['what'])
                    break
            else:
                new.append(v)
        for k in sorted(seen):
            print('KNOWN-FINDING: property=%s %s' % (pid, k), file=real_out)
        ctx.violations = new
        write_evidence(ctx, registry.level(pid))
        if ctx.violations:
            path = write_replay(ctx)
            v = ctx.violations[0]
            # (whatever the code under test left unfinished on the line)
            for f in (sys.stdout, sys.stderr):
                try:
                    f.flush()
                except (AttributeError, ValueError, OSError):
                    pass
            print('\nVIOLATION property=%s replay=%s' % (pid, path),
                  file=real_out)
            print('  %d violation(s); first: %s' % (
                len(ctx.violations), str(v['what'])[:600]), file=real_out)
            rc = 1
        else:
            print('%s: held (%s, seed %d): %d states, %d transitions, %d '
                  'implementation traces, %.1f s' % (
                      pid, ctx.tier, ctx.seed, ctx.states, ctx.transitions,
                      ctx.traces, ctx.elapsed()), file=real_out)
            rc = 0
    except (Exception, SystemExit, CaseTimeout, KeyboardInterrupt):
        traceback.print_exc()
        rc = 2
    real_out.flush()
    sys.stdout.flush()
    sys.stderr.flush()
    os.chdir('/')
    shutil.rmtree(ctx.scratch, True)
    os._exit(rc)
