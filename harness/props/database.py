"""C07, C09 and the update half of C11: sources, cache entries and updates
(spec/Database.tla)."""
import contextlib
import copy
import datetime
import io
import os
import pickle
import shutil

from harness import world
from harness.core import attempt, token

BASE = datetime.datetime.now()


def now():
    return micros(datetime.datetime.now())


def micros(t):
    return int((t - BASE) / datetime.timedelta(microseconds=1))


class Unpicklable(object):
    def __reduce__(self):
        raise RuntimeError('cannot be pickled')


class Gone(object):
    """Pickles to a reference that does not exist when loading."""
    def __reduce__(self):
        return (eval, ('1/0',))


IDS = ['alpha', 'béta/ü', '../gamma', 'δ-' + 'x' * 300, 'Alpha ', 'beta:ü',
       'http://h/e.yaml?x=1&y=2', 'αlpha\nbeta', 'naïve',
       # ones that are nearly the same
       'Alpha', 'ALPHA', 'gamma', './gamma', 'δ-' + 'x' * 299 + 'y',
       'http://h/e.yaml?y=2&x=1', 'http://h/e.yaml', 'nai\u0308ve',
       'b\u00e9ta/u\u0308', 'αlpha beta']


def similar_ids(rng, n):
    """Different identities that differ in one place only (not short ones,
    which any message contains)."""
    base = [rng.choice('abc/.-_é %') for _ in range(
        rng.choice([20, 30, 41, 70, 128, 260]))]
    ids = [''.join(base)]
    while len(ids) < n:
        other = list(base)
        k = rng.randrange(len(base))
        other[k:k + rng.randint(0, 1)] = rng.choice('abcABC/.-_é %12')
        ids.append(''.join(other))
        if len(set(ids)) < len(ids):
            ids.pop()
    rng.shuffle(ids)
    return ids


def good_data(rng, n, big=0):
    if rng.random() < .1:
        return {}       # a source without any rules is a source, too
    d = {'key%d' % n: {'ubuntu': {'trusty': {
        'apt': {'packages': ['p%d-%d' % (n, rng.randrange(1000))]}}}}}
    for _ in range(rng.randrange(3)):
        d['k' + rng.choice('abc')] = {
            'any_os': {'any_version': {'pip': {
                'packages': [], 'depends': ['x'],
                'note': rng.choice([None, 1, 'é€', True, 2.5, ['l']])}}}}
    return d


INVALID = [{'k': {'u': {'p': {'a b': {'packages': []}}}}}, None, [1], 'text',
           {'k': {'u': {'p': {'apt': {'packages': 'p'}}}}},
           {'k e y': {}}, {'any_os': {}}, 5,
           {'k': {'any_os': {'any_version': {'default_installer': {}}}}}]

FAILURES = [lambda: IOError('cannot read'), lambda: KeyError('x'),
            lambda: RuntimeError('boom'), lambda: ValueError('é'),
            lambda: UnicodeDecodeError('utf8', b'\xff', 0, 1, 'bad')]


class DbWorld(object):
    """Two database objects over the same cache, with controllable sources."""

    def __init__(self, ctx, rng, n, kind='mem', cache_exists=True, ids=None):
        self.ctx, self.rng, self.n, self.kind = ctx, rng, n, kind
        self.dir = ctx.tmp()
        ids = list(ids or (similar_ids(rng, n) if rng.random() < .4
                           else rng.sample(IDS, n)))
        self.unsavable, self.outdated = [], []
        self.serial = 0
        self.loads = []
        self.told = []
        self.behaviour = {}
        self.files = {}
        self.args = []
        for d in range(2):
            row = []
            for s in range(n):
                if kind == 'rules':
                    path = os.path.join(self.dir, 'r%d.yaml' % s)
                    a = 'file://' + path
                    self.files[a] = path
                else:
                    a = {'id': ids[s], 'extra': d}
                row.append(a)
            self.args.append(row)
        if kind != 'rules' and rng.random() < .2:
            # (arguments may be nothing much)
            self.args[rng.randrange(2)][rng.randrange(n)] = rng.choice(
                [0, '', [], {}, False, None])
        self.uid = {}
        for s in range(n):
            for d in range(2):
                self.uid[token(self.args[d][s])] = s
        self.ids = list(self.args[0]) if kind == 'rules' else ids
        self.cache_root = os.path.join(self.dir, 'cache')
        self.contexts = []
        self.origins = []
        # the sources may be of several kinds
        names = rng.sample(['mem', 'zeta', 'aardvark', 'Mem', 'git'],
                           rng.choice([1, 2, 3]))
        self.kinds = ['rules' if kind == 'rules' else rng.choice(names)
                      for _ in range(n)]
        specs = {k: self.make_spec(k) for k in set(self.kinds)}
        self.specs = [specs[k] for k in self.kinds]
        for d in range(2):
            sd = os.path.join(self.dir, 'sources%d' % d)
            os.makedirs(sd)
            # spread the sources over two files
            cut = rng.randrange(n + 1)
            self.origins.append([])
            for name, part in (('10.yaml', range(cut)),
                               ('20.yaml', range(cut, n))):
                if len(part):
                    world.write_sources(
                        sd, [{self.kinds[s]: self.args[d][s]} for s in part],
                        name)
                self.origins[d] += [os.path.join(sd, name)] * len(part)
            self.contexts.append(self.sources_context(
                sd, list(specs.values())))
        if cache_exists:
            os.makedirs(os.path.join(self.cache_root, 'sources'))
        self.dbs = [self.new_db(d) for d in range(2)]
        self.template = [copy.copy(x) for x in self.dbs[1].sources]
        self.state = {s: dict(k='none') for s in range(n)}
        for s in range(n):
            self.apply_env(s, dict(k='fail', data='?'))
        self.events = []
        self.init = dict(
            mem=self.mem(),
            cache=[dict(k='none') for _ in range(n)],
            env=[dict(k='fail', data='?') for _ in range(n)])

    def sources_context(self, sd, specs):
        from xylem.sources import SourcesContext
        return SourcesContext(world.config(
            sources_dir=sd, cache_dir=self.cache_root), spec_plugins=specs)

    def new_db(self, d):
        from xylem.sources import RulesDatabase
        return RulesDatabase(self.contexts[d])

    def make_spec(self, name, check=True):
        from xylem.specs.plugins.rules import RulesSpec
        w = self

        class WorldSpec(RulesSpec):
            @property
            def name(self):
                return name

            def unique_id(self, arguments):
                if w.kind != 'rules' and arguments:
                    return arguments['id']
                return arguments if w.kind == 'rules' else \
                    w.ids[w.uid[token(arguments)]]

            def verify_arguments(self, arguments):
                if w.kind == 'rules':
                    super(WorldSpec, self).verify_arguments(arguments)

            def load_data(self, arguments):
                s = w.uid[token(arguments)]
                w.loads.append(s + 1)
                if w.kind == 'rules':
                    return super(WorldSpec, self).load_data(arguments)
                return w.behaviour[s]()

            def verify_data(self, data, arguments):
                if check:
                    super(WorldSpec, self).verify_data(data, arguments)

            def is_data_outdated(self, data, arguments, data_load_time):
                w.told.append((token(data), token(arguments),
                               micros(data_load_time)))
                return token(data) in w.outdated
        return WorldSpec()

    # -- observing ---------------------------------------------------------
    def rec(self, src):
        return dict(
            data='none' if src.data is None else token(src.data),
            args=token(src.arguments), origin=str(src.origin),
            time=-1 if src.time_data_loaded is None
            else micros(src.time_data_loaded))

    def mem(self):
        return [[self.rec(s) for s in db.sources] for db in self.dbs]

    def probe(self):
        out = []
        for src in self.template:
            src = copy.copy(src)
            kind, avail = attempt(src.is_cache_available)
            if kind != 'ok':
                avail = 'failed'
            before = self.rec(src)
            kind, _ = attempt(src.load_from_cache)
            r = dict(available=avail)
            if kind == 'ok':
                r.update(self.rec(src), ok=True)
            else:
                r['ok'] = False
                if self.rec(src) != before:
                    r['ok'] = 'rejected, but memory changed'
            out.append(r)
        return out

    def tree(self):
        out = {}
        for root, dirs, files in os.walk(self.cache_root):
            for f in dirs:
                out[os.path.join(root, f)] = 'dir'
            for f in files:
                p = os.path.join(root, f)
                with open(p, 'rb') as fh:
                    out[p] = (fh.read(), os.stat(p).st_mtime_ns,
                              os.stat(p).st_ino)
        return out

    def path(self, s):
        return self.dbs[0].sources[s].cache_file_path()

    # -- environment ---------------------------------------------------------
    def fresh(self, s):
        self.serial += 1
        return good_data(self.rng, self.serial)

    def env(self, s, k):
        """Let source s behave as k from now on."""
        rng = self.rng
        if self.kind == 'rules' and k == 'unsavable':
            k = 'ok'
        if k == 'ok':
            data = self.fresh(s)
            to = dict(k='ok', data=token(data))
            if rng.random() < 0.5:
                self.outdated.append(to['data'])
        elif k == 'unsavable':
            data = self.fresh(s)
            data['big'] = {'u': {'p': {'apt': {
                'packages': ['x' * 1000] * rng.choice([1, 200]),
                'bad': rng.choice([lambda: 1, Unpicklable()])}}}}
            to = dict(k='unsavable', data=token(data))
            self.unsavable.append(to['data'])
        elif k == 'invalid':
            data = copy.deepcopy(rng.choice(INVALID))
            to = dict(k='invalid', data='?')
        else:
            data = rng.choice(FAILURES)
            to = dict(k='fail', data='?')
        self.apply_env(s, to, data)
        self.events.append(dict(op='env', s=s + 1, to=to))

    def apply_env(self, s, to, data=None):
        if self.kind == 'rules':
            import yaml
            path = self.files[self.args[0][s]]
            if to['k'] == 'fail':
                c = self.rng.randrange(4)
                if c == 0 and os.path.exists(path):
                    os.remove(path)
                elif c == 1:
                    with open(path, 'w') as f:
                        f.write('a: [1\n}')
                elif c == 2:
                    with open(path, 'wb') as f:
                        f.write(b'a: \xff\xfe')
                else:
                    if os.path.exists(path):
                        os.remove(path)
            else:
                if to['k'] == 'invalid':
                    data = self.rng.choice(
                        [[1], 'text', 5, {'k e y': {}}, {'k': {'u': 5}},
                         {'k': {'u': {'p': {'a b': ['x']}}}}, {'any_os': {}}])
                with open(path, 'w') as f:
                    yaml.safe_dump(data, f, allow_unicode=True)
        elif to['k'] == 'fail':
            def fail():
                raise (data or FAILURES[0])()
            self.behaviour[s] = fail
        else:
            self.behaviour[s] = lambda: copy.deepcopy(data) \
                if to['k'] != 'unsavable' else data

    def write_entry(self, s, data, spec):
        """Have an entry written by the code itself, for another spec."""
        d = self.rng.randrange(2)
        src = copy.copy(self.dbs[d].sources[s])
        src.spec = spec
        src.arguments = self.args[d][s]
        src.origin = 'written-outside-%d' % self.serial
        src.data = data
        src.time_data_loaded = datetime.datetime.now()
        src.save_to_cache()
        return self.rec(src)

    def set_cache(self, s, k):
        """Bring the cache entry of s into condition k, from outside."""
        rng = self.rng
        os.makedirs(os.path.join(self.cache_root, 'sources'), exist_ok=True)
        path = self.path(s)
        if os.path.isdir(path):
            os.rmdir(path)
        elif k in ('none', 'dir') and os.path.exists(path):
            os.remove(path)
        to = dict(k=k)
        if k == 'ok':
            to.update(self.write_entry(s, self.fresh(s), self.specs[s]))
            if rng.random() < 0.5:
                self.outdated.append(to['data'])
        elif k == 'invalid':
            data = copy.deepcopy(rng.choice(INVALID))
            self.write_entry(s, data, self.make_spec(self.kinds[s], False))
        elif k == 'other':
            self.write_entry(s, self.fresh(s), self.make_spec(rng.choice(
                [k for k in ['otherkind', 'mem', 'zeta', 'rules']
                 if k != self.kinds[s]])))
        elif k == 'dir':
            os.mkdir(path)
        elif k == 'junk':
            self.write_entry(s, self.fresh(s), self.specs[s])
            with open(path, 'rb') as f:
                raw = f.read()
            with open(path, 'wb') as f:
                f.write(self.damaged(raw))
        self.event(dict(op='cache', s=s + 1, to=to))

    def damaged(self, raw):
        rng = self.rng
        c = rng.randrange(9)
        if c == 0:
            return b''
        if c == 1:
            return raw[:rng.randrange(len(raw))]
        if c == 2:
            return b'\xff' + bytes(rng.randrange(256) for _ in range(50))
        if c == 3:
            return b'\x80\x02' + b'garbage'
        if c == 4:
            return pickle.dumps(rng.choice([None, [], 'x', {}, 5, [1, 2]]),
                                protocol=2)
        try:
            d = pickle.loads(raw)
            keys = list(d.keys())
        except Exception:
            return raw[:len(raw) // 2]
        if c == 5:
            return pickle.dumps(Gone(), protocol=2)
        if c == 6:
            return b'\x80\x02cno_such_module_zz\nThing\n.'
        del d[rng.choice(keys)]
        if c == 7 and d:
            d = list(d.items())
        return pickle.dumps(d, protocol=2)

    # -- operations -----------------------------------------------------------
    def event(self, ev):
        ev['mem'] = self.mem()
        ev['probe'] = self.probe()
        self.events.append(ev)

    def run(self, op, fn, **ev):
        self.loads = []
        err = io.StringIO()
        ev.update(op=op, t0=now())
        with world.quiet(), contextlib.redirect_stderr(err):
            kind, val = attempt(fn)
        ev['t1'] = now()
        ev['raised'] = kind != 'ok'
        if kind != 'ok':
            ev['error'] = repr(val)[:200]
        ev['loads'] = list(self.loads)
        text = err.getvalue()
        found = []
        for s in sorted(range(self.n), key=lambda s: -len(self.ids[s])):
            if self.ids[s] in text:
                # an id may be part of a longer one
                found.append(s + 1)
                text = text.replace(self.ids[s], '\0')
        ev['reported'] = sorted(found)
        return ev, val

    def do(self, op, **kw):
        if op == 'api_update':
            from xylem.update import update
            d = kw['d']
            ev, _ = self.run(op, lambda: update(
                sources_context=self.contexts[d]), d=d + 1)
        elif op == 'dry_update':
            from xylem.update import update
            d = kw['d']
            before = self.tree()
            ev, _ = self.run(op, lambda: update(
                dry_run=True, sources_context=self.contexts[d]), d=d + 1)
            ev['files_unchanged'] = self.tree() == before
        elif op.startswith('db_'):
            db = self.dbs[kw['d']]
            db.raise_on_error = kw['strict']
            fn = {'db_load': db.load_from_source, 'db_update': db.update,
                  'db_loadcache': db.load_from_cache,
                  'db_save': db.save_to_cache}[op]
            ev, _ = self.run(op, fn, d=kw['d'] + 1, strict=kw['strict'])
        elif op == 'ask_outdated':
            src = self.dbs[kw['d']].sources[kw['s']]
            self.told = []
            ev, val = self.run(op, src.is_cache_outdated, d=kw['d'] + 1,
                               s=kw['s'] + 1)
            ev['answer'] = bool(val) if not ev['raised'] else 'failed'
        else:
            src = self.dbs[kw['d']].sources[kw['s']]
            fn = {'source_load': src.load_from_source,
                  'source_loadcache': src.load_from_cache,
                  'source_save': src.save_to_cache,
                  'source_clear': src.clear_cache}[op]
            ev, _ = self.run(op, fn, d=kw['d'] + 1, s=kw['s'] + 1)
        self.event(ev)

    def identities(self):
        """A database of sources whose identities may repeat (for sources
        of one kind or of different kinds), or only nearly."""
        from xylem.sources import RulesDatabase
        rng = self.rng
        n = rng.choice([2, 2, 3, 5])
        ids = similar_ids(rng, n) if rng.random() < 0.4 else [
            i for i in rng.sample(IDS, n)]
        if rng.random() < 0.5:
            ids[rng.randrange(n)] = rng.choice(ids)
        names = rng.sample(['mem', 'zeta', 'alpha', 'git'],
                           rng.choice([1, 2, 3]))
        args = []
        for i, u in enumerate(ids):
            # (the arguments may differ)
            args.append({rng.choice(names): {'id': u, 'extra': i}})
        sd = os.path.join(self.dir, 'sources-ids-%d' % len(self.events))
        os.makedirs(sd)
        cut = rng.randrange(n + 1)
        world.write_sources(sd, args[:cut], '1.yaml')
        world.write_sources(sd, args[cut:], '2.yaml')
        plain, self.kind = self.kind, 'mem'

        def go():
            db = RulesDatabase(self.sources_context(
                sd, [self.make_spec(k) for k in names]))
            return [str(x.cache_file_path()) for x in db.sources]
        with world.quiet():
            kind, paths = attempt(go)
        self.kind = plain
        self.events.append(dict(
            op='identities', ids=[token(u) for u in ids], ok=kind == 'ok',
            paths=paths if kind == 'ok' else [],
            error=repr(paths)[:200] if kind != 'ok' else ''))

    def loaded(self, d, s=None):
        rows = self.dbs[d].sources if s is None else [self.dbs[d].sources[s]]
        return all(x.data is not None for x in rows)

    def trace(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        return dict(init=self.init, events=self.events,
                    unsavable=self.unsavable, outdated=self.outdated)


KINDS = ['none', 'ok', 'ok', 'junk', 'other', 'invalid', 'dir']
ENVS = ['ok', 'ok', 'ok', 'fail', 'invalid', 'unsavable']


def random_history(ctx, rng, ops, n=None, steps=12, kind=None):
    n = n or rng.choice([1, 2, 2, 3, 4])
    # (sometimes nothing was ever cached)
    first = rng.random() < 0.25
    w = DbWorld(ctx, rng, n, kind or rng.choice(['mem', 'mem', 'rules']),
                cache_exists=not first)
    for s in range(n):
        if rng.random() < 0.8:
            w.env(s, rng.choice(ENVS))
        if rng.random() < 0.5 and not first:
            w.set_cache(s, rng.choice(KINDS))
    for _ in range(steps):
        op = rng.choice(ops)
        s, d = rng.randrange(n), rng.randrange(2)
        if op == 'env':
            w.env(s, rng.choice(ENVS))
        elif op == 'identities':
            w.identities()
        elif op == 'cache':
            w.set_cache(s, rng.choice(KINDS))
        elif op == 'source_save' and not w.loaded(d, s) or \
                op == 'db_save' and not w.loaded(d):
            continue
        elif op == 'source_clear' and os.path.isdir(w.path(s)):
            continue
        else:
            if op not in ('dry_update', 'api_update'):
                # (only updates by the API create the directory)
                os.makedirs(os.path.join(w.cache_root, 'sources'),
                            exist_ok=True)
            w.do(op, d=d, s=s, strict=rng.random() < 0.4)
    return w.trace()


MC_CFG = '''INIT Init
NEXT Next
CONSTANTS N=%d Depth=%d DoEmit=%s
  Kinds = {%s}
  EnvKinds = {%s}
PROPERTIES Tolerant Strict CacheReads ClearOne
INVARIANTS OnlyVerified Emit
'''


def q(names):
    return ', '.join('"%s"' % x for x in names)


def replay(ctx, hist):
    """Perform a behaviour of the specification with the real code."""
    init = hist[0]
    n = len(init['cache'])
    w = DbWorld(ctx, ctx.rng, n, 'mem', ids=IDS[:n])
    for s in range(n):
        if init['cache'][s] != 'none':
            w.set_cache(s, init['cache'][s])
    for step in hist[1:]:
        for s in range(n):
            w.env(s, init['env'][s])
        if step['op'] == 'clear':
            s = step['arg'] - 1
            if os.path.isdir(w.path(s)):
                continue
            w.do('source_clear', d=0, s=s)
        else:
            w.do('db_' + step['op'], d=0, strict=step['arg'])
    return w.trace()


def enumerated(ctx, n, depth, kinds, envs, keep, share=1.0):
    r = ctx.model_check('DatabaseMC', MC_CFG % (
        n, depth, 'TRUE', q(kinds), q(envs)), workers=4)
    hists = [h for h in r.emitted if keep(h)]
    if share < 1:
        hists = ctx.rng.sample(hists, int(len(hists) * share))
    ctx.count('behaviours_enumerated', len(r.emitted))
    ctx.count('behaviours_replayed', len(hists))
    traces = [replay(ctx, h) for h in hists]
    ctx.validate('DatabaseTrace', traces, batch=1500)
    ctx.sample(hists[0])


def c07(ctx):
    allk = ['none', 'ok', 'junk', 'other', 'invalid', 'dir']
    envs = ['ok', 'fail', 'invalid', 'unsavable']
    enumerated(ctx, 2, 1, allk, envs,
               lambda h: h[-1]['op'] == 'update', ctx.pick(0.5, 1))
    if ctx.thorough:
        enumerated(ctx, 3, 1, ['none', 'ok', 'dir'], envs,
                   lambda h: h[-1]['op'] == 'update')
        enumerated(ctx, 2, 2, ['none', 'ok', 'junk'], envs,
                   lambda h: h[-1]['op'] == 'update', 0.6)
    ops = ['env', 'env', 'cache', 'db_update', 'db_update', 'db_update',
           'api_update', 'api_update', 'db_load', 'db_save', 'source_load',
           'source_save']
    traces = [random_history(ctx, ctx.rng, ops)
              for _ in range(ctx.pick(150, 2500))]
    ctx.count('random_histories', len(traces))
    for tr in traces:
        for e in tr['events']:
            if e['op'] in ('db_update', 'api_update'):
                ctx.count('updates')
                ctx.count('updates_with_failures', bool(e['reported'] or
                                                        e['raised']))
    ctx.sample(traces[0]['events'][-1])
    ctx.validate('DatabaseTrace', traces, batch=1500)


def c09(ctx):
    allk = ['none', 'ok', 'junk', 'other', 'invalid', 'dir']
    enumerated(ctx, 2, 1, allk, ['ok', 'fail'],
               lambda h: h[-1]['op'] != 'update')
    if ctx.thorough:
        enumerated(ctx, 3, 1, allk, ['ok'], lambda h: h[-1]['op'] != 'update')
        enumerated(ctx, 2, 2, allk, ['ok'], lambda h: h[-1]['op'] != 'update')
    ops = ['env', 'cache', 'cache', 'source_load', 'source_save',
           'source_save', 'source_loadcache', 'source_loadcache',
           'source_clear', 'ask_outdated', 'ask_outdated', 'db_loadcache',
           'db_loadcache', 'db_load', 'db_save', 'db_update', 'identities']
    traces = [random_history(ctx, ctx.rng, ops, steps=14)
              for _ in range(ctx.pick(200, 3000))]
    # a long row of sources with similar identities
    for _ in range(ctx.pick(5, 50)):
        traces.append(random_history(ctx, ctx.rng, ops, n=len(IDS),
                                     steps=30, kind='mem'))
    ctx.count('random_histories', len(traces))
    for tr in traces:
        for e in tr['events']:
            if e['op'] == 'source_loadcache':
                ctx.count('cache_loads_rejected' if e['raised'] else
                          'cache_loads')
            elif e['op'] == 'ask_outdated':
                ctx.count('asked_outdated')
    ctx.sample(traces[0]['events'][-1])
    ctx.validate('DatabaseTrace', traces, batch=1500)
