"""C01, C02, C06: looking up, merging and listing rules (spec/Rules.tla)."""
import copy
import io
import contextlib

from harness import world
from harness.core import attempt, exc_obs

PH, ANYOS, ANYV = 'default_installer', 'any_os', 'any_version'

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS Sources=%d
Keyset={%s}
Oses={"u","w"}
Versions={%s}
Insts={"apt","pip"}
MaxEntries=%d
DoEmit=%s
INVARIANTS Precedence Complete NoPlaceholder EmptyOtherwise KeysListed
INVARIANT MergeFaithful
INVARIANT Emit
'''


def mc_cfg(sources=2, keys=2, versions=2, entries=2, emit=True):
    q = ','.join
    return MC_CFG % (sources, q('"k%d"' % (i + 1) for i in range(keys)),
                     q('"%s"' % v for v in 'pqr'[:versions]), entries,
                     'TRUE' if emit else 'FALSE')


TABLE = {'u': 'apt', 'w': 'pip'}

# names a lookup must tell apart, although they are easily confused
OSES = ('u', 'w', 'x', 'U', 'u2', 'any')
VERSIONS = ('p', 'q', '1.0', '1', 'P', '10')
ASKED = VERSIONS + ('zz', '1.00', 'p1', '')
DEFAULTS = {'u': 'apt', 'w': 'pip', 'x': 'gem', 'U': 'pip', 'u2': 'gem',
            'any': 'apt'}


def universe(rng):
    """Some OSes and versions: plain ones, or easily confused ones."""
    if rng.random() < 0.4:
        return ('u', 'w', 'x'), ('p', 'q', '1.0'), ('p', 'q', '1.0', 'zz')
    if rng.random() < 0.3:
        return OSES, VERSIONS, ASKED
    o = tuple(rng.sample(OSES, rng.choice([1, 2, 3])))
    # what is asked may be missing, while something similar is there
    v = tuple(rng.sample(VERSIONS, rng.choice([1, 2, 3])))
    return o, v, ASKED


class Bodies(object):
    """Rule bodies <-> opaque tokens."""

    def __init__(self, rng=None):
        self.rng = rng
        self.by_token = {}
        self.n = 0

    def new(self):
        self.n += 1
        tok = 'r%d' % self.n
        kind = (self.rng.randrange(6) if self.rng else 0)
        body = {'packages': [tok]}
        if kind == 1:
            body = {'packages': [tok, tok + '-dev'], 'depends': ['k1']}
        elif kind == 2:
            body = {'packages': [], 'mark': tok}
        elif kind == 3:
            body = {'mark': {'deep': [tok, None, 1]}, 'packages': [tok]}
        elif kind == 4 and self.rng.random() < .5 and \
                {} not in self.by_token.values():
            body = {}       # a rule, although it says nothing
        self.by_token[tok] = body
        return tok

    def token(self, body):
        for t, b in self.by_token.items():
            if b == body:
                return t
        return '?' + repr(body)[:80]


def tokens_to_rules(db, bodies):
    """Token databases -> fresh databases of real rules."""
    return [{k: {o: {v: {i: copy.deepcopy(bodies.by_token[t])
                         for i, t in insts.items()}
                     for v, insts in vs.items()}
                 for o, vs in os.items()}
             for k, os in rules.items()} for rules in db]


def db_from_entries(entries, sources, bodies):
    db = [{} for _ in range(sources)]
    for n, (s, k, o, v, i) in enumerate(entries):
        db[s - 1].setdefault(k, {}).setdefault(o, {}).setdefault(
            v, {})[i] = 'r%d' % (n + 1)
        bodies.by_token['r%d' % (n + 1)] = {'packages': ['r%d' % (n + 1)]}
    return db


def found_obs(res, bodies):
    kind, val = res
    if kind == 'ok':
        if not isinstance(val, dict) or not all(
                isinstance(k, str) for k in val):
            return ['bad', repr(val)[:200]]
        return ['ok', {k: bodies.token(r) for k, r in val.items()}]
    if kind == 'exc':
        return ['exc', exc_obs(val)]
    return ['hang']


def random_db(rng, bodies, nsources=None, keys=4, oses=('u', 'w', 'x'),
              versions=('p', 'q', '1.0'), insts=('apt', 'pip', 'gem'),
              ambiguous=0.1, density=None, empties=0.15, table=None,
              any_os=0.4):
    """Random valid expanded rules dicts (as tokens)."""
    nsources = nsources or rng.choice([1, 1, 2, 2, 3, 4])
    db = []
    for _ in range(nsources):
        rules = {}
        for k in range(1, keys + 1):
            if rng.random() < 0.35:
                continue
            osd = {}
            names = [o for o in oses if rng.random() < 0.5]
            if rng.random() < any_os:
                names.append(ANYOS)
            rng.shuffle(names)
            for o in names:
                vs = [ANYV] if o == ANYOS else [
                    v for v in list(versions) + [ANYV] if rng.random() < 0.5]
                rng.shuffle(vs)
                vd = {}
                for v in vs:
                    idict = {}
                    cand = list(insts) + ([PH] if o != ANYOS and
                                          (table or TABLE).get(o, 'd')
                                          else [])
                    rng.shuffle(cand)
                    for i in cand:
                        if rng.random() < 0.4:
                            idict[i] = (bodies.new() if rng.random() < 0.85 or
                                        not bodies.by_token else
                                        rng.choice(sorted(bodies.by_token)))
                    d = (table or TABLE).get(o)
                    if PH in idict and d in idict and \
                            rng.random() >= ambiguous:
                        del idict[rng.choice([PH, d])]
                    if idict or rng.random() < empties:
                        vd[v] = idict
                if vd or (o != ANYOS and rng.random() < empties):
                    osd[o] = vd
            if osd or rng.random() < empties:
                rules['k%d' % k] = osd
        db.append(rules)
    return db


def contexts(oses=OSES, versions=ASKED, table=None):
    """One installer context per OS; use(os, version) sets the version."""
    table = table or DEFAULTS
    cfg = world.config(core_installers=[])
    plugins = [world.make_os(o, list(versions), default=table[o],
                             core=[table[o]]) for o in oses]
    ic = world.make_ic(cfg, plugins, (oses[0], versions[0]), installers=[])

    def use(o, v):
        ic.os_support.override_os((o, v))
        return ic
    return use


def c01(ctx):
    from xylem.sources.rules_dict import lookup_rules
    # 1. + 2. model check, replaying every enumerated database
    r = ctx.model_check('RulesMC', mc_cfg(2, 2, 2, 2), workers=4)
    use = contexts()
    for em in r.emitted:
        bodies = Bodies()
        db = db_from_entries(em['entries'], 2, bodies)
        real = tokens_to_rules(db, bodies)
        bad = None
        for e in em['expect']:
            k, o, v = e['q']
            exp = e['found'] or {}
            # looking through the database
            obs = found_obs(attempt(db_lookup, real, k, use, o, v), bodies)
            if not matches(obs, exp):
                bad = ('RulesDatabase.lookup', e['q'], exp, obs)
                break
        # and in one rules dict only
        if bad is None and len({e[0] for e in em['entries']}) <= 1:
            s = em['entries'][0][0] - 1 if em['entries'] else 0
            for e in em['expect']:
                k, o, v = e['q']
                obs = found_obs(attempt(lookup_rules, real[s], k, o, v,
                                        TABLE[o]), bodies)
                if not matches(obs, e['found'] or {}):
                    bad = ('lookup_rules', e['q'], e['found'], obs)
                    break
        ctx.traces += 1
        if bad:
            ctx.violation('%s differs from the specification' % bad[0],
                          entries=em['entries'], query=bad[1],
                          specification=bad[2], code=bad[3])
            if len(ctx.violations) > 20:
                return
    ctx.count('replayed_databases', len(r.emitted))
    ctx.count('replayed_queries', sum(len(e['expect']) for e in r.emitted))
    if ctx.thorough:
        ctx.model_check('RulesMC', mc_cfg(2, 1, 2, 3, emit=False), workers=8)
        ctx.model_check('RulesMC', mc_cfg(3, 1, 1, 3, emit=False), workers=8)
    # 3. recorded lookups in larger random databases
    recs = []
    rng = ctx.rng
    for n in range(ctx.pick(150, 1500)):
        bodies = Bodies(rng)
        oses, versions, asked = universe(rng)
        db = random_db(rng, bodies, oses=oses, versions=versions,
                       table=DEFAULTS)
        dbl = tokens_to_rules(db, bodies)
        qs = []
        dobj = None
        if n % 3 == 0:
            with contextlib.redirect_stdout(io.StringIO()):
                dobj = world.make_db(ctx, dbl, via='mem' if n % 2 else 'file')
        for _ in range(ctx.pick(10, 14)):
            k = rng.choice(['k1', 'k2', 'k3', 'k4', 'k5'])
            o = rng.choice(oses if rng.random() < 0.8 else OSES)
            v = rng.choice(asked)
            dflt = DEFAULTS[o]
            if dobj is not None:
                res = attempt(dobj.lookup, k, use(o, v))
                d = db
                qs.append(dict(key=k, os=o, v=v, dflt=dflt,
                               obs=found_obs(res, bodies)))
            else:
                res = attempt(lookup_rules, dbl[0], k, o, v, dflt)
                qs.append(dict(key=k, os=o, v=v, dflt=dflt,
                               obs=found_obs(res, bodies)))
        recs.append(dict(kind='lookup', db=db if dobj is not None else db[:1],
                         queries=qs, via='database' if dobj is not None
                         else 'lookup_rules'))
        ctx.count('recorded_queries', len(qs))
    ctx.sample(recs[0])
    ctx.judge('RulesJudge', recs)


_db_cache = {}


def db_lookup(real, k, use, o, v):
    key = id(real)
    if _db_cache.get('key') is not real:
        _db_cache['key'] = real
        _db_cache['db'] = make_plain_db(real)
    return _db_cache['db'].lookup(k, use(o, v))


def make_plain_db(real):
    """Database over in-memory rules, cheaply (no files)."""
    from xylem.sources import RulesDatabase, SourcesContext, RulesSource
    global _plain
    try:
        sc, base = _plain
    except NameError:
        import tempfile
        import os
        table = {}
        d = tempfile.mkdtemp(dir=os.getcwd())
        world.write_sources(os.path.join(d, 's'), [])
        cfg = world.config(sources_dir=os.path.join(d, 's'),
                           cache_dir=os.path.join(d, 'c'))
        sc = SourcesContext(cfg, spec_plugins=[world.make_spec('mem', table)])
        base = table
        _plain = (sc, base)
    db = RulesDatabase(sc)
    for i, rules in enumerate(real):
        base['src%d' % i] = rules
        db.sources.append(RulesSource(sc.get_spec('mem'), 'src%d' % i,
                                      'origin', sc))
    db.load_from_source()
    return db


def matches(obs, exp):
    if obs[0] != 'ok':
        return False
    return set(obs[1]) == set(exp) and all(
        obs[1][i] in exp[i] for i in exp)


def merged_obs(res, bodies):
    kind, m = res
    if kind != 'ok':
        return ['exc', exc_obs(m)] if kind == 'exc' else ['hang']
    try:
        out = {}
        for k, osd in m.items():
            for o, vd in osd.items():
                for v, idict in vd.items():
                    for i, rule in idict.items():
                        assert all(isinstance(x, str) for x in (k, o, v, i))
                        out.setdefault(k, {}).setdefault(o, {}).setdefault(
                            v, {})[i] = bodies.token(rule)
                    out.setdefault(k, {}).setdefault(o, {}).setdefault(v, {})
                out.setdefault(k, {}).setdefault(o, {})
            out.setdefault(k, {})
        return ['ok', out]
    except Exception as e:
        return ['bad', repr(m)[:200] + repr(e)]


def merge_record(db, bodies, table):
    from xylem.sources.rules_dict import merge_rules
    real = tokens_to_rules(db, bodies)
    before = copy.deepcopy(real)
    tab = dict(table)
    res = attempt(merge_rules, real, tab)
    obs = merged_obs(res, bodies)
    # the result does not share structure above the rules: changing it must
    # not change the inputs either
    if obs[0] == 'ok':
        for k, osd in res[1].items():
            for o, vd in osd.items():
                for v, idict in vd.items():
                    idict['xx'] = None
                vd['xx'] = None
            osd['xx'] = None
        res[1]['xx'] = None
    # (an OS without default installer: "")
    return dict(kind='merge', db=db, obs=obs,
                table={o: d or '' for o, d in table.items()},
                unchanged=(real == before and tab == dict(table)))


def c02(ctx):
    r = ctx.model_check('RulesMC', mc_cfg(2, 1, 2, 2), workers=4)
    r2 = ctx.model_check('RulesMC', mc_cfg(3, 1, 1, 3, emit=True),
                         workers=4)
    recs = []
    for em, ns in [(e, 2) for e in r.emitted] + [(e, 3) for e in r2.emitted]:
        bodies = Bodies()
        db = db_from_entries(em['entries'], ns, bodies)
        recs.append(merge_record(db, bodies, TABLE))
    if not ctx.thorough:
        # all pairs, and a seeded sample of the triples
        pairs, triples = recs[:len(r.emitted)], recs[len(r.emitted):]
        recs = pairs + ctx.rng.sample(triples, min(2500, len(triples)))
    ctx.count('replayed_databases', len(recs))
    ctx.judge('RulesJudge', recs, batch=6000)
    recs = []
    rng = ctx.rng
    for n in range(ctx.pick(500, 6000)):
        bodies = Bodies(rng)
        tables = [{'u': 'apt', 'w': 'pip'}, {'u': 'apt'}, {'w': 'gem'},
                  {'u': 'pip', 'w': 'pip', 'x': 'apt', 'y': 'gem'}, {},
                  {'u': None, 'w': 'pip'}, {'u': 'apt', 'U': None, 'x': None},
                  {'u': 'apt', 'U': 'pip', 'any': 'gem'}]
        table = rng.choice(tables)
        oses, versions, _ = universe(rng)
        db = random_db(rng, bodies, keys=rng.choice([1, 2, 3]),
                       oses=oses, versions=versions,
                       nsources=rng.choice([1, 2, 2, 3, 4]), table=table,
                       ambiguous=0.05,
                       insts=rng.choice([
                           ('apt', 'pip', 'gem'),
                           ('apt', 'pip', 'gem', 'brew', 'yum', 'port')]))
        if rng.random() < 0.03:
            db = []
        recs.append(merge_record(db, bodies, table))
    ctx.sample(recs[0])
    ctx.count('random_merges', len(recs))
    ctx.judge('RulesJudge', recs, batch=3000)


def seq_obs(res):
    kind, val = res
    if kind == 'ok':
        val = list(val)
        if all(isinstance(x, str) for x in val):
            return ['ok', val]
        return ['bad', repr(val)[:200]]
    return ['exc', exc_obs(val)] if kind == 'exc' else ['hang']


def c06(ctx):
    from xylem.resolve import resolve
    r = ctx.model_check('RulesMC', mc_cfg(2, 2, 2, 2), workers=4)
    use = contexts()
    for em in r.emitted:
        bodies = Bodies()
        db = make_plain_db(tokens_to_rules(
            db_from_entries(em['entries'], 2, bodies), bodies))
        ctx.traces += 1
        for q in em['keys']:
            obs = seq_obs(attempt(lambda: db.keys(use(q['o'], q['v']))))
            if obs[0] != 'ok' or sorted(obs[1]) != sorted(q['keys']):
                ctx.violation('listed keys differ from the specification',
                              entries=em['entries'], query=q, code=obs)
                break
        if len(ctx.violations) > 20:
            return
    ctx.count('replayed_databases', len(r.emitted))
    recs = []
    rng = ctx.rng
    names = ['k1', 'k2', 'k3', 'k4', 'K2', 'k10', 'a-b', 'a.b', 'zeta', 'k']
    for n in range(ctx.pick(150, 1500)):
        bodies = Bodies(rng)
        oses, versions, asked = universe(rng)
        db = random_db(rng, bodies, keys=5, oses=oses, versions=versions)
        sub = dict(zip(['k1', 'k2', 'k3', 'k4', 'k5'], rng.sample(names, 5)))
        db = [{sub[k]: v for k, v in rules.items()} for rules in db]
        via = rng.choice(['plain', 'plain', 'file'])
        if via == 'file':
            dobj = world.make_db(ctx, tokens_to_rules(db, bodies), via='file')
        else:
            dobj = make_plain_db(tokens_to_rules(db, bodies))
        qs = []
        for _ in range(6):
            o = rng.choice(oses if rng.random() < 0.8 else OSES)
            v = rng.choice(asked)
            qs.append(dict(os=o, v=v, obs=seq_obs(attempt(
                lambda: dobj.keys(use(o, v))))))
        recs.append(dict(kind='keys', db=db, queries=qs))
        # resolving all keys
        qs = []
        for _ in range(3):
            o = rng.choice(oses if rng.random() < 0.8 else OSES)
            v = rng.choice(asked)
            dflt = DEFAULTS[o]
            alike = [rng.choice([n + ' ', ' ' + n, n.upper(), n.title(), n[:-1]])
                     for n in names] if rng.random() < .15 else []
            requested = [rng.choice(names + ['nope'] + alike)
                         for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))]
            all_ = rng.random() < 0.8
            cfg = world.config(core_installers=[dflt])
            ic = world.make_ic(
                cfg, [world.make_os(o, list(ASKED), default=dflt)],
                (o, v), installers=[world.make_installer(
                    dflt, rule_items=mark_items())])
            req = list(requested)
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                kind, val = attempt(resolve, req, all_keys=all_, config=cfg,
                                    database=dobj, installer_context=ic)
            try:
                obs = ['ok', [k for k, _ in val[0]], [k for k, _ in val[1]]] \
                    if kind == 'ok' else ['exc', repr(val)[:300]]
            except Exception as e:
                obs = ['bad', repr(e)]
            qs.append(dict(requested=requested, all=all_, os=o, v=v,
                           dflt=dflt, sorted=sorted(names + ['nope']),
                           obs=obs))
        recs.append(dict(kind='all', db=db, queries=qs))
    ctx.sample(recs[1])
    ctx.count('random_records', len(recs))
    ctx.judge('RulesJudge', recs)


def mark_items():
    from xylem.config_utils import Any
    return [('mark', Any, None)]
