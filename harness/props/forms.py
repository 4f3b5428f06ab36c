"""C03, C04, C05: written forms of rules (spec/RulesForm.tla)."""
import contextlib
import copy
import io
import os
import pickle

import yaml

from harness import world
from harness.core import attempt, dec, enc, exc_obs

PH, ANYOS, ANYV = 'default_installer', 'any_os', 'any_version'

MC_CFG = '''INIT Init
NEXT Next
CONSTANTS Level=%d DoEmit=%s
INVARIANTS Idempotent Canonical CompactKeepsMeaning Emit
'''

GOOD = ['a', 'lib-b', 'c_2', 'd.e', 'g++', 'é', 'Q’s', '1', '10.04',
        'mountain lion', 'ñandú', '中', 'X', 'packages', 'depends', 'apt',
        'pip', 'trusty', 'u', 'null', 'on', 'yes', '1e3', '0x1f',
        '..', '.', '-', '+.', '_']
BAD = ['', 'a b', 'a/b', 'a:b', 'a\n', '\na', '@', 'x!', 'a\tb', '“q”', '€',
       'any_key', 'unset_installers', 'mountain lion ', ' a', 'a,b', '[a]',
       'b#', 'a\x00b', 'Mountain Lion']


def rand_atom(rng):
    return copy.deepcopy(rng.choice([
        None, 'a', 'lib-x', '', 1, 0, -3, 1.5, True, False, [], ['a'],
        ['a', 'b'], [1, None], {}, ['a', ['b']], [{'a': 1}]]))


def rand_rule(rng, wild):
    if rng.random() < 0.3:
        return copy.deepcopy(rng.choice(
            [None, 'p1', ['p1'], ['p1', 'p2'], []]))
    if rng.random() < wild:
        return rand_atom(rng)
    r = {}
    if rng.random() < 0.8:
        r['packages'] = copy.deepcopy(rng.choice(
            [None, 'p1', ['p1'], ['p2', 'p3'], [], 'a b', [1], '', [''],
             ' p1 ']))
        if rng.random() < wild:
            r['packages'] = rand_atom(rng)
    if rng.random() < 0.5:
        r['depends'] = copy.deepcopy(rng.choice(
            [None, 'k2', ['k2'], ['k1', 'k3'], [], '', '', ' k2', ['']]))
        if rng.random() < wild:
            r['depends'] = rng.choice([
                rand_atom(rng), ['a b'], ['k', 2], [None], ['any_os'],
                [['k']], ['k', '']])
    if rng.random() < 0.3:
        r[rng.choice(['repo', 'options', 'x y', 'é'])] = rand_atom(rng)
    if rng.random() < wild / 2:
        r[rng.choice([1, None, True, 1.5])] = rand_atom(rng)
    return r


def names(rng, good, wild, n):
    out = []
    for _ in range(n):
        if rng.random() < wild:
            out.append(rng.choice(BAD + [1, None, 10.04, True, ANYOS, ANYV,
                                         PH]))
        elif rng.random() < 0.15:
            out.append(rng.choice(GOOD))
        else:
            out.append(rng.choice(good))
    return out


def rand_insts(rng, wild, ph=True):
    if ph and rng.random() < 0.3:
        return copy.deepcopy(rng.choice([None, 'p', ['p', 'q'], []]))
    if rng.random() < wild:
        return rand_atom(rng)
    good = ['apt', 'pip', 'gem', 'apt'] + ([PH] if ph else [])
    return {n: rand_rule(rng, wild)
            for n in names(rng, good, wild, rng.choice([0, 1, 1, 1, 2, 2, 3]))}


def rand_vers(rng, os_name, wild):
    if os_name == ANYOS:
        c = rng.random()
        if c < 0.45:
            return rand_insts(rng, wild, ph=rng.random() < wild)
        if c < 0.9:
            return {ANYV: rand_insts(rng, wild, ph=rng.random() < wild)}
        if c < 0.95 and wild:
            return {ANYV: rand_insts(rng, wild), 'p': None}
        return rand_atom(rng) if wild else {}
    if rng.random() < 0.25:
        return copy.deepcopy(rng.choice([None, 'p', ['p', 'q'], []]))
    if rng.random() < wild:
        return rand_atom(rng)
    return {n: rand_insts(rng, wild) for n in names(
        rng, ['p', 'q', 'trusty', '10.04', ANYV, ANYV], wild,
        rng.choice([0, 1, 1, 2, 2, 3]))}


def rand_oses(rng, wild):
    if rng.random() < wild:
        return rand_atom(rng)
    return {n: rand_vers(rng, n, wild) for n in names(
        rng, ['u', 'w', 'x', 'ubuntu', 'osx', ANYOS], wild,
        rng.choice([0, 1, 1, 2, 3]))}


def rand_doc(rng, wild):
    if rng.random() < wild / 3:
        return rand_atom(rng)
    return {n: rand_oses(rng, wild) for n in names(
        rng, ['k1', 'k2', 'boost', 'lib-x', 'k3'], wild,
        rng.choice([0, 1, 1, 1, 2, 3]))}


# see known_findings.json: constructing a SpecParsingError fails
BROKEN_CTOR = ("descriptor '__init__' requires a 'ValueError' object but "
               "received a 'SpecParsingError'")


def expand_obs(doc, ctx=None):
    from xylem.specs.plugins.rules import expand_rules, SpecParsingError
    kind, val = attempt(expand_rules, copy.deepcopy(doc))
    if kind == 'ok':
        first = copy.deepcopy(val)
        kind2, again = attempt(expand_rules, val)
        return ['ok', enc(first), enc(again) if kind2 == 'ok' else
                ['o', repr(again)]]
    if kind == 'exc':
        parsing = isinstance(val, SpecParsingError)
        msg = str(val)
        if isinstance(val, TypeError) and msg == BROKEN_CTOR and \
                ctx is not None and ctx.known('spec-parsing-error-ctor'):
            # judge the error that was meant to be raised
            parsing, tb = True, val.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            msg = ' '.join(x for x in tb.tb_frame.f_locals.values()
                           if isinstance(x, str))
        if parsing:
            # the keys of the document that are named by the message
            return ['parsing-error', [
                k for k in enc(doc)[1] if str(dec_key(k)) in msg or
                repr(dec_key(k)).strip("'") in msg]
                if isinstance(doc, dict) else []]
        if isinstance(val, ValueError):
            return ['value-error', str(val)[:200]]
        return ['exc', exc_obs(val)]
    return ['hang']


def dec_key(k):
    import json
    return dec(json.loads(k[1:])) if k.startswith('⟦') else k


def c03(ctx):
    r = ctx.model_check('RulesFormMC', MC_CFG % (ctx.pick(1, 2), 'TRUE'),
                        workers=4)
    for em in r.emitted:
        doc = dec(em['doc'])
        obs = expand_obs(doc, ctx)
        ctx.traces += 1
        if em['form'] == ['err']:
            ok = obs[0] == ('parsing-error' if isinstance(doc, dict)
                            else 'value-error')
        else:
            want = dec(em['form'])
            ok = obs[0] == 'ok' and dec(obs[1]) == want and \
                dec(obs[2]) == want
        if not ok:
            ctx.violation('expansion differs from the specification',
                          doc=doc, specification=em['form'], code=obs)
            if len(ctx.violations) > 20:
                return
    ctx.count('replayed_documents', len(r.emitted))
    recs = []
    rng = ctx.rng
    for n in range(ctx.pick(3000, 30000)):
        doc = rand_doc(rng, rng.choice([0, 0.05, 0.1, 0.3]))
        recs.append(dict(kind='expand', doc=enc(doc), obs=expand_obs(doc, ctx)))
    # the way from a file: expansion of what YAML text means
    from xylem.yaml_utils import load_yaml
    for n in range(ctx.pick(200, 2000)):
        doc = rand_doc(rng, rng.choice([0, 0.05]))
        text = yaml.safe_dump(doc, allow_unicode=rng.random() < 0.5,
                              default_flow_style=rng.choice([True, False]))
        if doc == {} and rng.random() < 0.5:
            text, doc = rng.choice(['', '\n', '# comment\n', '---\n']), None
        kind, val = attempt(load_yaml, text)
        obs = expand_obs(val, ctx) if kind == 'ok' else ['exc', exc_obs(val)]
        recs.append(dict(kind='expand', doc=enc(doc), obs=obs, text=text))
    for k in ('ok', 'parsing-error', 'value-error'):
        ctx.count('obs_' + k, sum(1 for x in recs if x['obs'][0] == k))
    ctx.sample(recs[0])
    ctx.judge('RulesFormJudge', recs)


def verify_obs(doc, ph):
    from xylem.sources.rules_dict import verify_rules_dict
    given = copy.deepcopy(doc)
    kind, val = attempt(verify_rules_dict, given, allow_default_installer=ph)
    obs = (['ok'] if kind == 'ok' else ['value-error'] if kind == 'exc' and
           isinstance(val, ValueError) else
           ['exc', exc_obs(val)] if kind == 'exc' else ['hang'])
    return dict(kind='verify', doc=enc(doc), ph=ph, obs=obs,
                unchanged=enc(given) == enc(doc))


def rand_expanded(rng, wild):
    """An expanded rules dict with a few random defects."""
    def insts(ph):
        out = {}
        for n in names(rng, ['apt', 'pip', 'gem'] + ([PH] if ph else []),
                       wild, rng.choice([0, 1, 1, 2])):
            r = {}
            if rng.random() < 0.8:
                r['packages'] = rng.choice([['p'], [], ['p', 'q'], [1],
                                            [None]])
            if rng.random() < 0.4:
                r['depends'] = rng.choice([['k1'], [], ['k1', 'lib-x']])
            if rng.random() < 0.3:
                r[rng.choice(['x', 'x y', ''])] = rand_atom(rng)
            if rng.random() < wild:
                what = rng.randrange(5)
                if what == 0:
                    r['packages'] = rand_atom(rng)
                elif what == 1:
                    r['depends'] = rng.choice([rand_atom(rng), ['a b'],
                                               ['k', 1], [None], ['any_os'],
                                               ['k', ''], [PH], ['k\n']])
                elif what == 2:
                    r[rng.choice([1, None, True])] = 1
                elif what == 3:
                    r = rand_atom(rng)
            out[n] = r
        return rand_atom(rng) if rng.random() < wild / 2 else out

    doc = {}
    for k in names(rng, ['k1', 'k2', 'boost'], wild, rng.choice([0, 1, 1, 2])):
        osd = {}
        for o in names(rng, ['u', 'w', 'osx', ANYOS], wild,
                       rng.choice([0, 1, 1, 2])):
            if o == ANYOS:
                vs = [ANYV]
            else:
                vs = names(rng, ['p', '10.04', ANYV], wild,
                           rng.choice([0, 1, 1, 2]))
            vd = {v: insts(o != ANYOS or rng.random() < wild) for v in vs}
            osd[o] = rand_atom(rng) if rng.random() < wild / 2 else vd
        doc[k] = rand_atom(rng) if rng.random() < wild / 2 else osd
    return rand_atom(rng) if rng.random() < wild / 4 else doc


def load_records(ctx, n):
    """Bring documents into the database, from a source and from the cache."""
    from xylem.sources import RulesDatabase, SourcesContext
    rng = ctx.rng
    recs = []
    d = ctx.tmp()
    os.makedirs(os.path.join(d, 'cache', 'sources'))
    src = os.path.join(d, 'rules.yaml')
    world.write_sources(os.path.join(d, 's'), [{'rules': 'file://' + src}])
    cfg = world.config(sources_dir=os.path.join(d, 's'),
                       cache_dir=os.path.join(d, 'cache'))
    old = {'old': {'u': {'p': {'apt': {'packages': ['old']}}}}}
    sc = SourcesContext(cfg)
    for _ in range(n):
        via = rng.choice(['source', 'cache'])
        strict = rng.random() < 0.5
        doc = rand_doc(rng, rng.choice([0, 0.05, 0.1])) \
            if via == 'source' else \
            rand_expanded(rng, rng.choice([0, 0.05, 0.1]))
        db = RulesDatabase(sc)
        db.raise_on_error = strict
        with open(src, 'w') as f:
            yaml.safe_dump(old, f)
        db.load_from_source()
        if via == 'source':
            text = yaml.safe_dump(doc, allow_unicode=True)
            with open(src, 'w') as f:
                f.write(text)
            doc = yaml.safe_load(text)
            call = db.load_from_source
        else:
            db.save_to_cache()
            path = db.sources[0].cache_file_path()
            with open(path, 'rb') as f:
                cached = pickle.load(f)
            cached['data'] = doc
            with open(path, 'wb') as f:
                pickle.dump(cached, f, protocol=2)
            call = db.load_from_cache
        with contextlib.redirect_stderr(io.StringIO()), world.quiet():
            kind, val = attempt(call)
        recs.append(dict(kind='load', via=via, doc=enc(doc), old=enc(old),
                         strict=strict, raised=kind != 'ok',
                         data=enc(db.sources[0].data),
                         error=repr(val)[:200] if kind != 'ok' else ''))
    return recs


def c05(ctx):
    r = ctx.model_check('RulesFormMC', MC_CFG % (ctx.pick(1, 2), 'TRUE'),
                        workers=4)
    for em in r.emitted:
        if em['form'] == ['err']:
            continue
        form = dec(em['form'])
        rec = verify_obs(form, True)
        ctx.traces += 1
        if (rec['obs'][0] == 'ok') != em['used'] or \
                rec['obs'][0] not in ('ok', 'value-error') or \
                not rec['unchanged']:
            ctx.violation('verification differs from the specification',
                          rules=form, specification=em['used'], code=rec)
            if len(ctx.violations) > 20:
                return
    ctx.count('replayed_documents', len(r.emitted))
    rng = ctx.rng
    recs = []
    # every identifier in every position
    for name in GOOD + BAD + [ANYOS, ANYV, PH, 1, None, True, 1.5]:
        for ph in (True, False):
            for pos in range(6):
                doc = identifier_at(name, pos)
                recs.append(verify_obs(doc, ph))
    for _ in range(ctx.pick(3000, 30000)):
        recs.append(verify_obs(rand_expanded(
            rng, rng.choice([0, 0.03, 0.06, 0.15])), rng.random() < 0.7))
    ctx.count('accepted', sum(1 for x in recs if x['obs'][0] == 'ok'))
    ctx.count('rejected', sum(1 for x in recs if x['obs'][0] != 'ok'))
    loads = load_records(ctx, ctx.pick(150, 1000))
    ctx.count('loads', len(loads))
    ctx.count('loads_rejected', sum(1 for x in loads if x['raised']))
    ctx.sample(recs[-1])
    ctx.sample(loads[0])
    ctx.judge('RulesFormJudge', recs + loads)


def identifier_at(name, pos):
    rule = {'packages': ['p']}
    if pos == 0:
        return {name: {'u': {'p': {'apt': rule}}}}
    if pos == 1:
        return {'k': {name: {ANYV: {'apt': rule}}}}
    if pos == 2:
        return {'k': {'u': {name: {'apt': rule}}}}
    if pos == 3:
        return {'k': {'u': {'p': {name: rule}}}}
    if pos == 4:
        return {'k': {'u': {'p': {'apt': {'depends': ['ok', name]}}}}}
    return {'k': {ANYOS: {ANYV: {name: rule}}}}


def rand_valid(rng, oses=('u', 'w', 'x'), table=None, ambiguous=0.1,
               tricky=False):
    pk = ['p1', 'p2', 'p3']
    if tricky:
        pk += ['1.10', 'on', 'null', '~', 'é', 'a: b', '#x', "it's", '"q"',
               ' lead', 'trail ', 'two\nlines', '@!x@|', '{0}', '1e3', '-',
               '', '[a]', '%d', 'x, y', '2001-01-01', '0o7', '中’', '<<', '=']

    def rule():
        r = {}
        c = rng.random()
        if c < 0.9:
            r['packages'] = [rng.choice(pk)
                             for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.2:
            r['depends'] = ['k%d' % rng.randrange(4)]
        if rng.random() < 0.15:
            r['extra'] = rng.choice([None, 1, True, ['x'], {'y': 'z'},
                                     rng.choice(pk)])
        return r

    def insts(o):
        cand = ['apt', 'pip'] + ([] if o == ANYOS else [PH])
        out = {}
        for i in rng.sample(cand, len(cand)):
            if rng.random() < 0.45:
                out[i] = rule()
        d = (table or {}).get(o)
        if d in out and PH in out and rng.random() > ambiguous:
            del out[rng.choice([d, PH])]
        return out

    doc = {}
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        osd = {}
        for o in list(oses) + [ANYOS]:
            if rng.random() < 0.4:
                vs = [ANYV] if o == ANYOS else [
                    v for v in ('p', 'q', '10.04', ANYV)
                    if rng.random() < 0.5]
                osd[o] = {v: insts(o) for v in vs}
                # equal entries for any and for specific versions
                if o != ANYOS and len(vs) > 1 and rng.random() < 0.3:
                    osd[o][vs[0]] = copy.deepcopy(osd[o][vs[-1]])
        doc[rng.choice(['k%d', 'lib-k%d', 'é%d']) % k] = osd
    return doc


def compact_record(doc, table):
    from xylem.specs.plugins.rules import compact_rules
    with contextlib.redirect_stderr(io.StringIO()):
        kind, val = attempt(compact_rules, copy.deepcopy(doc), dict(table))
    obs = ['ok', enc(val)] if kind == 'ok' else \
        ['exc', exc_obs(val)] if kind == 'exc' else ['hang']
    if obs[0] == 'ok' and obs[1][0] != 'd':
        obs[0] = 'bad'
    return dict(kind='compact', doc=enc(doc), table=table, obs=obs)


def c04(ctx):
    r = ctx.model_check('RulesFormMC', MC_CFG % (ctx.pick(1, 2), 'TRUE'),
                        workers=4)
    recs = []
    for em in r.emitted:
        if em['used']:
            for table in ({'u': 'apt'}, {}):
                recs.append(compact_record(dec(em['form']), table))
    # enumerated databases of two and three entries
    from harness.props import rules as rl
    r2 = ctx.model_check('RulesMC', rl.mc_cfg(1, 1, 2, ctx.pick(2, 3)),
                         workers=4)
    for em in r2.emitted:
        for same in (False, True):
            bodies = rl.Bodies()
            db = rl.db_from_entries(em['entries'], 1, bodies)
            if same:
                bodies.by_token = {t: {'packages': ['same']}
                                   for t in bodies.by_token}
            recs.append(compact_record(rl.tokens_to_rules(db, bodies)[0],
                                       rl.TABLE))
    ctx.count('replayed_documents', len(recs))
    rng = ctx.rng
    tables = [{'u': 'apt', 'w': 'pip'}, {'u': 'apt'}, {}, {
        'u': 'apt', 'w': 'gem', 'x': 'pip'}]
    for _ in range(ctx.pick(1200, 12000)):
        table = rng.choice(tables)
        recs.append(compact_record(rand_valid(rng, table=table), table))
    ctx.count('refused', sum(1 for x in recs if x['obs'][0] == 'exc'))
    # the maintenance command
    n = len(recs)
    recs += command_records(ctx, ctx.pick(120, 800))
    ctx.count('command_runs', len(recs) - n)
    ctx.sample(recs[-1])
    ctx.sample(recs[n - 1])
    ctx.judge('RulesFormJudge', recs, batch=4000)


def command_records(ctx, n):
    from xylem.commands.main import main as xylem_main
    from xylem.os_support import OSSupport
    table = OSSupport().get_default_installer_names()
    table = {k: v for k, v in table.items() if v}
    rng = ctx.rng
    d = ctx.tmp()
    recs = []
    for i in range(n):
        doc = rand_valid(rng, oses=('ubuntu', 'osx', 'fedora'), table=table,
                         ambiguous=0.05, tricky=True)
        path = os.path.join(d, 'r%d.yaml' % i)
        with open(path, 'w', encoding='utf-8') as f:
            f.write(yaml.safe_dump(doc, allow_unicode=rng.random() < 0.7))
        args = ['_compact_rules_file', '--no-color', path]
        write = rng.random() < 0.5
        if write:
            args.append(rng.choice(['-w', '--write']))
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            kind, val = attempt(xylem_main, args)
        ok = kind == 'ok' or (isinstance(val, SystemExit) and
                              val.code in (0, None))
        if ok:
            text = open(path, encoding='utf-8').read() if write \
                else out.getvalue()
            k2, loaded = attempt(yaml.safe_load, text)
            obs = ['ok', enc(loaded)] if k2 == 'ok' and \
                isinstance(loaded, dict) else ['bad', text[:500]]
        else:
            obs = ['exc', exc_obs(val)] if kind == 'exc' else ['hang']
        recs.append(dict(kind='compact', doc=enc(doc), table=table, obs=obs,
                         written=write))
    return recs
