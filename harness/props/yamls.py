"""C36: YAML is written in one style and reads back as the same value."""
import datetime
import random

from harness.core import MachineryError

MC_CFG = '''
CONSTANTS Emit = %s Deep = %s
INIT Init
NEXT Next
INVARIANT Ended
INVARIANT OrderFree
INVARIANT OneLine
'''
JUDGE_CFG = 'INIT YInit\nNEXT TNext\nINVARIANT TReport\n'


def scalar(v):
    """A value other than texts, lists and dictionaries, as a token."""
    if isinstance(v, bool):
        return ['x', 'true' if v else 'false']
    if isinstance(v, int):
        return ['x', '%d' % v]
    if isinstance(v, float):
        return ['f', repr(v)]
    if isinstance(v, (datetime.date, datetime.datetime)):
        return ['f', v.isoformat()]
    return ['f', '%s %r' % (type(v).__name__, v)]


def text(s):
    return s if s.isascii() and s.isprintable() else ascii(s)


def encode(v):
    if v is None:
        return ['n']
    if isinstance(v, str):
        return ['s', text(v)]
    if isinstance(v, dict):
        items = []
        for k, x in v.items():
            if isinstance(k, str):
                items.append([text(k), encode(x)])
            else:
                items.append(['(%s)' % ' '.join(encode(k)), encode(x)])
        # the order of odd keys is not for the specification
        return ['d', sorted(items, key=lambda i: i[0])]
    if isinstance(v, list):
        return ['l', [encode(x) for x in v]]
    return scalar(v)


def decode(t, rng=None):
    """The value of the specification; dictionaries of either kind."""
    from xylem.config_utils import ConfigDict
    kind = t[0]
    if kind == 'n':
        return None
    if kind == 's':
        return t[1]
    if kind == 'x':
        return {'true': True, 'false': False}[t[1]] \
            if t[1] in ('true', 'false') else int(t[1])
    if kind == 'l':
        return [decode(x, rng) for x in t[1]]
    d = ConfigDict() if rng and rng.random() < .3 else {}
    items = list(t[1])
    if rng:
        rng.shuffle(items)
    for k, x in items:
        d[k] = decode(x, rng)
    return d


def same_keys(v):
    """Are keys that look alike in tokens different?  (They are then odd.)"""
    if isinstance(v, dict):
        names = [text(k) if isinstance(k, str) else '(%s)' %
                 ' '.join(encode(k)) for k in v]
        return len(set(names)) == len(names) and \
            all(same_keys(x) for x in v.values())
    if isinstance(v, list):
        return all(same_keys(x) for x in v)
    return True


def dump_record(v):
    from xylem.yaml_utils import dump_yaml, load_yaml
    rec = dict(op='dump', v=encode(v), text='', back=['n'], after=['n'],
               error='')
    try:
        out = dump_yaml(v)
        if not isinstance(out, str):
            raise TypeError('not a text: %r' % (out,))
        rec['text'] = out if out.isascii() else ascii(out)
        rec['after'] = encode(v)
        rec['back'] = encode(load_yaml(out))
    except Exception as e:
        rec['error'] = '%s: %s' % (type(e).__name__, ascii(str(e))[:300])
    return rec


def read_record(v, doc):
    from xylem.yaml_utils import load_yaml
    rec = dict(op='read', v=v, text=doc, back=['n'], error='')
    try:
        rec['back'] = encode(load_yaml(doc))
    except Exception as e:
        rec['error'] = '%s: %s' % (type(e).__name__, ascii(str(e))[:300])
    return rec


def plain(v, seen=()):
    """Is it data that YAML itself knows?"""
    if any(v is x for x in seen):
        return True
    seen += (v,)
    if type(v) in (dict,):
        return all(plain(k, seen) and plain(x, seen) for k, x in v.items())
    if type(v) in (list, tuple, set):
        return all(plain(x, seen) for x in v)
    return v is None or type(v) in (
        str, bytes, bool, int, float, datetime.date, datetime.datetime)


FOREIGN = ['!!python/tuple [1, 2]', '!!python/name:os.getcwd',
           '!!python/name:os.getcwd ""', '!!python/module:os',
           '!!python/complex 1+2j', '!!python/str a', '!!python/unicode a',
           '!!python/int 1', '!!python/long 1', '!!python/none ""',
           '!!python/list [1]', '!!python/dict {a: 1}', '!!python/bool true',
           '!!python/float 1.5', '!!python/bytes YWI=',
           '!!python/object:datetime.timedelta {}',
           '!!python/object/new:datetime.timedelta [1]',
           '!!python/object/apply:datetime.timedelta [1]', '!other a',
           '!<tag:example.org,2014:a> b', '!!other [1]']


def foreign_record(doc, place):
    import yaml
    from xylem.yaml_utils import load_yaml
    doc = place % doc
    try:
        v = load_yaml(doc)
        res = 'accepted as %s' % type(v).__name__
    except yaml.YAMLError:
        res = 'yaml error'
    except Exception as e:
        res = '%s: %s' % (type(e).__name__, ascii(str(e))[:200])
    return dict(op='foreign', text=doc, result=res)


def any_record(doc):
    import yaml
    from xylem.yaml_utils import load_yaml
    try:
        v = load_yaml(doc)
        res = 'value' if plain(v) else 'something else than plain data'
    except yaml.YAMLError:
        res = 'yaml error'
    except RecursionError:
        res = 'yaml error'      # nesting is limited by Python
    except Exception as e:
        res = '%s: %s' % (type(e).__name__, ascii(str(e))[:200])
    return dict(op='any', text=ascii(doc), result=res)


WORDS = ['a', 'bc', 'Zed', 'any_os', 'packages', 'x']
QUOTED = ['', '1', 'null', 'true', 'a: b', '#', '- q"', '~', '[]', '{}', 'x: ',
          'yes', '1.5', "'", '&a', '*a', '!x', 'a #b', '%', '@', '`']
ODD = ["it's", 'x y', ' x', 'x ', 'a\nb', '\n', 'a\n\n b\n', '\t', 'a\tb',
       '\x00', '\x07', '\ufeff', '\xe9', '\u4e2d\u6587',
       '\U0001f600', '2014-01-01', '0x1f', '010', '1e3', '.inf', '.nan',
       '1_000', '12:30:45', '=', '<<', '---', '...', '? x', ': x', '-', '?',
       ':', 'a:', '%YAML 1.1', '|', '>', '|-\n x', '!!str x', '"', '\\', '\\n',
       'x' * 300, ' '.join(['word'] * 60), 'null ', 'No', 'OFF', 'y', '\r\n',
       '\xa0', 'a,b', '[a', '}', '{a: b}', '# c', 'a: #']
ALPHABET = 'ab1 :-#\'"\n\t,[]{}&*!|>%@`?~=\\\xe9.'


def odd_text(rng):
    r = rng.random()
    if r < .5:
        return rng.choice(ODD)
    return ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 8)))


def random_value(rng, depth, odd, top=False, pool=None):
    pool = [] if pool is None else pool
    r = rng.random()
    if depth == 0 or (not top and r < .35):
        q = rng.random()
        if q < .15 and not top:
            return None
        if q < .3:
            return rng.choice([True, False, 0, 1, 42, -3, 10 ** 20])
        if odd and q < .4:
            return rng.choice([1.5, -0.25, 1e100, datetime.date(2014, 1, 2),
                               datetime.datetime(2014, 1, 2, 3, 4, 5)])
        if odd and q < .75:
            return odd_text(rng)
        return rng.choice(WORDS if q < .8 else QUOTED)
    if pool and r > .8 and not top:
        # the same object again
        return rng.choice(pool)
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if r < .6:
        pool.append([random_value(rng, depth - 1, odd, pool=pool)
                     for _ in range(n)])
        return pool[-1]
    from xylem.config_utils import ConfigDict
    d = ConfigDict() if rng.random() < .3 else {}
    for _ in range(n):
        k = odd_text(rng) if odd and rng.random() < .4 else \
            rng.choice(WORDS + ['kk', 'Q', 'q', 'ab', 'aB'])
        if odd and rng.random() < .1:
            k = rng.choice([1, 2, True, 1.5, None])
        d[k] = random_value(rng, depth - 1, odd, pool=pool)
    pool.append(d)
    return d


def random_document(rng, docs):
    r = rng.random()
    if r < .4:
        s = list(rng.choice(docs))
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(s) + 1)
            if rng.random() < .5 and k < len(s):
                del s[k]
            else:
                s.insert(k, rng.choice(ALPHABET))
        return ''.join(s)
    if r < .7:
        return ''.join(rng.choice([
            'a', 'b', ': ', '- ', '\n', '  ', '[', ']', '{', '}', ', ', '?',
            '!!int ', '!!float ', '!!timestamp ', '!!binary ', '!!set ',
            '!!omap ', '!!pairs ', '!!bool ', '!!python/name:os.system ',
            '&x ', '*x', '<<: ', '2014-13-45', '1:99', '0b2', "'", '"', '|',
            '--- ', '...\n', '%YAML 9.9\n', '!', '\x00', '\u2028', '#', '1',
            '12', '2001-99-99', '2014-01-01T99:99:99Z'])
            for _ in range(rng.randint(1, 10)))
    return ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 20)))


def c36(ctx):
    rng = ctx.rng
    ctx.model_check('YamlMC', MC_CFG % ('FALSE', ctx.pick('FALSE', 'TRUE')),
                    workers=4)
    r = ctx.model_check('YamlMC', MC_CFG % ('TRUE', 'FALSE'), workers=1)
    seen, cases = set(), []
    for c in r.emitted:
        k = repr((c['v'], c['text'], c['how']))
        if k not in seen:
            seen.add(k)
            cases.append(c)
    if not cases:
        raise MachineryError('no documents enumerated')
    ctx.count('documents enumerated', len(cases))
    k = ctx.pick(1500, 40000)
    records = []
    for c in cases if len(cases) <= k else rng.sample(cases, k):
        if c['how'] == 'dump':
            records.append(dump_record(decode(c['v'], rng)))
        records.append(read_record(c['v'], c['text']))
    for c in cases:
        if c['how'] == 'dump' and rng.random() < ctx.pick(.3, 1):
            records.append(dump_record(decode(c['v'], rng)))
    for n in range(ctx.pick(1200, 40000)):
        v = random_value(rng, rng.choice([1, 2, 3, 4]), n % 2 == 1, True)
        if same_keys(v):
            records.append(dump_record(v))
            ctx.count('random values')
    for s in WORDS + QUOTED + ODD:
        for v in (s, [s], {s: s}, {'k': s}, {'k': [s, {s: s}]}):
            records.append(dump_record(v))
    for v in (['word'] * 900, {'k': ['ab'] * 1200},
              {'k': {'a': [['xyz', 'b'] * 300]}}):
        records.append(dump_record(v))
    # texts as they are, with tabs and more than one space
    for s in ('a\tb', 'x \t y', '\ta\t', 'a  b', 'a\t\tb', 'a \t'):
        t = ['s', text(s)]
        for v, doc in ((t, "'%s'"), (t, '"%s"'), (['l', [t]], "- '%s'\n"),
                       (['d', [['k', t]]], 'k: "%s"\n'),
                       (['d', [['k', ['l', [t, t]]]]], "k: ['%s', \"%s\"]"),
                       (['d', [[text(s), t]]], "'%s': '%s'")):
            records.append(read_record(v, doc.replace('%s', s)))
        if s == s.strip():
            records.append(read_record(
                ['d', [['k', ['s', text(s + '\n')]]]], 'k: |\n  %s\n' % s))
    docs = [c['text'] for c in cases]
    for _ in range(ctx.pick(1200, 40000)):
        records.append(any_record(random_document(rng, docs)))
    for doc in FOREIGN:
        for place in ('%s', '- %s', 'a: %s', '{a: [%s]}', '&x %s'):
            records.append(foreign_record(doc, place))
    ctx.count('documents written', sum(
        1 for x in records if x['op'] == 'dump'))
    ctx.count('documents read', sum(1 for x in records if x['op'] != 'dump'))
    ctx.sample(records[0])
    ctx.sample(records[len(records) // 2])
    ctx.sample(records[-1])
    ctx.judge('YamlJudge', records, cfg=JUDGE_CFG, batch=5000)
    ctx.assumptions += [
        'a document with nothing in it but null is not written',
        'texts contain no lone surrogates and no line separators other than '
        'line feeds and carriage returns (PyYAML does not keep them); values do not contain themselves',
        'mappings are dictionaries or ConfigDicts, sequences are lists']
