"""C41: help texts keep their layout and describe every argument."""
import argparse
import os
import re

from harness.core import MachineryError, attempt
from harness.props import offers

MC_CFG = '''
CONSTANTS MaxTokens = %d DoEmit = %s
INIT Init
NEXT Next
INVARIANT NothingLost
INVARIANT Narrow
INVARIANT EmptyLines
INVARIANT Tidy
INVARIANT Blankless
INVARIANT HardBreaks
INVARIANT Emit
'''
JUDGE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\n'


def word(*frags):
    s = ''.join(frags)
    return dict(t='w', f=list(frags), raw=s.startswith('R|'),
                rest=s[2:] if s.startswith('R|') else '')


def sp(n):
    return dict(t='sp', n=n)


def nl(n):
    return dict(t='nl', n=n)


PLAIN = ['a', 'is', 'the', 'words', 'longer', 'sentence.', '(and)', "don't",
         '`code`', '--opt', '50%', '%', '{}', '@', '@!', '@{x}', '*', 'x=y',
         '/a/b', 'R|', 'R|mid', '"q"', '1:2,3', '\u00fc\u00df']


def random_word(rng):
    if rng.random() < .12:
        return word('up-', 'to-', 'date') if rng.random() < .5 else \
            word('well-', 'known')
    return word(rng.choice(PLAIN))


def random_raw(rng):
    """A paragraph that is shown as it is."""
    lead = rng.choice([0, 0, 2, 5])
    toks = [sp(lead)] if lead else []
    first = rng.choice(['R|', 'R|* item', 'R|x'])
    if ' ' in first:
        toks += [word('R|*'), sp(1), word('item')]
    else:
        toks += [word(first)]
        if first == 'R|':
            toks += [sp(rng.choice([1, 2, 6])), word('first')]
    for _ in range(rng.randint(0, 3)):
        if rng.random() < .6:
            toks += [sp(rng.choice([1, 1, 4])), word(rng.choice(PLAIN[:14]))]
    for _ in range(rng.randint(0, 4)):
        toks.append(nl(rng.choice([1, 1, 1, 2])))
        ind = rng.choice([0, 2, 2, 3, 8])
        if ind:
            toks.append(sp(ind))
        for k in range(rng.randint(1, 20 if rng.random() < .1 else 4)):
            if k:
                toks.append(sp(rng.choice([1, 1, 3])))
            w = rng.choice(PLAIN[:14])
            toks.append(word(w))
    return toks


def random_par(rng, first):
    if rng.random() < .25:
        return random_raw(rng)
    toks = []
    for b in range(rng.choice([1, 1, 2, 3])):
        if b:
            toks.append(nl(2))
        if rng.random() < .3:
            toks.append(sp(rng.choice([1, 4])))
        for k in range(rng.choice([1, 3, 8, 25] * 10 + [80, 250])):
            if k:
                toks.append(sp(1) if rng.random() < .8 else nl(1))
                if toks[-1]['t'] == 'nl' and rng.random() < .7:
                    toks.append(sp(rng.choice([1, 8])))
                elif toks[-1]['t'] == 'sp' and rng.random() < .1:
                    toks[-1]['n'] = 3
            w = random_word(rng)
            if w['raw'] and not k and not b:
                w = word('The')
            toks.append(w)
    return toks


def long_text(rng):
    """One paragraph of very many lines."""
    toks = []
    for k in range(1500):
        toks += ([sp(1)] if k else []) + [
            word(rng.choice(['words', 'longer', 'sentence.', '`code`']))]
    return toks


def random_text(rng):
    toks = []
    for p in range(rng.choice([1, 1, 2, 3])):
        if p:
            toks.append(nl(rng.choice([3, 3, 4, 6])))
        toks += random_par(rng, not p)
    return toks


def plain(toks):
    return ''.join(''.join(t['f']) if t['t'] == 'w' else
                   ' ' * t['n'] if t['t'] == 'sp' else '\n' * t['n']
                   for t in toks)


def column(lines):
    """Where the texts of the arguments begin."""
    for x in lines:
        m = re.match(r'  -h, --help +(?=show this)', x)
        if m:
            return m.end()
    for x, y in zip(lines, lines[1:]):
        if x == '  -h, --help':
            return len(y) - len(y.lstrip())
    return None


def entries(out, names):
    """[(argument, lines of its text)] of the arguments in the help."""
    lines = out.split('\n')
    col = column(lines)
    if col is None:
        return None, []
    res, on = [], False
    for x in lines:
        m = re.match(r'  (--?[\w-]+)(?= |$)', x)
        if m and (m.group(1) in names or m.group(1) == '-h'):
            if on and res[-1][1] and res[-1][1][-1] == '':
                # one argument directly follows the other
                res[-1][1][-1] = '(an empty line)'
            res.append((m.group(1), []))
            on = True
            if x[col - 2:col] == '  ' and len(x) > col:
                res[-1][1].append(x[col:].rstrip())
        elif not on:
            pass
        elif not x.strip():
            res[-1][1].append('')
        elif x.startswith(' ' * col):
            res[-1][1].append(x[col:].rstrip())
        else:
            on = False
    for _, ls in res:
        while ls and ls[-1] == '':
            ls.pop()
    return col, res


TYPES = ['String', 'Boolean', 'List', 'Dict', 'MergingDict', 'Path', 'Any']
DEFAULTS = dict(String=['x', 'two words', '100%', '%s', '%(default)s', '{}'],
                Boolean=[True, False],
                List=[[], ['a'], ['a', 'b c']],
                Dict=[{'k': 'v'}], MergingDict=[{'a': ['b']}],
                Path=['/a/b', '~/x'], Any=[1, 'y', 2.5])


def dashed(name):
    return name.replace('_', '-').replace('/', '-')


def random_items(rng):
    res = []
    for k in range(rng.randint(1, 5)):
        typ = rng.choice(TYPES)
        name = rng.choice(['item', 'an_item', 'some_long_name_here']) + str(k)
        if rng.random() < .3:
            name = 'group%d/%s' % (rng.randint(0, 1), name)
        arg = None
        if rng.random() < .4:
            arg = rng.choice(['arg%d', 'the-arg%d', None])
            arg = arg % k if arg else dashed(name)
        default = None
        if rng.random() < .6:
            default = rng.choice(DEFAULTS[typ])
        res.append(dict(name=name, type=typ, arg=arg, default=default,
                        help=random_text(rng) if rng.random() < .85
                        else []))
    return res


def show_items(ctx, items, width):
    """Records of the items of one description."""
    from xylem import config_utils as cu
    rng = ctx.rng
    os.environ['COLUMNS'] = str(width)

    def make():
        d = cu.ConfigDescription('c.yaml')
        for i in items:
            kw = {}
            if i['arg']:
                kw['command_line_argument'] = rng.choice(['', '--']) + i['arg']
            else:
                kw['command_line'] = True
            text = plain(i['help']).replace('%', '%%')
            d.add(i['name'], help=text if text or rng.random() < .5 else None,
                  type=getattr(cu, i['type']), default=i['default'], **kw)
        parser = argparse.ArgumentParser(
            prog='prog', formatter_class=cu.ConfigHelpFormatter)
        d.add_arguments(parser)
        return parser.format_help()
    kind, out = attempt(make)
    if kind != 'ok':
        return [dict(op='args', args=[], got=['%s %r' % (kind, out)])]
    args = ['--' + (i['arg'] or dashed(i['name'])) for i in items]
    col, got = entries(out, args)
    recs = [dict(op='args', args=args,
                 got=[n for n, _ in got if n not in ('-h', '--help')])]
    got = dict(got)
    for i, a in zip(items, args):
        if a not in got:
            continue
        unset = {} if i['type'] == 'MergingDict' else None
        words = [] if i['default'] is None or i['default'] == unset \
            else str(i['default']).split(' ')
        recs.append(dict(
            op='item', width=max(width - 2 - col, 11), got=got[a],
            item=dict(help=i['help'], name=i['name'], arg=a[2:],
                      dashed=dashed(i['name']),
                      group='/' in i['name'], type=i['type'],
                      default=words)))
    return recs


def show_text(ctx, toks, width):
    """Records of a text as description, group description and help."""
    from xylem import config_utils as cu
    os.environ['COLUMNS'] = str(width)
    text = plain(toks)

    def make():
        p = argparse.ArgumentParser(
            prog='prog', description=text, usage='U', epilog=text,
            formatter_class=cu.ConfigHelpFormatter)
        p.add_argument_group('grp', description=text).add_argument(
            '--foo', help=text.replace('%', '%%'))
        return p.format_help()
    kind, out = attempt(make)
    if kind != 'ok':
        return [dict(op='args', args=[], got=['%s %r' % (kind, out)])]
    lines = out.split('\n')
    recs = []

    def between(a, b, cut):
        ls = [x.rstrip() for x in lines[a:b]]
        ls = [x[cut:] if x.startswith(' ' * cut) or not x else '?' + x
              for x in ls]
        while ls and not ls[-1]:
            ls.pop()
        while ls and not ls[0]:
            ls.pop(0)
        return ls
    try:
        a = lines.index('usage: U')
        b = lines.index('options:')
        c = lines.index('grp:')
        d = [n for n, x in enumerate(lines) if x.startswith('  --foo FOO')][-1]
    except (ValueError, IndexError):
        return [dict(op='args', args=['the parts of the help'], got=lines)]
    recs.append(dict(op='text', text=toks, width=width - 2,
                     got=between(a + 1, b, 0)))
    recs.append(dict(op='text', text=toks, width=width - 2 - 4,
                     got=between(c + 1, d, 2)))
    col, got = entries(out, ['--foo'])
    recs.append(dict(op='text', text=toks, width=max(width - 2 - col, 11),
                     got=dict(got).get('--foo', ['(missing)'])[
                         :len(lines)]))
    return recs


def show_command(ctx):
    """Records of the help of an installed command."""
    rng = ctx.rng
    w = offers.World(ctx, [dict(name='cmdaa', title='cmdaa', kind='valid',
                                result='none', id=1)], None)
    text = [random_text(rng) for _ in range(3)]
    path = os.path.join(w.d, w.mods[1] + '.py')
    with open(path) as f:
        s = f.read()
    s = s.replace("'about command 1'", ascii(plain(text[0])))
    s = s.replace("help='an option'", 'help=' + ascii(
        plain(text[1]).replace('%', '%%')))
    s = s.replace("'--extra')", "'--extra')\n    parser.add_argument('--foo', "
                  'help=%s)' % ascii(plain(text[2]).replace('%', '%%')))
    with open(path, 'w') as f:
        f.write(s)
    w.columns = width = rng.choice([64, 72, 80, 132])
    if rng.random() < .5:
        code, out, err, ran = w.run(['cmdaa', '-h'])
    else:
        code, out, err, ran = w.run(['-h'], w.mods[1])
    lines = out.split('\n')
    recs = []
    col, got = entries(out, ['--opt1', '--foo', '--os'])
    got = dict(got)
    recs.append(dict(op='args', args=['--foo', '--opt1', '--os'],
                     got=sorted(n for n in got if n != '-h')))
    if col is None:
        return recs
    try:
        a = lines.index('')
        b = lines.index('positional arguments:')
    except ValueError:
        return recs + [dict(op='args', args=['a help'], got=lines)]
    recs.append(dict(op='text', text=text[0], width=width - 2,
                     got=[x.rstrip() for x in lines[a:b]]))
    hw = max(width - 2 - col, 11)
    if '--foo' in got:
        recs.append(dict(op='text', text=text[2], width=hw,
                         got=got['--foo']))
    if '--opt1' in got:
        recs.append(dict(op='item', width=hw, got=got['--opt1'], item=dict(
            help=text[1], name='opt1', arg='opt1', dashed='opt1',
            group=False, type='String', default=['default'])))
    return recs


def c41(ctx):
    rng = ctx.rng
    ctx.model_check('HelpTextMC', MC_CFG % (ctx.pick(5, 6), 'FALSE'),
                    workers=4)
    r = ctx.model_check('HelpTextMC', MC_CFG % (4, 'TRUE'), workers=1)
    if not r.emitted:
        raise MachineryError('no texts enumerated')
    ctx.count('texts enumerated', len(r.emitted))
    recs = []
    old = os.environ.get('COLUMNS')
    try:
        for c in rng.sample(r.emitted, min(ctx.pick(300, 5000),
                                           len(r.emitted))):
            recs += show_text(ctx, c['text'], rng.choice([40, 80]))
        for _ in range(ctx.pick(250, 4000)):
            recs += show_text(ctx, random_text(rng),
                              rng.choice([45, 60, 80, 81, 120, 200]))
        recs += show_text(ctx, long_text(rng), 45)
        for _ in range(ctx.pick(150, 2000)):
            recs += show_items(ctx, random_items(rng),
                               rng.choice([64, 72, 80, 100, 200]))
        for _ in range(ctx.pick(25, 300)):
            recs += show_command(ctx)
    finally:
        if old is None:
            os.environ.pop('COLUMNS', None)
        else:
            os.environ['COLUMNS'] = old
    ctx.count('texts shown', len(recs))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.judge('HelpTextJudge', recs, cfg=JUDGE_CFG, batch=4000)
