"""C38: helpers for texts, bytes, lists and programs."""
import os

from harness.core import attempt

MC_CFG = '''
CONSTANTS MaxBytes = %d MaxChars = %d
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Proper
INVARIANT Apart
INVARIANT Indents
INVARIANT Uniques
'''
JUDGE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\n'
BYTES = [65, 10, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224,
         226, 237, 239, 240, 241, 244, 245, 255]


def cps(s):
    return [ord(c) for c in s] if isinstance(s, str) else \
        ['(%r)' % type(s).__name__]


def listed(b):
    return list(b) if isinstance(b, bytes) else ['(%r)' % type(b).__name__]


def record(op, f, **kw):
    rec = dict(kw, op=op, got=[], error='')
    kind, res = attempt(f)
    if kind == 'ok':
        rec['got'] = res
    else:
        rec['error'] = 'hung' if kind == 'hang' else '%s: %s' % (
            type(res).__name__, ascii(str(res)))
    return rec


def random_bytes(rng):
    r = rng.random()
    if r < .4:
        return bytes(rng.choice(BYTES) for _ in range(rng.randint(0, 8)))
    if r < .7:
        return bytes(rng.randrange(256) for _ in range(rng.randint(0, 12)))
    b = bytearray(random_text(rng).encode('utf-8'))
    for _ in range(rng.randint(0, 2)):
        if b:
            b[rng.randrange(len(b))] = rng.randrange(256)
    return bytes(b)


def random_text(rng):
    res = []
    for _ in range(rng.randint(0, 8)):
        c = rng.choice([10, 32, 65, 97, 123, 0, 127, 128, 233, 2047, 2048,
                        8232, 55295, 57344, 65533, 65535, 65536, 128512,
                        1114111, rng.randrange(32, 256)])
        res.append(chr(c))
    return ''.join(res)


class SomeError(Exception):
    pass


class Thing(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    class Inner(object):
        pass


def objects(rng):
    """An object and its description for the specification."""
    r = rng.randrange(7)
    if r == 0:
        s = random_text(rng)
        if rng.random() < .2:
            # half of a pair, as a surrogate escape leaves it
            s += rng.choice(['\ud800', '\udc80', '\udfff', '\udbff'])
            s += random_text(rng)
        return s, dict(kind='text', text=cps(s))
    if r == 1:
        b = random_bytes(rng)
        return b, dict(kind='bytes', bytes=list(b))
    if r == 2:
        t = rng.choice([int, str, Thing, SomeError, type, Thing.Inner])
        return t, dict(kind='type', text=cps(t.__name__))
    if r == 3:
        e = rng.choice([ValueError, OSError, RuntimeError, SomeError])
        s = ''.join(c for c in random_text(rng)
                    if c == '\n' or c.isprintable())
        s += rng.choice(['', '', ' ', '\n', ' \n'])
        name = e.__name__ if e.__module__ == 'builtins' else \
            '%s.%s' % (e.__module__, e.__qualname__)
        return (e(s) if s or rng.random() < .5 else e()), dict(
            kind='error', name=cps(name), text=cps(s))
    if r == 4:
        ts = [random_text(rng) for _ in range(rng.randint(0, 3))]
        return ts, dict(kind='texts', texts=[cps(t) for t in ts])
    if r == 5:
        o = rng.choice([None, True, 7, -1, 1.5, (), ('a', 1), {'a': 1},
                        [1], ['a', 1], frozenset()])
        return o, dict(kind='other', text=cps(str(o)))
    s = random_text(rng)
    return Thing(s), dict(kind='other', text=cps(s))


def pairs(text):
    """The two characters that the text repeats, and how often."""
    n = len(text) // 2
    if n and text == text[:2] * n:
        return [cps(text[:2]), n]
    return [cps(text[:100]), 0 if not text else -1]


class Programs(object):
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.d = ctx.tmp()
        self.n = 0

    def make(self, out=b'', err=b'', code=0, kind='script'):
        """Writes a program; returns how to call it and its description."""
        rng = self.rng
        self.n += 1
        path = os.path.join(self.d, 'p%d' % self.n)
        runs = True
        if kind == 'script':
            for n, b in (('out', out), ('err', err)):
                with open('%s.%s' % (path, n), 'wb') as f:
                    f.write(b)
            with open(path, 'w') as f:
                lines = ['cat %s.out' % path, 'cat %s.err >&2' % path]
                rng.shuffle(lines)
                f.write('#!/bin/sh\n%s\nexit %d\n' % ('\n'.join(lines), code))
            os.chmod(path, 0o755)
        elif kind == 'not executable':
            with open(path, 'w') as f:
                f.write('#!/bin/sh\n')
            os.chmod(path, 0o644)
            runs = False
        elif kind == 'directory':
            os.makedirs(path)
            runs = False
        elif kind == 'missing':
            runs = False
        elif kind == 'no interpreter':
            with open(path, 'w') as f:
                f.write('#!%s/nosuch\n' % self.d)
            os.chmod(path, 0o755)
            runs = False
        return path, dict(runs=runs, out=list(out), err=list(err), code=code)


def c38(ctx):
    from xylem import util
    from xylem.text_utils import to_str, to_bytes
    rng = ctx.rng
    ctx.model_check('TextsMC', MC_CFG % ctx.pick((3, 3), (4, 4)), workers=4)
    recs = []
    many = False
    for _ in range(ctx.pick(2000, 40000)):
        o, d = objects(rng)
        recs.append(record('text', lambda: cps(to_str(o)), o=d))
        if d['kind'] in ('text', 'bytes') or (
                d['kind'] == 'other' and not isinstance(o, (list, dict))):
            recs.append(record('bytes', lambda: listed(to_bytes(o)), o=d))
        if d['kind'] == 'bytes':
            recs.append(record('latin', lambda: cps(rng.choice([
                lambda: to_str(o, 'latin-1'),
                lambda: to_str(o, encoding='latin-1')])()), o=d))
    short = [bytes([a, b]) for a in BYTES for b in BYTES]
    short += [bytes([a, b, c]) for a in BYTES for b in BYTES for c in BYTES]
    for b in rng.sample(short, ctx.pick(1500, len(short))):
        recs.append(record('text', lambda: cps(to_str(b)),
                           o=dict(kind='bytes', bytes=list(b))))
    for _ in range(ctx.pick(800, 10000)):
        s = ''.join(rng.choice(['a', '\n', '\n', ' ', 'bc', '\xe9', '\t'])
                    for _ in range(rng.randint(0, 8)))
        w, c, x = rng.randint(0, 4), rng.choice([' ', '\t', '> ', 'x', '']), \
            rng.random() < .5
        kw = {}
        if c != ' ' or rng.random() < .3:
            kw['character'] = c
        if x or rng.random() < .3:
            kw['exclude_first'] = x
        recs.append(record('indent', lambda: cps(util.indent(s, w, **kw)),
                           text=cps(s), width=w, by=cps(c), exclude=x))
        few = rng.choice(['abcde', 'ab', 'abcdefghijklmnopqrst'])
        items = [rng.choice(few) for _ in range(
            rng.randint(0, rng.choice([3, 9, 40])))]
        if not many:
            many = True
            items = [str(k % 1100) for k in range(1300)]
        before = list(items)
        given = rng.choice([items, tuple(items)])
        rec = record('unique', lambda: list(util.remove_duplicates(given)),
                     items=before)
        if list(given) != before:
            rec['error'] = 'the items were changed'
        recs.append(rec)
    progs = Programs(ctx)
    path = os.environ['PATH']
    for n in range(ctx.pick(150, 1500)):
        out, err = random_bytes(rng), random_bytes(rng)
        if rng.random() < .2:
            # lines may end in any way, also the last one
            out, err = (b''.join(rng.choice(
                [b'a', b'\r\n', b'\n', b'\r', b' ', b'\0', b'\x1b[0m'])
                for _ in range(rng.randint(0, 7))) for _ in range(2))
        # more than a pipe holds
        if n % 20 == 3:
            err = b'e' * 200000
        big = len(err) > 1000
        p, d = progs.make(out, err, rng.choice([0, 0, 1, 3, 127, 255]))
        if rng.random() < .5:
            name = os.path.basename(p)
            os.environ['PATH'] = progs.d + os.pathsep + path
        else:
            name = p
        try:
            cmd = [name] if rng.random() < .7 else ['sh', p]
            recs.append(record('stdout', lambda: cps(util.read_stdout(cmd)),
                               p=dict(d, err=d['err'][:1000])))
            if not big:
                recs.append(record('run', lambda: (
                    lambda o, e, c: [cps(o), cps(e), c])(
                        *util.read_stdout_err(cmd)), p=d))
            if n % 3 == 0:
                recs.append(record('installed', lambda: bool(
                    util.is_program_installed(name)), p=d))
        finally:
            os.environ['PATH'] = path
    # more than a pipe holds, on either or both: two characters repeated
    unit = 'x\xe9'.encode('utf-8')
    for n in range(ctx.pick(8, 60)):
        few, many = rng.randint(0, 3), rng.randint(50000, 120000)
        t_out, t_err = rng.choice([(many, few), (few, many), (many, many)])
        p, d = progs.make(unit * t_out, unit * t_err, rng.choice([0, 1]))
        d.update(out=list(unit), err=list(unit), t_out=t_out, t_err=t_err)
        recs.append(record('bulk', lambda: pairs(util.read_stdout([p])),
                           p=d))
        recs.append(record('bulkrun', lambda: (
            lambda o, e, c: [pairs(o), pairs(e), c])(
                *util.read_stdout_err([p])), p=d))
    for kind in ('not executable', 'directory', 'missing', 'no interpreter'):
        for _ in range(3):
            p, d = progs.make(kind=kind)
            recs.append(record('installed', lambda: bool(
                util.is_program_installed(p)), p=d))
    p, d = progs.make(kind='missing')
    recs.append(record('installed', lambda: bool(
        util.is_program_installed(os.path.basename(p))), p=d))
    ctx.count('records', len(recs))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.judge('TextsJudge', recs, cfg=JUDGE_CFG, batch=5000)
    ctx.assumptions += ['texts contain no lone surrogates',
                        'errors of one line or more whose last line is not '
                        'empty']
