"""C32: descriptions of configurations (spec/Description.tla)."""
import argparse

from harness import world
from harness.core import attempt

DE_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxAdds=%d DoEmit=%s
INVARIANTS UniqueNames NoOverlap UniqueArgs Emit
PROPERTY Kept
'''


class Parser(argparse.ArgumentParser):

    def error(self, message):
        raise ValueError(message)


class Description(object):

    def __init__(self, rng, tried):
        from xylem import config_utils as cu
        self.cu, self.rng = cu, rng
        self.tried = sorted(tried)
        self.d = cu.ConfigDescription('test')
        self.events = []
        self.values = {}

    def add(self, a):
        cu, rng = self.cu, self.rng
        kw = {}
        if a['cl']:
            kw['command_line'] = a['cl'] == 'yes'
        if a['arg']:
            kw['command_line_argument'] = a['arg']
        if a['meta']:
            kw['command_line_metavar'] = 'META'
        typ = rng.choice([
            None, cu.String, cu.Boolean, cu.Any, cu.List(cu.String),
            cu.MergingDict(cu.Any), cu.Path])
        if typ is not None:
            kw['type'] = typ
        if rng.random() < .3:
            kw['help'] = 'some help'
        name = (a['group'] + '/' if a['group'] else '') + a['sub']
        kind, v = attempt(self.d.add, name, **kw)
        if kind == 'ok':
            types = []
            self.values[name] = \
                'true' if typ is cu.Boolean else \
                'v: w' if isinstance(typ, cu.MergingDict) else 'v'
        else:
            types = [c.__name__ for c in type(v).__mro__]
        self.events.append(dict(a, op='add', types=types, **self.observe()))

    def observe(self):
        d = self.d
        names = [i.name for i in d.itemlist]
        same = all(d.items.get(i.name) is i for i in d.itemlist)
        groups = []
        for g, subs in d.groups.items():
            for s, i in subs.items():
                groups.append([g, s])
                same = same and any(i is j for j in d.itemlist) and \
                    i.name == g + '/' + s
        args = []
        for arg, i in d.command_line_arguments.items():
            args.append([arg, i.name])
            same = same and d.items.get(i.name) is i
        known = []
        kind, parser = attempt(self.parser)
        if kind != 'ok':
            known.append('no parser: %s' % parser)
        else:
            for arg in self.tried:
                known += self.effect(parser, arg)
        return dict(list=names, items=list(d.items), same=same, groups=groups,
                    groupnames=list(d.groups), args=args, known=known,
                    tried=self.tried)

    def effect(self, parser, arg):
        """The items which the argument sets, as pairs."""
        item = self.d.command_line_arguments.get(arg)
        value = self.values.get(item.name if item else '', 'v')
        kind, ns = attempt(parser.parse_args, ['--%s=%s' % (arg, value)])
        if kind != 'ok':
            return []
        kind, cfg = attempt(self.cu.config_from_args, ns, self.d)
        if kind != 'ok':
            return [[arg, 'failure: %r' % cfg]]
        res = []
        for i in self.d.itemlist:
            v = cfg
            for part in self.cu.split_group(i.name):
                v = v[part]
            if not i.type.is_unset(v):
                res.append([arg, i.name])
        return res or [[arg, 'nothing']]

    def parser(self):
        p = Parser(add_help=False, allow_abbrev=False)
        self.d.add_arguments(p)
        return p


def arg_names(adds):
    res = set()
    for a in adds:
        name = (a['group'] + '/' if a['group'] else '') + a['sub']
        res.add(name.replace('_', '-').replace('/', '-'))
        if a['arg']:
            res.add(a['arg'][2:] if a['arg'].startswith('--') else a['arg'])
    return res


def random_add(rng, tops, subs):
    group = rng.choice(['', '', rng.choice(tops)])
    if group and rng.random() < .25:
        group += '/' + rng.choice(subs)
    return dict(
        group=group, sub=rng.choice(subs if group else tops),
        cl=rng.choice(['', '', '', 'yes', 'yes', 'no']),
        arg=rng.choice(['', '', '', rng.choice(tops).replace('_', '-'),
                        '--' + rng.choice(tops).replace('_', '-'), 'a-b',
                        'own', '--own', 'other-arg', 'other_arg', 'a_b',
                        'os/x', '--a/b', 'other/arg', 'A-B', 'OWN',
                        '--Other-Arg']),
        meta=rng.random() < .2)


def c32(ctx):
    if ctx.thorough:
        ctx.model_check('DescriptionMC', DE_CFG % (3, 'FALSE'), workers=8)
    r = ctx.model_check('DescriptionMC', DE_CFG % (ctx.pick(2, 3), 'TRUE'))
    rng = ctx.rng
    progs = r.emitted
    k = ctx.pick(600, 8000)
    if len(progs) > k:
        progs = rng.sample(progs, k)
    ctx.count('sequences enumerated', len(r.emitted))
    ctx.count('sequences replayed', len(progs))
    for _ in range(ctx.pick(250, 3000)):
        n = rng.choice([2, 4, 8])
        tops = rng.sample(['a', 'b', 'a_b', 'long_name', 'x', 'os', 'os_x',
                           'p', 'dis_p', 'é'], n)
        subs = rng.sample(['a', 'b', 'x', 'os', 'c_d', 'p', 'long_name'],
                          min(n, 4))
        progs.append([random_add(rng, tops, subs)
                      for _ in range(rng.randint(2, 14))])
        ctx.count('random sequences')
    traces = []
    with world.quiet():
        for prog in progs:
            d = Description(rng, arg_names(prog) | {'unknown', 'a', 'a-b'})
            for a in prog:
                d.add(a)
            traces.append(dict(events=d.events))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    ctx.validate('DescriptionTrace', traces)
    ctx.assumptions += [
        'names do not start or end with a slash; empty argument names are not '
        'generated']
