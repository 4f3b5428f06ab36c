"""C31: the text that overrides the OS (spec/Override.tla)."""
import argparse
import itertools
import json
import os

from harness import world
from harness.core import attempt, safe_str
from harness.props.config import Place

WS = [' ', '\t', '\n', '\r', '\u00a0', '\u2003', '\x0b', '\x0c']
OV_CFG = '''INIT Init
NEXT Next
CONSTANTS MaxLen=%d Ws={" "}
INVARIANTS AllTrimmed NoSeparators Given Complete
'''
# the white space characters are handed over with the records
JUDGE_CFG = 'INIT TInit\nNEXT TNext\nINVARIANT TReport\nCONSTANT Ws <- WsOfTrace\n'

PIECES = ['ubuntu', 'trusty', '12.04', 'mountain lion', 'python3', 'é', 'a',
          '', '', ':', ':', '&', '&', ',', ',', ' ', ' ', '\t', '::', '&&',
          ',,', ' : ', ' & ', ' , ', '\n', '\u00a0', '\u2003x', '\u200b',
          '"', "'", '#', '{', '[', '- ', '%s', '\\']


def chars(v):
    return list(v) if isinstance(v, str) else ['not text: %r' % (v,)]


def opt(v, conv):
    return [] if v is None else [conv(v)]


def strings(v):
    return [chars(x) for x in v] if isinstance(v, list) else [
        ['not a list: %r' % (v,)]]


def parse_rec(text):
    from xylem.config import parse_os_override
    kind, v = attempt(parse_os_override, text)
    rec = dict(op='parse', text=chars(text), error='', name=[], version=[],
               features=[])
    try:
        if kind != 'ok':
            raise ValueError(safe_str(v))
        name, version, features = v
        rec.update(name=chars(name), version=opt(version, chars),
                   features=opt(features, strings))
    except ValueError as e:
        rec['error'] = 'failed: %s' % e
    return rec


def from_api(place, rng, text, features, other):
    from xylem.config import ensure_config
    data = {'os_override': text}
    if features is not None:
        data['os_options'] = {'features': features}
    elif rng.random() < .3:
        data['os_options'] = {}
    return ensure_config(data)


def yaml_text(text):
    return json.dumps(text, ensure_ascii=True)


def load(place, argv):
    from xylem import config as C

    def run():
        parser = argparse.ArgumentParser()
        C.add_config_arguments(parser)
        C.add_global_config_arguments(parser.add_argument_group('global'))
        args = parser.parse_args(argv)
        C.handle_global_config_arguments(args)
        C.handle_config_arguments(args)
        return C.get_config()
    with world.quiet():
        return run()


def write(place, which, text, features, rng):
    lines = []
    if text is not None:
        lines.append('os_override: ' + yaml_text(text))
    if features is not None:
        lines.append('os_options: {features: [%s]}' % ', '.join(
            map(yaml_text, features)))
    if len(lines) == 2 and rng.random() < .5:
        lines.reverse()
    place.put(which, '\n'.join(lines + ['']).encode('utf-8')
              if lines else None, 'xylem')


def from_file(place, rng, text, features, other):
    which = rng.choice(['dir', 'system', 'user'])
    for w in ('dir', 'system', 'user'):
        place.put(w, None, 'xylem')
    if which == 'user':
        # the system-wide file comes after the user's
        write(place, 'system', other, None, rng)
        return finish(place, 'user', text, features, rng, [])
    return finish(place, which, text, features, rng, [])


def finish(place, which, text, features, rng, argv):
    split = features is not None and which == 'user' and rng.random() < .5
    if split:
        write(place, 'system', None, features, rng)
        features = None
    write(place, which, text, features, rng)
    base = ['--prefix', place.prefix]
    if which == 'dir':
        base += ['--xylem-dir', place.dir]
    elif which == 'system':
        base += ['--no-user-config']
    return load(place, base + argv)


def from_command(place, rng, text, features, other):
    for w in ('dir', 'system', 'user'):
        place.put(w, None, 'xylem')
    argv = ['--os=' + text]
    fs = features
    if features is not None and rng.random() < .5:
        argv.append('--os-features=' + json.dumps(
            features, ensure_ascii=False))
        fs = None
        if rng.random() < .5:
            argv.reverse()
    # the text given in a file is overruled, including its features
    return finish(place, rng.choice(['dir', 'system', 'user']), other, fs,
                  rng, argv)


def c31(ctx):
    rng = ctx.rng
    n = ctx.pick(5, 7)
    ctx.model_check('OverrideMC', OV_CFG % n, workers=4)
    texts = [''.join(t) for k in range(ctx.pick(6, 7))
             for t in itertools.product('a:&, ', repeat=k)]
    if not ctx.thorough:
        head = [t for t in texts if len(t) < 5]
        texts = head + rng.sample(texts[len(head):], 1500)
    for _ in range(ctx.pick(1000, 20000)):
        texts.append(''.join(rng.choice(PIECES)
                             for _ in range(rng.randint(1, 12))))
    recs = [parse_rec(t) for t in texts]
    ctx.count('texts parsed', len(recs))
    place = Place(ctx)
    ways = [('api', from_api), ('file', from_file), ('command', from_command)]
    for _ in range(ctx.pick(250, 4000)):
        text = rng.choice(texts)
        if '&' not in text and rng.random() < .3:
            text += '&' + rng.choice(['', ' ', 'x', ' x , y', ','])
        features = rng.choice([None, None, [], ['f'], ['f', 'g h'], ['x']])
        other = rng.choice([None, 'o', 'o:1', 'o:1&other', '&', 'o&'])
        for way, fn in ways:
            if way == 'command' and '\x00' in text:
                continue
            kind, c = attempt(fn, place, rng, text, features, other)
            rec = dict(op='config', way=way, text=chars(text), error='',
                       name=[], version=[], features=[],
                       configured=opt(features, strings), other=repr(other))
            try:
                if kind != 'ok':
                    raise ValueError(safe_str(c))
                name, version = c.os_override
                rec.update(name=chars(name), version=opt(version, chars),
                           features=opt(c.os_options.features, strings))
            except (ValueError, TypeError, AttributeError) as e:
                rec['error'] = 'failed: %s' % e
            recs.append(rec)
            ctx.count('given by ' + way)
    for w in ('dir', 'system', 'user'):
        place.put(w, None, 'xylem')
    for rec in recs[-2:] + recs[2000:2002]:
        ctx.sample(rec)
    # the white space characters of the texts, for the specification
    recs[0]['ws'] = WS
    ctx.judge('OverrideJudge', recs, cfg=JUDGE_CFG)
    ctx.assumptions += [
        'white space is what Python regards as white space; texts are '
        'composed of a fixed set of characters']
