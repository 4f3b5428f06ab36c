#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written head and tail, and one section for every
property from properties.jsonl, the registry and the latest evidence."""
import glob
import json
import os
import sys
import textwrap

ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, ROOT)
from harness import registry  # noqa

STRENGTHENED = set('b41 b42 b44 b49 b57 b61 b82 b96 b106 b123 b124 b125 b129 '
                   'b132 b139'.split())
extra = os.path.join(ROOT, 'tools', 'strengthened.txt')
if os.path.exists(extra):
    STRENGTHENED |= set(open(extra).read().split())


def fill(text, indent=''):
    more = indent + ('  ' if text.startswith('- ') else '')
    return textwrap.fill(' '.join(text.split()), 78, initial_indent=indent,
                         subsequent_indent=more, break_on_hyphens=False,
                         break_long_words=False)


def models(ev):
    out = {}
    for m in ev['coverage'].get('models', []):
        o = out.setdefault(m['module'], dict(n=0, max=0, checked=[]))
        o['n'] += 1
        o['max'] = max(o['max'], m['distinct'])
        for c in m.get('checked', []):
            if c not in o['checked']:
                o['checked'].append(c)
    return out


def section(p):
    pid = p['id']
    lines = ['## %s %s' % (pid, p['title']), '']
    tech, note = registry.NOTES.get(pid, ('', registry.NOT_APPLICABLE.get(
        pid, '')))
    lines += [fill('**Decided by**: ' + tech + '.'), '']
    path = os.path.join(ROOT, 'evidence', pid + '.json')
    if os.path.exists(path):
        ev = json.load(open(path))
        mods = models(ev)
        mc = [(m, o) for m, o in mods.items() if o['checked']]
        if mc:
            lines.append('- Model checked exhaustively:')
            for m, o in mc:
                lines.append(fill('  `%s.tla` (%d distinct states in the '
                                  'quick tier): %s' % (
                                      m, o['max'],
                                      ', '.join(o['checked'])), '  '))
        j = [m for m, o in mods.items() if not o['checked']]
        if j:
            lines.append(fill('- Oracle for recorded executions: ' + ', '.join(
                '`%s.tla`' % m for m in j)))
        counts = [(k, v) for k, v in ev['coverage'].items()
                  if isinstance(v, int) and k not in ('states', 'transitions')]
        lines.append(fill('- Quick tier, seed %d: %s; about %d s.' % (
            ev['seed'], ', '.join('%s %d' % (
                k.replace('_', ' '), v) for k, v in counts),
            round(ev['wall_s']))))
        for a in ev.get('assumptions', []):
            lines.append(fill('- Assumes: ' + (a if isinstance(a, str)
                                               else json.dumps(a))))
    lines.append(fill('- Binding and bounds: ' + note.replace(
        registry.BIND, '')))
    why = p.get('why_tests_cant')
    if why:
        lines.append(fill('- Why tests cannot settle it: ' + why))
    bugs = sorted(os.path.basename(d).split('-')[0] for d in glob.glob(
        os.path.join(ROOT, 'seeded', '*')) if json.load(open(
            d + '/meta.json'))['property'] == pid)
    lines.append(fill('- Planted bugs caught: ' + (', '.join(bugs) or
                                                   'none planted')))
    return '\n'.join(lines) + '\n'


def main():
    head = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
    tail = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
    props = [json.loads(x) for x in open(os.path.join(
        ROOT, 'properties.jsonl'))]
    out = head.rstrip() + '\n\n# The properties\n\n'
    out += '\n'.join(section(p) for p in props)
    rows = ['| id | property | what it breaks | needs | |', '|-|-|-|-|-|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
        m = json.load(open(d + '/meta.json'))
        b = os.path.basename(d).split('-')[0]
        rows.append('| %s | %s | %s | %s | %s |' % (
            b, m['property'], m['what_it_breaks'].replace('|', '\\|'),
            m['needs'].replace('|', '\\|'),
            'strengthened' if b in STRENGTHENED else ''))
    out += tail.rstrip() + '\n\n' + '\n'.join(rows) + '\n'
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(out)
    print(len(out.splitlines()), 'lines')


main()
