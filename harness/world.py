"""Building blocks: OS plugins, installers, specs and contexts of a test world,
made from the public base classes of xylem."""
import contextlib
import copy
import io
import json
import os

import yaml


def config(**kw):
    from xylem.config import ensure_config
    return ensure_config(dict(kw))


def make_os(name, versions, names=None, default='apt', core=None,
            detects=None, version=None, mapping=None, undetected=None):
    """An OS plugin object.  detects: None or a callable/bool for is_os."""
    from xylem.os_support import OSBase, UnsupportedOSError
    undetected = undetected or UnsupportedOSError

    class WorldOS(OSBase):
        def __init__(self):
            super(WorldOS, self).__init__()

        @property
        def all_names(self):
            return list(names or [name])

        def get_version(self):
            v = version() if callable(version) else version
            if v is None:
                raise undetected('cannot detect version')
            return v

        def get_all_tuples(self, v):
            return [(n, v if i == 0 else None)
                    for i, n in enumerate(self.all_names)]

        def get_core_installers(self, v, options):
            if callable(core):
                return core(v, options)
            return list(core if core is not None else [default])

        @property
        def default_installer(self):
            return default

        @property
        def known_versions(self):
            return list(versions)

        def is_os(self):
            d = detects() if callable(detects) else detects
            return bool(d)
    return WorldOS()


def os_support(oses, current=None):
    from xylem.os_support import OSSupport
    sup = OSSupport()
    sup.os_plugins = list(oses)
    if current is not None:
        sup.override_os(current)
    return sup


def make_ic(cfg, oses, current, installers=None, setup=True):
    from xylem.installers import InstallerContext
    ic = InstallerContext(cfg, os_support=os_support(oses, current),
                          setup_installers=False)
    if installers is not None:
        ic.installer_plugins = list(installers)
    if setup:
        ic.setup_installers()
    return ic


def make_installer(name, **kw):
    """Installer whose behaviour is given by callables in kw."""
    from xylem.installers import InstallerBase

    class WorldInstaller(InstallerBase):
        def __init__(self):
            super(WorldInstaller, self).__init__()
            for n, t, d in kw.get('rule_items', ()):
                self.installer_rule_description.add(n, type=t, default=d)
            for n, t, d in kw.get('option_items', ()):
                self.options_description.add(n, type=t, default=d)
            if 'as_root' in kw:
                self.options_description.items['as_root'].default = \
                    kw['as_root']

        @property
        def name(self):
            return name

        def use_as_additional_installer(self, os_tuple):
            f = kw.get('additional')
            return f(os_tuple) if callable(f) else bool(f)

        def filter_uninstalled(self, resolved):
            f = kw.get('filter_uninstalled')
            return f(resolved) if f else list(resolved)

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            f = kw.get('commands')
            if f:
                return f(resolved, interactive, reinstall)
            return [['install', r.package] for r in resolved]

        def check_general_prerequisites(self, os_tuple, fix_unsatisfied=False,
                                        interactive=True):
            f = kw.get('general')
            if f:
                f(os_tuple, fix_unsatisfied, interactive)

        def check_install_prerequisites(self, resolved, os_tuple,
                                        fix_unsatisfied=False,
                                        interactive=True):
            f = kw.get('install_pre')
            if f:
                f(resolved, os_tuple, fix_unsatisfied, interactive)
    return WorldInstaller()


def make_spec(name, table, on_load=None):
    """A rules spec whose data comes from table[arguments]."""
    from xylem.specs.plugins.rules import RulesSpec

    class MemSpec(RulesSpec):
        @property
        def name(self):
            return name

        def load_data(self, arguments):
            if on_load:
                on_load(arguments)
            v = table[arguments]
            return v(arguments) if callable(v) else copy.deepcopy(v)
    return MemSpec()


def write_sources(path, entries, fname='10-test.yaml'):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, fname), 'w') as f:
        yaml.safe_dump(entries, f, default_flow_style=False,
                       allow_unicode=True)


def make_db(ctx, dbs, load=True, via='mem'):
    """RulesDatabase whose prioritised sources hold the given rules dicts."""
    from xylem.sources import RulesDatabase, SourcesContext
    d = ctx.tmp()
    sources = os.path.join(d, 'sources.d')
    if via == 'mem':
        table = {'src%d' % i: r for i, r in enumerate(dbs)}
        specs = [make_spec('mem', table)]
        entries = [{'mem': 'src%d' % i} for i in range(len(dbs))]
    else:
        specs = None
        entries = []
        for i, r in enumerate(dbs):
            p = os.path.join(d, 'rules%d.yaml' % i)
            with open(p, 'w') as f:
                f.write(json.dumps(r))
            entries.append({'rules': 'file://' + p})
    write_sources(sources, entries)
    cfg = config(sources_dir=sources, cache_dir=os.path.join(d, 'cache'))
    sc = SourcesContext(cfg, spec_plugins=specs)
    db = RulesDatabase(sc)
    if load:
        db.load_from_source()
    return db


@contextlib.contextmanager
def quiet():
    """Silence what the code prints (it is not part of the observation)."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def recorded_commands(run):
    """Commands are not run: run(cmd) is called and gives the exit code."""
    import subprocess

    class Popen(object):
        def __init__(self, args, *_, **__):
            cmd = args.split() if isinstance(args, str) else list(args)
            code = run(cmd)
            self.args, self.returncode, self.pid = args, code, 0
            self.stdout = self.stderr = self.stdin = None

        def wait(self, timeout=None):
            return self.returncode

        poll = wait

        def communicate(self, *_, **__):
            return b'', b''

        def kill(self):
            pass

        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *_):
            pass
    saved = subprocess.Popen, os.system
    subprocess.Popen = Popen
    os.system = lambda c: Popen(c).returncode
    try:
        yield
    finally:
        subprocess.Popen, os.system = saved
