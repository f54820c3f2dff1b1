"""click for the command line under symbolic execution: a private copy of the installed package whose numbers may be
symbolic (printed as markers in the arguments) and whose paths are those of the model of the file system."""
import contextlib
import importlib
import sys

_mods = {}


@contextlib.contextmanager
def active():
    """the private copy is what is imported"""
    if 'click' in _mods and sys.modules.get('click') is _mods['click']:
        yield
        return
    old = dict((n, m) for n, m in sys.modules.items() if n.split('.')[0] == 'click')
    for n in old:
        del sys.modules[n]
    first = not _mods
    sys.modules.update(_mods)
    try:
        if first:
            importlib.import_module('click')
            importlib.import_module('click.types')
            _mods.update((n, m) for n, m in sys.modules.items() if n.split('.')[0] == 'click')
            _patch(_mods['click.types'])
        yield
    finally:
        for n in [n for n in sys.modules if n.split('.')[0] == 'click']:
            _mods[n] = sys.modules.pop(n)
        sys.modules.update(old)


def _patch(t):
    from . import loader
    t.IntParamType._number_class = loader.sxint
    t.FloatParamType._number_class = loader.sxfloat
    real = t.Path.convert

    def convert(self, value, param, ctx):
        from . import fs
        if getattr(self, 'type', None) not in (None, str) or self.resolve_path or value == '-':
            from . import core
            core.ENGINE.unsupported('click.Path')
        p = fs.FS().norm(str(value))
        is_file, is_dir = p in fs.FS().files, p in fs.FS().dirs
        if not is_file and not is_dir:
            if self.exists:
                self.fail('%s %r does not exist.' % (self.name, value), param, ctx)
        elif is_file and not self.file_okay or is_dir and not self.dir_okay:
            self.fail('%s %r is not allowed.' % (self.name, value), param, ctx)
        return value
    t.Path.convert = convert
    t.File.convert = lambda *a, **k: _unsup('click.File')
    t.DateTime.convert = lambda *a, **k: _unsup('click.DateTime')


def _unsup(what):
    from . import core
    core.ENGINE.unsupported(what)


def make_module():
    with active():
        return sys.modules['click']
