"""C05  Class maps resolve, whatever is imported first."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from .. import docs, schema
from ..gen import cases
from ..runner import Violation, fail

RULE = ('each case is a fresh process without any module of the library: one slice per module file of the library (imported '
        'first), per package of each model (a document whose first element is a random class of it is read first), and per '
        'model (its whole class map is resolved); followed by up to 5 random further steps (imports of modules, class map '
        'lookups, reads, over all models), and in the end lookups of random classes, each of which must give the one class of '
        'that name in its model, from the package the schema puts it in. Non-trivial: at least two different modules were asked for.')
ASSUMPTIONS = ['the processes are forked from one that has imported Hypothesis and the standard library only', 'one thread']


TOP = ('CIM14', 'CIM15', 'PyCIM')
# An empty subclass of the class of the same name in OperationalLimits, which is the one that is used;
# the published schema declares it twice too.
TWICE = 'CIM14.ENTSOE.Equipment.OperationalLimit'


def modules():
    out = []
    for top in TOP:
        for d, dirs, files in os.walk(os.path.join(schema.REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('Test', '__pycache__'))
            rel = os.path.relpath(d, schema.REPO).replace(os.sep, '.')
            if '__init__.py' in files or files:
                out += [rel if f == '__init__.py' else rel + '.' + f[:-3] for f in sorted(files) if f.endswith('.py')]
    return out


_mods = []
_pyc = []     # the scratch folder


def prepare(tier):
    """Compile the library once, into a scratch folder, so that a process spends its time on imports."""
    schema.models()
    _mods[:] = modules()
    _pyc.append(tempfile.mkdtemp(prefix='pycim-c05-'))
    env = dict(os.environ, PYTHONPYCACHEPREFIX=_pyc[0])
    env.pop('PYTHONDONTWRITEBYTECODE', None)
    subprocess.run([sys.executable, '-m', 'compileall', '-q', '-j', '8'] + [os.path.join(schema.REPO, t) for t in TOP],
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def cleanup():
    for d in _pyc:
        shutil.rmtree(d, ignore_errors=True)


def jobs(tier):
    a, b = (2, 5) if tier == 'quick' else (25, 100)
    out = [(['map', n], 3 * b) for n in schema.models()]
    for n, m in schema.models().items():
        out += [(['read', n, p], b) for p in sorted(set(m.pkg.values()))]
    return out + [(['module', x], a) for x in _mods or modules()]


def strategy(job):
    names = sorted(schema.models())
    mods = _mods or modules()

    def decode(src):
        if job[0] == 'module':
            first = ['module', job[1]]
        elif job[0] == 'map':
            first = ['map', job[1]]
        else:
            m = schema.model(job[1])
            first = ['read', job[1], src.pick([n for n in m.names if m.pkg[n] == job[2]])]
        if first[0] == 'module' and src.byte() % 4 == 1:
            first.append('*')
        steps = [first]
        for _ in range(src.n(6)):
            k = src.n(4)
            m = schema.model(src.pick(names))
            if k == 0:
                steps.append(['module', src.pick(mods)])
            elif k == 1:
                steps.append(['read', m.name, src.pick(m.names)])
            elif k == 2:
                steps.append(['class', m.name, src.pick(m.names)])
            else:
                n = src.pick(m.names)
                steps.append(['module', m.pkg[n] + '.' + n] if m.pkg[n] + '.' + n in mods else ['module', m.pkg[n]])
        if job[0] == 'map' and src.flag():
            steps = steps[1:] + steps[:1]
        end = []
        for k in range(4):
            # mostly of the model that is asked for first
            m = schema.model(job[1]) if job[0] != 'module' and k % 2 else schema.model(src.pick(names))
            end.append(['class', m.name, src.pick(m.names)])
        return steps + end
    return cases(decode, 60)


def owner(module):
    """The model a module belongs to"""
    parts = module.split('.')
    return next(('.'.join(parts[:k]) for k in range(len(parts), 0, -1) if '.'.join(parts[:k]) in schema.models()), None)


def resolve(m, n, asked):
    import importlib
    top = importlib.import_module(m.name)
    if n not in top.packageMap:
        fail('the class map of %s has no %s', m.name, n)
    pkg = top.packageMap[n]
    asked.add(pkg)
    try:
        k = getattr(__import__(pkg, {}, {}, [n], 0), n)
    except (ImportError, AttributeError) as e:
        fail('%s of %s cannot be imported from %s: %s', n, m.name, pkg, e)
    if not isinstance(k, type) or k.__name__ != n or owner(k.__module__) != m.name:
        fail('%s of %s gives %r', n, m.name, k)
    if pkg != m.pkg[n] and k is not getattr(importlib.import_module(m.pkg[n]), n):
        fail('%s of %s is taken from %s, the schema has it in %s', n, m.name, pkg, m.pkg[n])
    o = k(UUID='u')
    if o.UUID != 'u':
        fail('%s of %s cannot be used: its UUID is %r', n, m.name, o.UUID)
    return k


def unique(m, n, k):
    for name, mod in list(sys.modules.items()):
        if mod is not None and owner(name) == m.name:
            x = vars(mod).get(n)
            if isinstance(x, type) and x.__name__ == n and x is not k and x.__module__ != TWICE:
                fail('%s has two classes %s: %s.%s and the one in %s', m.name, n, k.__module__, n, name)


def child(case):
    import importlib
    asked = set()
    for step in case:
        if step[0] == 'module':
            if len(step) > 2:
                exec('from %s import *' % step[1], {})
            else:
                importlib.import_module(step[1])
            asked.add(step[1])
        elif step[0] == 'class':
            m = schema.model(step[1])
            unique(m, step[2], resolve(m, step[2], asked))
        elif step[0] == 'map':
            m = schema.model(step[1])
            top = importlib.import_module(m.name)
            for n in m.names:
                unique(m, n, resolve(m, n, asked)) if n[0] in 'ATP' else resolve(m, n, asked)
            for n in top.packageMap:
                if n not in m.base and not isinstance(getattr(importlib.import_module(top.packageMap[n]), n, None), type):
                    fail('the class map of %s has %s, which cannot be imported from %s', m.name, n, top.packageMap[n])
            if top.nsURI != m.ns or top.nsPrefix != m.prefix:
                fail('%s has the namespace %r, %r, expected %r, %r', m.name, top.nsURI, top.nsPrefix, m.ns, m.prefix)
        else:
            m = schema.model(step[1])
            ns = schema.CIM_NS[schema.version(m.name)]
            doc = {'ns': ns, 'items': [{'cls': step[2], 'id': '_1', 'about': False, 'st': []}]}
            data = docs.render(doc)
            d = docs.read_bytes(data, docs.read_args(m, ns))
            asked.add('PyCIM')
            asked.add(m.pkg[step[2]])
            if list(d) != ['_1'] or type(d['_1']) is not m.py(step[2]):
                fail('reading a %s of %s gives %r', step[2], m.name, d)
    return len(asked)


def execute(job, case):
    schema.use_repo()
    if any(x.split('.')[0] in ('CIM14', 'CIM15', 'PyCIM') for x in sys.modules):
        # only in a replay of a sequence; the check itself never imports the library in this process
        raise RuntimeError('the library is already imported')
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            sys.setrecursionlimit(1000)
            sys.pycache_prefix = _pyc[0] if _pyc else None
            try:
                out = {'asked': child(case)}
            except Violation as v:
                out = {'violation': str(v)}
            except schema.Missing as e:
                out = {'violation': str(e)}
            except Exception as e:
                from ..runner import from_repo
                lib = from_repo(e.__traceback__) or isinstance(e, (TypeError, AttributeError, LookupError)) or isinstance(e, ImportError) and any(k in str(e) for k in ('CIM14', 'CIM15', 'PyCIM'))
                out = {'violation' if lib else 'error': '%s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_exc()[-600:]))}
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if status or not data:
        raise RuntimeError('the child process died: %s' % status)
    out = json.loads(data)
    if 'violation' in out:
        fail('in a fresh process, %s: %s', [s[1] if s[0] in ('module', 'map') else '%s of %s' % (s[2], s[1]) for s in case][:4], out['violation'])
    if 'error' in out:
        raise RuntimeError(out['error'])
    return out['asked'] >= 2, ['%s first' % case[0][0]] + ['then ' + s[0] for s in case[1:-4]]
