"""C16  Writing is pure and independent of target and encoding."""
import io
import json
import os
import pathlib
import subprocess
import sys
import tempfile

from .. import schema
from ..docs import ODD
from ..gen import cases
from ..graphs import Graph, gen_graph, large_graph, parse
from ..runner import fail

RULE = ('slices per model: two graphs (of this and another model, all kinds of links and text), or one of 30-500 objects, are written 3-8 times, '
        'interleaved, to text objects (also ones that hold text already or have only a write method), new and existing paths and opened files, in utf-8, us-ascii, iso-8859-1 or another encoding that XML parsers know; after '
        'every write all features of all objects, the dictionary and its order are as before; equal encodings give equal '
        'documents on every target, different ones the same XML content; some cases run in a process with an ASCII locale, and some in two processes with different hash '
        'seeds. Non-trivial: a graph was written to two kinds of target or in two encodings.')
ASSUMPTIONS = ['text file objects accept str', 'values are XML-representable']
ENC = ['utf-8', 'us-ascii', 'iso-8859-1', 'utf-8', 'us-ascii', 'iso-8859-1', 'windows-1252', 'utf-16', 'koi8-r', 'UTF-8', 'US-ASCII']


HEAD, TAIL = 'what was there before\n', '\nwhat comes behind'


class WriteOnly:
    """The least that a target must offer"""

    def __init__(self):
        self.out = []

    def write(self, s):
        self.out.append(s)


def behind(s, when):
    if not s.startswith(HEAD):
        fail('%s changes what the file held before: %r', when, s[:600])
    return s[len(HEAD):]


def jobs(tier):
    k = 280 if tier == 'quick' else 1500
    names = sorted(schema.models())
    out = [(['ascii-locale', 'CIM15'], 10 if tier == 'quick' else 60), (['ascii-locale', 'CIM14'], 10 if tier == 'quick' else 60)]
    out += [(['large', n], k // 10) for n in names]
    out += [(['hash-seed', n], 4 if tier == 'quick' else 30) for n in ('CIM15', 'CIM14')]
    for i, n in enumerate(names):
        out += [([n, names[(i + 3) % len(names)], p], k) for p in range(1 + len(schema.model(n).names) // 70)]
    return out


def strategy(job):
    ms = [schema.model(job[1])] if job[0] in ('ascii-locale', 'large', 'hash-seed') else [schema.model(job[0]), schema.model(job[1])]

    def decode(src):
        writes = [[src.n(len(ms)), src.pick(['text', 'path', 'pathlib', 'file', 'existing', 'text', 'path', 'behind text', 'appended', 'write only', 'odd path', 'relative']), src.pick(ENC)] for _ in range(3 + src.n(6))]
        gs = [large_graph(src, m, all_links=True, any_keys=True) for m in ms] if job[0] == 'large' else [gen_graph(src, m, [src.pick(m.names) for _ in range(3)], 1 + src.n(4), links=5, all_links=True, any_keys=True) for m in ms]
        return {'models': [m.name for m in ms], 'graphs': gs, 'writes': writes}
    return cases(decode, 40 if job[0] == 'large' else 360)


def execute(job, case):
    if job[0] == 'ascii-locale' and not os.environ.get('PBT_ASCII_LOCALE'):
        env = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k != 'LANG'}
        env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PBT_ASCII_LOCALE='1', PYTHONIOENCODING='utf-8')
        with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
            json.dump({'job': job, 'case': case}, f)
            f.flush()
            p = subprocess.run([sys.executable, '-B', '-m', 'pbt.runner', 'C16', '--replay', f.name], cwd=schema.HERE, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, encoding='utf-8')
        if p.returncode == 1 and 'reproduced: ' in p.stdout:
            fail('with an ASCII locale: %s', p.stdout.split('reproduced: ')[1].split('\nVIOLATION')[0])
        if p.returncode:
            raise RuntimeError(p.stderr)
        return True, ['process with an ASCII locale']
    if job[0] == 'hash-seed' and not os.environ.get('PBT_TEXTS'):
        got = []
        for seed in ('1', '2'):
            with tempfile.TemporaryDirectory() as t:
                p, o = os.path.join(t, 'case.json'), os.path.join(t, 'texts.json')
                with open(p, 'w') as f:
                    json.dump({'job': job, 'case': case}, f)
                p = subprocess.run([sys.executable, '-B', '-m', 'pbt.runner', 'C16', '--replay', p], cwd=schema.HERE,
                                   env=dict(os.environ, PYTHONHASHSEED=seed, PBT_TEXTS=o, PYTHONIOENCODING='utf-8'),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, encoding='utf-8')
                if p.returncode == 1 and 'reproduced: ' in p.stdout:
                    fail('%s', p.stdout.split('reproduced: ')[1].split('\nVIOLATION')[0])
                if p.returncode:
                    raise RuntimeError(p.stderr)
                with open(o) as f:
                    got.append(json.load(f))
        for a, b in zip(*got):
            if a != b:
                fail('two processes write different documents for the same model: %r and %r', a[2][:600], b[2][:600])
        return True, ['two processes']
    schema.use_repo()
    from PyCIM import cimwrite
    graphs = [Graph(schema.model(n), g) for n, g in zip(case['models'], case['graphs'])]
    before = [g.snapshot() for g in graphs]
    texts, trees, kinds, labels = {}, {}, {}, set()
    with tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as tmp:
        for n, (k, target, enc) in enumerate(case['writes']):
            d = graphs[k].d
            when = 'write %d (%s, %s)' % (n + 1, target, enc)
            if target in ('text', 'behind text'):
                f = io.StringIO()
                f.write(HEAD if target == 'behind text' else '')
                cimwrite(d, f, enc)
                if f.closed:
                    fail('%s closed the file object', when)
                f.write(TAIL)
                s = f.getvalue()
                if not s.endswith(TAIL):
                    fail('%s leaves the file object at another place than the end: %r', when, s[:600])
                s = s[:-len(TAIL)]
                if target == 'behind text':
                    s = behind(s, when)
            elif target == 'write only':
                f = WriteOnly()
                cimwrite(d, f, enc)
                s = ''.join(f.out)
            elif target == 'appended':
                p = os.path.join(tmp, '%d.xml' % n)
                with open(p, 'w', encoding=enc, newline='\n') as f:
                    f.write(HEAD)
                with open(p, 'a', encoding=enc, newline='\n') as f:
                    cimwrite(d, f, enc)
                    if f.closed:
                        fail('%s closed the file object', when)
                with open(p, encoding=enc, newline='') as f:
                    s = behind(f.read(), when)
            else:
                p = os.path.join(tmp, '%d.xml' % n)
                if target == 'existing':
                    p = os.path.join(tmp, 'same.xml')
                elif target == 'odd path':
                    p = os.path.join(tmp, ODD)
                elif target == 'relative':
                    p = os.path.relpath(p)
                    with open(p, 'a') as f:
                        f.write('<old>content</old>' * 2000)
                if target == 'file':
                    with open(p, 'w', encoding=enc, newline='\n') as f:
                        cimwrite(d, f, enc)
                else:
                    cimwrite(d, pathlib.Path(p) if target == 'pathlib' else p, enc)
                with open(p, 'rb') as f:
                    raw = f.read()
                try:
                    s = raw.decode(enc)
                except UnicodeDecodeError as e:
                    fail('%s: the file is not %s: %s', when, enc, e)
                root = check_parse(raw, when)
                if (k in trees) and not root.same(trees[k]):
                    fail('%s: the file parses to other content than an earlier document', when)
            if enc.lower() == 'us-ascii' and not s.isascii():
                fail('%s is not pure ASCII', when)
            if texts.setdefault((k, enc), s) != s:
                fail('%s differs from an earlier document of the same model in %s: %r and %r', when, enc, s[:300], texts[k, enc][:300])
            root = check_parse(s.encode(enc), when)
            if not trees.setdefault(k, root).same(root):
                fail('%s has other content than an earlier document of the model', when)
            for g, b in zip(graphs, before):
                if g.snapshot() != b:
                    fail('%s changed the model', when)
            kinds.setdefault(k, set()).add((target, enc))
            labels |= {target, enc}
    if os.environ.get('PBT_TEXTS'):
        with open(os.environ['PBT_TEXTS'], 'w') as f:
            json.dump([[k, e, s] for (k, e), s in texts.items()], f)
    return any(len(x) > 1 for x in kinds.values()), sorted(labels)


def check_parse(raw, when):
    import xml.parsers.expat
    try:
        return parse(raw)
    except xml.parsers.expat.ExpatError as e:
        fail('%s is not well-formed: %s: %r', when, e, raw[:600])
