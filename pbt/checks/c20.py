"""C20  Damaged input and failing sources or targets are reported."""
import gzip
import io
import os
import resource
import tempfile
import xml.etree.ElementTree as ET

from .. import docs, schema
from ..gen import cases, stretch
from ..graphs import Graph, gen_graph, large_graph
from ..runner import fail

RULE = ('slices per model: (damage) a rendered document, cut off anywhere or with bytes dropped, repeated or inserted, from every kind of '
        'source, also as a gzip file that is cut off, with or without a starting dictionary; (source) a file object that hands '
        'out short pieces and fails (with one of several types of exception), or is cut off, at the n-th read of either pass; (target) a text object that fails in '
        'the same ways at the n-th write (from the start or the end) or at the flush, a file that may not grow beyond n bytes, a path that cannot be opened; (pretty) the pretty-printer on damaged '
        'documents and failing sources. Each must end in an exception; then the objects involved are compared with '
        'snapshots, and the intact document is read, or the model written, as if nothing had happened. '
        'Non-trivial: the damage made the document ill-formed (according to expat), or the failure happened.')
ASSUMPTIONS = ['well-formedness is what expat says', 'the type of the exception is not checked']
JUNK = ['<', '&', '>', '</', '</cim:X>', '<cim:X>', '"', '<!--', ']]>', '\x00', '\x01', '&nope;', '<a:b/>', '<?xml?>', '=', 'rdf:ID="x"', '<![CDATA[', '\ufffe', 'x']


class Broken(Exception):
    """An error that the code cannot know"""


class Interrupted(BaseException):
    """Something like KeyboardInterrupt"""


# What a file object may raise: a failing disk, a closed file, a decoder, a socket, a decompressor, a signal handler
ERRORS = [lambda: OSError(5, 'Input/output error'), lambda: ValueError('I/O operation on closed file'), lambda: Broken('it broke'), lambda: OSError(28, 'No space left on device'),
          lambda: RuntimeError('cannot go on'), lambda: EOFError('the stream ended early'), lambda: TimeoutError('timed out'), lambda: Interrupted('stop'),
          lambda: KeyError('block 7'), lambda: IndexError('block 7'), lambda: AssertionError('block 7'), lambda: MemoryError()]      # no TypeError: code may try out whether a target takes text or bytes


def jobs(tier):
    k = 180 if tier == 'quick' else 1500
    return [([n, kind], k * w) for n in sorted(schema.models()) for kind, w in (('damage', 3), ('source', 2), ('target', 4), ('pretty', 1))]


def strategy(job):
    m = schema.model(job[0])

    def damage(src):
        return [src.pick(['cut', 'cut', 'drop', 'again', 'put', 'put']), src.n(65536), 1 + src.n(40), src.pick(JUNK)]

    def decode(src):
        if job[1] == 'target':
            how = src.pick([['write', 1 + src.n(256)], ['write', 1 + src.n(8)], ['write', -src.n(8)], ['flush'], ['size', src.n(65536)], ['no folder'], ['folder']])
            big = src.byte() % 5 == 1
            g = large_graph(src, m) if big else gen_graph(src, m, [src.pick(m.names) for _ in range(3)], 1 + src.n(6), links=5)
            return {'graph': g, 'how': how, 'error': src.n(len(ERRORS)), 'enc': src.pick(['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'])}
        case = {'damage': damage(src), 'kind': src.pick(docs.Source.FILES + ('cut gzip',)), 'at': 1 + src.n(100), 'piece': (7, 60, 500, 5000)[src.n(4)], 'ends': src.byte() % 3 == 1}
        case['error'] = src.n(len(ERRORS))
        start = src.n(3)
        style = docs.gen_style(src)
        if src.byte() % 6 == 1:
            doc = docs.large_doc(src, m)
            case['at'] *= 1 + src.n(20)
            src = stretch(src, 2000)
        else:
            doc = docs.gen_doc(src, m, [src.pick(m.names) for _ in range(3)], 1 + src.n(5), attrs=3, links=4)
        case.update(doc=doc, style=style if start != 2 else docs.PLAIN, start=[[src.n(4) for _ in it['st']] for it in doc['items']] if start else None)
        return case
    return cases(decode, 300)


def damaged(data, how):
    op, where, size, junk = how
    p = where % (len(data) + 1)
    if op == 'cut':
        return data[:p]
    if op == 'drop':
        return data[:p] + data[p + size:]
    if op == 'again':
        return data[:p] + data[p:p + size] * 2 + data[p + size:]
    return data[:p] + junk.encode('utf-8', 'surrogatepass') + data[p:]


def well_formed(data):
    try:
        ET.fromstring(data)
        return True
    except (ET.ParseError, ValueError, LookupError):
        return False


class Failing(io.RawIOBase):
    """A file object that hands out short pieces and fails, or is cut off, at one of its reads"""

    def __init__(self, data, piece, at, ends=False, error=0):
        self.error, self.f, self.piece, self.at, self.count, self.hit, self.data, self.ends = error, io.BytesIO(data), piece, at, 0, False, data, ends

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def read(self, n=-1):
        self.count += 1
        if self.count == self.at and self.ends:
            p = self.f.tell()
            self.hit = not well_formed(self.data[:p])
            self.f = io.BytesIO(self.data[:p])
            self.f.seek(p)
        elif self.count == self.at:
            self.hit = True
            raise ERRORS[self.error]()
        return self.f.read(self.piece if n is None or n < 0 or n > self.piece else n) if n is not None and n >= 0 else self.f.read()

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class FailingText(io.TextIOBase):
    def __init__(self, at, error=0):
        self.at, self.error, self.count, self.hit, self.out = at, error, 0, False, []

    def writable(self):
        return True

    def write(self, s):
        self.count += 1
        if self.count == self.at:
            self.hit = True
            raise ERRORS[self.error]()
        self.out.append(s)
        return len(s)

    def flush(self):
        if self.at == 'flush':
            self.hit = True
            raise ERRORS[self.error]()


def snapshot(m, objs):
    out = []
    for cls, o in objs:
        row = [id(o), o.UUID]
        row += [(n, type(getattr(o, n)), repr(getattr(o, n))) for n in m.attrs(cls)]
        for n in m.refs(cls):
            v = getattr(o, n)
            row.append((n, [id(x) for x in v] if isinstance(v, list) else id(v)))
        out.append(row)
    return out


def execute(job, case):
    m = schema.model(job[0])
    return (target if job[1] == 'target' else source)(m, job[1], case)


def source(m, kind, case):
    schema.use_repo()
    from PyCIM.PrettyPrintXML import xmlpp
    data, labels = docs.render(case['doc'], case['style']), set()
    args = docs.read_args(m, case['doc']['ns'])
    good = docs.Expected(m).read(case['doc'])
    start, before, first = None, None, None
    if case['start']:       # objects known before, to which the document adds
        first = dict(case['doc'], items=[dict(it, st=[s for s, k in zip(it['st'], ks) if k == 1]) for it, ks in zip(case['doc']['items'], case['start']) if len(ks) % 2 or not ks])
        ids = {it['id'] for it in first['items']}
        exp = docs.Expected(m).read(first)
        start = docs.read_bytes(docs.render(first), args)
        objs = exp.check(start, 'the first document')
        before = [(exp.rm.cls[k], o) for k, o in enumerate(objs)]
        snap = snapshot(m, before)
        labels.add('objects known before')

    def use(f):
        if kind == 'pretty':
            return xmlpp(f)
        return docs.cimread(f, *args, start_dict=start)
    happened, result = False, None
    if kind == 'pretty':
        intact = xmlpp(io.BytesIO(data))
    if kind == 'source' or kind == 'pretty' and case['at'] % 2:
        f = Failing(data, case['piece'], case['at'], case.get('ends'), case.get('error', 0))
        what = 'a source that %s at read %d' % ('ends' if f.ends else 'fails', case['at'])
        try:
            result = use(f)
        except (Exception, Interrupted):
            if not f.hit:
                raise
        happened = f.hit
        labels.add(('cut off while it is read' if f.ends else 'read error: ' + type(ERRORS[f.error]()).__name__) if happened else 'no read error yet')
    elif case['kind'] == 'cut gzip':
        z = gzip.compress(data, 1)
        z = z[:len(z) - 1 - case['damage'][1] % (len(z) - 1)]
        what = 'a gzip file that is cut off'
        try:
            result = use(gzip.GzipFile(fileobj=io.BytesIO(z)))
        except Exception:
            pass
        happened = True
        labels.add('gzip file cut off')
    else:
        bad = damaged(data, case['damage'])
        what = 'a document that is not well-formed (%s)' % case['damage'][0]
        if well_formed(bad):
            return False, ['still well-formed']
        happened = True
        with docs.Source(bad, case['kind']) as f:
            try:
                result = use(f)
            except Exception:
                pass
            if getattr(f, 'closed', False) and kind != 'pretty':
                fail('the read closed the file object')
            if before:
                if snapshot(m, before) != snap:
                    fail('%s changed objects that the starting dictionary held', what)
        labels |= {'damaged: ' + case['damage'][0], case['kind']}
    if happened and result is not None:
        fail('%s gives a result: %r', what, sorted(result)[:20] if isinstance(result, dict) else result[:200])
    if not happened and kind != 'pretty' and start is None:
        good.check(result, 'a source that hands out pieces of %d' % case['piece'])
    if kind == 'pretty':
        if xmlpp(io.BytesIO(data)) != intact:
            fail('after %s, the intact document is pretty-printed differently', what)
    else:
        good = docs.Expected(m).read(case['doc'])
        good.check(docs.read_bytes(data, args), 'after %s, the intact document' % what)
    return happened, sorted(labels)


def target(m, kind, case):
    schema.use_repo()
    from PyCIM import cimwrite
    g, enc, how = Graph(m, case['graph']), case['enc'], case['how']
    f = io.StringIO()
    if cimwrite(g.d, f, enc) is not True:
        fail('a write that succeeds does not return True')
    text, before, done, happened = f.getvalue(), g.snapshot(), False, True
    with tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None) as tmp:
        p = os.path.join(tmp, 'o.xml')
        if how[0] in ('write', 'flush'):
            at = how[-1]
            if how[0] == 'write' and at < 1:        # one of the last writes
                f = FailingText(None)
                cimwrite(g.d, f, enc)
                at = max(1, f.count + at)
            f = FailingText(at, case.get('error', 0))
            try:
                cimwrite(g.d, f, enc)
                done = True
            except (Exception, Interrupted):
                if not f.hit:
                    raise
            happened = f.hit
            if done and not happened and ''.join(f.out) != text:
                fail('another document than before: %r and %r', ''.join(f.out)[:600], text[:600])
        elif how[0] == 'size':
            size = len(text.encode(enc))
            limit = how[1] % (size + size // 8)
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            try:
                cimwrite(g.d, p, enc)
                done = True
            except Exception:
                if limit >= size:
                    raise
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            happened = limit < size
            if done and not happened:
                with open(p, 'rb') as f:
                    if f.read().decode(enc) != text:
                        fail('the file has another content than before')
        else:
            if how[0] == 'folder':
                os.mkdir(p)
            else:
                p = os.path.join(p, 'o.xml')
            try:
                cimwrite(g.d, p, enc)
                done = True
            except Exception:
                pass
    if done and happened:
        fail('a write that failed (%s) is not reported', how)
    if g.snapshot() != before:
        fail('a write that failed (%s) changed the model', how)
    f = io.StringIO()
    cimwrite(g.d, f, enc)
    if f.getvalue() != text:
        fail('after a write that failed (%s), the model is written as %r, before as %r', how, f.getvalue()[:600], text[:600])
    return happened, [('write error: ' if happened else 'no write error: ') + how[0]]
