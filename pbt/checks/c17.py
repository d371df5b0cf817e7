"""C17  The XML writer emits the document its calls describe."""
import copy
import io
import os
import re
import tempfile
import xml.parsers.expat

from .. import schema
from ..gen import cases, stretch, text
from ..graphs import parse
from ..runner import fail

RULE = ('random balanced sequences of up to 200 calls (some 2500) (elements up to 60 deep) (declaration, start, element, data, comment, end with and without the '
        'tag, close by identifier, flush) with random names, attributes (up to 150) as dictionary and keywords, and text of every kind, in '
        'utf-8, us-ascii, iso-8859-1, windows-1252 and utf-16, to a text object or a path, with a second writer given the same calls in turn; the output is parsed by an independent parser and '
        'compared with the tree the calls describe. Some sequences end in an unbalanced or mismatching end, which must '
        'raise AssertionError. Non-trivial: at least 2 elements and one text or attribute.')
ASSUMPTIONS = ['names are XML names that the encoding can represent, text is XML-representable', 'comments contain no double hyphen',
               'identifiers given to close are of elements that are open, or closed with nothing opened since at their level',
               'a line break after a comment is layout']
TAGS = ['a', 'b', 'root', 'x-y', '_z', 'T.u', 'p:q', 'cim:Terminal.name', 'e1', 'A' * 40]
KEYS = ['k', 'id', 'p:k', 'xml:space', 'name', 'Zz', 'a.b', '_u', 'text2']
WORDS = ['k', 'id', 'name', 'klass', 'Zz', 'extra', 'value']


def jobs(tier):
    k = 600 if tier == 'quick' else 4000
    return [([enc, target, i], k) for enc in ('utf-8', 'us-ascii', 'iso-8859-1', 'windows-1252', 'utf-16') for target in ('text', 'path') for i in range(6)]


def strategy(job):
    names = TAGS if job[0] == 'us-ascii' else TAGS + ['\u00e9', 't\u00fc'] + (['\u4e2d'] if job[0].startswith('utf') else [])

    def attrs(src):
        a, k = {src.pick(KEYS): text(src) for _ in range(src.n(4))}, {src.pick(WORDS): text(src) for _ in range(src.n(3))}
        if src.byte() % 24 == 7:        # many
            for i in range(src.n(150)):
                (a, k)[src.n(2)]['%s%d' % (src.pick(WORDS), i)] = src.pick(['', 'v', 'x & "y"', 'n' * 90])
        return a, k

    def decode(src):
        calls, stack, opened, closed = [], [], 0, []
        if job[0] not in ('utf-8', 'us-ascii') or src.flag():
            calls.append(['declaration'])
        if src.byte() % 5 == 1:
            calls.append(['comment', 'before'])
        calls.append(['start', src.pick(names), *attrs(src)])
        deep = src.byte() % 8 == 1
        stack.append(0)
        opened, tags = 1, {0: calls[-1][1]}
        if deep:
            src = stretch(src, 1500)
            for _ in range(src.n(50)):
                calls.append(['start', src.pick(names), *attrs(src)])
                tags[opened] = calls[-1][1]
                stack.append(opened)
                opened += 1
        n = len(calls) + 1 + src.n(150 if deep else 28)
        while len(calls) < n and stack and src.more():
            k = src.n(14)
            if k < 4 and len(stack) < (60 if deep else 8):
                t = src.pick(names)
                calls.append(['start', t, *attrs(src)])
                tags[opened] = t
                stack.append(opened)
                opened += 1
            elif k in (4, 5):
                calls.append(['element', src.pick(names), src.pick([None, '', text(src), text(src)]), *attrs(src)])
            elif k in (6, 7, 8):
                calls.append(['data', text(src)])
                if deep and src.byte() % 16 == 5:
                    calls[-1].append(src.pick([10, 1000, 80000]) // max(1, len(calls[-1][1])) + 1)
            elif k == 9 and deep and src.byte() % 4 == 1:        # many calls
                for i in range(src.n(2500)):
                    calls.append(['element', names[i % len(names)], [None, 'x', 'y & z'][i % 3], {}, {}])
                n += src.n(40)
            elif k == 9:
                calls.append(['comment', src.pick(['c', 'a <b> & c', 'caf\u00e9' if job[0] != 'us-ascii' else 'cafe', ' x '])])
            elif k in (10, 11) and (len(stack) > 1 or src.flag()):
                i = stack.pop()
                calls.append(['end', tags[i] if k == 10 else None])
            elif k == 12 and len(stack) > 1:
                j = 1 + src.n(len(stack) - 1)
                calls.append(['close', stack[j]])
                del stack[j:]
            elif k == 13:
                calls.append(['flush'])
        last = src.n(6)
        if last == 1 and stack:
            calls.append(['bad', tags[stack[-1]] + 'x'])
        elif last == 2:
            if stack:
                calls.append(['close', 0])
            calls.append(['bad', src.pick([None, 'a'])])
        elif stack:
            if src.flag():
                calls.append(['close', 0])
            else:
                for i in reversed(stack):
                    calls.append(['end', tags[i] if src.flag() else None])
            if src.byte() % 4 == 1:
                calls.append(['comment', 'after'])
        return calls
    return cases(decode, 300)


class Pair:
    """Two writers that get the same calls, in turn"""

    def __init__(self, *writers):
        self.w = writers

    def __getattr__(self, name):
        def call(*a, **k):
            return [getattr(w, name)(*[copy.deepcopy(x) if isinstance(x, dict) and i else x for x in a], **k) for i, w in enumerate(self.w)]
        return call

    def close(self, ids):
        for w, i in zip(self.w, ids):
            w.close(i)


MARK = '\x00'       # where a comment was: a line break may follow it


def add_text(content, t):
    if t:
        if content and isinstance(content[-1], str):
            content[-1] += t
        else:
            content.append(t)


def execute(job, case):
    enc, target, _ = job
    schema.use_repo()
    from PyCIM.SimpleXMLWriter import XMLWriter
    tmp = None
    if target == 'text':
        f = io.StringIO()
    else:
        tmp = tempfile.TemporaryDirectory(dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        f = os.path.join(tmp.name, 'o.xml')
    try:
        w, twin = XMLWriter(f, enc), io.StringIO()
        w = Pair(w, XMLWriter(twin, enc))
        root, stack, ids, labels, elements, rich = None, [], {}, set(), 0, False
        opened = 0
        for c in case:
            labels.add(c[0] + (' with tag' if c[0] == 'end' and c[1] else ''))
            if c[0] == 'declaration':
                w.declaration()
            elif c[0] in ('start', 'element'):
                node = [c[1], dict(c[-2], **c[-1]), []]
                rich = rich or bool(node[1])
                elements += 1
                if set(c[-2]) & set(c[-1]):
                    labels.add('keyword overrides the dictionary')
                if stack:
                    stack[-1][1][2].append(node)
                else:
                    root = node
                if c[0] == 'start':
                    given = dict(c[2])
                    ids[opened] = w.start(c[1], given, **c[3])
                    if given != c[2]:
                        fail('start() changed the dictionary it was given')
                    stack.append((opened, node))
                    opened += 1
                else:
                    w.element(c[1], c[2], dict(c[3]), **c[4])
                    add_text(node[2], c[2] or '')
            elif c[0] == 'data':
                w.data(c[1] * (c[2:] or [1])[0])
                add_text(stack[-1][1][2], c[1] * (c[2:] or [1])[0])
                rich = rich or bool(c[1])
            elif c[0] == 'comment':
                w.comment(c[1])
                if stack:
                    add_text(stack[-1][1][2], MARK)
            elif c[0] == 'end':
                w.end(c[1]) if c[1] else w.end()
                stack.pop()
            elif c[0] == 'close':
                w.close(ids[c[1]])
                while stack and stack[-1][0] >= c[1]:
                    stack.pop()
            elif c[0] == 'flush':
                w.flush()
            else:
                try:
                    w.end(c[1]) if c[1] else w.end()
                except AssertionError:
                    return True, sorted(labels)
                fail('%s end(%s) does not raise AssertionError', 'a mismatching' if stack else 'an unbalanced', c[1] or '')
        w.flush()
        if target == 'text':
            if twin.getvalue() != f.getvalue():
                fail('two writers given the same calls in turn write %r and %r', f.getvalue()[:600], twin.getvalue()[:600])
            data = f.getvalue().encode(enc)
        else:
            del w
            with open(f, 'rb') as g:
                data = g.read()
    finally:
        if tmp:
            tmp.cleanup()
    try:
        got = parse(data, namespaces=False)
    except xml.parsers.expat.ExpatError as e:
        fail('the output is not well-formed: %s: %r', e, data[:600])
    same(root, got, data)
    return elements >= 2 and rich, sorted(labels)


def same(want, got, data):
    tag, attrs, content = want
    if got.tag != tag:
        fail('element %s, expected %s: %r', got.tag, tag, data[:600])
    if got.attrs != attrs:
        fail('%s has the attributes %s, expected %s: %r', tag, got.attrs, attrs, data[:600])
    # text between consecutive elements
    a, b = runs(content), runs(got.content)
    if len(a[1]) != len(b[1]):
        fail('%s has %d elements, expected %d: %r', tag, len(b[1]), len(a[1]), data[:600])
    for x, y in zip(a[0], b[0]):
        if not re.fullmatch('\n?'.join(re.escape(p) for p in x.split(MARK)), y):
            fail('%s has the text %r, expected %r: %r', tag, y, x, data[:600])
    for x, y in zip(a[1], b[1]):
        same(x, y, data)


def runs(content):
    texts, kids = [''], []
    for c in content:
        if isinstance(c, str):
            texts[-1] += c
        else:
            kids.append(c)
            texts.append('')
    return texts, kids
