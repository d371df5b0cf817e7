"""C18  Pretty-printing changes only the layout."""
import io
import os
import tempfile

from .. import docs, schema
from ..gen import cases, stretch, text
from ..graphs import parse
from ..runner import fail

RULE = ('random well-formed documents of up to 60 elements (some up to 1500, or 130 levels) and 40 levels: element-only, text-only and mixed content, empty '
        'elements, white space of every kind, attributes, namespaces, in random layouts and encodings, and documents of '
        'the CIM model generator, pretty-printed from a path or a file object; the output is parsed by an independent parser '
        'and compared with the input, its layout is compared with the rule, and it is pretty-printed again. Non-trivial: '
        'at least 3 elements and 2 levels.')
ASSUMPTIONS = ['nesting is far below the recursion limit', 'comments and processing instructions are not part of the content compared']
TAGS = ['a', 'b', 'Terminal', 'x.y', 'n-1']


def jobs(tier):
    k = 600 if tier == 'quick' else 4000
    return [(['tree', i], k) for i in range(32)] + [(['cim', n], k) for n in ('CIM14', 'CIM15', 'CIM15.CDPSM.Asset')]


def some_text(src):
    if src.byte() % 3 != 1:
        return text(src)
    k = src.n(8)
    if k == 7:      # white space only
        return (' ', '\n', '\t', ' \n', '\r\n')[src.n(5)] * (1 + src.n(40))
    return ('', ' ', '\n  ')[src.n(3)] + chr(33 + src.n(94)) * (1 + k % 2) + ('', ' ', '\n')[k % 3]     # one character


def strategy(job):
    def tree(src):
        large = src.byte() % 16 == 5
        budget = [1 + src.n(60) if not large else 100 + 10 * src.n(150)]
        style = docs.gen_style(src) if large else None
        chain, wide = ((0, 0), (1, 0), (0, 1))[src.n(3)] if large else (0, 0)      # many levels, many children
        if large:
            src = stretch(src, 12 * budget[0])

        def node(level):
            budget[0] -= 1
            attrs = []
            for _ in range(src.n(3)):
                a = [*src.pick([['', 'k'], ['', 'id'], ['', 'name2'], ['ext', 'k'], ['ext', 'id'], ['', 'xml:space'], ['', 'xml:lang']]), text(src)]
                if a[1] == 'xml:space':
                    a[2] = src.pick(['preserve', 'default'])
                if all(a[:2] != b[:2] for b in attrs):
                    attrs.append(a)
            k = src.n(8)
            content = []
            if (chain and level < 130 or wide and not level) and k < 3:
                k = 3
            elif wide and k > 2:
                k = 0
            if k == 0 or level >= (150 if chain else 40):
                pass
            elif k == 1 and not chain:
                content.append(some_text(src))
            else:
                mixed = src.byte() % 4 == 1
                for _ in range(1 + (0 if k == 2 or chain and level % 10 else src.n(2000) if wide and not level else src.n(200) if large and k == 3 else src.n(5))):
                    if budget[0] <= 0:
                        break
                    if mixed and src.flag():
                        content.append(some_text(src))
                    content.append(node(level + 1))
                if mixed and src.flag():
                    content.append(src.pick([some_text(src), some_text(src), ' ', '\n', '\r', '\u00a0', '\u2028']))
            return [src.pick(['', 'ext', 'cim2']), src.pick(TAGS), attrs, content]
        root = node(0)
        return {'root': root, 'style': style or docs.gen_style(src), 'source': src.pick(docs.Source.FILES)}

    def cim(src):
        m = schema.model(job[1])
        doc = docs.gen_doc(src, m, [src.pick(m.names) for _ in range(3)], 1 + src.n(4), attrs=4, links=4)
        return {'doc': doc, 'style': docs.gen_style(src), 'source': src.pick(docs.Source.FILES)}
    return cases(tree, 400) if job[0] == 'tree' else cases(cim, 200)


def execute(job, case):
    schema.use_repo()
    from PyCIM.PrettyPrintXML import xmlpp
    style = case['style']
    if 'doc' in case:
        data = docs.render(case['doc'], style)
    else:
        r = docs.Renderer({'ns': schema.CIM_NS['CIM15'], 'items': []}, dict(style, cim='cim'))
        ns, tag, attrs, content = case['root']
        enc = style['enc'].replace('-be', '').replace('-le', '') if style['enc'].startswith('utf-16') else style['enc']
        if style['decl']:
            r.out.append('<?xml version="1.0" encoding="%s"?>\n' % enc)
        r.doctype(r.name(ns, tag, None))
        r.node([ns, tag, attrs + [['', 'xmlns:ext', docs.EXT], ['', 'xmlns:o', docs.OTHER], ['', 'xmlns:cim', 'http://x/c#']], content], 0)
        data = docs.encode(''.join(r.out), style)
        docs.check_document(data)
    with docs.Source(data, case['source']) as s:
        out = xmlpp(s)
    if isinstance(out, str):
        out = out.encode('utf-8')
    if not isinstance(out, bytes):
        fail('the result is %r', out)
    want = parse(data)
    try:
        got = parse(out)
    except Exception as e:
        fail('the output is not well-formed: %s: %r', e, out[:600])
    stats = [0, 0, 0]
    same(want, got, 0, out, stats)
    again = xmlpp(io.BytesIO(out))
    if isinstance(again, str):
        again = again.encode('utf-8')
    if again != out:
        fail('pretty-printing the result again changes it: %r and %r', out[:400], again[:400])
    labels = ['over 100 elements'] if stats[0] > 100 else []
    labels += ['encoding ' + style['enc'], 'depth %d+' % (stats[1] // 5 * 5)]
    if stats[2]:
        labels.append('mixed content')
    return stats[0] >= 3 and stats[1] >= 1, labels


def runs(n):
    texts, kids = [''], []
    for c in n.content:
        if isinstance(c, str):
            texts[-1] += c
        else:
            kids.append(c)
            texts.append('')
    return texts, kids


def same(a, b, level, out, stats):
    stats[0] += 1
    stats[1] = max(stats[1], level)
    if a.tag != b.tag or a.attrs != b.attrs:
        fail('element %s %s became %s %s', a.tag, a.attrs, b.tag, b.attrs)
    (ta, ka), (tb, kb) = runs(a), runs(b)
    if len(ka) != len(kb):
        fail('%s has %d elements, expected %d: %r', a.tag, len(kb), len(ka), out[:600])
    if not ka:
        if ta != tb:
            fail('the text of %s became %r, it was %r', a.tag, tb[0], ta[0])
        return
    blank = lambda t: not t.strip(' \t\r\n')        # white space in XML
    for x, y in zip(ta, tb):
        if not (blank(x) and blank(y)) and x != y:
            fail('the text in %s became %r, it was %r', a.tag, y, x)
    if all(blank(t) for t in ta):
        inner, outer = '\n' + '  ' * (level + 1), '\n' + '  ' * level
        for k, t in enumerate(tb):
            w = inner if k < len(tb) - 1 else outer
            if t != w:
                fail('the layout before %s of %s at level %d is %r, expected %r: %r', 'child %d' % (k + 1) if k < len(ka) else 'the end',
                     a.tag, level, t, w, out[:600])
    else:
        stats[2] += 1
    for x, y in zip(ka, kb):
        same(x, y, level + 1, out, stats)
