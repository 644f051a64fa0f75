"""R01..R09: how responses and sense data are decoded, for every content."""
import sys
from ..core import *
from ..core import Broken
from ..interp import _MISSING
from .cdb import Recorder, execute
sys.path.insert(0, ROOT)
from spec import resp as L  # noqa
from spec.resp import ABSENT  # noqa

PKG = 'infi.asi.cdb.'
VP = PKG + 'inquiry.vpd_pages.'
SP = PKG + 'diagnostic.ses_pages.'


def wire(e, n, consts=None, src='wire'):
    """a response of n bytes, symbolic except for the given constants"""
    cells = [P(Atom('wb', src, i)) for i in range(n)]
    for i, v in (consts or {}).items():
        if i < n:
            cells[i] = v
    return cells


def be(v, at, n):
    return {at + i: (v >> (8 * (n - 1 - i))) & 255 for i in range(n)}


def leaf_value(e, spec, cells):
    """the integer a leaf layout denotes"""
    bits = []
    for byte, hi, lo in spec[1]:
        b = e.bits_of(cells[byte], 8)
        bits += [b[i] for i in range(hi, lo - 1, -1)]
    bits.reverse()
    return e.mk_bits(bits, signed=spec[0] == 's')


def text_of(v):
    """(bytes, encoding) of a decoded text; None if it is something else"""
    if isinstance(v, str):
        return BytesV([[ord(c) for c in v]] if v else []), None
    if isinstance(v, StrV) and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] == 'text':
        return v.parts[0][1], v.parts[0]
    if isinstance(v, StrV) and not v.parts:
        return BytesV([]), None
    return None


class Match(object):
    def __init__(self, run, e, rule, name, cells, when=''):
        self.run, self.e, self.rule, self.name, self.cells, self.when = run, e, rule, name, cells, when

    def ob(self, path, ok, msg):
        k = '%s: %s %s' % (self.rule, self.name, path)
        return self.run.ob(self.rule, '%s%s %s' % (self.name, self.when, path), ok, msg, key=k)

    def tree(self, path, got, want):
        e = self.e
        if isinstance(want, dict):
            if not self.ob(path or 'object', isinstance(got, Obj), lambda: 'is %s, a structure is expected' % show(got)):
                return
            for k, w in want.items():
                self.tree('%s.%s' % (path, k) if path else k, self.attr(got, k), w)
        elif isinstance(want, list):
            items = self.items(got)
            if not self.ob(path, items is not None and len(items) == len(want),
                           lambda: 'has %s entries, %d expected' % ('no' if items is None else len(items), len(want))):
                return
            for i, (g, w) in enumerate(zip(items, want)):
                self.tree('%s[%d]' % (path, i), g, w)
        elif want[0] in 'us':
            exp = leaf_value(e, want, self.cells)
            ok = isinstance(got, (int, Poly)) and eq_int(e, got, exp)
            self.ob(path, ok, lambda: 'is %s, expected %s' % (describe(e, got), describe(e, exp)))
        elif want[0] == 'raw':
            exp = BytesV([[self.cells[i] for i in want[1]]] if want[1] else [])
            bv = as_bv(got)
            if bv is None:
                items = self.items(got)
                bv = BytesV([items] if items else []) if items is not None else None
            self.ob(path, bv is not None and eq_bytes(e, bv, exp), lambda: 'is %s, expected the bytes %s' % (show(got)[:200], span(want[1])))
        elif want[0] == 'text':
            exp = BytesV([[self.cells[i] for i in want[1]]] if want[1] else [])
            t = text_of(got)
            if t is None and as_bv(got) is not None:
                t = as_bv(got), None
            if t is not None and isinstance(got, str):
                # constants: surrounding padding may have been removed
                a = bytes(t[0].cells() or [])
                b = [c for c in exp.cells() or []]
                ok = all(isinstance(c, int) for c in b) and bytes(b).strip(b' \0') == a.strip(b' \0')
            else:
                ok = t is not None and eq_bytes(e, t[0], exp)
            self.ob(path, ok, lambda: 'is %s, expected the text of bytes %s' % (show(got)[:200], span(want[1])))
        elif want[0] == 'const':
            self.ob(path, got is want[1] or (isinstance(got, (int, Poly)) and eq_int(e, got, want[1])) or got == want[1],
                    lambda: 'is %s, expected %r' % (show(got), want[1]))
        elif want[0] == 'absent':
            self.ob(path, got is _MISSING or got is None or self.items(got) == [] or
                    (as_bv(got) is not None and as_bv(got).length() == 0), lambda: 'is %s although the device did not send it' % show(got)[:200])

    def attr(self, o, k):
        try:
            return self.e.get_attr_or_missing(o, k)
        except PyRaise as x:
            return x

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Obj) and isinstance(v.payload, list):
            return list(v.payload)
        return None


def span(idx):
    if not idx:
        return '(none)'
    if list(idx) == list(range(idx[0], idx[-1] + 1)):
        return '%d..%d' % (idx[0], idx[-1])
    return ','.join(map(str, idx))


def describe(e, v):
    if isinstance(v, (int, Poly)):
        lo, hi = e.interval(v)
        s = repr(v)
        return s[:160]
    return show(v)[:160]


class Shape(object):
    """one response shape: a command, the wire bytes it gets, what must come out"""

    def __init__(self, name, cmd, n, consts, tree, raises=None, conf=None):
        self.name, self.cmd, self.n, self.consts, self.tree, self.raises, self.conf = name, cmd, n, consts, tree, raises, conf


def make_cmd(e, spec, conf=None):
    mod, cls, args, kw = spec[0], spec[1], list(spec[2]) if len(spec) > 2 else [], dict(spec[3]) if len(spec) > 3 else {}
    c = load_attr(e, mod, cls)
    if conf is not None:
        args = args + [conf]
    o = e.call(c, args, kw)
    if isinstance(o, Cls):
        # the unknown page factories return a class
        o = e.call(o, [], {})
    return o


def decode(e, sh, cells):
    conf = None
    if sh.conf is not None:
        conf = decode_conf(e, sh.conf)
        if conf[0] != 'ok':
            return conf, 0
        conf = conf[1]
    try:
        cmd = make_cmd(e, sh.cmd, conf)
    except PyRaise as x:
        return ('raise', x.exc), 0
    rec = Recorder(e, lambda en, c: BytesV([list(cells)]))
    return execute(e, cmd, rec), len(rec.calls)


def concrete(n, consts, fill=0x5a):
    """one plain response of that shape"""
    return [fill if not isinstance((consts or {}).get(i, fill), int) else (consts or {}).get(i, fill) for i in range(n)]


def after_others(run, e, rule, sh, others):
    """the same shape once more, decoded by a command that has been used before and after the other shapes were decoded:
    neither the new result nor the one handed out earlier may be affected"""
    def path():
        conf = None
        if sh.conf is not None:
            conf = decode_conf(e, sh.conf)
            if conf[0] != 'ok':
                return
            conf = conf[1]
        old, new = wire(e, sh.n, sh.consts, 'earlier'), wire(e, sh.n, sh.consts)
        try:
            cmd = make_cmd(e, sh.cmd, conf)
        except PyRaise:
            return
        others_first = e.choose(2, 'which response comes first')
        r0 = execute(e, cmd, Recorder(e, lambda en, c: BytesV([list(old)]))) if not others_first else None
        for o in others:
            if o is not sh:
                decode(e, o, concrete(o.n, o.consts))
        if others_first:
            r0 = execute(e, cmd, Recorder(e, lambda en, c: BytesV([list(old)])))
        r1 = execute(e, cmd, Recorder(e, lambda en, c: BytesV([list(new)])))
        nm = sh.name + ' after other responses'
        if run.ob(rule, nm + ' decodes', r0[0] == 'ok' and r1[0] == 'ok', lambda: 'raises %s' % show((r0 if r0[0] != 'ok' else r1)[1]), key='%s: %s' % (rule, nm)):
            Match(run, e, rule, sh.name, new, ' after other responses').tree('', r1[1], sh.tree)
            Match(run, e, rule, sh.name, old, ' before other responses').tree('', r0[1], sh.tree)
    run.unit('histories', sh.name)
    run.explore(e, path, sh.name + ' after other responses', max_paths=4000)

    free = [i for i in range(sh.n) if i not in sh.consts]
    if not free:
        return
    if not run.thorough and len(free) > 12:
        k = 6 if sh.conf is not None else 24
        free = free[:4] + free[4:-2:max(1, (len(free) - 6) // k)] + free[-2:]

    def similar():
        """an earlier response that differs in one byte only"""
        conf = None
        if sh.conf is not None:
            conf = decode_conf(e, sh.conf)
            if conf[0] != 'ok':
                return
            conf = conf[1]
        cells = wire(e, sh.n, sh.consts)
        first = list(cells)
        first[free[e.choose(len(free), 'the byte that differs')]] = P(Atom('wb', 'earlier', 0))
        try:
            cmds = [make_cmd(e, sh.cmd, conf)]
            cmds.append(cmds[0] if e.choose(2, 'another command') else make_cmd(e, sh.cmd, conf))
        except PyRaise:
            return
        rs = [execute(e, c, Recorder(e, lambda en, c, w=w: BytesV([list(w)]))) for c, w in zip(cmds, (first, cells))]
        nm = sh.name + ' after a similar response'
        if run.ob(rule, nm + ' decodes', rs[0][0] == 'ok' and rs[1][0] == 'ok',
                  lambda: 'raises %s' % show((rs[0] if rs[0][0] != 'ok' else rs[1])[1]), key='%s: %s' % (rule, nm)):
            Match(run, e, rule, sh.name, cells, ' after a similar response').tree('', rs[1][1], sh.tree)
            Match(run, e, rule, sh.name, first, ' before a similar response').tree('', rs[0][1], sh.tree)
    run.explore(e, similar, sh.name + ' after a similar response', max_paths=4000)


def decode_conf(e, types):
    """a configuration page with the given (element type, possible elements)"""
    _, consts, n = L.configuration([(0, len(types))], [(t, k, 0) for t, k in types])
    cells = [consts.get(i, 0) for i in range(n)]
    rec = Recorder(e, lambda en, c: BytesV([cells]))
    return execute(e, make_cmd(e, (SP + 'configuration', 'ConfigurationDiagnosticPagesCommand')), rec)


def check_shapes(run, rule, shapes, pad=(), **opts):
    """each shape with exactly its bytes and with surplus bytes behind them"""
    e = run.engine()
    e.opts.update(opts)
    for m in sorted({s.cmd[0] for s in shapes} | ({SP + 'configuration'} if any(s.conf for s in shapes) else set())):
        try:
            e.load(m)
        except PyRaise as x:
            raise Broken('module %s does not load: %s' % (m, show(x)))
    for sh in shapes:
        for extra in (0,) + tuple(pad):
            n = sh.n + extra

            def path():
                cells = wire(e, n, sh.consts)
                r, calls = decode(e, sh, cells)
                nm = sh.name
                if sh.raises:
                    run.ob(rule, nm + ' is refused', r[0] == 'raise' and exc_is(e, r[1], 'Exception'), lambda: 'decodes to %s' % show(r[1]),
                           key='%s: %s' % (rule, nm))
                    return
                if not run.ob(rule, nm + ' decodes', r[0] == 'ok', lambda: 'raises %s with %d bytes' % (show(r[1]), n), key='%s: %s' % (rule, nm)):
                    return
                Match(run, e, rule, nm, cells).tree('', r[1], sh.tree)
            run.unit('shapes', '%s + %d' % (sh.name, extra))
            run.explore(e, path, sh.name, max_paths=4000)
    if not pad:
        by_name = {}
        for sh in shapes:
            if not sh.raises and (sh.name not in by_name or by_name[sh.name].n == 0 or len(sh.consts) > len(by_name[sh.name].consts) and sh.n < 300):
                by_name[sh.name] = sh
        for sh in by_name.values():
            others = [o for o in by_name.values() if o.cmd[0] == sh.cmd[0]]
            after_others(run, e, rule, sh, others[:12])
    return e


# ---------------------------------------------------------------------------------------------------- R01
def inquiry_shapes(thorough=False):
    out = []
    sizes = [36, 37, 40, 56, 57, 58, 60, 61, 62, 74, 75, 96, 97, 120, 200, 255]
    if thorough:
        sizes = list(range(36, 260))
    for n in sizes:
        out.append(Shape('standard INQUIRY' + (' with extended data' if n > 36 else ''), (PKG + 'inquiry.standard', 'StandardInquiryCommand'), n,
                         {4: n - 5}, L.standard_inquiry(n)))
    return out


def vpd_shapes(thorough=False):
    out = []
    for n in (range(0, 249) if thorough else (0, 1, 2, 7, 20, 248)):
        out.append(Shape('supported VPD pages', (VP + 'supported_pages', 'SupportedVPDPagesCommand'), 4 + n, {2: 0, 3: n}, L.vpd_supported(n)))
    for n in (range(0, 249) if thorough else (0, 1, 8, 20, 128, 248)):
        out.append(Shape('unit serial number', (VP + 'unit_serial_number', 'UnitSerialNumberVPDPageCommand'), 4 + n, {2: 0, 3: n}, L.vpd_serial(n)))
    out.append(Shape('block limits', (VP + 'block_limits', 'BlockLimitsPageCommand'), 64, {2: 0, 3: 60}, L.BLOCK_LIMITS))
    out.append(Shape('logical block provisioning', (VP + 'logical_block_provisioning', 'LogicalBlockProvisioningPageCommand'), 8, {2: 0, 3: 4}, L.LBP))
    out.append(Shape('veritas page', (VP + 'veritas', 'VeritasVPDPageCommand'), 16, {2: 0, 3: 12}, L.VERITAS))
    out.append(Shape('ATA information', (VP + 'ata_information', 'AtaInformationVPDPageCommand'), 572, {2: 2, 3: 0x38}, L.ATA))
    for n in (0, 1, 12, 255, 256, 300):
        out.append(Shape('unknown VPD page', (VP + 'unknown', 'UnknownVPDPageCommand', [0xb7]), 4 + n, {2: n >> 8, 3: n & 255}, L.vpd_unknown(n)))
    return out


@prop('R01', 1500)
def r01(run):
    rule = 'each field comes from its own bits'
    check_shapes(run, rule, inquiry_shapes(run.thorough) + vpd_shapes(run.thorough))


# ---------------------------------------------------------------------------------------------------- R02
def designator_page(items):
    """[(layout, type, length, first byte)] -> (tree, consts, size)"""
    o, consts, trees = 4, {}, []
    for name, t, n, first in items:
        consts[o + 3] = n
        # reserved bit 6 and association stay symbolic: the type nibble is the constant part
        consts[(o + 1, 'low')] = t
        if first is not None:
            consts[(o + 4, 'high')] = first
        trees.append(L.designator(name, n, o))
        o += 4 + n
    return trees, consts, o


def designator_cells_concrete(consts, n, fill=0x35):
    cells = [fill] * n
    for k, v in consts.items():
        i = k[0] if isinstance(k, tuple) else k
        if i < n:
            cells[i] = v if not isinstance(k, tuple) else (fill & 0xf0) | v if k[1] == 'low' else (v << 4) | (fill & 15)
    cells[2], cells[3] = (n - 4) >> 8, (n - 4) & 255
    return cells


def designator_cells(e, n, consts, plen, src='wire'):
    cells = wire(e, n, None, src)
    for k, v in consts.items():
        if isinstance(k, tuple):
            i, half = k
            if i >= n:
                continue
            b = e.bits_of(cells[i], 8)
            vb = [(v >> j) & 1 for j in range(4)]
            cells[i] = e.mk_bits(vb + b[4:] if half == 'low' else b[:4] + vb)
        elif k < n:
            cells[k] = v
    cells[2], cells[3] = plen >> 8, plen & 255
    return cells


def designator_cases(run):
    """pages of one designator, and of that designator between two others"""
    a, z = ('rtp', 4, 4, None), ('name', 8, 8, None)
    for d in L.DESIGNATORS:
        yield [d]
        yield [a, d, z]
    yield []
    if run.thorough:
        for d in L.DESIGNATORS:
            for f in L.DESIGNATORS:
                yield [d, f]


@prop('R02', 2000)
def r02(run):
    rule = 'each designator field comes from its own bits'
    e = run.engine()
    mod = VP + 'device_identification'
    e.load(mod)
    for items in designator_cases(run):
        trees, consts, n = designator_page(items)
        label = ' '.join('%s/%d' % (i[0], i[2]) for i in items if len(items) < 3 or i is items[1]) or 'no designator'
        tree = L.vpd(designators_list=trees)

        def path():
            cells = designator_cells(e, n, consts, n - 4)
            cmd = make_cmd(e, (mod, 'DeviceIdentificationVPDPageCommand'))
            r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
            if run.ob(rule, label + ' decodes', r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                Match(run, e, rule, label, cells).tree('', r[1], tree)
        run.unit('designator pages', label + ' of %d' % len(items))
        run.explore(e, path, 'designator ' + label, max_paths=4000)
        if len(items) != 1:
            continue
        # ... and the same after pages of every other kind, by a command object that is not new
        pages = []
        for d in L.DESIGNATORS:
            if d != items[0]:
                t, c, k = designator_page([d])
                pages.append((t, designator_cells_concrete(c, k)))

        def path3():
            cells, old = designator_cells(e, n, consts, n - 4), designator_cells(e, n, consts, n - 4, 'earlier')
            cmd = make_cmd(e, (mod, 'DeviceIdentificationVPDPageCommand'))
            others_first = e.choose(2, 'which page comes first')
            for turn in (0, 1):
                if turn == others_first:
                    r0 = execute(e, cmd, Recorder(e, lambda en, c: BytesV([old])))
                    continue
                for t, c in pages:
                    execute(e, make_cmd(e, (mod, 'DeviceIdentificationVPDPageCommand')), Recorder(e, lambda en, x: BytesV([list(c)])))
            r1 = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
            if run.ob(rule, label + ' decodes after other pages', r0[0] == 'ok' and r1[0] == 'ok', lambda: 'raises %s' % show((r0 if r0[0] != 'ok' else r1)[1])):
                Match(run, e, rule, label, cells, ' after other pages').tree('', r1[1], tree)
                Match(run, e, rule, label, old, ' before other pages').tree('', r0[1], tree)
        run.unit('histories', label)
        run.explore(e, path3, 'designator ' + label + ' after other pages', max_paths=4000)
    # EUI-64 sizes and NAA values without a meaning are refused wherever they appear, also the second time
    bad = [('EUI-64 of %d bytes' % k, 2, k, None) for k in (range(256) if run.thorough else (0, 1, 4, 6, 7, 9, 10, 11, 13, 14, 15, 17, 24, 32, 255))
           if k not in (8, 12, 16)]
    bad += [('NAA %Xh of %d bytes' % (v, k), 3, k, v) for v in range(16) if v not in (2, 3, 5, 6) for k in ((8, 16) if v in (1, 4, 7) else (8,))]
    rule3 = 'a designator without a meaning is refused'

    def page_of(before, item, after):
        o, consts = 4, {}
        for name, t, n, first in [x for x in (before, item, after) if x]:
            consts[o + 3], consts[(o + 1, 'low')] = n, t
            if first is not None:
                consts[(o + 4, 'high')] = first
            o += 4 + n
        return consts, o
    a, z = ('rtp', 4, 4, None), ('name', 8, 8, None)
    for item in bad:
        for before, after in ((None, None), (a, z)):
            consts, n = page_of(before, item, after)

            def path4():
                cmd = make_cmd(e, (mod, 'DeviceIdentificationVPDPageCommand'))
                for when in ('', ' the second time'):
                    cells = designator_cells(e, n, consts, n - 4, 'wire' + when)
                    r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
                    run.ob(rule3, item[0] + when, r[0] == 'raise' and exc_is(e, r[1], 'Exception'), lambda: 'decodes to %s' % show(r[1]),
                           key='%s: %s' % (rule3, item[0]))
            run.explore(e, path4, item[0], max_paths=400)
        run.unit('designator pages', item[0])
    # the same selector decodes the provisioning group descriptor of the logical block provisioning page
    mod2 = VP + 'logical_block_provisioning'
    e.load(mod2)
    for d in L.DESIGNATORS:
        trees, consts, n = designator_page([d])
        shift = lambda k: (k[0] + 4, k[1]) if isinstance(k, tuple) else k + 4  # noqa
        consts = {shift(k): v for k, v in consts.items()}
        label = 'provisioning group %s/%d' % (d[0], d[2])
        tree = dict(L.LBP, provisioning_group_descriptor=L.designator(d[0], d[2], 8))

        def path2():
            cells = designator_cells(e, n + 4, consts, n)
            cmd = make_cmd(e, (mod2, 'LogicalBlockProvisioningPageCommand'))
            r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
            if run.ob(rule, label + ' decodes', r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                Match(run, e, rule, label, cells).tree('', r[1], tree)
        run.unit('designator pages', label)
        run.explore(e, path2, label, max_paths=4000)


# ---------------------------------------------------------------------------------------------------- R03
def ses_shapes(run):
    out = []
    conf = (SP + 'configuration', 'ConfigurationDiagnosticPagesCommand')
    stat = (SP + 'enclosure_status', 'EnclosureStatusDiagnosticPagesCommand')
    desc = (SP + 'element_descriptor', 'ElementDescriptorDiagnosticPagesCommand')
    for es, ts in [([(0, 1)], [(None, None, 0)]), ([(4, 2)], [(None, None, 8), (None, None, 3)]), ([(0, 0)], []),
                   ([(0, 1), (12, 2)], [(None, None, 0), (None, None, 5), (None, None, 1)]),
                   ([(215, 1)], [(None, None, 200)]),
                   ([(0, 1), (0, 1), (2, 1)], [(0x17, 200, 16), (0x80, 255, 255), (0x9e, 0, 0)]),
                   ([(0, 130)], [(None, None, i % 2) for i in range(130)])]:
        tree, consts, n = L.configuration(es, ts)
        label = 'configuration page of %d enclosures' % len(es)
        if ts and ts[-1][2] == 0:
            label = 'configuration page whose last text is empty'
        out.append(Shape(label, conf, n, consts, tree))
    groups = [[(t, 1)] for t in sorted(set(L.ELEMENTS) | {0x1a, 0x7f, 0x80, 0x9e, 0xff} | {t | 0x80 for t in L.ELEMENTS} | {0x21, 0x42})]
    groups += [[(0x01, 2), (0x04, 0), (0x9e, 1)], [(0x17, 0)], [(0x02, 3), (0x17, 2), (0x03, 1), (0x0e, 1)], [], [(0x04, 140)]]
    if run.thorough:
        groups += [[(t, 1)] for t in range(256)] + [[(a, 1), (b, 1)] for a in sorted(L.ELEMENTS) for b in sorted(L.ELEMENTS)]
    for g in groups:
        tree, n = L.enclosure_status(g)
        label = 'enclosure status: ' + (', '.join('%02x x %d' % x for x in g) if len(g) == 1 else '%d types' % len(g))
        out.append(Shape(label, stat, n, be(n - 4, 2, 2), tree, conf=g))
    for ls in [[[0]], [[0, 0]], [[4, 8, 0], [3]], [[0, 24, 24], [16, 1], [0]], [[0, 300]], []]:
        tree, consts, n = L.element_descriptors(ls)
        consts.update(be(n - 4, 2, 2))
        out.append(Shape('element descriptors of %d types' % len(ls), desc, n, consts, tree, conf=[(1, len(x) - 1) for x in ls]))
    for n in (0, 1, 5, 251):
        out.append(Shape('supported diagnostic pages', (SP + 'supported_pages', 'SupportedDiagnosticPagesCommand'), 4 + n, be(n, 2, 2),
                         {'page_code': L.U(0), 'page_length': L.U(2, 4), 'supported_pages': [L.U(4 + i) for i in range(n)]}))
        out.append(Shape('vendor page 80h', (SP + 'vendor_0x80', 'Vendor0x80DiagnosticPagesCommand'), 4 + n, be(n, 2, 2),
                         {'page_code': L.U(0), 'page_length': L.U(2, 4), 'vendor_specific': [L.U(4 + i) for i in range(n)]}))
    for n in (4, 12, 300):
        out.append(Shape('unknown diagnostic page', (SP + 'unknown', 'UnknownDiagnosticPageCommand', [0x33]), n, be(n - 4, 2, 2),
                         {'page_code': L.U(0), 'page_data': L.RAW(1, n)}))
    return out


@prop('R03', 2500)
def r03(run):
    check_shapes(run, 'each field comes from its own bits', ses_shapes(run))


# ---------------------------------------------------------------------------------------------------- R04
def pr_shapes(run):
    out = []
    cmd = PKG + 'persist.input'

    def pr(sa):
        return (cmd, 'PersistentReserveInCommand', [sa])
    for n in (0, 1, 2, 5, 40):
        out.append(Shape('READ KEYS', pr(0), 8 + 8 * n, be(8 * n, 4, 4), L.pr_keys(n)))
    out.append(Shape('READ RESERVATION', pr(1), 24, be(16, 4, 4), L.PR_RESERVATION))
    out.append(Shape('READ RESERVATION, none held', pr(1), 8, be(0, 4, 4), L.PR_NO_RESERVATION))
    out.append(Shape('REPORT CAPABILITIES', pr(2), 8, be(8, 0, 2), L.PR_CAPABILITIES))
    for ls in [[], [24], [24, 24], [8, 24, 40], [228]]:
        tree, consts, n = L.pr_full_status(ls)
        consts.update(be(n - 8, 4, 4))
        if not ls:
            tree = dict(tree, full_status_descriptors=ABSENT)
        else:
            o = 8
            for d, l in zip(tree['full_status_descriptors'], ls):
                d['transport_id'] = dict(d['transport_id'], specific_data=L.RAW(o + 25, o + 24 + l))
                o += 24 + l
        out.append(Shape('READ FULL STATUS of %d' % len(ls), pr(3), n, consts, tree))
    return out


def other_shapes(run):
    out = []
    for fmt in (0, 1):
        for cs in [[], [0], [1], [2, 1], [3, 0, 2], [255], [128, 1]]:
            tree, consts, n = L.rtpg(cs, fmt == 1)
            consts.update(be(n - 4, 0, 4))
            out.append(Shape('RTPG %s of %d groups' % (('length only', 'extended')[fmt], len(cs)), (PKG + 'rtpg', 'RTPGCommand', [fmt]), n, consts, tree))
    out.append(Shape('READ CAPACITY(10)', (PKG + 'read_capacity', 'ReadCapacity10Command'), 8, {}, L.CAPACITY10))
    out.append(Shape('READ CAPACITY(16)', (PKG + 'read_capacity', 'ReadCapacity16Command'), 32, {}, L.CAPACITY16))
    for n in (0, 1, 3, 200):
        out.append(Shape('RECEIVE COPY OPERATING PARAMETERS', (PKG + 'receive_copy_operating_parameters', 'ReceiveCopyOperatingParametersCommand', [],
                                                               {'allocation_length': 1024, 'control': 0}), 44 + n, {**be(40 + n, 0, 4), 43: n},
                         L.copy_parameters(n)))
    return out


def luns(run):
    """REPORT LUNS: every simply addressed LUN, and the refusal of the rest"""
    e = run.engine()
    mod = PKG + 'report_luns'
    e.load(mod)
    rule = 'each LUN comes from its own bits'
    for n in (0, 1, 2, 5) + ((16,) if run.thorough else ()):
        for allow in (False, True):
            def path():
                cells = wire(e, 8 + 8 * n, be(8 * n, 0, 4))
                if not allow:
                    for i in range(n):
                        for j in range(2, 8):
                            cells[8 + 8 * i + j] = 0
                        b = e.bits_of(cells[8 + 8 * i], 8)
                        cells[8 + 8 * i] = e.mk_bits(b[:6])
                cmd = make_cmd(e, (mod, 'ReportLunsCommand', [], {'allow_unsupported_addressing_format': allow}))
                r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
                nm = 'REPORT LUNS%s' % (' of any addressing' if allow else '')
                if run.ob(rule, '%s decodes' % nm, r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                    Match(run, e, rule, nm, cells).tree('', r[1], {'lun_list_length': L.U(0, 4), 'lun_list': [L.U(8 + 8 * i, 10 + 8 * i) for i in range(n)]})
            run.explore(e, path, 'REPORT LUNS of %d' % n, max_paths=4000)

    # the addresses are also given as the device reported them, in hexadecimal
    def raw_addresses():
        for luns_ in ([], [0], [1 << 48], [0xff << 48, 0, 0x3fff << 48], [0x4001 << 48, 0xffffffffffffffff, 0x0001000200030004]):
            cells = list((len(luns_) * 8).to_bytes(4, 'big')) + [0] * 4 + [b for v in luns_ for b in v.to_bytes(8, 'big')]
            cmd = make_cmd(e, (mod, 'ReportLunsCommand', [], {'allow_unsupported_addressing_format': True}))
            r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
            if run.ob(rule, 'REPORT LUNS decodes', r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                got = [x if isinstance(x, str) else show(x) for x in e.iterate(e.get_attr(r[1], "hex_lun_list"))]
                run.ob(rule, 'REPORT LUNS hex_lun_list', got == [hex(v) for v in luns_], lambda: 'is %s for %s' % (got, [hex(v) for v in luns_]))
    run.explore(e, raw_addresses, 'REPORT LUNS in hexadecimal')

    # a buffer for one LUN is enough to decode one; a shorter one cannot hold any
    for alloc in (16, 17, 24, 256):
        def path3():
            consts = be(8, 0, 4)
            consts.update({8 + j: 0 for j in range(2, 8)})
            cells = wire(e, 16, consts)
            b = e.bits_of(cells[8], 8)
            cells[8] = e.mk_bits(b[:6])
            cmd = make_cmd(e, (mod, 'ReportLunsCommand', [], {'allocation_length': alloc}))
            r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([list(cells)])))
            if run.ob(rule, 'REPORT LUNS decodes', r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                Match(run, e, rule, 'REPORT LUNS into %d bytes' % alloc, cells).tree('', r[1], {'lun_list_length': L.U(0, 4), 'lun_list': [L.U(8, 10)]})
        run.explore(e, path3, 'REPORT LUNS into %d bytes' % alloc, max_paths=4000)

    # which addresses are accepted is the choice of each command, whatever others are made before and after it
    def path5():
        order = e.choose(2, 'which command is made first')
        cmds = {}
        for allow in ((False, True) if order else (True, False)):
            cmds[allow] = make_cmd(e, (mod, 'ReportLunsCommand', [], {'allow_unsupported_addressing_format': allow}))
        cells = list((8).to_bytes(4, 'big')) + [0] * 4 + list((0x4001 << 48).to_bytes(8, 'big'))
        for allow in ((False, True) if e.choose(2, 'which is executed first') else (True, False)):
            r = execute(e, cmds[allow], Recorder(e, lambda en, c: BytesV([list(cells)])))
            if allow:
                run.ob(rule, 'REPORT LUNS of any addressing beside another command', r[0] == 'ok', lambda: 'raises %s' % show(r[1]))
            else:
                run.ob('unsupported LUN addressing is refused', 'REPORT LUNS beside a command that accepts it',
                       r[0] == 'raise' and exc_is(e, r[1], 'UnsupportedReportLuns'), lambda: '%s %s' % (r[0], show(r[1])))
    run.explore(e, path5, 'two REPORT LUNS commands')
    # a second report through the same command, of another length
    for n, m in ((2, 3), (3, 1), (1, 0)):
        def path1():
            a, b = [wire(e, 8 + 8 * k, be(8 * k, 0, 4), src) for k, src in ((n, 'earlier'), (m, 'wire'))]
            cmd = make_cmd(e, (mod, 'ReportLunsCommand', [], {'allow_unsupported_addressing_format': True}))
            res = [execute(e, cmd, Recorder(e, lambda en, c, w=w: BytesV([list(w)]))) for w in (a, b)]
            for w, r, k, when in ((a, res[0], n, ' before another report'), (b, res[1], m, ' after another report')):
                if run.ob(rule, 'REPORT LUNS decodes' + when, r[0] == 'ok', lambda: 'raises %s' % show(r[1])):
                    Match(run, e, rule, 'REPORT LUNS of any addressing', w, when).tree('', r[1], {'lun_list': [L.U(8 + 8 * i, 10 + 8 * i) for i in range(k)]})
        run.explore(e, path1, 'REPORT LUNS twice', max_paths=4000)
    # an address that is not a single level peripheral one is refused unless asked for
    for n in (1, 3):
        for bad in range(n):
            for what in ('method', 'level'):
                def path2():
                    cells = wire(e, 8 + 8 * n, be(8 * n, 0, 4))
                    if what == 'method':
                        for j in range(2, 8):
                            cells[8 + 8 * bad + j] = 0
                        b = e.bits_of(cells[8 + 8 * bad], 8)
                        m = 1 + e.choose(3, 'method')
                        cells[8 + 8 * bad] = e.mk_bits(b[:6] + [m & 1, m >> 1])
                    else:
                        j = 2 + e.choose(6, 'level byte')
                        cells[8 + 8 * bad + j] = 1 << e.choose(8, 'level bit')
                    for i in range(n):
                        if i != bad:
                            for j in range(8):
                                cells[8 + 8 * i + j] = i
                            for j in range(2, 8):
                                cells[8 + 8 * i + j] = 0
                    cmd = make_cmd(e, (mod, 'ReportLunsCommand'))
                    r = execute(e, cmd, Recorder(e, lambda en, c: BytesV([cells])))
                    run.ob('unsupported LUN addressing is refused', 'REPORT LUNS entry with another %s' % what,
                           r[0] == 'raise' and exc_is(e, r[1], 'UnsupportedReportLuns'), lambda: '%s %s' % (r[0], show(r[1])))
                run.explore(e, path2, 'REPORT LUNS unsupported', max_paths=4000)


@prop('R04', 1000)
def r04(run):
    check_shapes(run, 'each field comes from its own bits', pr_shapes(run) + other_shapes(run))
    luns(run)


# ---------------------------------------------------------------------------------------------------- R05
def mentions(v, src, seen=None):
    """does an abstract value depend on a byte of the given source"""
    seen = set() if seen is None else seen
    if isinstance(v, (int, str, bytes, type(None), float)):
        return False
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Obj):
        return any(mentions(x, src, seen) for x in v.attrs.values()) or mentions(v.payload, src, seen)
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(mentions(x, src, seen) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, src, seen) for kv in v.items() for x in kv)
    if isinstance(v, BytesV):
        return any(mentions(x, src, seen) for x in v.segs)
    if isinstance(v, Opq):
        return v.src == src or mentions(v.start, src, seen) or mentions(v.stop, src, seen)
    if isinstance(v, StrV):
        return mentions(v.parts, src, seen)
    if isinstance(v, Poly):
        return any(mentions(a, src, seen) for mono, _ in v.terms for a in mono)
    if isinstance(v, Atom):
        return v.op == 'wb' and v.args[0] == src or any(mentions(a, src, seen) for a in v.args)
    return False


def bounded(run, rule, name, cmd, cells, end, size, conf=None, e=None):
    """decode `cells` (declared end at `end`, `size` bytes delivered): nothing may depend on the bytes behind the end"""
    bad = []

    def path():
        if bad:
            return  # one path that reads behind the end settles this shape
        w = cells(e)
        w = w[:end] + [P(Atom('wb', 'beyond', i)) for i in range(end, size)]
        c = make_cmd(e, cmd)
        r = execute(e, c, Recorder(e, lambda en, x: BytesV([list(w)])))
        used = r[0] == 'ok' and mentions(r[1], 'beyond')
        run.ob(rule, name, not used,
               lambda: '%s depends on bytes behind byte %d, where the declared length ends' % (culprit(r[1]), end),
               key='%s: %s' % (rule, name))
        dep = [a for a in e.doms if mentions(a, 'beyond')]
        run.ob(rule, name + ' (which decoder)', not dep, lambda: 'decoding is steered by bytes behind byte %d' % end, key='%s: %s' % (rule, name))
        if used or dep:
            bad.append(1)
        loops = [x for x in e.events if x['kind'] == 'endless_list']
        run.ob('decoding terminates', name, not loops, lambda: 'no progress at %s' % loops[0].get('where'))
    run.unit('shapes', name)
    run.explore(e, path, name, max_paths=4000)


def culprit(v, path='', depth=0):
    if isinstance(v, Obj) and depth < 6:
        for k, x in v.attrs.items():
            if mentions(x, 'beyond'):
                return culprit(x, (path + '.' if path else '') + k, depth + 1)
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            if mentions(x, 'beyond'):
                return culprit(x, '%s[%d]' % (path, i), depth + 1)
    return path or 'the result'


@prop('R05', 20000)
def r05(run):
    rule = 'nothing behind the declared length is decoded'
    pads = (1, 8, 200) if not run.thorough else tuple(range(1, 40)) + (200, 255)
    # a correct response in a larger buffer decodes the same
    shapes = inquiry_shapes() + [s for s in vpd_shapes() if s.name != 'logical block provisioning'] + pr_shapes(run) + other_shapes(run)
    shapes += [s for s in ses_shapes(run) if s.name.startswith('vendor page')]
    shapes += [s for s in ses_shapes(run) if s.name.startswith('configuration page of') or s.name.startswith('enclosure') or s.name.startswith('element')]
    check_shapes(run, 'surplus bytes change nothing', shapes, pads)
    e = run.engine()
    for m in sorted({s.cmd[0] for s in shapes} | {VP + 'device_identification', VP + 'logical_block_provisioning', SP + 'supported_pages', PKG + 'report_luns'}):
        e.load(m)
    # a page without a descriptor in a larger buffer
    for size in (9, 12, 28, 252):
        bounded(run, rule, 'logical block provisioning without a group descriptor', (VP + 'logical_block_provisioning', 'LogicalBlockProvisioningPageCommand'),
                lambda e: wire(e, 8, be(4, 2, 2)), 8, size, e=e)
    for n in (0, 3):
        bounded(run, rule, 'supported diagnostic pages', (SP + 'supported_pages', 'SupportedDiagnosticPagesCommand'),
                lambda e: wire(e, 4 + n, be(n, 2, 2)), 4 + n, 255, e=e)
    # descriptors that claim more than the list holds
    did = (VP + 'device_identification', 'DeviceIdentificationVPDPageCommand')
    kinds = [(t, None) for t in (0, 1, 2, 4, 5, 6, 7, 8, 9, 15)] + [(3, f) for f in (2, 3, 5, 6)]
    for t, f in kinds:
        for room in ((4, 5, 8, 11, 12, 15, 16, 19, 24) if not run.thorough else range(1, 32)):
            for claim in (0, 3, 4, 8, 12, 16, 20, 255):
                consts = {i: 0 for i in range(4 + room)}
                consts.update({3: room, 5: t, 7: claim, 8: (f or 0) << 4})

                def cells(e, consts=consts, room=room):
                    return designator_cells(e, 4 + room, consts, room)
                bounded(run, rule, 'designator of type %x' % t, did, cells, 4 + room, 252, e=e)
    for room in range(0, 60, 1 if run.thorough else 7):
        for claim in (0, 1, 24, 300):
            def cells(e, room=room, claim=claim):
                c = {i: 0 for i in range(8, 8 + room)}
                c.update(be(room, 4, 4))
                c.update(be(claim, 28, 4))
                c.update(be(claim, 52 + claim, 4))
                return wire(e, 8 + room, c)
            bounded(run, rule, 'READ FULL STATUS', (PKG + 'persist.input', 'PersistentReserveInCommand', [3]), cells, 8 + room, 520, e=e)
    for room in range(0, 40, 1 if run.thorough else 3):
        bounded(run, rule, 'READ KEYS', (PKG + 'persist.input', 'PersistentReserveInCommand', [0]),
                lambda e: wire(e, 8 + room, be(room, 4, 4)), 8 + room, 520, e=e)
        bounded(run, rule, 'READ RESERVATION', (PKG + 'persist.input', 'PersistentReserveInCommand', [1]),
                lambda e: wire(e, 8 + room, be(room, 4, 4)), 8 + room, 520, e=e)
        bounded(run, rule, 'REPORT LUNS', (PKG + 'report_luns', 'ReportLunsCommand', [], {'allow_unsupported_addressing_format': True}),
                lambda e: wire(e, 8 + room, be(room, 0, 4)), 8 + room, 256, e=e)
        bounded(run, rule, 'unknown VPD page', (VP + 'unknown', 'UnknownVPDPageCommand', [0xb7]),
                lambda e: wire(e, 4 + room, be(room, 2, 2)), 4 + room, 256, e=e)
        bounded(run, rule, 'vendor page 80h', (SP + 'vendor_0x80', 'Vendor0x80DiagnosticPagesCommand'),
                lambda e: wire(e, 4 + room, be(room, 2, 2)), 4 + room, 255, e=e)
        bounded(run, rule, 'unit serial number', (VP + 'unit_serial_number', 'UnitSerialNumberVPDPageCommand'),
                lambda e: wire(e, 4 + room, {2: 0, 3: room}), 4 + room, 252, e=e)
        bounded(run, rule, 'supported VPD pages', (VP + 'supported_pages', 'SupportedVPDPagesCommand'),
                lambda e: wire(e, 4 + room, {2: 0, 3: room}), 4 + room, 252, e=e)
        bounded(run, rule, 'standard INQUIRY', (PKG + 'inquiry.standard', 'StandardInquiryCommand'),
                lambda e: wire(e, 36 + room, {4: 31 + room}), 36 + room, 255, e=e)
        for fmt in (0, 1):
            for count in (0, 1, 4, 255):
                def cells(e, room=room, fmt=fmt, count=count):
                    c = {i: 0 for i in range(8, 8 + room + 4)}
                    c.update(be(room + 4 * fmt, 0, 4))
                    c[4 + 4 * fmt + 7] = count
                    for i in range(5):
                        c[4 + 4 * fmt + 8 + 4 * count + 8 * i + 7] = 0
                    return wire(e, 4 + 4 * fmt + room, c)
                bounded(run, rule, 'RTPG', (PKG + 'rtpg', 'RTPGCommand', [fmt]), cells, 4 + 4 * fmt + room, 512, e=e)
    # declared lengths larger than what arrived: decoding ends
    for name, cmd, at, width in [('unit serial number', (VP + 'unit_serial_number', 'UnitSerialNumberVPDPageCommand'), 3, 1),
                                 ('supported VPD pages', (VP + 'supported_pages', 'SupportedVPDPagesCommand'), 3, 1),
                                 ('unknown VPD page', (VP + 'unknown', 'UnknownVPDPageCommand', [0xb7]), 2, 2),
                                 ('device identification', did, 2, 2),
                                 ('standard INQUIRY', (PKG + 'inquiry.standard', 'StandardInquiryCommand'), 4, 1),
                                 ('READ KEYS', (PKG + 'persist.input', 'PersistentReserveInCommand', [0]), 4, 4),
                                 ('READ FULL STATUS', (PKG + 'persist.input', 'PersistentReserveInCommand', [3]), 4, 4),
                                 ('RTPG', (PKG + 'rtpg', 'RTPGCommand', [0]), 0, 4), ('RTPG extended', (PKG + 'rtpg', 'RTPGCommand', [1]), 0, 4),
                                 ('configuration page', (SP + 'configuration', 'ConfigurationDiagnosticPagesCommand'), 2, 2)]:
        for n in (40, 44, 60):
            def path():
                w = [0] * n
                for i in range(width):
                    w[at + i] = 255
                r = execute(e, make_cmd(e, cmd), Recorder(e, lambda en, x: BytesV([list(w)])))
                loops = [x for x in e.events if x['kind'] == 'endless_list']
                run.ob('decoding terminates', name, not loops, lambda: 'no progress at %s (%s)' % (loops[0].get('where'), r[0]))
            run.explore(e, path, name + ' truncated', max_paths=200)


# ---------------------------------------------------------------------------------------------------- R06
VPD_REGISTRY = {0x00: ('supported_pages', 'SupportedVPDPagesCommand', 'SupportedVPDPagesBuffer'),
                0x80: ('unit_serial_number', 'UnitSerialNumberVPDPageCommand', 'UnitSerialNumberVPDPageBuffer'),
                0x83: ('device_identification', 'DeviceIdentificationVPDPageCommand', 'DeviceIdentificationVPDPageBuffer'),
                0x89: ('ata_information', 'AtaInformationVPDPageCommand', 'AtaInformationVPDPageBuffer'),
                0xb0: ('block_limits', 'BlockLimitsPageCommand', 'BlockLimitsVPDPageBuffer'),
                0xb2: ('logical_block_provisioning', 'LogicalBlockProvisioningPageCommand', 'LogicalBlockProvisioningVPDPageBuffer'),
                0xc0: ('veritas', 'VeritasVPDPageCommand', 'VeritasVPDPageBuffer'),
                None: ('unknown', None, 'UnknownVPDPageBuffer')}
SES_REGISTRY = {0x00: ('supported_pages', 'SupportedDiagnosticPagesCommand', 'SupportedDiagnosticPagesData'),
                0x01: ('configuration', 'ConfigurationDiagnosticPagesCommand', 'ConfigurationDiagnosticPagesData'),
                0x02: ('enclosure_status', 'EnclosureStatusDiagnosticPagesCommand', 'EnclosureStatusDiagnosticPagesData'),
                0x07: ('element_descriptor', 'ElementDescriptorDiagnosticPagesCommand', 'ElementDescriptorDiagnosticPagesData'),
                0x80: ('vendor_0x80', 'Vendor0x80DiagnosticPagesCommand', 'Vendor0x80DiagnosticPagesData'),
                None: ('unknown', None, 'UnknownDiagnosticPageData')}


@prop('R06', 2500)
def r06(run):
    e = run.engine()
    for kind, pkg, registry, look, look_data, opcode in (
            ('VPD page', VP[:-1], VPD_REGISTRY, 'get_vpd_page', 'get_vpd_page_data', 0x12),
            ('diagnostic page', SP[:-1], SES_REGISTRY, 'get_ses_page', 'get_ses_page_data', 0x1c)):
        e.load(pkg)
        for mod, c, d in registry.values():
            e.load(pkg + '.' + mod)
        for code in range(256):
            what = '%s %02xh' % (kind, code)
            mod, cname, dname = registry.get(code, registry[None])
            run.unit('pages', what)

            def path():
                # looking up other pages first must not matter
                get, get_data = load_attr(e, pkg, look), load_attr(e, pkg, look_data)
                try:
                    e.call(get, [(code + 7) % 256])
                    k = e.call(get, [code])
                    e.call(get, [(code + 1) % 256])
                    data = e.call(get_data, [code])
                except PyRaise as x:
                    run.ob('the registry answers for every page code', what, False, show(x.exc))
                    return
                run.ob('the registry answers for every page code', what, isinstance(k, Cls) and isinstance(data, Cls),
                       lambda: '%s, %s' % (show(k), show(data)))
                if cname:
                    run.ob('a known page is decoded by its own command', what, k is load_attr(e, pkg + '.' + mod, cname), lambda: show(k))
                else:
                    known = {load_attr(e, pkg + '.' + m, c) for m, c, _ in registry.values() if c}
                    run.ob('an unknown page gets a generic command', what, k not in known, lambda: show(k))
                run.ob('the data class of a page is registered', what, data is load_attr(e, pkg + '.' + mod, dname), lambda: show(data))
                conf = decode_conf(e, [(1, 0)])[1] if opcode == 0x1c and code in (2, 7) else None
                answer = [0] * 600
                if opcode == 0x1c and code == 1:
                    _, consts, n = L.configuration([(0, 1)], [(1, 1, 4)])
                    answer = [consts.get(i, 0) for i in range(n)]
                answer[0 if opcode == 0x1c else 1] = code
                for i, v in enumerate(answer[2:4] if code == 1 and opcode == 0x1c else (0, 0x20) if opcode == 0x1c or code != 0x80 else (0, 8)):
                    answer[2 + i] = v
                if code in (0x83,) and opcode == 0x12:
                    answer[2:4] = [0, 0]
                rec = Recorder(e, lambda en, c: BytesV([list(answer)]))
                try:
                    cmd = e.call(k, [conf] if conf is not None else [])
                    r = execute(e, cmd, rec)
                except PyRaise as x:
                    r = 'raise', x.exc
                if not run.ob('the registered command can be executed', what, r[0] == 'ok' and len(rec.calls) == 1,
                              lambda: '%s, %d requests' % (show(r[1]), len(rec.calls))):
                    return
                cdb = as_bv(e.get_attr(rec.calls[0], 'command')) if hasattr(rec.calls[0], 'attrs') else None
                cells = cdb.cells() if cdb is not None else None
                run.ob('the registered command requests that page', what,
                       cells is not None and len(cells) == 6 and eq_int(e, cells[0], opcode) and eq_int(e, cells[1], 1) and eq_int(e, cells[2], code),
                       lambda: 'sends %s' % show(cdb))
                run.ob('the registered data class is what the command decodes with', what,
                       isinstance(r[1], Obj) and r[1].cls is data, lambda: 'decodes with %s, registered is %s' % (show(r[1]), show(data)))
                run.ob('the decoded page carries its code', what, eq_int(e, e.get_attr(r[1], 'page_code'), code) if isinstance(r[1], Obj) else False,
                       lambda: show(r[1]))
            run.explore(e, path, what, max_paths=50)


# ---------------------------------------------------------------------------------------------------- R08
SENSE = 'infi.asi.sense'


def sense_cells(e, n, code, consts):
    cells = wire(e, n, consts, 'sense')
    v = e.bits_of(cells[0], 8)
    cells[0] = e.mk_bits([(code >> i) & 1 for i in range(7)] + [v[7]])
    return cells


@prop('R08', 3000)
def r08(run):
    e = run.engine()
    e.load(SENSE)
    fn = 'get_sense_object_from_buffer'

    def get(cells):
        try:
            return 'ok', e.call(load_attr(e, SENSE, fn), [BytesV([list(cells)])])
        except PyRaise as x:
            return 'raise', x.exc
    # dispatch on the response code, whatever the valid bit and the rest say
    for code in range(128):
        def path():
            cells = sense_cells(e, 32, code, {7: 0})
            r = get(cells)
            what = 'response code %02xh' % code
            if code in (0x70, 0x71, 0x72, 0x73):
                run.ob('a defined response code is decoded', what, r[0] == 'ok' and isinstance(r[1], Obj), lambda: show(r[1]))
            else:
                run.ob('any other response code gives no object', what, r == ('ok', None), lambda: show(r[1]))
        run.unit('response codes', code)
        run.explore(e, path, 'response code %02x' % code, max_paths=200)
    rule = 'each sense field comes from its own bits'

    def key_ok(o, k, name):
        run.ob('the sense key is named', '%s, key %x' % (name, k), e.get_attr(o, 'sense_key') == L.SENSE_KEYS[k],
               lambda: 'is %s, expected %s' % (show(e.get_attr(o, 'sense_key')), L.SENSE_KEYS[k]))
    for code in (0x70, 0x71):
        for k in range(16):
            for n in (18, 24, 96, 252) if k < 2 or run.thorough else (18,):
                def path():
                    cells = sense_cells(e, n, code, {})
                    b = e.bits_of(cells[2], 8)
                    cells[2] = e.mk_bits([(k >> i) & 1 for i in range(4)] + b[4:])
                    r = get(cells)
                    name = 'fixed format'
                    if run.ob(rule, name + ' decodes', r[0] == 'ok' and isinstance(r[1], Obj), lambda: show(r[1])):
                        m = Match(run, e, rule, name, cells)
                        m.tree('', r[1], dict(L.SENSE_FIXED, additional_sense_code={'code': L.U(12), 'qualifier': L.U(13)}))
                        key_ok(r[1], k, name)
                run.unit('sense shapes', '%02x key %x, %d bytes' % (code, k, n))
                run.explore(e, path, 'fixed sense', max_paths=500)
    lists = [[], [(3, 2)], [(1, 10)], [(0, 10)], [(2, 6), (3, 2)], [(0x80, 0)], [(0x80, 14), (4, 2), (9, 12)], [(5, 2), (0, 10), (0xff, 30)],
             [(0, 10), (0, 10)]]
    if run.thorough:
        lists += [[(t, n)] for t in range(256) for n in ((0, 1, 2, 10, 100) if t else (10,))]
    for code in (0x72, 0x73):
        for ds in lists:
            for k in range(16) if ds == [] else (5,):
                for pad in (0, 1, 18, 200):
                    consts, o, tree = {}, 8, []
                    for t, n in ds:
                        consts[o], consts[o + 1] = t, n
                        tree.append((o, t, n))
                        o += 2 + n
                    consts[7] = o - 8
                    if o - 8 > 255:
                        continue

                    def path():
                        cells = sense_cells(e, max(o + pad, 8), code, consts)
                        b = e.bits_of(cells[1], 8)
                        cells[1] = e.mk_bits([(k >> i) & 1 for i in range(4)] + b[4:])
                        r = get(cells)
                        name = 'descriptor format'
                        if not run.ob(rule, name + ' decodes', r[0] == 'ok' and isinstance(r[1], Obj),
                                      lambda: '%s (%s)' % (show(r[1]), ds)):
                            return
                        m = Match(run, e, rule, name, cells)
                        m.tree('', r[1], dict(L.SENSE_DESCRIPTOR, additional_sense_code={'code': L.U(2), 'qualifier': L.U(3)}))
                        key_ok(r[1], k, name)
                        items = m.items(e.get_attr(r[1], 'descriptors'))
                        if run.ob('the descriptors are those the additional length covers', name, items is not None and len(items) == len(ds),
                                  lambda: '%s decoded from %s' % (show(items)[:200], ds)):
                            for it, (at, t, n) in zip(items, tree):
                                if t:
                                    m.tree('descriptor', it, {'descriptor_type': L.U(at), 'data': L.RAW(at + 2, at + 2 + n)})
                    run.unit('sense shapes', '%02x %s + %d' % (code, ds, pad))
                    run.explore(e, path, 'descriptor sense %s' % ds, max_paths=500)


    # sense data decoded after other sense data, and the object handed out before
    for code in (0x70, 0x71, 0x72, 0x73):
        for other in (0x70, 0x71, 0x72, 0x73, 0x7f):
            def path2():
                lay = L.SENSE_FIXED if code < 0x72 else L.SENSE_DESCRIPTOR
                asc = {'code': L.U(12), 'qualifier': L.U(13)} if code < 0x72 else {'code': L.U(2), 'qualifier': L.U(3)}
                first = sense_cells(e, 18, code, {7: 0 if code > 0x71 else 10, 2 if code < 0x72 else 1: 3})
                cells = sense_cells(e, 18, code, {7: 0 if code > 0x71 else 10, 2 if code < 0x72 else 1: 6})
                first = [c if isinstance(c, int) else P(Atom('wb', 'earlier', i)) if i else c for i, c in enumerate(first)]
                r0 = get(first)
                get([other, 4, 9, 9, 0, 0, 0, 0] + [0x11] * 10)
                r1 = get(cells)
                for r, w, k, when in ((r0, first, 3, ' before other sense data'), (r1, cells, 6, ' after other sense data')):
                    name = 'fixed format' if code < 0x72 else 'descriptor format'
                    if run.ob(rule, name + ' decodes' + when, r[0] == 'ok' and isinstance(r[1], Obj), lambda: show(r[1])):
                        Match(run, e, rule, name, w, when).tree('', r[1], dict(lay, additional_sense_code=asc))
                        key_ok(r[1], k, name + when)
            run.unit('histories', '%02x after %02x' % (code, other))
            run.explore(e, path2, 'sense after other sense', max_paths=500)
        # ... and after sense data that agrees with it in all bytes but one
        for j in [0] + list(range(3, 18)):
            def path3():
                lay = L.SENSE_FIXED if code < 0x72 else L.SENSE_DESCRIPTOR
                asc = {'code': L.U(12), 'qualifier': L.U(13)} if code < 0x72 else {'code': L.U(2), 'qualifier': L.U(3)}
                cells = sense_cells(e, 18, code, {7: 0 if code > 0x71 else 10, 1: 5, 2: 5} if code < 0x72 else {7: 0, 1: 5})
                first = list(cells)
                if j:
                    if isinstance(first[j], int):
                        return
                    first[j] = P(Atom('wb', 'earlier', j))
                else:
                    first[0] = e.mk_bits(e.bits_of(cells[0], 8)[:7] + [e.bits_of(P(Atom('wb', 'earlier', 0)), 8)[7]])
                r0 = get(first)
                r1 = get(cells)
                for r, w, when in ((r0, first, ' before similar sense data'), (r1, cells, ' after similar sense data')):
                    name = 'fixed format' if code < 0x72 else 'descriptor format'
                    if run.ob(rule, name + ' decodes' + when, r[0] == 'ok' and isinstance(r[1], Obj), lambda: show(r[1])):
                        Match(run, e, rule, name, w, when).tree('', r[1], dict(lay, additional_sense_code=asc))
            run.explore(e, path3, 'sense after similar sense', max_paths=500)


# ---------------------------------------------------------------------------------------------------- R09
@prop('R09', 65536)
def r09(run):
    from spec import asc
    e = run.engine()
    e.load(SENSE + '.asc')
    assigned = {}
    for a in range(256):
        for b in range(256):
            if asc.text(a, b):
                assigned.setdefault(asc.text(a, b), []).append((a, b))
    def look(k, a, b, when='', o=None):
        what = '%02Xh/%02Xh%s' % (a, b, when)
        o = o or e.call(k, [])
        e.set_attr(o, 'code', a)
        e.set_attr(o, 'qualifier', b)
        try:
            t = e.get_attr(o, 'code_name')
        except PyRaise as x:
            run.ob('every code has a text', what, False, show(x.exc))
            return
        want = asc.text(a, b)
        if want:
            run.ob('an assigned code has its T10 text', what, t == want, lambda: 'is %s, T10 says %r' % (show(t), want))
        else:
            ok = isinstance(t, str) and t != '' and (t not in assigned)
            words = t.replace(',', ' ').split() if ok else []
            named = ok and (names_both(words, a, b) or 'nknown' not in t)
            run.ob('an unassigned code is named by its numbers', what, named, lambda: 'is %s' % show(t))
    # what was looked up before must not matter: one object for all, each in ascending order and once more, in descending
    # order, and the codes of one qualifier together
    for a in range(256):
        def path():
            k = load_attr(e, SENSE + '.asc', 'AdditionalSenseCode')
            o = e.call(k, [])
            for b in range(256):
                look(k, a, b, '', o)
            for b in range(256):
                look(k, a, b, ' looked up again')

        def backwards():
            k = load_attr(e, SENSE + '.asc', 'AdditionalSenseCode')
            for b in range(255, -1, -1):
                look(k, a, b, ' after higher qualifiers')
            if run.thorough or a < 16 or a % 16 == 0:
                for c in range(255, -1, -1):
                    look(k, c, a, ' after higher codes')
        run.unit('ASC', '%02X' % a)
        run.explore(e, path, 'ASC %02X' % a)
        run.explore(e, backwards, 'ASC %02X and ASCQ %02X, in descending order' % (a, a))


def names_both(words, a, b):
    def forms(v):
        return {str(v), '%x' % v, '%02x' % v, '0x%x' % v, '0x%02x' % v, '%02xh' % v, '%xh' % v}
    w = [x.lower().strip('()[].:') for x in words]
    if a == b:
        return sum(x in forms(a) for x in w) >= 2
    return any(x in forms(a) for x in w) and any(x in forms(b) for x in w)


# ---------------------------------------------------------------------------------------------------- R10
@prop('R10', 100)
def r10(run):
    from spec import codes
    e = run.engine()
    for table, (mod, want) in codes.PAGES.items():
        e.load(mod)

        def path():
            t = load_attr(e, mod, table)
            m = e.run_source('def look(t, k):\n    return t[k]\n', 'look', {})
            for k, v in want.items():
                try:
                    got = e.call(m.ns['look'], [t, k])
                except PyRaise as x:
                    got = x.exc
                run.ob('a code has its name', '%s[0x%02x]' % (table, k), got == v, lambda: 'is %s, expected %r' % (show(got), v))
            if table == 'SCSI_DESIGNATOR_TYPES':
                for k in range(16):
                    if k in want:
                        continue
                    try:
                        got = e.call(m.ns['look'], [t, k])
                    except PyRaise as x:
                        got = x.exc
                    run.ob('a reserved designator type is called reserved', '%s[0x%02x]' % (table, k),
                           isinstance(got, str) and 'eserved' in got and hex(k) in got, lambda: 'is %s' % show(got))
        run.unit('tables', table)
        run.explore(e, path, table)


# ---------------------------------------------------------------------------------------------------- R07
def used_bits(v, out, seen=None):
    """the wire bits an abstract value is made of"""
    seen = set() if seen is None else seen
    if isinstance(v, (int, str, bytes, type(None), float)) or id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Obj):
        for x in v.attrs.values():
            used_bits(x, out, seen)
        used_bits(v.payload, out, seen)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            used_bits(x, out, seen)
    elif isinstance(v, dict):
        for k, x in v.items():
            used_bits(x, out, seen)
    elif isinstance(v, BytesV):
        used_bits(v.segs, out, seen)
    elif isinstance(v, StrV):
        used_bits(v.parts, out, seen)
    elif isinstance(v, Poly):
        for mono, _ in v.terms:
            for a in mono:
                used_bits(a, out, seen)
    elif isinstance(v, Atom):
        if v.op == 'wb':
            out.update((v.args[1], i) for i in range(8))
        elif v.op in ('bits', 'sbits'):
            for b in v.args[0]:
                if isinstance(b, tuple) and b[0].op == 'wb':
                    out.add((b[0].args[1], b[1]))
                else:
                    used_bits(b, out, seen)
        else:
            used_bits(v.args, out, seen)
    return out


def texts(tree):
    if isinstance(tree, dict):
        return [t for v in tree.values() for t in texts(v)]
    if isinstance(tree, list):
        return [t for v in tree for t in texts(v)]
    return [tree[1]] if tree[0] == 'text' and tree[1] else []


# left out (see also the sizes of standard INQUIRY data below, which end inside a version descriptor or in the reserved bytes): a structure whose optional field is absent cannot be packed (nor can an empty list of descriptors), the texts of a
# configuration page are decoded as bytes, which its own field type does not pack, and the status elements end in integers of no width
ABSENT = ('READ RESERVATION, none held', 'READ FULL STATUS of 0')
PACKED = ('standard INQUIRY', 'supported VPD pages', 'unit serial number', 'block limits', 'veritas page', 'ATA information', 'unknown VPD page',
          'element descriptors', 'supported diagnostic pages', 'vendor page 80h', 'unknown diagnostic page',
          'READ KEYS', 'READ RESERVATION', 'REPORT CAPABILITIES', 'READ FULL STATUS', 'RTPG', 'RECEIVE COPY', 'READ CAPACITY')


def packed_again(run, e, rule, sh, fill):
    """decode, pack; every decoded bit must be back where it was, everything else may be zero"""
    def path():
        consts = dict(sh.consts or {})
        for idx in texts(sh.tree):
            for j, i in enumerate(idx):
                consts[i] = 0x41 + j % 26 if fill == 'full' or j == 0 else 0x20
        cells = wire(e, sh.n, consts) if sh.n and not any(isinstance(k, tuple) for k in consts) else designator_cells(e, sh.n, consts, sh.n - 4)
        r, _ = decode(e, sh, cells)
        if r[0] != 'ok':
            return  # R01..R04
        try:
            packer = e.get_attr_or_missing(r[1], 'pack')
            if packer is not _MISSING:
                b = e.call(packer, [])
            else:
                b = e.call(e.get_attr(r[1].cls, 'write_to_string'), [r[1]])
        except PyRaise as x:
            run.ob(rule, sh.name + ' is packed', False, lambda: 'packing the decoded response raises %s (%d bytes)' % (show(x), sh.n), key='%s: %s' % (rule, sh.name))
            return
        out = (as_bv(b).cells() if as_bv(b) is not None else None) if b is not None else None
        if not run.ob(rule, sh.name + ' is packed', out is not None and len(out) <= len(cells),
                      lambda: 'the packed form is %s' % (show(b)[:100] if out is None else '%d bytes long instead of %d' % (len(out), len(cells))),
                      key='%s: %s' % (rule, sh.name)):
            return
        used = used_bits(r[1], set())
        first = None
        for i, c in enumerate(cells):
            want = e.bits_of(c, 8)
            got = e.bits_of(out[i], 8) if i < len(out) else None
            for j in range(8):
                meant = (i, j) in used or isinstance(want[j], int) and want[j]
                if got is None and meant or got is not None and not bit_same(e, got[j], want[j]) and (got[j] != 0 or meant):
                    if first is None:
                        first = (i, j, None if got is None else got[j])
        run.ob(rule, '%s of %d bytes' % (sh.name, sh.n), first is None,
               lambda: 'byte %d bit %d is packed as %s' % (first[0], first[1], 'nothing' if first[2] is None else fmt_bit(first[2])),
               key='%s: %s' % (rule, sh.name))
    run.unit('shapes', sh.name)
    run.explore(e, path, 'packing ' + sh.name, max_paths=1000)


def bit_same(e, a, b):
    return a == b


def fmt_bit(b):
    return str(b) if isinstance(b, int) else 'bit %d of %r' % (b[1], b[0])


@prop('R07', 100)
def r07(run):
    rule = 'what was decoded is packed at its place'
    shapes = [s for s in inquiry_shapes(run.thorough) + vpd_shapes(run.thorough) + ses_shapes(run) + pr_shapes(run) + other_shapes(run)
              if not s.raises and s.name.startswith(PACKED) and not s.name.startswith(ABSENT) 
              and not (s.name.startswith('standard') and s.n != 36 and s.n not in range(60, 75, 2) and s.n < 97)]
    mod = VP + 'device_identification'
    for items in designator_cases(run):
        if items:
            trees, consts, n = designator_page(items)
            label = 'designators ' + ' '.join('%s/%d' % (i[0], i[2]) for i in items)
            shapes.append(Shape(label, (mod, 'DeviceIdentificationVPDPageCommand'), n, consts, L.vpd(designators_list=trees)))
    e = run.engine()
    for m in sorted({s.cmd[0] for s in shapes} | {SP + 'configuration'}):
        e.load(m)
    for sh in shapes:
        packed_again(run, e, rule, sh, 'full')
        if texts(sh.tree) and sh.name != 'unit serial number':  # whose length follows from its text
            packed_again(run, e, rule, sh, 'short')


# ---------------------------------------------------------------------------------------------------- R11
class Partial(Match):
    """what a response cut short may still give: the declared value of each field whose bytes arrived, the arrived beginning of lists,
    texts and byte strings, and nothing for the rest"""

    def tree(self, path, got, want):
        e = self.e
        if got is _MISSING or got is None:
            return
        if isinstance(want, dict):
            return super(Partial, self).tree(path, got, want)
        if isinstance(want, list):
            items = self.items(got)
            if self.ob(path, items is not None and len(items) <= len(want),
                       lambda: 'has %s entries, at most %d expected' % ('no' if items is None else len(items), len(want))):
                for i, (g, w) in enumerate(zip(items, want)):
                    self.tree('%s[%d]' % (path, i), g, w)
            return
        if want[0] in ('raw', 'text'):
            items = self.items(got)
            t = text_of(got) if want[0] == 'text' else None
            k = t[0] if t is not None else BytesV([items] if items else []) if items is not None else as_bv(got)
            c = k.cells() if k is not None else None
            if self.ob(path, c is not None and (isinstance(got, str) or len(c) <= len(want[1]) and all(i < len(self.cells) for i in want[1][:len(c)])),
                       lambda: 'is %s, of which %d bytes arrived' % (show(got)[:80], len([i for i in want[1] if i < len(self.cells)]))):
                super(Partial, self).tree(path, got, (want[0], want[1][:len(c)]) + tuple(want[2:]))
            return
        if want[0] in 'us' and any(b >= len(self.cells) for b, _, _ in want[1]):
            self.ob(path, False, lambda: 'is %s although its bytes did not arrive' % show(got)[:80])
            return
        super(Partial, self).tree(path, got, want)


def cut_short(run, e, rule, sh, m):
    def path():
        consts = sh.consts or {}
        full = designator_cells(e, sh.n, consts, sh.n - 4) if any(isinstance(k, tuple) for k in consts) else wire(e, sh.n, consts)
        cells = full[:m]
        r, _ = decode(e, sh, cells)
        if r[0] == 'ok':
            Partial(run, e, rule, sh.name, cells).tree('', r[1], sh.tree)
            run.ob(rule, '%s cut to %d of %d bytes' % (sh.name, m, sh.n), True, '')
        else:
            run.ob(rule, '%s cut to %d of %d bytes' % (sh.name, m, sh.n), exc_is(e, r[1], 'Exception'), lambda: 'raises %s' % show(r[1]),
                   key='%s: %s' % (rule, sh.name))
    run.unit('responses', '%s, %d of %d bytes' % (sh.name, m, sh.n))
    run.explore(e, path, sh.name + ' cut short', max_paths=400)


@prop('R11', 800)
def r11(run):
    rule = 'a field that did not arrive has no value'
    shapes = [s for s in inquiry_shapes() + vpd_shapes() + ses_shapes(run) + pr_shapes(run) + other_shapes(run) if not s.raises and s.n < 600]
    mod = VP + 'device_identification'
    for items in designator_cases(run):
        if items:
            trees, consts, n = designator_page(items)
            label = 'designators ' + ' '.join('%s/%d' % (i[0], i[2]) for i in items)
            shapes.append(Shape(label, (mod, 'DeviceIdentificationVPDPageCommand'), n, consts, L.vpd(designators_list=trees)))
    e = run.engine()
    for m in sorted({s.cmd[0] for s in shapes} | {SP + 'configuration'}):
        e.load(m)
    # responses the device may cut short at any byte, by design
    for name, sa, n in (('READ KEYS', 0, 48), ('READ RESERVATION', 1, 24), ('REPORT CAPABILITIES', 2, 8), ('READ FULL STATUS', 3, 8)):
        for m in range(8, n + 1):
            for length in ((8,) if sa == 2 else (0, 8, 16, 24, 40, 0x100, 0x10008, 0xfffffff8) if sa < 3 else (0,) if m > 8 else (0, 24, 0x100)):
                def path():
                    cells = wire(e, m, be(length, 0, 2) if sa == 2 else be(length, 4, 4))
                    r = execute(e, make_cmd(e, (PKG + 'persist.input', 'PersistentReserveInCommand', [sa])), Recorder(e, lambda en, c: BytesV([list(cells)])))
                    what = '%s of %d bytes with length %d' % (name, m, length)
                    k = 'the allocation length that is required follows from the response: ' + name
                    if not run.ob('a response cut behind its header decodes', what, r[0] == 'ok', lambda: 'raises %s' % show(r[1]), key=k):
                        return
                    try:
                        v = e.call_method(r[1], 'required_allocation_length')
                    except PyRaise as x:
                        v = x.exc
                    want = 8 if sa == 2 else length + 8
                    run.ob('the allocation length that is required follows from the response', what, isinstance(v, (int, Poly)) and eq_int(e, v, want),
                           lambda: 'is %s, not %d' % (show(v), want), key=k)
                run.unit('responses', name)
                run.explore(e, path, name + ' cut short')
    luns = (PKG + 'report_luns', 'ReportLunsCommand')
    for count in (1, 2, 5):
        for m in range(1, 8 + 8 * count):
            def path():
                consts = be(8 * count, 0, 4)
                consts.update({8 + 8 * k + j: 0 for k in range(count) for j in range(8) if j != 1})
                cells = wire(e, 8 + 8 * count, consts)
                r = execute(e, make_cmd(e, luns), Recorder(e, lambda en, c: BytesV([cells[:m]])))
                if r[0] == 'ok':
                    got = list(e.iterate(e.get_attr(r[1], 'lun_list')))
                    run.ob(rule, 'REPORT LUNS cut to %d bytes' % m, len(got) <= (m - 8) // 8 and all(eq_int(e, g, cells[9 + 8 * k]) for k, g in enumerate(got)),
                           lambda: 'is %s' % show(got), key='%s: REPORT LUNS' % rule)
                else:
                    run.ob(rule, 'REPORT LUNS cut to %d bytes' % m, exc_is(e, r[1], 'Exception'), lambda: 'raises %s' % show(r[1]), key='%s: REPORT LUNS' % rule)
            run.explore(e, path, 'REPORT LUNS cut short')
    for sh in shapes:
        n = sh.n
        ms = range(1, n) if run.thorough else {1, 4, 5, 6, 7, 8, n - 1, n - 2, n - 3, n - 4, n // 2, n * 3 // 4}
        for m in sorted(ms):
            if 0 < m < n:
                cut_short(run, e, rule, sh, m)
