"""C27: slots, clips, masters, sources and essence refer to each other.

The ways of creating them are followed over an abstract heap (heap.py); the essence that is
imported is a stand-in that hands out known chunks."""
import itertools
from ..heap import *
from .ident import Judge, same


class World(Heap):
    """a new file: its dictionary is filled by its own set-up code"""

    def __init__(self, m):
        Heap.__init__(self, m)
        kept = getattr(m, 'set_up', None)
        if kept is None:
            kept = m.set_up = self.set_up(m)
        d, content = kept
        for n, v in content.items():
            d.cells[n].obj.at['value'] = list(v)
            d.cells[n].heap = self
        self.root.at['dictionary'] = d
        self.events[:] = []
        m.world = self

    def set_up(self, m):
        d = self.root.at['dictionary']
        m.call_func(d.cls.method('__init__'), [d], {})
        if d.cls.method('setup_defaults'):
            m.call_func(d.cls.method('setup_defaults'), [d], {})
        return d, dict((n, list(c.items())) for n, c in d.cells.items())

    def put(self, o, name, v):
        self.m.index(o, name)
        o.cells[name].obj.at['value'] = v

    def items(self, o, name):
        c = o.cells.get(name)
        return list(c.items()) if c is not None else []

    def slot(self, mob, n, length=None, kind=None, segment='Filler'):
        s = self.create('TimelineMobSlot', n, edit_rate=25)
        if segment:
            g = self.create(segment)
            self.put(g, 'Length', length if length is not None else 0)
            if kind:
                self.m.setattr(g, 'media_kind', kind)
            self.put(s, 'Segment', g)
        self.put(mob, 'Slots', self.items(mob, 'Slots') + [s])
        return s

    def mobs(self):
        return self.items(self.root.at['content'], 'Mobs')

    def essences(self):
        return self.items(self.root.at['content'], 'EssenceData')

    def add(self, mob):
        c = self.root.at['content']
        self.put(c, 'Mobs', self.mobs() + [mob])
        return mob

    def kind(self, o):
        if not isinstance(o, Obj):
            return '(no object)'
        return self.m.getattr(o, 'media_kind')


def val(w, o, name):
    return w.value(o, name) if isinstance(o, Obj) and hasattr(o, 'cells') else '(no object)'


def C27(cx):
    prog = cx.prog
    J = Judge(cx, 'link', stubs())
    slots(cx, J)
    clips(cx, J)
    sources(cx, J)
    imports(cx, J)
    mxf(cx, J)
    cx.need('linking obligations decided', len(cx.done), 30)


def where(cx, cls, name):
    if not cx.prog.has_cls(cls):
        return None
    f = cx.prog.cls(cls).method(name)
    return f.where if f is not None else None


def mcall(m, o, name, *a, **k):
    return m.call(m.getattr(o, name), list(a), k)


def is_new(m, w, mob, before, s, n=None):
    """s is one new slot at the end of mob, its number unused before"""
    now = w.items(mob, 'Slots')
    if not (isinstance(s, Obj) and len(now) == len(before) + 1 and all(any(x is y for y in now) for x in before) and any(x is s for x in now)):
        return False
    i = val(w, s, 'SlotID')
    if isinstance(i, N):
        if any(same(i, val(w, x, 'SlotID')) for x in before):
            return False
        raise Unk('slot number')
    if not isinstance(i, int) or isinstance(i, bool) or i < 0:
        return False
    if n is not None:
        return i == n
    for x in before:
        if m.truth(m.eq(i, val(w, x, 'SlotID'))):
            return False
    return True


def slots(cx, J):
    at = where(cx, 'Mob', 'create_timeline_slot')
    if at is None:
        return
    lists = []
    for r in range(6):
        for c in itertools.combinations(range(5), r):
            lists.append(c)
            if len(c) > 1:
                lists.append(c[::-1])
    lists += [(2, 1, 3), (1, 3, 2), (3, 1, 0), (0, 2, 1), (7, 1000000, 1), (1, 2, 3, 4, 5, 6, 7, 8, 10), (2, 3, 4), (0, 1, 2, 3, 4, 5, 7)]
    for kind in ('CompositionMob', 'MasterMob', 'SourceMob'):
        for ids in lists if kind == 'MasterMob' else lists[:4]:
            def auto(m):
                w = World(m)
                mob = w.create(kind)
                for i in ids:
                    w.slot(mob, i)
                before = w.items(mob, 'Slots')
                del w.events[:]
                s = mcall(m, mob, 'create_timeline_slot', 30)
                return is_new(m, w, mob, before, s), val(w, s, 'EditRate') == 30, w.fits(cx) is not False
            J.run('%s slot beside %s' % (kind, list(ids)), at, auto, lambda m, v: all(v), 'a new slot does not get a number no other slot of the mob has, is not added once or loses its edit rate')

    def symbolic(m):
        w = World(m)
        mob = w.create('MasterMob')
        s = w.slot(mob, 1)
        w.put(s, 'SlotID', N(tuple(('id', i) for i in range(16))))
        before = w.items(mob, 'Slots')
        return is_new(m, w, mob, before, mcall(m, mob, 'create_timeline_slot', 30))
    J.run('slot beside any slot', at, symbolic, lambda m, v: v, 'a new slot gets the number of the slot that is there')
    for ids, n in (((), 0), ((), 5), ((1, 2), 7), ((1, 2), 0), ((0,), 1), ((3, 4), 1)):
        def explicit(m):
            w = World(m)
            mob = w.create('MasterMob')
            for i in ids:
                w.slot(mob, i)
            before = w.items(mob, 'Slots')
            return is_new(m, w, mob, before, mcall(m, mob, 'create_timeline_slot', 30, n), n)
        J.run('slot %d beside %s' % (n, list(ids)), at, explicit, lambda m, v: v, 'a slot is not made with the number asked for')
    for ids, n in (((1,), 1), ((2, 1), 1), ((1, 2, 3), 3), ((0,), 0), ((0, 4), 4), ((5, 1), 5)):
        def taken(m):
            w = World(m)
            mob = w.create('MasterMob')
            for i in ids:
                w.slot(mob, i)
            before = w.items(mob, 'Slots')
            try:
                mcall(m, mob, 'create_timeline_slot', 30, n)
            except AbsRaise:
                return w.items(mob, 'Slots') == before
            return False
        J.run('slot %d taken in %s' % (n, list(ids)), at, taken, lambda m, v: v, 'a slot number that is in use is not refused, or the refusal leaves a slot behind')
    # by number
    at = where(cx, 'Mob', 'slot_at')
    for ids in ((1, 2, 3), (3, 1, 2), (0, 7)):
        for n in ids:
            def look(m):
                w = World(m)
                mob = w.create('MasterMob')
                for i in ids:
                    w.slot(mob, i)
                return val(w, mcall(m, mob, 'slot_at', n), 'SlotID') == n
            if at:
                J.run('slot_at %d of %s' % (n, list(ids)), at, look, lambda m, v: v, 'the slot of that number is not found')
    if at:
        def none(m):
            w = World(m)
            mob = w.create('MasterMob')
            w.slot(mob, 1)
            mcall(m, mob, 'slot_at', 2)
        J.run('slot_at unknown', at, none, lambda m, v: False, 'an unknown slot number is not reported', raises=True)
    # kinds of slots
    for name, args, kind, seg in (('create_picture_slot', (30,), 'Picture', 'Sequence'), ('create_sound_slot', (30,), 'Sound', 'Sequence'),
                                  ('create_empty_sequence_slot', (30, 4, 'timecode'), 'Timecode', 'Sequence'), ('create_empty_sequence_slot', (30, None, 'sound'), 'Sound', 'Sequence'),
                                  ('create_empty_slot', (30, 'sound', 6), 'Sound', 'SourceClip'), ('create_empty_slot', (30, 'picture'), 'Picture', 'SourceClip'),
                                  ('create_timecode_slot', (30, 24), 'Timecode', 'Timecode')):
        at = where(cx, 'SourceMob', name)
        if at is None:
            continue

        def make(m):
            w = World(m)
            mob = w.create('SourceMob')
            w.slot(mob, 1)
            before = w.items(mob, 'Slots')
            s = mcall(m, mob, name, *args)
            g = val(w, s, 'Segment')
            want = next((x for x in args[1:] if isinstance(x, int) and name != 'create_timecode_slot'), None)
            return (is_new(m, w, mob, before, s, want), isinstance(g, Obj) and g.cls is m.prog.cls(seg), w.kind(g) == kind and w.kind(s) == kind, val(w, s, 'EditRate') == 30,
                    seg != 'Sequence' or w.items(g, 'Components') == [], seg != 'Timecode' or val(w, g, 'FPS') == 24, w.fits(cx) is not False)
        J.run('%s%r' % (name, args), at, make, lambda m, v: all(v), 'the new slot does not hold a new %s of the media kind asked for' % seg)
    at = where(cx, 'SourceMob', 'create_timecode_slot')
    if at:
        for drop, length in ((True, 100), (False, 50), (True, None)):
            def tc(m):
                w = World(m)
                mob = w.create('SourceMob')
                s = mcall(m, mob, 'create_timecode_slot', 30, 24, drop, length)
                g = val(w, s, 'Segment')
                return val(w, g, 'Drop') == drop, val(w, g, 'Length') == (length or 24 * 60 * 60 * 12), val(w, g, 'Start') == 0, val(w, g, 'FPS') == 24
            J.run('timecode %s %s' % (drop, length), at, tc, lambda m, v: all(v), 'the timecode does not have the rate, drop flag and length asked for')
    at = where(cx, 'SourceMob', 'create_tape_slots')
    if at:
        def tape(m):
            w = World(m)
            mob = w.create('SourceMob')
            r = mcall(m, mob, 'create_tape_slots', 'Tape', 25, 24, True, 'sound', 77)
            s, t = r
            d = val(w, mob, 'EssenceDescription')
            g, h = val(w, s, 'Segment'), val(w, t, 'Segment')
            ids = [val(w, x, 'SlotID') for x in w.items(mob, 'Slots')]
            return (w.items(mob, 'Slots') == [s, t], len(set(ids)) == 2, val(w, mob, 'Name') == 'Tape', isinstance(d, Obj) and d.cls is m.prog.cls('TapeDescriptor'), w.kind(g) == 'Sound',
                    h.cls is m.prog.cls('Timecode'), val(w, h, 'Length') == 77, val(w, h, 'FPS') == 24, val(w, h, 'Drop') is True, val(w, g, 'Length') == 25 * 60 * 60 * 12,
                    val(w, s, 'EditRate') == 25, val(w, t, 'EditRate') == 25)
        J.run('tape slots', at, tape, lambda m, v: all(v), 'a tape does not get its name, descriptor, a media slot of twelve hours and a timecode slot')


def clips(cx, J):
    at = where(cx, 'Mob', 'create_source_clip')
    prog = cx.prog
    if at:
        for kind in ('CompositionMob', 'MasterMob', 'SourceMob'):
            for start, length, mk, want in ((None, None, None, ('Sound', 0, 90)), (10, None, None, ('Sound', 10, 80)), (10, 20, None, ('Sound', 10, 20)), (None, 20, 'picture', ('Picture', 0, 20)),
                                            (100, None, None, ('Sound', 100, 0)), (90, None, None, ('Sound', 90, 0)), (0, 5, 'timecode', ('Timecode', 0, 5))):
                for n in (1, 2):
                    def clip(m):
                        w = World(m)
                        other = w.add(w.create(kind))
                        w.slot(other, 1, 7, 'picture')
                        w.slot(other, 2, 7, 'picture')
                        mob = w.add(w.create(kind))
                        a = w.slot(mob, 2, 90 if n == 2 else 13, 'sound' if n == 2 else 'picture')
                        b = w.slot(mob, 1, 90 if n == 1 else 13, 'sound' if n == 1 else 'picture')
                        del w.events[:]
                        c = mcall(m, mob, 'create_source_clip', n, start, length, mk)
                        return (c.cls is m.prog.cls('SourceClip'), same(m, val(w, c, 'SourceID'), val(w, mob, 'MobID')), val(w, c, 'SourceMobSlotID') == n, m.getattr(c, 'mob') is mob,
                                m.getattr(c, 'slot') is (a if n == 2 else b), (w.kind(c), val(w, c, 'StartTime'), val(w, c, 'Length')) == want,
                                all(o.at['parent'] is c or o.at['parent'].cls is c.cls for e, o, v in [(e[0], e[1].obj, e[2]) for e in w.events]), w.fits(cx) is not False)
                    J.run('%s.create_source_clip(%s, %s, %s, %s)' % (kind, n, start, length, mk), at, clip, lambda m, v: all(v),
                          'the clip does not refer to this mob and slot with the start, length and media kind asked for')

        def missing(m):
            w = World(m)
            mob = w.add(w.create('MasterMob'))
            w.slot(mob, 1)
            mcall(m, mob, 'create_source_clip', 2)
        J.run('clip of an unknown slot', at, missing, lambda m, v: False, 'a clip of a slot the mob does not have is not refused', raises=True)

        def sequence(m):
            w = World(m)
            mob = w.add(w.create('MasterMob'))
            s = w.slot(mob, 1, 0, 'sound', 'Sequence')
            cs = []
            for k, n in (('Filler', 10), ('Transition', 3), ('SourceClip', 20)):
                g = w.create(k)
                w.put(g, 'Length', n)
                cs.append(g)
            w.put(val(w, s, 'Segment'), 'Components', cs)
            c = mcall(m, mob, 'create_source_clip', 1, 7)
            return val(w, c, 'Length'), w.kind(c)
        J.run('clip of a sequence', at, sequence, lambda m, v: v == (20, 'Sound'), 'the default length is not that of the sequence, less its transitions and the start')
    for cls in ('SourceClip',):
        if not prog.has_cls(cls):
            continue
        g = prog.cls(cls).getter('mob')
        if g is None:
            continue

        def found(m):
            w = World(m)
            mobs = [w.add(w.create(k)) for k in ('MasterMob', 'SourceMob', 'CompositionMob')]
            out = []
            for x in mobs:
                c = w.create(cls)
                m.setattr(c, 'mob', x)
                out.append(m.getattr(c, 'mob') is x and same(m, m.getattr(c, 'mob_id'), val(w, x, 'MobID')))
            return out
        J.run('%s.mob' % cls, g.where, found, lambda m, v: all(v), 'a clip does not give the mob it was set to')

        def absent(m):
            w = World(m)
            w.add(w.create('MasterMob'))
            c = w.create(cls)
            m.setattr(c, 'mob', w.create('SourceMob'))
            return m.getattr(c, 'mob')
        J.run('%s.mob not in the file' % cls, g.where, absent, lambda m, v: v is None, 'a mob that is not in the file is found')

        def zero(m):
            w = World(m)
            w.add(w.create('MasterMob'))
            return m.getattr(w.create(cls), 'mob'), m.getattr(w.create(cls), 'slot')
        J.run('%s without a mob' % cls, g.where, zero, lambda m, v: v == (None, None), 'a clip that refers to nothing has a mob or slot')

        def args(m):
            w = World(m)
            i = w.mobid(5)
            c = w.create(cls, 3, 40, i, 2, 'sound')
            return val(w, c, 'StartTime') == 3, val(w, c, 'Length') == 40, same(m, val(w, c, 'SourceID'), i), val(w, c, 'SourceMobSlotID') == 2, w.kind(c) == 'Sound'
        J.run('%s()' % cls, prog.cls(cls).method('__init__').where, args, lambda m, v: all(v), 'a clip does not keep the start, length, mob, slot and media kind it is made with')
    # essence and mob
    if prog.has_cls('EssenceData') and prog.cls('EssenceData').getter('mob'):
        def both(m):
            w = World(m)
            mobs = [w.add(w.create('SourceMob')) for i in range(3)]
            es = []
            for x in (mobs[1], mobs[0]):
                e = w.create('EssenceData')
                m.setattr(e, 'mob', x)
                w.put(w.root.at['content'], 'EssenceData', w.essences() + [e])
                es.append(e)
            return (m.getattr(es[0], 'mob') is mobs[1], m.getattr(es[1], 'mob') is mobs[0], same(m, val(w, es[0], 'MobID'), val(w, mobs[1], 'MobID')), m.getattr(mobs[1], 'essence') is es[0],
                    m.getattr(mobs[0], 'essence') is es[1], m.getattr(mobs[2], 'essence') is None)
        J.run('essence and mob', prog.cls('EssenceData').getter('mob').where, both, lambda m, v: all(v), 'a source mob and its essence do not give each other')


def sources(cx, J):
    at = where(cx, 'SourceMob', 'create_essence')
    if at is None:
        return
    for off in (False, True):
        for kind, want in (('sound', 'Sound'), ('picture', 'Picture')):
            def make(m):
                w = World(m)
                w.add(w.create('SourceMob'))
                mob = w.add(w.create('SourceMob'))
                e, s = mcall(m, mob, 'create_essence', 30, kind, offline=off)
                ok = [is_new(m, w, mob, [], s), w.kind(s) == want, val(w, s, 'EditRate') == 30, w.fits(cx) is not False]
                if off:
                    return ok + [e is None, w.essences() == []]
                return ok + [w.essences() == [e], same(m, val(w, e, 'MobID'), val(w, mob, 'MobID')), m.getattr(mob, 'essence') is e, m.getattr(e, 'mob') is mob]
            J.run('create_essence %s%s' % (kind, ' offline' if off else ''), at, make, lambda m, v: all(v),
                  'essence %s' % ('is made for an offline mob or its slot is missing' if off else 'is not registered in the file under the identifier of its mob, with a slot of its kind'))

        def taken(m):
            w = World(m)
            mob = w.add(w.create('SourceMob'))
            s = w.slot(mob, 1)
            try:
                mcall(m, mob, 'create_essence', 30, 'sound', offline=off)
            except AbsRaise:
                return w.essences() == [] and w.items(mob, 'Slots') == [s]
            return None
        J.run('create_essence refused%s' % (' offline' if off else ''), at, taken, lambda m, v: v, 'refused essence is left in the file')


def chunk(n, size):
    return const_bytes(bytes(bytearray((n * 16 + i) & 255 for i in range(size))))


class Wave(object):
    """a wave file: header values and chunks of frames"""
    def __init__(self, rate=48000, channels=2, width=3, frames=96000, align=6, chunks=2):
        self.left = [chunk(i + 1, 6) for i in range(chunks)]
        self.all = list(self.left)
        self.closed = 0
        self.path = None
        at = {}
        for n, v in (('getframerate', rate), ('getnchannels', channels), ('getsampwidth', width), ('getblockalign', align), ('getnframes', frames)):
            at[n] = Py(lambda m, a, k, v=v: v)
        at['readframes'] = Py(lambda m, a, k: self.left.pop(0) if self.left else By([]))
        at['close'] = Py(self.close)
        at['__enter__'] = Py(lambda m, a, k: self.obj)
        self.obj = Obj('wave', at)

    def close(self, m, a, k):
        self.closed += 1


def wrote(w):
    return [list(x.v) for s in w.streams for x in s.at['written'] if isinstance(x, By)]


def joined(xs):
    return [b for x in xs for b in (x.v if isinstance(x, By) else x)]


def imports(cx, J):
    prog = cx.prog
    st = stubs({('audio', 'WaveReader'): Py(lambda m, a, k: m.wave.open_(a)),
                ('ext', 'io.open'): Py(lambda m, a, k: m.source(m, a, k)), ('ext', 'open'): Py(lambda m, a, k: m.source(m, a, k)),
                ('video', 'iter_dnx_stream'): Py(lambda m, a, k: list(m.packets) if a[0] is m.file else []),
                ('video', 'read_dnx_frame_header'): Py(lambda m, a, k: m.header(m, a))})
    K = Judge(cx, 'link', st)
    for off in (False, True):
        for tape in (False, True):
            for length in (None, 33):
                for route in ('MasterMob', 'SourceMob'):
                    audio_one(cx, K, route, off, tape, length)
                    dnx_one(cx, K, route, off, tape, length)
    raw(cx, K)


def check_tie(m, w, cx, master, s, kind, off, clip, length):
    """master slot -> source mob -> essence"""
    new = [x for x in w.mobs() if x is not master and x is not w.other]
    out = [('one source mob', len(new) == 1 and new[0].cls is m.prog.cls('SourceMob'))]
    if not out[0][1]:
        return out
    src = new[0]
    ss = w.items(src, 'Slots')
    out.append(('one source slot', len(ss) == 1))
    g = val(w, s, 'Segment')
    out.append(('the slot is in the master mob', w.items(master, 'Slots') == [w.first, s] and is_new(m, w, master, [w.first], s)))
    out.append(('the master clip refers to the source mob', isinstance(g, Obj) and g.cls is m.prog.cls('SourceClip') and same(m, val(w, g, 'SourceID'), val(w, src, 'MobID'))))
    out.append(('the master clip refers to the source slot', len(ss) == 1 and val(w, g, 'SourceMobSlotID') == val(w, ss[0], 'SlotID')))
    out.append(('media kind', w.kind(g) == kind))
    out.append(('length', val(w, g, 'Length') == length))
    return out + check_source(m, w, cx, src, ss[0], kind, off, clip, length)


def check_source(m, w, cx, src, slot, kind, off, clip, length):
    g = val(w, slot, 'Segment')
    out = [('source clip', (g is clip) if clip is not None else g.cls is m.prog.cls('SourceClip') and w.kind(g) == kind),
           ('source length', val(w, g, 'Length') == length), ('properties fit', w.fits(cx) is not False)]
    es = w.essences()
    if off:
        out.append(('no essence', es == [] and w.streams == []))
    else:
        out.append(('essence', len(es) == 1 and same(m, val(w, es[0], 'MobID'), val(w, src, 'MobID'))))
        out.append(('stream', all(s.at['cell'] is es[0].cells['Data'].obj for s in w.streams) if es and 'Data' in es[0].cells else w.streams == []))
    return out


def verdict(m, v):
    return all(x for n, x in v)


def setup(m, route):
    w = World(m)
    w.other = w.add(w.create('SourceMob'))
    mob = w.add(w.create(route))
    w.first = None
    if route == 'MasterMob':
        w.first = w.slot(mob, 1)
    del w.events[:]
    return w, mob


def audio_one(cx, J, route, off, tape, length):
    at = where(cx, route, 'import_audio_essence')
    if at is None:
        return
    for rate, want_rate, n in ((25, 25, 50), (None, 48000, 96000)):
        def go(m):
            w, mob = setup(m, route)
            m.wave = v = Wave()

            def open_(a):
                v.path = a[0]
                return v.obj
            v.open_ = open_
            t = w.create('SourceClip', 0, 5, w.mobid(77), 3, 'sound') if tape else None
            s = mcall(m, mob, 'import_audio_essence', 'a.wav', rate, t, length, off)
            src = mob if route == 'SourceMob' else None
            if src is None:
                out = check_tie(m, w, cx, mob, s, 'Sound', off, t, length or n)
                src = [x for x in w.mobs() if x is not mob and x is not w.other]
                src = src[0] if src else None
            else:
                out = check_source(m, w, cx, mob, s, 'Sound', off, t, length or n)
            out.append(('edit rate', val(w, s, 'EditRate') == want_rate))
            out.append(('path', v.path == 'a.wav'))
            out.append(('the file is closed', v.closed >= 1))
            if not off:
                out.append(('all frames, in order', joined(wrote(w)) == joined(v.all)))
            d = val(w, src, 'EssenceDescription') if src is not None else None
            out.append(('descriptor', isinstance(d, Obj) and d.cls is m.prog.cls('PCMDescriptor') and dict((k, val(w, d, k)) for k in PCM) == PCM))
            return [x for x in out if not x[1]]
        J.run('%s.import_audio_essence%s%s%s %s' % (route, ' offline' if off else '', ' tape' if tape else '', ' length' if length else '', rate), at, go, lambda m, v: v == [],
              'imported audio is not tied together')


PCM = {'Channels': 2, 'BlockAlign': 6, 'SampleRate': 48000, 'AverageBPS': 48000 * 2 * 3, 'QuantizationBits': 24, 'AudioSamplingRate': 48000, 'Length': 96000}


def dnx_one(cx, J, route, off, tape, length):
    at = where(cx, route, 'import_dnxhd_essence')
    if at is None:
        return
    for count, inter in ((3, 0), (1, 1)):
        def go(m):
            w, mob = setup(m, route)
            m.packets = [chunk(i + 1, 20) for i in range(count)]
            seen = []

            def source(m_, a, k):
                seen.append(a[0])
                m.file = Obj('file', {})
                m.file.at['__enter__'] = Py(lambda m__, b, kw: m.file)
                m.file.at['close'] = Py(lambda m__, b, kw: None)
                return m.file
            m.file = None
            m.source = source

            def header(m_, a):
                seen.append('first' if a[0] is m.packets[0] else 'header of another packet')
                return (1235, 1920, 1080, 10, inter)
            m.header = header
            t = w.create('SourceClip', 0, 5, w.mobid(77), 3, 'picture') if tape else None
            s = mcall(m, mob, 'import_dnxhd_essence', 'a.dnx', 25, t, length, off)
            src = mob if route == 'SourceMob' else None
            if src is None:
                out = check_tie(m, w, cx, mob, s, 'Picture', off, t, length or count)
                src = [x for x in w.mobs() if x is not mob and x is not w.other]
                src = src[0] if src else None
            else:
                out = check_source(m, w, cx, mob, s, 'Picture', off, t, length or count)
            out.append(('edit rate', val(w, s, 'EditRate') == 25))
            out.append(('path and header', seen[0] == 'a.dnx' and set(seen[1:]) == set(['first'])))
            if not off:
                out.append(('all packets, in order', joined(wrote(w)) == joined(m.packets)))
            d = val(w, src, 'EssenceDescription') if src is not None else None
            ok = isinstance(d, Obj) and d.cls is m.prog.cls('CDCIDescriptor')
            want = {'StoredWidth': 1920, 'StoredHeight': 1080, 'ComponentWidth': 10, 'FrameLayout': 'SeparateFields' if inter else 'FullFrame', 'ImageAspectRatio': '1920/1080',
                    'FrameSampleSize': 20, 'HorizontalSubsampling': 2, 'SampleRate': 25, 'Length': count}
            out.append(('descriptor', ok and dict((k, val(w, d, k)) for k in want) == want))
            if ok:
                c, o = val(w, d, 'ContainerFormat'), val(w, d, 'CodecDefinition')
                out.append(('container', isinstance(c, Obj) and c.cls is m.prog.cls('ContainerDef') and m.getattr(c, 'short_name') == 'AAF'))
                out.append(('codec', isinstance(o, Obj) and o.cls is m.prog.cls('CodecDef')))
                out.append(('compression', val(w, d, 'Compression') is not None))
            return [x for x in out if not x[1]]
        J.run('%s.import_dnxhd_essence%s%s%s %d' % (route, ' offline' if off else '', ' tape' if tape else '', ' length' if length else '', count), at, go, lambda m, v: v == [],
              'imported video is not tied together')


def raw(cx, J):
    at = where(cx, 'SourceMob', 'import_rawvideo_essence')
    if at is None:
        return
    for width, height, sizes, frame, frames in ((128, 64, (8,), 8192, 2), (100, 10, (8, 8, 8), 8192, 3), (10, 3, (10, 10), 8192, 1), (3, 3, (10,), 8192, 2), (128, 64, (8, 8), 16384, 0)):
        for tape in (False, True):
            def go(m):
                w, mob = setup(m, 'SourceMob')
                n = (width * height * sum(sizes) + 7) // 8
                state = {'left': frames, 'asked': []}
                body = [sym_bytes('frame%d' % i, n) for i in range(frames)]
                src = list(body)

                def read(m_, a, k):
                    state['asked'].append(a[0] if a else None)
                    return src.pop(0) if src else By([])
                f = Obj('file', {'read': Py(read), 'close': Py(lambda m__, b, kw: None)})
                f.at['__enter__'] = Py(lambda m__, b, kw: f)
                m.source = lambda m_, a, k: f
                layout = [D([('Code', 'CompRed'), ('Size', x)]) for x in sizes]
                t = w.create('SourceClip', 0, 5, w.mobid(77), 3, 'picture') if tape else None
                s = mcall(m, mob, 'import_rawvideo_essence', 'a.raw', 25, width, height, layout, t)
                out = check_source(m, w, cx, mob, s, 'Picture', False, t, frames)
                d = val(w, mob, 'EssenceDescription')
                want = {'StoredWidth': width, 'StoredHeight': height, 'ImageAlignmentFactor': 8192, 'FrameSampleSize': frame, 'Length': frames, 'ImageSize': frames * frame, 'SampleRate': 25,
                        'ImageAspectRatio': '%d/%d' % (width, height), 'FrameLayout': 'FullFrame'}
                out.append(('descriptor', isinstance(d, Obj) and d.cls is m.prog.cls('RGBADescriptor') and dict((k, val(w, d, k)) for k in want) == want and val(w, d, 'PixelLayout') == layout))
                out.append(('frames are read one by one', set(state['asked']) == set([n])))
                pad = [(0,) * 8] * (frame - n)
                got = joined(wrote(w))
                out.append(('frames, in order, padded', got == [b for x in body for b in list(x.v) + pad]))
                return [x for x in out if not x[1]]
            J.run('import_rawvideo_essence %dx%d %s%s' % (width, height, sizes, ' tape' if tape else ''), at, go, lambda m, v: v == [], 'imported raw video is not tied together')


# -- MXF ----------------------------------------------------------------------------------------
COMPONENT = ('DataDef', 'Length')
CARRIED = {
    'MXFTimecode': ('FPS', 'Drop', 'Start', 'Length'), 'MXFFiller': ('Length',), 'MXFScopeReference': ('Length', 'RelativeSlot', 'RelativeScope'),
    'MXFPulldown': ('Length', 'PhaseFrame', 'PulldownDirection', 'PulldownKind'), 'MXFSourceClip': ('SourceID', 'SourceMobSlotID', 'StartTime', 'Length'),
    'MXFCDCIDescriptor': ('ComponentWidth', 'HorizontalSubsampling', 'ImageAspectRatio', 'StoredWidth', 'VideoLineMap', 'StoredHeight', 'SampleRate', 'FrameLayout', 'Length', 'FrameSampleSize',
                          'ResolutionID', 'Compression', 'VerticalSubsampling', 'SampledWidth', 'SampledHeight', 'LinkedSlotID'),
    'MXFRGBADescriptor': ('ImageAspectRatio', 'StoredWidth', 'FrameLayout', 'PixelLayout', 'VideoLineMap', 'StoredHeight', 'SampleRate', 'Length', 'FrameSampleSize', 'SampledWidth', 'SampledHeight',
                          'Compression', 'LinkedSlotID'),
    'MXFPCMDescriptor': ('BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits', 'AudioSamplingRate', 'SampleRate', 'Length', 'LinkedSlotID'),
    'MXFANCDataDescriptor': ('SampleRate', 'Length', 'LinkedSlotID'),
    'MXFMultipleDescriptor': ('SampleRate', 'Length'),
    'MXFNetworkLocator': ('URLString',),
    'MXFSequence': ('Length',), 'MXFEssenceGroup': ('Length',),
}
AAF = {'MXFSequence': 'Sequence', 'MXFSourceClip': 'SourceClip', 'MXFTimecode': 'Timecode', 'MXFPulldown': 'Pulldown', 'MXFFiller': 'Filler', 'MXFScopeReference': 'ScopeReference',
       'MXFEssenceGroup': 'EssenceGroup', 'MXFCDCIDescriptor': 'CDCIDescriptor', 'MXFRGBADescriptor': 'RGBADescriptor', 'MXFPCMDescriptor': 'PCMDescriptor', 'MXFNetworkLocator': 'NetworkLocator',
       'MXFTapeDescriptor': 'TapeDescriptor', 'MXFImportDescriptor': 'ImportDescriptor', 'MXFMultipleDescriptor': 'MultipleDescriptor', 'MXFMaterialPackage': 'MasterMob', 'MXFSourcePackage': 'SourceMob',
       'MXFTrack': 'TimelineMobSlot'}


def named(o):
    return getattr(o, 'model_name', None) or o.cls.name


class Mxf(object):
    def __init__(self, m, w):
        self.m, self.w = m, w
        self.n = 0
        self.objects = D([])
        self.file = Obj(m.prog.cls('MXFFile'), {'objects': self.objects, 'aaf': w.root, 'path': '/media/a.mxf', 'ama': False, 'preface': None, 'local_tags': D([]),
                                                'header_operation_pattern': None, 'header_partition_size': None})

    def ref(self):
        self.n += 1
        return Obj(self.m.prog.cls('MXFRef'), dict(self.w.auid(9000 + self.n).at))

    def make(self, cls, **data):
        o = Obj(self.m.prog.cls(cls), {'instance_id': None, 'data': D(list(data.items())), 'root': self.file})
        o.ref = self.ref()
        o.at['instance_id'] = Obj(self.m.prog.cls('AUID'), dict(o.ref.at))
        self.objects.p.append((o.ref, o))
        return o

    def refs(self, objs):
        return [o.ref for o in objs]

    def link(self, o):
        return self.m.call(self.m.getattr(o, 'link'), [], {})

    def preface(self, packages):
        c = self.make('MXFContentStorage', Packages=self.refs(packages))
        self.file.at['preface'] = self.make('MXFPreface', ContentStorage=c.ref)


def mxf(cx, J):
    prog = cx.prog
    if not all(prog.has_cls(x) for x in ('MXFFile', 'MXFRef', 'MXFObject')):
        return

    def at(k):
        return where(cx, k, 'link')

    def sample(k, w):
        if k in ('SourceID',):
            return w.mobid(4)
        return 'value of ' + k if k in ('URLString', 'ImageAspectRatio', 'SampleRate') else N(tuple(('in ' + k, i) for i in range(32)))
    for k in sorted(CARRIED):
        if not prog.has_cls(k) or at(k) is None:
            continue
        for some in (True, False):
            def carry(m):
                w = World(m)
                x = Mxf(m, w)
                data = dict((n, sample(n, w)) for n in CARRIED[k] if some or n not in ('Length', 'FrameSampleSize', 'ResolutionID', 'Compression', 'VerticalSubsampling', 'SampledWidth', 'SampledHeight', 'LinkedSlotID')
                            or n == 'Length' and k not in ('MXFCDCIDescriptor', 'MXFRGBADescriptor', 'MXFPCMDescriptor', 'MXFANCDataDescriptor', 'MXFMultipleDescriptor', 'MXFSequence'))
                if prog.cls('MXFComponent') in prog.cls(k).mro():
                    data['DataDef'] = 'DataDef_Sound'
                if k == 'MXFPulldown':
                    data['InputSegment'] = x.make('MXFFiller', DataDef='DataDef_Sound', Length=3).ref
                o = x.make(k, **data)
                del w.events[:]
                r = x.link(o)
                out = [(n, val(w, r, n) is data[n]) for n in CARRIED[k] if n in data]
                # what was not there does not appear
                out += [(n, val(w, r, n) in (None, 0)) for n in CARRIED[k] if n not in data]
                if k in AAF:
                    out.append(('class', named(r) == AAF[k]))
                if 'DataDef' in data:
                    out.append(('media kind', w.kind(r) == 'Sound'))
                out.append(('properties fit', w.fits(cx) is not False))
                return [n for n, ok in out if not ok]
            J.run('%s.link%s' % (k, '' if some else ' without optional values'), at(k), carry, lambda m, v: v == [], 'what the file says is not what the linked object gets')
    if prog.has_cls('MXFSequence') and at('MXFSequence'):
        for k, key, prop in (('MXFSequence', 'Components', 'Components'), ('MXFEssenceGroup', 'Choices', 'Choices')):
            if not prog.has_cls(k) or at(k) is None:
                continue

            def children(m):
                w = World(m)
                x = Mxf(m, w)
                kids = [x.make('MXFFiller', DataDef='DataDef_Sound', Length=i) for i in (5, 6, 7)]
                x.make('MXFFiller', DataDef='DataDef_Sound', Length=8)
                o = x.make(k, DataDef='DataDef_Sound', Length=18, **{key: x.refs([kids[1], kids[0], kids[2]])})
                r = x.link(o)
                return [val(w, c, 'Length') for c in w.items(r, prop)]
            J.run('%s of three' % k, at(k), children, lambda m, v: v == [6, 5, 7], 'its parts are not linked, each once and in order')
    if prog.has_cls('MXFPulldown') and at('MXFPulldown'):
        def inner(m):
            w = World(m)
            x = Mxf(m, w)
            a = x.make('MXFFiller', DataDef='DataDef_Picture', Length=3)
            b = x.make('MXFFiller', DataDef='DataDef_Picture', Length=4)
            r = x.link(x.make('MXFPulldown', DataDef='DataDef_Picture', Length=9, InputSegment=b.ref, PhaseFrame=0, PulldownDirection=1, PulldownKind=2))
            return val(w, val(w, r, 'InputSegment'), 'Length')
        J.run('MXFPulldown of a segment', at('MXFPulldown'), inner, lambda m, v: v == 4, 'the pulldown does not hold its segment')
    if prog.has_cls('MXFMultipleDescriptor') and at('MXFMultipleDescriptor'):
        def many(m):
            w = World(m)
            x = Mxf(m, w)
            pcm = dict((n, i) for i, n in enumerate(CARRIED['MXFPCMDescriptor']))
            ds = [x.make('MXFPCMDescriptor', **dict(pcm, Channels=i)) for i in (1, 2)]
            r = x.link(x.make('MXFMultipleDescriptor', SampleRate='25/1', FileDescriptors=x.refs(ds)))
            return [val(w, d, 'Channels') for d in w.items(r, 'FileDescriptors')]
        J.run('MXFMultipleDescriptor of two', at('MXFMultipleDescriptor'), many, lambda m, v: v == [1, 2], 'its descriptors are not linked in order')
    for k in ('MXFMultipleDescriptor', 'MXFRGBADescriptor', 'MXFPCMDescriptor', 'MXFImportDescriptor', 'MXFCDCIDescriptor'):
        if not prog.has_cls(k) or at(k) is None:
            continue

        def locates(m):
            w = World(m)
            x = Mxf(m, w)
            data = dict((n, sample(n, w)) for n in CARRIED.get(k, ()))
            if k == 'MXFCDCIDescriptor':
                data['Locator'] = x.refs([x.make('MXFNetworkLocator', URLString='other')])
            r = x.link(x.make(k, **data))
            ls = w.items(r, 'Locator')
            return bool(ls) and all(named(l) == 'NetworkLocator' for l in ls) and any(isinstance(val(w, l, 'URLString'), str) and val(w, l, 'URLString').endswith('/media/a.mxf') for l in ls)
        J.run('%s locator' % k, at(k), locates, lambda m, v: v, 'the descriptor does not say where the file is')
    # tracks and packages
    if prog.has_cls('MXFTrack') and at('MXFTrack'):
        def track(m):
            w = World(m)
            x = Mxf(m, w)
            data = dict(SlotID=7, SlotName='V1', EditRate='25/1', PhysicalTrackNumber=3, Origin=2)
            r = x.link(x.make('MXFTrack', Segment=x.make('MXFFiller', DataDef='DataDef_Picture', Length=4).ref, **data))
            return [n for n in data if val(w, r, n) != data[n]] + ([] if val(w, val(w, r, 'Segment'), 'Length') == 4 and r.cls is prog.cls('TimelineMobSlot') and w.fits(cx) is not False else ['Segment'])
        J.run('MXFTrack.link', at('MXFTrack'), track, lambda m, v: v == [], 'a track does not become a slot with its number, name, rate, origin and segment')

        def bare(m):
            w = World(m)
            x = Mxf(m, w)
            x.link(x.make('MXFTrack', SlotID=7))
        J.run('MXFTrack without a segment', at('MXFTrack'), bare, lambda m, v: False, 'a track whose segment is not there is not refused', raises=True)
    if not all(prog.has_cls(k) for k in ('MXFMaterialPackage', 'MXFSourcePackage', 'MXFTrack', 'MXFSourceClip')) or at('MXFMaterialPackage') is None:
        return

    def package(x, w, cls, mid, tracks, **data):
        ts = []
        for n, (mob, slot) in tracks:
            ts.append(x.make('MXFTrack', SlotID=n, EditRate='25/1', Segment=x.make('MXFSourceClip', DataDef='DataDef_Picture', SourceID=mob, SourceMobSlotID=slot, StartTime=n, Length=n + 10).ref))
        return x.make(cls, MobID=mid, Slots=x.refs(ts), **data)

    def both(m, known=None):
        w = World(m)
        x = Mxf(m, w)
        a, b, c = w.mobid(1), w.mobid(2), w.mobid(3)
        master = package(x, w, 'MXFMaterialPackage', a, [(1, (b, 1)), (2, (b, 2))], Name='Master')
        d = x.make('MXFPCMDescriptor', **dict((n, i) for i, n in enumerate(CARRIED['MXFPCMDescriptor'])))
        extra = {}
        source = package(x, w, 'MXFSourcePackage', b, [(1, (c, 5)), (2, (c, 6))], Name='Source', Descriptor=d.ref, **extra)
        p = package(x, w, 'MXFSourcePackage', c, [(5, (w.mobid(0), 0)), (6, (w.mobid(0), 0))])
        x.preface([master, source, p])
        have = w.add(w.create('CompositionMob'))
        if known is not None:
            m.setattr(have, 'mob_id', (a, b, c)[known])
        r = m.call(m.getattr(x.file, 'link'), [w.root], {})
        return w, r, (a, b, c), have
    for known in (None, 0, 1, 2):
        def linked(m):
            w, r, ids, have = both(m, known)
            mobs = [x for x in w.mobs() if x is not have]
            want = [i for i in range(3) if i != known]
            out = [('returned', isinstance(r, list) and len(r) == len(want) and all(any(x is y for y in mobs) for x in r)), ('in the file', len(mobs) == len(want)), ('the old one stays', any(x is have for x in w.mobs()))]
            for x, i in zip(mobs, want):
                out.append(('identifier', same(m, val(w, x, 'MobID'), ids[i])))
                out.append(('class', x.cls is prog.cls('MasterMob' if i == 0 else 'SourceMob')))
                slots = w.items(x, 'Slots')
                out.append(('slots', [val(w, s, 'SlotID') for s in slots] == ([5, 6] if i == 2 else [1, 2])))
                for s in slots:
                    g = val(w, s, 'Segment')
                    n = val(w, s, 'SlotID')
                    t = ids[i + 1] if i < 2 else w.mobid(0)
                    out.append(('clip', same(m, val(w, g, 'SourceID'), t) and val(w, g, 'SourceMobSlotID') == ((n, n + 4, 0)[i]) and val(w, g, 'StartTime') == n and val(w, g, 'Length') == n + 10))
                if i < 2:
                    out.append(('name', val(w, x, 'Name') == ('Master', 'Source')[i]))
                d = val(w, x, 'EssenceDescription') if i else None
                out.append(('descriptor', (isinstance(d, Obj) and d.cls is prog.cls('PCMDescriptor')) if i == 1 else d is None))
            out.append(('properties fit', w.fits(cx) is not False))
            return [n for n, ok in out if not ok]
        J.run('linking a file%s' % ('' if known is None else ', package %d known' % known), where(cx, 'MXFFile', 'link') or at('MXFMaterialPackage'), linked, lambda m, v: v == [],
              'the packages that are not yet in the file do not become mobs that refer to each other')

    def again(m):
        w, r, ids, have = both(m)
        n = list(w.mobs())
        x = Mxf(m, w)
        x.preface([package(x, w, 'MXFMaterialPackage', ids[0], [(1, (ids[1], 1))])])
        r2 = m.call(m.getattr(x.file, 'link'), [w.root], {})
        return r2 == [] and w.mobs() == n
    J.run('linking a file twice', where(cx, 'MXFFile', 'link') or at('MXFMaterialPackage'), again, lambda m, v: v, 'a package that is in the file is linked again')

    def timed(m):
        w = World(m)
        x = Mxf(m, w)
        when = dict((k, Obj('datetime.datetime', dict(year=2001 + i, month=1, day=1, hour=1, minute=1, second=1, microsecond=0))) for i, k in enumerate(('LastModified', 'CreationTime')))
        t = [x.make('MXFTaggedValue', Name='n%d' % i, Value=v) for i, v in enumerate(('a', None, 'b'))]
        at_ = [x.make('MXFTaggedValue', Name='m', Value='c')]
        st = x.make('MXFStaticTrack', SlotID=9)
        p = x.make('MXFSourcePackage', MobID=w.mobid(1), Name='N', UsageCode='code', AppCode=6, UserComments=x.refs(t), MobAttributeList=x.refs(at_), Slots=x.refs([st]), **when)
        r = x.link(p)
        return ([k for k in when if val(w, r, k) is not when[k]] + [k for k, v in (('UsageCode', 'code'), ('AppCode', 6)) if val(w, r, k) != v] + ([] if w.items(r, 'Slots') == [] else ['static track'])
                + ([] if [val(w, c, 'Name') for c in w.items(r, 'UserComments')] == ['n0', 'n2'] else ['comments']) + ([] if [val(w, c, 'Name') for c in w.items(r, 'MobAttributeList')] == ['m'] else ['attributes']))
    J.run('MXFPackage.link', at('MXFSourcePackage'), timed, lambda m, v: v == [], 'times, usage, comments or attributes of a package are not those of its mob')
