"""C10: expiry and signature times keep millisecond precision"""
from array import array
import os
import time
from datetime import datetime, timedelta, timezone, tzinfo
from fractions import Fraction

from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.Packet import Packet
from ccnpy.core.SignatureTime import SignatureTime
from ccnpy.core.Tlv import Tlv
from ccnpy.core.ValidationAlg import ValidationAlg_RsaSha256
from ccnpy.core.HashValue import HashValue

from .. import lib, wire
from ..engine import raises

PID = 'C10'
TECHNIQUE = 'model checking: exhaustive enumeration of millisecond counts, second fractions and datetimes in windows over the whole range, real elements against exact rational arithmetic'
BOUND = {
    'quick': 'both elements: every millisecond count in windows of 20000 around 0, every power of two up to 2^51, and 24 calendar instants; every microsecond offset -600..600 (and floats one ulp around each half) around milliseconds in each window; datetimes with every microsecond 0..1999 and all 1000 milliseconds of a second in 9 years and 5 time zones; local times and times of zones in 5 clocks around each change of summer time, the hour that comes twice both times; all wire values in windows',
    'thorough': 'as quick with windows of 150000',
}
ASSUMPTIONS = ['a time exactly between two milliseconds may go to either']

CLASSES = {'expiry': (ExpiryTime, 6), 'signature': (SignatureTime, 15)}
LIMIT = 1 << 51
WINDOW = {'quick': 20000, 'thorough': 150000}
UTC = timezone.utc


def centers():
    marks = [0] + [1 << k for k in range(14, 52)]
    for y in (1970, 1971, 1999, 2000, 2001, 2023, 2024, 2025, 2038, 2100, 2106, 2262, 3000, 9999):
        marks.append(int((datetime(y, 6, 15, 12, 34, 56, tzinfo=UTC) - datetime(1970, 1, 1, tzinfo=UTC)) // timedelta(milliseconds=1)))
    marks += [10 ** k for k in range(9, 16)]
    return sorted(set(marks))


def units(tier):
    u = []
    for c in CLASSES:
        u += [dict(kind='counts', element=c, center=m) for m in centers()]
        u += [dict(kind='datetimes', element=c, zone=z) for z in range(5)]
        u.append(dict(kind='packets', element=c))
        u += [dict(kind='clocks', element=c, clock=i) for i in range(len(CLOCKS))]
    return u


def run(unit, ctx):
    cls, t = CLASSES[unit['element']]
    globals()[unit['kind']](unit, ctx, cls, t)


def verify(ctx, case, obj, t, allowed):
    """obj carries one of the allowed millisecond counts, exactly and everywhere"""
    w = obj.serialize().tobytes()
    ms = obj.milliseconds()
    if w[:4] != t.to_bytes(2, 'big') + b'\0\x08' or len(w) != 12:
        ctx.fail(case, 'encodes to %s' % w.hex())
        return
    on_wire = int.from_bytes(w[4:], 'big')
    if on_wire not in allowed or ms != on_wire:
        ctx.fail(case, 'encodes %d ms, milliseconds() is %d, expected %r' % (on_wire, ms, sorted(allowed)))
    if len(obj) != 12:
        ctx.fail(case, 'len() is %d' % len(obj))


def roundtrip(ctx, case, cls, t, ms):
    w = wire.tlv(t, ms.to_bytes(8, 'big'))
    p = cls.parse(Tlv.deserialize(array('B', w)))
    if p.milliseconds() != ms or p.serialize().tobytes() != w:
        ctx.fail(case, 'reads back as %d ms, encodes to %s' % (p.milliseconds(), p.serialize().tobytes().hex()))
    return p


def nearest(x: Fraction):
    lo = x.__floor__()
    d = x - lo
    if d == Fraction(1, 2):
        return {lo, lo + 1}
    return {lo if d < Fraction(1, 2) else lo + 1}


def near_of_float(seconds):
    """The nearest millisecond counts of a float number of seconds.
    The product of a float with 1000 can only be computed to one part in 2^51: a time within that of a half is a tie."""
    return near(Fraction(seconds) * 1000)


def near(x: Fraction):
    eps = abs(x) / (1 << 52)
    return nearest(x - eps) | nearest(x + eps) | nearest(x)


def counts(unit, ctx, cls, t):
    c, w = unit['center'], WINDOW[ctx.tier]
    for ms in range(max(0, c - w // 2), min(c + w // 2, LIMIT) + 1):
        case = dict(unit, milliseconds=ms)
        p = roundtrip(ctx, case, cls, t, ms)
        o = cls(ms / 1000)
        verify(ctx, dict(case, given='float'), o, t, {ms})
        if not (o == p):
            ctx.fail(case, 'the time read from the wire is not equal to the time built')
        if ms % 1000 == 0:
            verify(ctx, dict(case, given='int'), cls(ms // 1000), t, {ms})
        ctx.step(2)
    ctx.trace('whole', min(c + w // 2, LIMIT) - max(0, c - w // 2) + 1)
    # not a whole number of milliseconds
    for ms in (c, c + 1, c + 499, c + 999):
        for us in range(-600, 601):
            s = (ms * 1000 + us) / 1000000
            near_half = []
            if abs(us) == 500 or us == 0:
                import math
                near_half = [math.nextafter(s, math.inf), math.nextafter(s, -math.inf)]
            for x in [s] + near_half:
                if x < 0 or x * 1000 > LIMIT:
                    continue
                verify(ctx, dict(unit, seconds=repr(x)), cls(x), t, near_of_float(x))
                ctx.step()
                ctx.trace('rounded')
    ctx.state((unit['element'], c))
    ctx.sample(center=c)


ZONES = [UTC, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-11)), timezone(timedelta(hours=14)), timezone(timedelta(seconds=1))]


def datetimes(unit, ctx, cls, t):
    tz = ZONES[unit['zone']]
    epoch = datetime(1970, 1, 1, tzinfo=UTC)
    micro = list(range(2000)) + [m * 1000 + d for m in range(1000) for d in (0, 1, 499, 501, 999)] + [999499, 999501, 999999]
    for y in (1971, 2000, 2024, 2025, 2038, 2039, 2106, 2262, 9998):
        for us in micro:
            dt = datetime(y, 2, 28, 23, 59, 59, us, tzinfo=tz)
            exact = Fraction((dt - epoch) // timedelta(microseconds=1), 1000)
            o = cls.from_datetime(dt)
            verify(ctx, dict(unit, datetime=dt.isoformat()), o, t, near(exact))
            ctx.step()
            ctx.trace('datetime')
            if us % 1000 == 0:
                back = o.datetime()
                if (back - dt) > timedelta(microseconds=500) or (dt - back) > timedelta(microseconds=500):
                    ctx.fail(dict(unit, datetime=dt.isoformat()), 'datetime() gives %s' % back.isoformat())
        ctx.state((unit['element'], unit['zone'], y))
    before = datetime.now(UTC)
    o = cls.now()
    after = datetime.now(UTC)
    lo = nearest(Fraction((before - epoch) // timedelta(microseconds=1), 1000))
    hi = nearest(Fraction((after - epoch) // timedelta(microseconds=1), 1000))
    ctx.check(min(lo) <= o.milliseconds() <= max(hi), dict(unit, now=True), 'now() is not the time now')


# TZ, hours east of UTC, (month, week, hour of local time) of the start and the end of summer time
CLOCKS = [('CET-1CEST,M3.5.0/2,M10.5.0/3', 1, (3, 5, 2), (10, 5, 3)), ('EST5EDT,M3.2.0/2,M11.1.0/2', -5, (3, 2, 2), (11, 1, 2)),
          ('AEST-10AEDT,M10.1.0/2,M4.1.0/3', 10, (10, 1, 2), (4, 1, 3)), ('UTC0', 0, None, None), ('XXX-14', 14, None, None)]


def sunday(year, month, week, hour):
    """The hour of the week-th (5: last) Sunday of the month"""
    days = [datetime(year, month, d) for d in range(1, 32) if month in (1, 3, 5, 7, 8, 10, 12) or d < 31]
    days = [d for d in days if d.weekday() == 6]
    return (days[-1] if week == 5 else days[week - 1]).replace(hour=hour)


class Clock(tzinfo):
    def __init__(self, clock):
        _, self.hours, self.begin, self.end = clock

    def summer(self, dt):
        if self.begin is None:
            return False
        begin, end = sunday(dt.year, *self.begin), sunday(dt.year, *self.end)
        wall = dt.replace(tzinfo=None, fold=0)
        if end - timedelta(hours=1) <= wall < end:
            return dt.fold == 0       # the hour that comes twice
        return begin <= wall < end if begin < end else wall >= begin or wall < end

    def dst(self, dt):
        return timedelta(hours=int(self.summer(dt)))

    def utcoffset(self, dt):
        return timedelta(hours=self.hours) + self.dst(dt)

    def tzname(self, dt):
        return None


def clocks(unit, ctx, cls, t):
    """Local times and times of zones with summer time, in the hour that comes twice too"""
    clock = CLOCKS[unit['clock']]
    zone = Clock(clock)
    old = os.environ.get('TZ')
    os.environ['TZ'] = clock[0]
    time.tzset()
    try:
        epoch = datetime(1970, 1, 1)
        for y in (2008, 2020, 2024, 2025, 2030, 2037):
            walls = [datetime(y, m, 15, 12, 34, 56) for m in range(1, 13)]
            if clock[2] is not None:
                begin, end = sunday(y, *clock[2]), sunday(y, *clock[3])
                walls += [end + timedelta(minutes=m) for m in range(-125, 65, 5)]
                walls += [begin + timedelta(minutes=m) for m in list(range(-125, 0, 5)) + list(range(60, 125, 5))]
            for wall in walls:
                for us in (0, 1000, 499000, 999000, 123456):
                    for fold in (0, 1):
                        w = wall.replace(microsecond=us, fold=fold)
                        exact = Fraction((w.replace(fold=0) - epoch - zone.utcoffset(w)) // timedelta(microseconds=1), 1000)
                        for how, dt in (('local', w), ('zone', w.replace(tzinfo=zone))):
                            case = dict(unit, datetime=w.isoformat(), fold=fold, how=how)
                            with ctx.guard(case):
                                o = cls.from_datetime(dt)
                                verify(ctx, case, o, t, near(exact))
                            ctx.step()
                            ctx.trace('%s time' % how)
                ctx.state((wall, unit['clock']))
    finally:
        if old is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = old
        time.tzset()


def packets(unit, ctx, cls, t):
    """The time inside a packet, over two trips through the wire"""
    for c in centers():
        for ms in range(max(0, c - 30), min(c + 30, LIMIT) + 1):
            case = dict(unit, milliseconds=ms)
            tlv = wire.tlv(t, ms.to_bytes(8, 'big'))
            if unit['element'] == 'expiry':
                p = Packet.create_content_object(ContentObject.create_data(name=lib.N('ccnx:/a'), payload=b'x', expiry_time=cls(ms / 1000)))
            else:
                kid = HashValue.create_sha256(bytes(32))
                co = ContentObject.create_data(name=lib.N('ccnx:/a'), payload=b'x')
                from ccnpy.core.ValidationPayload import ValidationPayload
                p = Packet.create_signed_content_object(co, ValidationAlg_RsaSha256(keyid=kid, signature_time=cls(ms / 1000)),
                                                        ValidationPayload(array('B', bytes(256))))
            w = p.serialize().tobytes()
            ctx.check(tlv in w, case, 'the packet is %s' % w.hex())
            q = lib.parse(w)
            got = q.body().expiry_time() if unit['element'] == 'expiry' else q.validation_alg().signature_time()
            ctx.check(got.milliseconds() == ms, case, 'the packet reads as %d ms' % got.milliseconds())
            again = (Packet.create_content_object(q.body()) if unit['element'] == 'expiry' else
                     Packet.create_signed_content_object(q.body(), q.validation_alg(), q.validation_payload()))
            ctx.check(again.serialize().tobytes() == w, case, 'the packet read and built again is %s' % again.serialize().tobytes().hex())
            ctx.step(3)
            ctx.trace('packet')
    ctx.state(unit)
