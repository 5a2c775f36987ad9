"""
C21: clock-relative dates are computed from one instant of the clock.

System: the real epsilon.extime on a simulated clock that moves at every
reading as the seed says - ticks, crosses midnight, month and year ends, leap
days, or is stepped back - through every standard-library way of reading it.
"""
import datetime as _dt
import time as _time

from dst import seams

RUNS = (60000, 2500000)
RULE = ('seeded clock behaviours (moves at each reading) x date phrases, times to show, fixed zones and explicit current times; several calls per run; '
        'non-trivial: the clock moved across a day, month or year end, or backwards, around the call')
REAL = ['epsilon.extime']
STUB = ['the clock: datetime.utcnow/now/today, time.time/gmtime/localtime (moves at each reading)']
PROBES = ['very rough explicit now', 'phrase from the clock', 'phrase with explicit now', 'shown from the clock', 'shown with explicit now', 'new Time', 'midnight between readings',
          'year end between readings', 'leap day', 'clock stepped back', 'zone shifts the day', 'malformed', 'time of day passed', 'same day', 'other year', 'all day', 'noon or midnight',
          'year end in the zone only', 'twelve pm', 'weekday is today', 'rough explicit now']
FAULTS = ['clock tick', 'midnight crossed', 'clock stepped back', 'clock jumped forward']

RealDatetime = _dt.datetime
UTC = _dt.timezone.utc


class Meta(type(RealDatetime)):
    def __instancecheck__(cls, o):
        return isinstance(o, RealDatetime)


class SimDatetime(RealDatetime, metaclass=Meta):
    @classmethod
    def utcnow(cls):
        sim = seams.current
        if sim is None or getattr(sim, 'wall', None) is None:
            return RealDatetime.utcnow()
        t = sim.wall()
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)

    @classmethod
    def now(cls, tz=None):
        sim = seams.current
        if sim is None or getattr(sim, 'wall', None) is None:
            return RealDatetime.now(tz)
        t = cls.utcnow()
        if tz is None:
            return t + LOCAL          # this machine is not in UTC
        return t.replace(tzinfo=UTC).astimezone(tz)

    @classmethod
    def today(cls):
        return cls.now()


LOCAL = _dt.timedelta(hours=5, minutes=30)


def stamp(sim):
    return (sim.wall() - RealDatetime(1970, 1, 1)).total_seconds()


def install():
    _dt.datetime = SimDatetime
    real_gm, real_local = _time.gmtime, _time.localtime
    seam_time = _time.time

    def wall():
        sim = seams.current
        return None if sim is None or getattr(sim, 'wall', None) is None else sim

    def time():
        sim = wall()
        return seam_time() if sim is None else stamp(sim)

    def gmtime(*a):
        sim = wall()
        if (a and a[0] is not None) or sim is None:
            return real_gm(*a)
        return real_gm(stamp(sim))

    def localtime(*a):
        sim = wall()
        if (a and a[0] is not None) or sim is None:
            return real_local(*a)
        return real_gm(stamp(sim) + LOCAL.total_seconds())
    _time.time = time
    _time.time_ns = lambda: int(time() * 1000000000)
    _time.gmtime = gmtime
    _time.localtime = localtime


_ready = False
DAY = _dt.timedelta(days=1)
WEEKDAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']


def meaning(phrase, t, zone):
    """What the phrase means at the (naive, UTC) instant t: (value, resolution)."""
    phrase = phrase.strip().lower()
    day0 = t.replace(hour=0, minute=0, second=0, microsecond=0)
    words = phrase.split()
    if words[-1] in WEEKDAYS:
        n = (WEEKDAYS.index(words[-1]) - day0.weekday()) % 7 or 7
        return day0 + n * DAY, DAY
    if phrase in ('today', 'tomorrow', 'yesterday'):
        return day0 + {'today': 0, 'tomorrow': 1, 'yesterday': -1}[phrase] * DAY, DAY
    local = t + zone
    if phrase in ('noon', 'midnight'):
        hour = local.replace(minute=0, second=0, microsecond=0)
        then = hour.replace(hour=12 if phrase == 'noon' else 0)
        if then < hour:
            then += DAY
        return then - zone, _dt.timedelta(minutes=1)
    if phrase == 'now':
        return t, _dt.timedelta.resolution
    hm, ap = phrase, ''
    if phrase.endswith('m'):
        hm, ap = phrase[:-2].strip(), phrase[-2:]
    h, m = map(int, hm.split(':'))
    if ap == 'am' and h == 12:
        h = 0
    elif ap == 'pm' and h != 12:
        h += 12
    minute = local.replace(second=0, microsecond=0)
    then = minute.replace(hour=h, minute=m)
    if then < minute:
        then += DAY
    return then - zone, _dt.timedelta(minutes=1)


MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def shown(when, allday, t, zone, seconds):
    """How a time is shown at the instant t."""
    w = when if allday else when + zone
    n = t + zone
    clock = '%02d:%02d' % ((w.hour + 11) % 12 + 1, w.minute)
    if seconds:
        clock += ':%02d' % w.second
    clock += ' am' if w.hour < 12 else ' pm'
    if (w.year, w.month, w.day) == (n.year, n.month, n.day):
        return 'all day' if allday else clock
    r = '%d %s' % (w.day, MONTHS[w.month - 1])
    if w.year != n.year:
        r += ' %04d' % w.year
    if not allday:
        r += ', ' + clock
    return r


def plain(d):
    return RealDatetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


def run(sim):
    global _ready
    if not _ready:
        _ready = True
        install()
    from epsilon import extime
    c = sim.c
    Time = extime.Time
    state = {}

    def edge():
        base = c.pick([RealDatetime(2023, 12, 31, 23, 59, 59, 999000), RealDatetime(2024, 2, 28, 23, 59, 59, 500000), RealDatetime(2024, 2, 29, 23, 59, 59),
                       RealDatetime(2023, 6, 14, 23, 59, 58), RealDatetime(2022, 11, 30, 23, 59, 0), RealDatetime(2023, 2, 28, 12, 0, 0),
                       RealDatetime(2023, 6, 14, 11, 59, 59, 999999), RealDatetime(2100, 2, 28, 23, 59, 59), RealDatetime(1999, 12, 31, 18, 29, 59)])
        return base + c.pick([0, 0, 1, -1, 30, 3600, -3600]) * _dt.timedelta(seconds=1) + _dt.timedelta(microseconds=c.draw(1000000)) * c.draw(2) \
            - _dt.timedelta(seconds=c.draw(86400)) * (c.draw(3) == 0)

    def wall():
        t = state['t']
        state['read'].append(t)
        k = c.draw(8)
        if k < 2:
            step = _dt.timedelta(microseconds=1 + c.draw(50))
            sim.faults['clock tick'] += 1
        elif k < 4:
            step = _dt.timedelta(seconds=c.pick([1, 2, 59, 0.6]))
            sim.faults['clock tick'] += 1
        elif k == 4:
            step = -_dt.timedelta(seconds=c.pick([1, 3600, 86400, 0.5]))
            sim.faults['clock stepped back'] += 1
            sim.probe('clock stepped back')
            sim.nontrivial = True
        elif k == 5:
            step = _dt.timedelta(hours=c.pick([1, 24, 24 * 40, 13]))
            sim.faults['clock jumped forward'] += 1
        else:
            # to just after the next midnight
            step = (t.replace(hour=0, minute=0, second=0, microsecond=0) + DAY) - t + _dt.timedelta(microseconds=c.draw(5))
        n = t + step
        if n.date() != t.date():
            sim.faults['midnight crossed'] += 1
            sim.probe('midnight between readings')
            sim.nontrivial = True
            if n.year != t.year:
                sim.probe('year end between readings')
            if (t.month, t.day) == (2, 29) or (n.month, n.day) == (2, 29):
                sim.probe('leap day')
        state['t'] = n
        return t

    sim.wall = wall
    state['t'] = edge()
    for i in range(1 + c.draw(4)):
        if c.draw(3) == 0:
            state['t'] = edge()
        state['read'] = []
        start = state['t']
        off = c.pick([0, 60, -420, 330, 840, -720, 765, 1])
        zone = _dt.timedelta(minutes=off)
        tz = None
        if off or c.draw(2):
            tz = extime.FixedOffset(off // 60, off % 60)
        if (start + zone).date() != start.date():
            sim.probe('zone shifts the day')
        explicit = None
        now = None
        if c.draw(3) == 0:
            explicit = edge()
            now = Time.fromDatetime(explicit)
            if c.draw(6) == 0:
                # ... to the month, or the year
                sim.probe('very rough explicit now')
                explicit = explicit.replace(day=1, hour=0, minute=0, second=0, microsecond=0)
                text = '%04d-%02d' % (explicit.year, explicit.month)
                if c.draw(2):
                    explicit, text = explicit.replace(month=1), text[:4]
                now = Time.fromISO8601TimeAndDate(text)
                # (zones mean nothing to it)
                off, zone, tz = 0, _dt.timedelta(0), None
                sim.expect(plain(now.asNaiveDatetime()) == explicit, 'instant', '%s is read as %s', text, now.asNaiveDatetime())
            elif c.draw(4) == 0:
                # a current time which is itself only known to the minute
                sim.probe('rough explicit now')
                explicit = explicit.replace(second=0, microsecond=0)
                now = Time.fromHumanly('%d:%02d' % (explicit.hour, explicit.minute), None, now)
                sim.expect((plain(now.asNaiveDatetime()), now.resolution) == (explicit, _dt.timedelta(minutes=1)), 'instant', 'the time of day of a given current time gives %s', now.asNaiveDatetime())
        state['read'] = []
        kind = c.draw(5)
        if kind == 0:
            sim.probe('new Time')
            t = Time()
            got = plain(t.asNaiveDatetime())
            insts = [start] + state['read']
            sim.trace('Time', str(got))
            sim.expect(got in insts, 'instant', 'Time() gives %s, which is no instant of the clock during the call %s', got, [str(x) for x in insts])
            sim.expect(t.resolution == _dt.timedelta.resolution, 'resolution', 'Time() has resolution %s', t.resolution)
        elif kind < 4:
            p = c.draw(5)
            if p == 0:
                phrase = c.pick(WEEKDAYS)
                pre = c.draw(4)
                if pre < 2:
                    phrase = ['next ', 'this '][pre] + phrase
            elif p == 1:
                phrase = c.pick(['today', 'tomorrow', 'yesterday'])
            elif p == 2:
                phrase = c.pick(['noon', 'midnight'])
                sim.probe('noon or midnight')
            elif p == 3:
                phrase = 'now'
            else:
                loc = (explicit or start) + zone + _dt.timedelta(minutes=c.pick([0, 1, -1, 60, 719]))
                if c.draw(2):
                    phrase = '%d:%02d' % (loc.hour, loc.minute)
                else:
                    h = (loc.hour + 11) % 12 + 1
                    phrase = '%d:%02d%s%s' % (h, loc.minute, c.pick(['', ' ', '  ']), 'am' if loc.hour < 12 else 'pm')
                    if loc.hour == 12:
                        sim.probe('twelve pm')
            word = phrase
            if c.draw(3) == 0:
                word = ' ' + phrase.upper() + ' '
            if c.draw(12) == 0:
                sim.probe('malformed')
                try:
                    r = Time.fromHumanly(c.pick(['24:01', 'someday', 'today 5', '', '13:00 pm', '0:30 am']), tz, now)
                except ValueError:
                    continue
                sim.violate('malformed', 'a malformed date was accepted')
            r = Time.fromHumanly(word, tz, now)
            got = (plain(r.asNaiveDatetime() if r.resolution >= DAY else r.asNaiveDatetime(None)), r.resolution)
            insts = [explicit] if explicit is not None else [start] + state['read']
            sim.probe('phrase with explicit now' if explicit is not None else 'phrase from the clock')
            wants = [meaning(phrase, t, zone) for t in insts]
            if p == 0 and WEEKDAYS[insts[0].weekday()] in phrase:
                sim.probe('weekday is today')
            if p == 4 and wants[0][0] > insts[0] + DAY / 2:
                sim.probe('time of day passed')
            sim.trace('read', phrase, off, str(got[0]))
            sim.expect(got in wants, 'instant', '%r (zone %+d min) gives %s / %s, not what it means at %s: %s',
                       phrase, off, got[0], got[1], [str(x) for x in insts], [(str(a), str(b)) for a, b in wants])
        else:
            ref = explicit if explicit is not None else state['t']
            when = ref + c.pick([0, 1, -1, 86400, -86400, 40 * 86400, 366 * 86400, -3600, 50000]) * _dt.timedelta(seconds=1)
            allday = c.draw(4) == 0
            if allday:
                sim.probe('all day')
                when = when.replace(hour=0, minute=0, second=0, microsecond=0)
            w = Time.fromDatetime(when)
            if allday:
                w = w.oneDay()
                sim.expect(plain(w.asNaiveDatetime()) == when, 'day', 'oneDay gives %s for %s', w.asNaiveDatetime(), when)
            secs = c.draw(3) == 0
            start = state['t']
            state['read'] = []
            if secs:
                got = w.asHumanly(tz, now, Time.Precision.SECONDS)
            else:
                got = w.asHumanly(tz, now)
            insts = [explicit] if explicit is not None else [start] + state['read']
            sim.probe('shown with explicit now' if explicit is not None else 'shown from the clock')
            wants = [shown(when, allday, t, zone, secs) for t in insts]
            if when.date() == insts[0].date():
                sim.probe('same day')
            if when.year != insts[0].year:
                sim.probe('other year')
            if (insts[0] + zone).year != insts[0].year:
                sim.probe('year end in the zone only')
            sim.trace('shown', str(when), got)
            sim.expect(got in wants, 'instant', '%s is shown as %r (zone %+d min), not as at %s: %s', when, got, off, [str(x) for x in insts], wants)
    sim.sample = {'calls': i + 1}
