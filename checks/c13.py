"""C13: time axes"""
import datetime

import numpy as np
from hypothesis import strategies as st

from gridded.time import OutOfTimeRangeError, Time, TimeSeriesError, offset_as_iso_string, parse_time_offset
from vlib import files
from vlib.core import Scenario, check, raises
from vlib.gens import D, SEED, ZONE, between, pick, times, times_case, zoned

US = datetime.timedelta(microseconds=1)
H = lambda x: datetime.timedelta(hours=x)  # noqa
OFFSETS = [-12, -9.5, -8, -7, -3.5, -1, 0, 0, 1, 3, 5.5, 5.75, 9, 12.75, 14]


def same(got, want, what, tol=0):
    got = list(got)
    check(len(got) == len(want) and all(abs((a - b) // US) <= tol for a, b in zip(got, want)), what, got, want)


def axis_checks(t, want, queries, tol, ctx):
    """indexes, weights and bounds for the instants want"""
    check(len(t) == len(want), 'len', len(t), len(want))
    same(t, want, 'iteration', tol)
    same([t.min_time, t.max_time], [want[0], want[-1]], 'first and last', tol)
    a = t.get_time_array()
    same(a, want, 'get_time_array', tol)
    a[:] = datetime.datetime(1066, 1, 1)
    same(t.data, want, 'data, after changing the copy', tol)
    if tol:
        want = list(t.data)
    n = len(want)
    for q in queries:
        k = q['k'] % n
        if q['what'] == 'step' or (n == 1 and q['what'] == 'between'):
            x, inside = want[k], True
        elif q['what'] == 'between':
            k = q['k'] % (n - 1)
            x, inside = between(want[k], want[k + 1], q['num'], 100), True
        elif q['what'] == 'before':
            x, inside = want[0] - q['num'] ** 3 * US, False
        else:
            x, inside = want[-1] + q['num'] ** 3 * US, False
        check(bool(t.time_in_bounds(x)) == inside, 'time_in_bounds', x, want)
        if inside:
            t.valid_time(x)
        else:
            raises(OutOfTimeRangeError, lambda: t.valid_time(x), 'valid_time out of bounds')
            if n > 1:
                raises(OutOfTimeRangeError, lambda: t.index_of(x), 'index_of out of bounds')
                raises(OutOfTimeRangeError, lambda: t.interp_alpha(x), 'interp_alpha out of bounds')
        for ex in ((True, False) if inside or n == 1 else (True,)):
            i, w = int(t.index_of(x, ex)), float(t.interp_alpha(x, ex))
            if n == 1:
                check(i == 0 and w == 0.0, 'one time', i, w)
                continue
            wi = sum(1 for y in want if y < x)
            check(i == wi, 'index', i, wi, x)
            if wi == 0:
                ww = 0.0
            elif wi == n:
                ww = 1.0
            else:
                ww = ((x - want[wi - 1]) // US) / ((want[wi] - want[wi - 1]) // US)
            check(abs(w - ww) < 1e-12, 'weight', w, ww, x)


def q_case():
    return st.lists(D(what=pick('step', 'between', 'between', 'before', 'after'), k=st.integers(0, 20), num=st.integers(1, 99)), min_size=1, max_size=4)


# ---------------------------------------------------------------- from datetimes
def mem_case():
    return D(times=times_case(1, 8), src=pick('list', 'array', 'tuple', 'Time'), tz=pick(None, *OFFSETS), new=pick(None, None, *OFFSETS), origin=pick(False, False, True),
             disp=pick(None, None, 'hours', 'int', 'delta'), dval=st.integers(-10 ** 6, 10 ** 6),
             ops=st.lists(D(op=pick('tz', 'tz', 'none', 'disp', 'copy'), v=pick(*OFFSETS)), max_size=5), queries=q_case(), zone=ZONE, seed=SEED)


def displacement(case):
    if case['disp'] is None:
        return None, H(0)
    d = {'hours': case['dval'] / 64, 'int': case['dval'] // 1000, 'delta': datetime.timedelta(seconds=case['dval'], microseconds=case['seed'] % 10 ** 6)}[case['disp']]
    return d, d if case['disp'] == 'delta' else H(d)


def shifts(case, ts, tz):
    """the keywords, and the instants with them"""
    kw = {}
    want = list(ts)
    if case['origin']:
        kw['origin'] = datetime.datetime(1990 + case['seed'] % 50, 3, 4, 5, 6, 7, case['seed'] % 10 ** 6)
        d = kw['origin'] - want[0]
        want = [t + d for t in want]
    if case['new'] is not None:
        kw['new_tz_offset'] = case['new']
        if tz is not None:
            want = [t + H(case['new'] - tz) for t in want]
    d, dt = displacement(case)
    if d is not None:
        kw['displacement'] = d
        want = [t + dt for t in want]
    return kw, want


def run_mem(case, ctx):
    ts = times(case['times'])
    src = {'list': list, 'array': np.array, 'tuple': tuple, 'Time': lambda x: Time(np.array(x))}[case['src']](ts)
    kw, want = shifts(case, ts, case['tz'])
    if case['tz'] is None and case['new'] is not None:
        raises(ValueError, lambda: Time(src, tz_offset=None, **kw), 'a new offset without an old one')
        kw.pop('new_tz_offset')
    t = Time(src, tz_offset=case['tz'], **kw)
    tz = case['tz'] if case['new'] is None or case['tz'] is None else case['new']
    check(t.tz_offset == tz, 'tz_offset', t.tz_offset, tz)
    axis_checks(t, want, case['queries'], 0, ctx)
    displaced = 'displacement' in kw
    for o in case['ops']:
        if o['op'] == 'tz':
            t.tz_offset = o['v']
            if tz is not None:
                want = [x + H(o['v'] - tz) for x in want]
            tz = o['v']
        elif o['op'] == 'none':
            t.tz_offset = tz = None
        elif o['op'] == 'disp':
            def put(v=o['v']):
                t.displacement = v
            if displaced:
                raises(AttributeError, put, 'a second displacement')
            else:
                put()
                displaced = True
                want = [x + H(o['v']) for x in want]
        else:
            u = Time(t, tz_offset=t.tz_offset)
            check(u == t and not (u != t), 'equal to its copy')
            u.tz_offset = o['v']
            u.displacement = 7
            check(u != t or not (u == t), 'still equal after a displacement of the copy')
        same(t.data, want, 'after %s' % o['op'])
        check(t.tz_offset == tz, 'tz_offset', t.tz_offset, tz)
    axis_checks(t, want, case['queries'], 0, ctx)
    same(src.data if isinstance(src, Time) else src, ts, 'the source of the times')
    ctx.label(case['src'], 'tz' if case['tz'] is not None else 'naive', 'one' if len(ts) == 1 else 'many', *['op ' + o['op'] for o in case['ops']])
    ctx.nontrivial(bool(kw) or bool(case['ops']) or len(ts) > 1)


# ---------------------------------------------------------------- rejected axes
def bad_case():
    return D(times=times_case(2, 8), how=pick('swap', 'duplicate', 'reverse'), i=st.integers(0, 20), j=st.integers(0, 20), micro=st.booleans(), src=pick('list', 'array'))


def run_bad(case, ctx):
    ts = times(case['times'])
    n = len(ts)
    i = case['i'] % (n - 1)
    if case['how'] == 'swap':
        ts[i], ts[i + 1] = ts[i + 1], ts[i]
    elif case['how'] == 'duplicate':
        ts.insert(i, ts[i])
    elif case['micro']:
        ts[i + 1] = ts[i] - US
    else:
        ts = ts[::-1]
    a = ts if case['src'] == 'list' else np.array(ts)
    raises(TimeSeriesError, lambda: Time(a), 'times %s' % case['how'])
    ctx.label(case['how'])


# ---------------------------------------------------------------- from netCDF
FORMS = ['', 'Z', '+00:00', ' +00:00', 'iso', 'iso', ' iso', 'short', ' short', 'hhmm', 'UTC']


def nc_case():
    return D(times=times_case(1, 6), units=pick('seconds', 'minutes', 'hours', 'days', 'milliseconds'), dtype=pick('f8', 'i8', 'i4', 'f4'), form=pick(*FORMS), off=pick(*OFFSETS),
             sep=pick(' ', 'T'), clock=pick('full', 'full', 'minutes', 'fraction', 'date'), ymd=pick('padded', 'padded', 'bare'), tz=pick(None, None, None, 'Naive', *OFFSETS), delta=st.booleans(),
             name=pick('time', 'ocean_time', 't'), by=pick('varname', 'datavar', 'datavar name'),
             new=pick(None, None, *OFFSETS), origin=pick(False, False, True), disp=pick(None, None, 'hours', 'int', 'delta'), dval=st.integers(-10 ** 5, 10 ** 5),
             queries=q_case(), zone=ZONE, seed=SEED)


def reference(case, epoch):
    d = '%04d-%02d-%02d' % (epoch.year, epoch.month, epoch.day) if case['ymd'] == 'padded' else '%d-%d-%d' % (epoch.year, epoch.month, epoch.day)
    c = case['clock']
    form = case['form']
    if c == 'date':
        return d, None
    s = d + case['sep'] + '%02d:%02d' % (epoch.hour, epoch.minute)
    if c == 'full':
        s += ':%02d' % epoch.second
    elif c == 'fraction':
        s += ':%02d.0' % epoch.second
    x = case['off']
    sign = '-' if x < 0 else '+'
    h, m = divmod(int(round(abs(x) * 60)), 60)
    if form in ('', 'UTC', 'Z') or '00:00' in form:
        return s + (' UTC' if form == 'UTC' else form), None if form == '' else 0
    body = {'iso': '%s%02d:%02d', 'short': '%s%d:%02d', 'hhmm': '%s%02d%02d'}[form.strip()] % (sign, h, m)
    return s + (' ' if form[0] == ' ' else '') + body, x


def run_nc(case, ctx):
    ts = times(dict(case['times'], micro=case['times']['micro'] and case['units'] in ('seconds', 'milliseconds')))
    epoch = datetime.datetime(ts[0].year - case['seed'] % 3, 1 + case['seed'] % 12, 1 + case['seed'] % 28, case['seed'] % 24, case['seed'] % 60, case['seed'] % 60)
    if case['clock'] == 'date':
        epoch = epoch.replace(hour=0, minute=0, second=0)
    elif case['clock'] == 'minutes':
        epoch = epoch.replace(second=0)
    per = {'milliseconds': 1000, 'seconds': 10 ** 6, 'minutes': 60 * 10 ** 6, 'hours': 3600 * 10 ** 6, 'days': 86400 * 10 ** 6}[case['units']]
    us = [(t - epoch) // US for t in ts]
    exact = all(u % per == 0 for u in us)
    dtype = case['dtype'] if exact and (case['dtype'] != 'i4' or max(abs(u // per) for u in us) < 2 ** 31) and (case['dtype'] != 'f4' or max(abs(u // per) for u in us) < 2 ** 24) else 'f8'
    nc = files.memory()
    try:
        nc.createDimension('n' if case['by'] == 'varname' else case['name'], len(ts))
        v = nc.createVariable(case['name'], dtype, tuple(nc.dimensions))
        v[:] = [u // per for u in us] if exact else [u / per for u in us]
        s, off = reference(case, epoch)
        v.units = case['units'] + ' since ' + s
        kw, want = shifts(case, ts, None)
        tz = case['tz']
        if tz is None:
            real = off or 0
        elif tz == 'Naive':
            real = None
        else:
            real = tz
        kw, want = shifts(case, ts, real)
        args = dict(dataset=nc, tz_offset=H(tz) if case['delta'] and tz not in (None, 'Naive') else tz)
        if case['by'] == 'varname' or 'time' not in case['name']:
            args['varname'] = case['name']
        else:
            d = nc.createVariable('data', 'f8', tuple(nc.dimensions))
            args['datavar'] = d if case['by'] == 'datavar' else 'data'
        before = np.array(v[:])
        if real is None and case['new'] is not None:
            raises(ValueError, lambda: Time.from_netCDF(**args, **kw), 'a new offset for naive times')
            kw.pop('new_tz_offset')
        t = Time.from_netCDF(**args, **kw)
        tol = 0 if exact else 1000
        same(t.data, want, 'instants of %r' % v.units, tol)
        expect = real if case['new'] is None or real is None else case['new']
        check(t.tz_offset == expect, 'tz_offset of %r' % v.units, t.tz_offset, expect)
        axis_checks(t, want, case['queries'], tol, ctx)
        check(np.array_equal(before, np.array(v[:])), 'the file changed')
        check(t.varname == case['name'], 'varname', t.varname)
        if tz not in (None, 'Naive'):
            check(t.tz_offset_name == offset_as_iso_string(tz), 'name of the offset given', t.tz_offset_name)
    finally:
        nc.close()
    ctx.label(case['units'], 'offset %s' % case['form'].strip(), 'shifted' if kw else 'as is', 'tz given' if tz is not None else 'tz read')
    ctx.nontrivial(bool(kw) or len(ts) > 1 or off)


# ---------------------------------------------------------------- names of offsets
def off_case():
    return D(minutes=st.integers(-14 * 60, 14 * 60), sep=pick(' ', 'T'), gap=pick('', ' '))


def run_off(case, ctx):
    h = case['minutes'] / 60
    s = offset_as_iso_string(h)
    m = case['minutes']
    want = '%s%02d:%02d' % ('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60)
    check(s == want, 'offset_as_iso_string(%r)' % h, s, want)
    check(offset_as_iso_string(None) == '', 'no offset')
    got, name = parse_time_offset('days since 2020-02-03%s01:02:03%s%s' % (case['sep'], case['gap'], s))
    check(abs(got - h) < 1e-9, 'parse_time_offset', got, h)
    check(m == 0 or name == want, 'name of the offset', name, want)
    ctx.nontrivial(m)


SCENARIOS = [
    Scenario('datetimes', mem_case, zoned(run_mem), quick=4000),
    Scenario('rejected', bad_case, run_bad, quick=800),
    Scenario('netCDF', nc_case, zoned(run_nc), quick=4000),
    Scenario('offsets', off_case, run_off, quick=1000),
]
