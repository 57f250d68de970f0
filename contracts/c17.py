"""C17  Climate."""
import datetime
import math
import os
import shutil
import tempfile

import numpy as np

from dv.harness import contract
from contracts.common import check_contract, gen_pdf, step as do_step

W = 'demod.simulators.weather_simulators'
RC, RI = W + '.RealClimate', W + '.RealInterpolatedClimate'
CI, CC = W + '.CrestIrradianceSimulator', W + '.CrestClimateSimulator'
US = datetime.timedelta(microseconds=1)
SEC, MIN, DAY = datetime.timedelta(seconds=1), datetime.timedelta(minutes=1), datetime.timedelta(days=1)


class Moment:
    """a numpy datetime64 of any value"""

    def __init__(self, t):
        self.t = t

    def astype(self, kind):
        return self.t


class Recording:
    country = 'somewhere'

    def __init__(self, S, first, step):
        self.step_size = step
        self.N = S.dim('samples', 1, 6)
        self.T, self.I, self.G = (S.arr(x, (self.N,), lo=-30) for x in ('temperature', 'irradiance', 'global'))
        self.use = S.choice('irradiance columns', ['irradiance', 'global', 'both'])
        if S.symbolic:
            times = [Moment(first)]
        else:
            times = np.array([first + k * step for k in range(self.N)], dtype='datetime64[us]')
        self.data = {'datetime': times, 'outside_temperature': self.T}
        if self.use != 'global':
            self.data['irradiance'] = self.I
        if self.use != 'irradiance':
            self.data['radiation_global'] = self.G
        self.light = self.I if self.use == 'irradiance' else self.G

    def load_historical_climate_data(self, start):
        return dict(self.data)


def replay(S):
    start = S.datetime('start')
    step = S.timedelta('step', SEC, DAY)
    back = S.timedelta('back', 0 * US, DAY, gen=lambda r: r.choice([0 * US, step - US, step * r.random(), step * r.random()]))
    S.assume(back < step)
    return start, step, Recording(S, start - back, step)


@contract('C17', [RC + '.__init__', RC + '.initialize_starting_state', RC + '.step', RC + '.get_irradiance', RC + '.get_outside_temperature'])
def recorded(S):
    """the k-th step reports the k-th sample after the one that covers the start"""
    start, step, data = replay(S)
    sim = S.cls(RC)(data, start)
    S.ensure('the clock shows the start', sim.current_time == start)
    S.ensure('the sample that covers the start', S.And(
        S.eq(sim.get_outside_temperature(), S.at(data.T, 0)), S.eq(sim.get_irradiance(), S.at(data.light, 0))))
    k = S.int('steps', 0, 10**6) if S.symbolic else S.int('steps', 0, 5)
    k = k if S.symbolic else min(k, data.N - 1)
    S.assume(k < data.N)
    if S.symbolic:
        its = [v for v in vars(sim).values() if type(v).__name__ == 'SeqIter']
        if not its:
            k = 0
        for it in its:
            S.advance(it, k)
        sim.current_time = start + step * k
        sim.current_time_step = k
    else:
        for _ in range(k):
            do_step(S, sim)
    e = S.raises((StopIteration, ValueError, IndexError), sim.step)
    if e is None:
        S.ensure('only recorded samples are reported', k + 1 < data.N)
        S.ensure('the clock advances by one sample', S.And(sim.current_time == start + step * (k + 1), sim.current_time_step == k + 1))
        S.ensure('the next sample is reported', S.And(
            S.eq(sim.get_outside_temperature(), S.at(data.T, k + 1)), S.eq(sim.get_irradiance(), S.at(data.light, k + 1))))
    else:
        S.ensure('it only stops at the end of the recording', k + 1 >= data.N)


@contract('C17', [RC + '.__init__'])
def recorded_rejected(S):
    start = S.datetime('start')
    step = S.timedelta('step', SEC, DAY)
    late = S.timedelta('late', US, 2 * DAY)
    data = Recording(S, start + late, step)
    C = S.cls(RC)
    S.ensure('a start before the recording is rejected', S.raises(ValueError, lambda: C(data, start)) is not None)
    data = Recording.__new__(Recording)
    data.load_historical_climate_data = lambda start: None
    S.ensure('the step size is that of the recording', S.raises(ValueError, lambda: C(data, start, step_size=step)) is not None)


ZONES = [None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=2)),
         datetime.timezone(datetime.timedelta(hours=-5, minutes=-30))]


def utc(t):
    return t if t.tzinfo is None else t.astimezone(datetime.timezone.utc).replace(tzinfo=None)


class Cache:
    """the loader of the library on a scratch directory"""

    def __init__(self, S, first, step, n, unit):
        self.dir = tempfile.mkdtemp(prefix='dvc17')
        C = S.cls('demod.datasets.base_loader.ClimateLoader')
        self.times = np.array([first + k * step for k in range(n)], dtype='datetime64[%s]' % unit)
        values = S.arr('temperature', (n,)), S.arr('irradiance', (n,), lo=0)
        self.T, self.I = values
        self.parsed = 0
        outer = self

        class Loader(C):
            DATASET_NAME = 'scratch'
            country = 'somewhere'
            step_size = step

            def __init__(self):
                self.parsed_path = self.parsed_path_climate = outer.dir

            def _warn_could_not_load_parsed(self, *a):
                pass

            def _parse_historical_climate_data(self):
                outer.parsed += 1
                return {'datetime': outer.times, 'outside_temperature': outer.T, 'irradiance': outer.I}
        self.loader = Loader()

    def close(self):
        shutil.rmtree(self.dir)


def period(S):
    S.local_timezone()
    unit = S.choice('unit', ['m', 's', 'us'])
    step = datetime.timedelta(minutes=S.choice('step', [1, 15, 30, 60, 60, 180]))
    first = S.datetime('first').replace(second=0, microsecond=0)
    if unit != 'm' and S.bool('below a minute', .15):
        step = datetime.timedelta(seconds=S.choice('seconds', [10, 30, 90]))
        first = first.replace(second=S.int('second', 0, 59))
    n = S.dim('samples', 2, 8)
    tz = S.choice('zone', ZONES)
    k = S.int('start sample', 0, n - 1)
    off = S.choice('offset', [0, 0, 1, 20, 59, 90])
    start = first + k * step + datetime.timedelta(minutes=off)
    if S.bool('start within a minute', .25):
        start += datetime.timedelta(seconds=S.int('start second', 0, 59), microseconds=S.choice('start fraction', [0, 0, 500000, 1]))
    return unit, step, first, n, tz, start


@contract('C17', ['demod.datasets.base_loader.ClimateLoader.load_historical_climate_data',
                  RC + '.__init__', RC + '.step', RI + '.__init__', RI + '.step', RI + '._make_interpolated_getter'], proof=False, quick_runs=150, runs=3000)
def recordings_at_any_time(S):
    unit, step, first, n, tz, start = period(S)
    data = Cache(S, first, step, n, unit)
    try:
        kind = S.choice('simulator', ['replay', 'interpolate'])
        aware = start if tz is None else start.replace(tzinfo=datetime.timezone.utc).astimezone(tz)
        small = datetime.timedelta(seconds=S.choice('small step', [1, 20, 30, 60, 60, 90, 420, 3600]))
        end = first + (n - 1) * step
        make = (lambda: S.cls(RC)(data.loader, aware)) if kind == 'replay' else (lambda: S.cls(RI)(data.loader, aware, step_size=small))
        if start > end:
            S.ensure('a start after the recording is rejected', S.raises(ValueError, make))
            return
        sim = make()
        S.ensure('the clock shows the start', sim.current_time == aware and sim.current_time.utcoffset() == aware.utcoffset())
        S.ensure('the raw data are parsed once', data.parsed == 1)
        for _ in range(12):
            now = utc(sim.current_time)
            j = (now - first) // step
            if kind == 'replay':
                S.ensure('the sample that covers the current time', sim.get_outside_temperature() == data.T[j] and sim.get_irradiance() == data.I[j])
            else:
                x = [(t - first) / step for t in [now]][0]
                for g, v in ((sim.get_outside_temperature, data.T), (sim.get_irradiance, data.I)):
                    S.ensure('the value interpolated at the current time', S.eq(float(g()), float(np.interp(x, np.arange(n), v))))
            if kind == 'interpolate':
                if now + small > end:
                    S.ensure('the end of the recording is an error', S.raises(ValueError, sim.step))
                    break
            elif j + 1 >= n:
                S.ensure('the end of the recording is an error', S.raises((StopIteration, ValueError), sim.step))
                break
            do_step(S, sim)
            S.ensure('the clock advances', utc(sim.current_time) == now + (step if kind == 'replay' else small))
    finally:
        data.close()


@contract('C17', ['demod.datasets.base_loader.ClimateLoader.load_historical_climate_data'], proof=False, quick_runs=150, runs=3000)
def loaded_recording(S):
    unit, step, first, n, tz, start = period(S)
    start = start - S.choice('earlier', [0, 0, 0, 1, 5]) * step
    data = Cache(S, first, step, n, unit)
    try:
        aware = start if tz is None else start.replace(tzinfo=datetime.timezone.utc).astimezone(tz)
        end = first + (n - 1) * step
        for _ in range(2):
            if start > end:
                S.ensure('a start after the recording is rejected', S.raises(ValueError, lambda: data.loader.load_historical_climate_data(aware)))
                continue
            d = data.loader.load_historical_climate_data(aware)
            k = max((start - first) // step, 0)
            S.ensure('samples from the one that covers the start on', np.array_equal(d['datetime'], data.times[k:]) and np.array_equal(
                d['outside_temperature'], data.T[k:]) and np.array_equal(d['irradiance'], data.I[k:]) and len(d) == 3)
        S.ensure('parsed once', data.parsed == 1)
        if start < first:
            for C, k in ((RC, {}), (RI, {'step_size': MIN})):
                S.ensure('a start before the recording is rejected', S.raises(ValueError, lambda: S.cls(C)(data.loader, aware, **k)))
    finally:
        data.close()


# ---------------------------------------------------------------- CREST
class Sky:
    def __init__(self, S, latitudes=None, states=None):
        m = self.m = states or S.dim('clearness states', 1, 4)
        self.tpm = S.arr('tpm', (m, m), lo=0, gen=gen_pdf)
        self.values = S.arr('clearness', (m,), lo=0, hi=1, gen=lambda r, s: np.round(r.random_sample(s), 3))
        lat = latitudes or [-52., -20., 0., 10., 23.45, 40.3, 52.7, 60.]
        self.latitude = S.real('latitude', -90, 90, gen=lambda r: r.choice(lat))
        self.longitude = S.real('longitude', -180, 180, gen=lambda r: r.choice([-1.2, 0., 10., 13.4]))
        self.meridian = S.real('meridian', -180, 180, gen=lambda r: r.choice([0., 15., -15.]))
        self.dst = S.flag('daylight saving time')

    def load_geographic_data(self):
        return dict(latitude=self.latitude, longitude=self.longitude, meridian=self.meridian, use_daylight_saving_time=self.dst)

    def load_clearness_tpms(self):
        return self.tpm, self.values, MIN

    def load_temperatures_arma(self):
        return dict(SD=1.4, AR=.8, MA=.2, T_mean=9.3, T_std=6.5, T_shift=-115)


def near_clock_change(S, day):
    k = S.choice('day of the year', [None, None, None, 86, 87, 303, 304, 366])
    return day if k is None else day.replace(month=1, day=1) + datetime.timedelta(days=k - 1)


def altitude(M, day, hour, minute, lat, lon, meridian):
    """sine of the solar altitude"""
    b = 360 * (day - 81) / 364
    eq = 9.87 * M.sin(2 * b * M.pi / 180) - 7.53 * M.cos(b * M.pi / 180) - 1.5 * M.sin(b * M.pi / 180)
    before_noon = 12 - (hour + minute / 60 + (4 * (lon - meridian) + eq) / 60)
    dec = 23.45 * M.sin(2 * M.pi * (284 + day) / 365.25) * M.pi / 180
    la = lat * M.pi / 180
    return M.cos(la) * M.cos(dec) * M.cos(15 * before_noon * M.pi / 180) + M.sin(la) * M.sin(dec)


def clear_sky(day, hour, minute, sky):
    """irradiance on the horizontal under a clear sky"""
    s = altitude(math, day, hour, minute, sky.latitude, sky.longitude, sky.meridian)
    if s <= 0:
        return 0.
    depth = .174 + .035 * math.sin(2 * math.pi * (day - 100) / 365)
    return 1367 * (1 + .034 * math.cos(2 * math.pi * day / 365.25)) * math.exp(-depth / s) * s


def sun_time(t, sky):
    day = t.timetuple().tm_yday
    return day, t.hour - (1 if sky.dst and 87 <= day < 304 else 0), t.minute


@contract('C17', [CI + '.' + x for x in ('__init__', 'initialize_starting_state', 'step', '_calculate_global_irradiance', 'is_summer_time',
                                         'get_irradiance', 'on_after_next_day', 'get_day_of_year')])
def crest_irradiance(S):
    """one minute of any day at any place under any clearness"""
    sky = Sky(S, states=1)
    sky.tpm = np.ones((1, 1))
    day = S.datetime('day')
    if S.symbolic:
        S.assume(S.tod(day) == 0)
    else:
        day = near_clock_change(S, day.replace(hour=0, minute=0, second=0, microsecond=0))
    clear = S.at(sky.values, 0)
    sim = S.cls(CI)(sky, clear, day)
    S.ensure('starts at the start', sim.current_time == day)
    S.ensure('no irradiance at midnight', S.eq(sim.get_irradiance(), 0))
    S.ensure('starts with the given clearness', S.eq(sim.get_current_clearness(), clear))
    hour, minute = S.int('hour', 0, 23), S.int('minute', 0, 59)
    now = day + S.dt.timedelta(hours=hour, minutes=minute)
    sim.current_time = now
    do_step(S, sim)
    x = sim.get_irradiance()
    S.ensure('the clock advances by a minute', sim.current_time == now + MIN)
    S.ensure('irradiance is never negative', x >= 0)
    yday = S.yday(day)
    if S.branch(S.And(sky.dst, yday >= 87, yday < 304)):
        hour = hour - 1
    s = altitude(S.math, yday, hour, minute, sky.latitude, sky.longitude, sky.meridian)
    S.ensure('no irradiance while the sun is down', S.Implies(s < (0 if S.symbolic else -1e-9), lambda: S.eq(x, 0)))
    S.ensure('irradiance when the sun is up in a clear sky', S.Implies(S.And(
        s > (0 if S.symbolic else 1e-3), clear > 0), lambda: x > 0))


@contract('C17', [CI + '.' + x for x in ('__init__', 'initialize_starting_state', 'step', 'get_current_clearness', '_next_clearness')])
def crest_clearness(S):
    """the clearness is drawn from the row of the current one"""
    if S.symbolic:
        S.stub(S.mod(W), 'check_valid_cdf', check_contract(S))
    sky = Sky(S)
    sky.latitude, sky.longitude, sky.meridian = 52.7, -1.2, 0.
    S.distribution(sky.tpm, steps=True)
    j = S.int('initial clearness', 0, 3)
    j = j if S.symbolic else j % sky.m
    S.assume(j < sky.m)
    if S.symbolic:
        S.assume(S.forall((sky.m, sky.m), lambda a, b: S.Implies(S.at(sky.values, a) == S.at(sky.values, b), a == b)))
    elif len(set(sky.values)) < sky.m:
        sky.values = np.linspace(0, 1, sky.m)
    sim = S.cls(CI)(sky, S.at(sky.values, j), datetime.datetime(2020, 6, 5))
    S.ensure('starts with the given clearness', S.eq(sim.get_current_clearness(), S.at(sky.values, j)))
    do_step(S, sim)
    now = sim.get_current_clearness()
    S.ensure('the clearness can follow the previous one', S.forall(sky.m, lambda e: S.Implies(
        S.at(sky.values, e) == now, lambda: S.at(sky.tpm, j, e) > 0)))
    S.ensure('the clearness is one of the values', S.exists(sky.m, lambda e: S.at(sky.values, e) == now))


@contract('C17', [CI + '.__init__', CI + '.step'], proof=False, quick_runs=250, runs=3000)
def crest_irradiance_values(S):
    """a whole history: clear sky irradiance of place and time, times the clearness of the step"""
    sky = Sky(S)
    start = near_clock_change(S, S.datetime('start').replace(second=0, microsecond=0))
    start -= datetime.timedelta(hours=S.choice('hours since midnight', [0, start.hour]))
    j = S.int('initial clearness', 0, 3)
    j = j if S.symbolic else j % sky.m
    S.assume(j < sky.m)
    sim = S.cls(CI)(sky, sky.values[j], start)
    S.ensure('the clock shows the start', sim.current_time == start)
    if S.flag('late'):
        for _ in range(S.dim('skipped', 0, 1440)):
            do_step(S, sim)
    before = sim.get_current_clearness()
    for _ in range(5):
        now = sim.current_time
        do_step(S, sim)
        a = sim.get_current_clearness()
        S.ensure('the clearness follows the previous one', any(sky.values[o] == before and sky.values[e] == a and sky.tpm[o, e] > 0
                                                              for o in range(sky.m) for e in range(sky.m)))
        S.ensure('clear sky irradiance times clearness', S.eq(sim.get_irradiance(), a * clear_sky(*sun_time(now, sky), sky)))
        before = a
    S.ensure('another step size is rejected', S.raises(ValueError, lambda: S.cls(CI)(sky, sky.values[j], start, step_size=DAY)))


@contract('C17', [CC + '.' + x for x in ('__init__', 'initialize_starting_state', 'step', 'on_before_next_day', 'get_irradiance',
                                         'get_outside_temperature')], proof=False, quick_runs=6, runs=120)
def crest_climate(S):
    """irradiance of the minute, as the irradiance simulator has it for that time"""
    sky = Sky(S, latitudes=[-40., 0., 40.3, 52.7])
    sky.tpm = np.eye(sky.m)            # constant clearness
    sky.values = np.linspace(.3, .99, sky.m)
    start = S.datetime('start').replace(second=0, microsecond=0)
    n = S.dim('steps', 1, 1500)
    sim = S.cls(CC)(sky, start, sky.values[-1])
    a = []
    t = []
    for k in range(n):
        S.ensure('the clock advances by a minute', sim.current_time == start + k * MIN)
        t.append(sim.get_outside_temperature())
        a.append(sim.get_irradiance())
        do_step(S, sim)
    # the irradiance of a minute is the one computed from the minute before
    want = [clear_sky(*sun_time(start + (k - 1) * MIN, sky), sky) * sky.values[-1] for k in range(n)]
    S.ensure('irradiance of the current minute', np.allclose(a, want, atol=1e-6))
    S.ensure('the temperature is a number', np.isfinite(t).all())


@contract('C17', [CC + '.step', CC + '.on_before_next_day', CC + '.get_irradiance', CC + '.get_outside_temperature'])
def crest_climate_step(S):
    """one minute of the day"""
    day = S.datetime('now')
    C = S.cls(CC)
    days = []

    class Climate(C):
        def on_before_next_day(self):
            days.append(self.current_time)
    sim = S.new(CC)
    sim.__class__ = Climate
    n = S.dim('minutes left', 1, 5)
    I, T = S.arr('irradiances', (n,), lo=0), S.arr('temperatures', (n,))
    sim.current_time, sim.step_size, sim.current_time_step = day, MIN, 3
    sim._cache, sim.logger, sim.n_households = {}, None, 1
    sim.irradiance_iter, sim.temperature_iter = S.iter(I), S.iter(T)
    do_step(S, sim)
    S.ensure('irradiance and temperature of the next minute', S.And(
        S.eq(sim.get_irradiance(), S.at(I, 0)), S.eq(sim.get_outside_temperature(), S.at(T, 0))))
    S.ensure('the clock advances', S.And(sim.current_time == day + MIN, sim.current_time_step == 4))
    S.ensure('another day is simulated when the day changes', S.Iff(len(days) == 1, (day + MIN).date() != day.date()))
    S.ensure('at most once', len(days) <= 1)
