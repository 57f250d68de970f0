"""C07  The callback decorators of step()."""
import datetime
from dv.harness import contract

B = 'demod.simulators.base_simulators'
US = datetime.timedelta(microseconds=1)
DAY = datetime.timedelta(days=1)
HOUR = 3600 * 10**6


class Data:
    pass


def simulator(S, deco, doc='doc'):
    class Sim(S.cls(B + '.TimeAwareSimulator')):
        def event(self, name):
            self.events = self.events + [(name, self.current_time)]

        def on_before_next_day(self):
            self.event('before day')

        def on_after_next_day(self):
            self.event('after day')

        def on_before_next_day_4am(self):
            self.event('before 4am')

        def on_after_next_day_4am(self):
            self.event('after 4am')

        def on_before_refresh_time(self):
            self.event('before refresh')

        def on_after_refresh_time(self):
            self.event('after refresh')

        def step(self, *args, **kwargs):
            """steps"""
            self.event('body')
            self.seen = (args, kwargs)
            super().step()
            return 'result of the body'
        step = deco(step)
    start = S.datetime('start')
    step = S.timedelta('step', US, DAY)
    sim = Sim(2, start_datetime=start, step_size=step)
    sim.events = []
    sim.current_time_step = 0
    sim.data = Data()
    refresh = S.time('refresh')
    if not S.symbolic and S.flag('at refresh'):
        refresh = start.time()
    sim.data.refresh_time = refresh
    return sim, start, step, refresh


def other_day(S, start, step):
    return start.date() != (start + step).date()


def enters_4(S, start, step):
    a, b = S.tod(start), S.tod(start + step)
    return S.And(S.Or(a < 4 * HOUR, a >= 5 * HOUR), b >= 4 * HOUR, b < 5 * HOUR)


def at_refresh(S, start, refresh):
    return S.tod(start) == S.tod(refresh)


def check(S, deco, name, before, when):
    sim, start, step, refresh = simulator(S, deco)
    out = sim.step(1, 2, key=3)
    S.ensure('the result of the body is returned', out == 'result of the body')
    S.ensure('the body gets the arguments', sim.seen == ((1, 2), {'key': 3}))
    S.ensure('the clock advances once', sim.current_time == start + step)
    S.ensure('one step is counted', sim.current_time_step == 1)
    names = [n for n, _ in sim.events]
    S.ensure('the body runs once, the callback at most once and only this one',
             names == ['body'] or names == ([name, 'body'] if before else ['body', name]))
    fired = name in names
    S.ensure('the callback runs exactly when it should', S.Iff(fired, when(S, sim, start, step, refresh)))
    if fired:
        S.ensure('and sees the clock %s the step' % ('before' if before else 'after'),
                 dict(sim.events)[name] == (start if before else start + step))


DAYS = lambda S, sim, start, step, refresh: other_day(S, start, step)
FOUR = lambda S, sim, start, step, refresh: enters_4(S, start, step)
REFR = lambda S, sim, start, step, refresh: at_refresh(S, start, refresh)
C = B + '.Callbacks.'
for path, nm, bef, w in [
        (C + 'before_next_day', 'before day', True, DAYS), (C + 'after_next_day', 'after day', False, DAYS),
        (C + 'before_next_day_4am', 'before 4am', True, FOUR), (C + 'after_next_day_4am', 'after 4am', False, FOUR),
        (C + 'before_refresh_time', 'before refresh', True, REFR),
        (C + 'after_refresh_time', 'after refresh', False, REFR),
        (B + '.before_next_day_callback', 'before day', True, DAYS),
        (B + '.after_next_day_callback', 'after day', False, DAYS),
        (B + '.before_next_day_callback_4am', 'before 4am', True, FOUR),
        (B + '.after_next_day_callback_4am', 'after 4am', False, FOUR)]:
    def one(S, path=path, nm=nm, bef=bef, w=w):
        owner, attr = path.rsplit('.', 1)
        deco = getattr(S.cls(owner), attr) if owner != B else S.cls(path)
        check(S, deco, nm, bef, w)
    contract('C07', path, name=path.split('simulators.')[-1].replace('.', '_'), quick_runs=300, runs=2000)(one)


@contract('C07', [C + 'before_next_day', C + 'after_next_day_4am'])
def stacked(S):
    """two decorators on one body do not disturb each other"""
    K = S.cls(B + '.Callbacks')
    sim, start, step, refresh = simulator(S, lambda f: K.before_next_day(K.after_next_day_4am(f)))
    sim.step()
    names = [n for n, _ in sim.events]
    S.ensure('the body runs once, the callbacks around it', names in (
        ['body'], ['before day', 'body'], ['body', 'after 4am'], ['before day', 'body', 'after 4am']))
    S.ensure('day', S.Iff('before day' in names, other_day(S, start, step)))
    S.ensure('4 am', S.Iff('after 4am' in names, enters_4(S, start, step)))
    S.ensure('one step is counted', sim.current_time_step == 1)


@contract('C07', [B + '.TimeAwareSimulator.on_before_next_day', B + '.TimeAwareSimulator.on_after_next_day',
                  B + '.TimeAwareSimulator.on_before_next_day_4am', B + '.TimeAwareSimulator.on_after_next_day_4am',
                  B + '.TimeAwareSimulator.on_before_refresh_time', B + '.TimeAwareSimulator.on_after_refresh_time'])
def unimplemented(S):
    sim = S.cls(B + '.TimeAwareSimulator')(1)
    for n in ('next_day', 'next_day_4am', 'refresh_time'):
        for w in ('before', 'after'):
            S.ensure('a callback without implementation raises', S.raises(
                NotImplementedError, getattr(sim, 'on_%s_%s' % (w, n))) is not None)
