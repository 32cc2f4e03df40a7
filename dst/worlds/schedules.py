"""World: a cash box through a year, and the schedules made for it.

Real code: Timing, transactions_from_timing, add_transactions and
subtract_transactions.
Simulated: the year (its flows of cash, in seeded order, at seeded times),
which schedules are made of what, and what is done to the things they were
made of afterwards; calls which are refused or interrupted.
"""
import copy
from decimal import Decimal

from dst.build import money
from dst.client import Interrupter, gen_interrupt
from dst.core import (
    SIM, Interrupt, close, freeze, require, require_close, show)

SHRINK_LISTS = ['steps', 'flows']
SHRINK_KEEP = {'mode'}

TIMES = [0, 0.1, 0.25, 0.5, 0.75, 0.9, 1]
FREQUENCIES = {'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6,
               'Q': 4, 'SA': 2, 'A': 1}
EPS = 1e-7


# --- generation -------------------------------------------------------------
def gen_when(rng):
    return rng.choice(TIMES + [round(rng.random(), 3), 'start', 'end'])


def gen_flow(rng):
    return [rng.choice(TIMES + [round(rng.random(), 3)]),
            rng.choice([1, 1, -1]) * rng.choice(
                [0, 100, money(rng, 1, 500), money(rng, 1, 20000)])]


def gen_spec(rng):
    pick = rng.random()
    if pick < 0.15:
        return ['when', gen_when(rng)]
    if pick < 0.3:
        return ['every', gen_when(rng), rng.choice(
            [1, 2, 3, 7, 12, 52, rng.choice(sorted(FREQUENCIES))])]
    if pick < 0.4:
        return ['frequency', rng.choice(sorted(FREQUENCIES))]
    if pick < 0.45:
        return ['default']
    if pick < 0.55:
        return ['copy', rng.randrange(4)]
    if pick < 0.8:
        return ['box']
    sign = rng.choice([0, 1, 1, -1])
    return ['flows', [[w, abs(v) * sign] for w, v in (
        gen_flow(rng) for _ in range(rng.randint(1, 6)))]]


def generate(rng, prop, tier):
    deep = tier != 'quick'
    steps = []
    for _ in range(rng.randint(3, 14 if not deep else 40)):
        fault = None
        if rng.random() < 0.2:
            fault = gen_interrupt(rng, 40)
        pick = rng.random()
        if pick < 0.3:
            steps.append(['flow'] + gen_flow(rng))
        elif pick < 0.6:
            steps.append(['make', rng.randrange(4), gen_spec(rng), fault])
        elif pick < 0.8:
            steps.append(['spread', rng.randrange(4), rng.choice([
                0, 1, -1, money(rng, 1, 9000), -money(rng, 1, 9000)]),
                rng.choice([None, None, rng.randint(1, 100)]),
                rng.choice(['series', 'series', 'from', 'normal']), fault])
        elif pick < 0.9:
            steps.append(['settle', rng.randrange(4)])
        elif pick < 0.93:
            steps.append(['edit', rng.randrange(4), gen_when(rng),
                          rng.choice([0, 1, 2, money(rng, 0, 10)]),
                          rng.random() < 0.3])
        elif pick < 0.96:
            steps.append(['bad', rng.choice([-0.1, 1.01, 2, -5]),
                          rng.choice([None, 0, -2, 'X', 1.5])])
        else:
            steps.append(['change', rng.randrange(4)])
    return {'mode': 'f' if rng.random() < 0.7 else 'd',
            'flows': [gen_flow(rng) for _ in range(rng.randint(0, 6))],
            'steps': steps}


# --- the reference ----------------------------------------------------------
def spare(flows):
    """ The most cash that may leave at each time, as early as can be. """
    times = sorted(flows)
    left, result = dict(flows), {}
    for number, when in enumerate(times):
        # What will there be, at its least, from now on?
        have, least = sum(left[t] for t in times[:number + 1]), None
        least = have
        for later in times[number + 1:]:
            have += left[later]
            least = min(least, have)
        if least > EPS:
            result[when] = least
            left[when] -= least
    return result


def needed(flows):
    """ The least cash that must be brought at each time. """
    have, result = 0.0, {}
    for when in sorted(flows):
        have += flows[when]
        if have < -EPS:
            result[when] = -have
            have = 0.0
    return result


class Box:
    """ Cash through a year. """

    def __init__(self, flows):
        self.flows = dict(flows)

    def run(self, moves):
        """ The lowest that cash ever is, and what is left of it. """
        have, low = 0.0, 0.0
        for when in sorted(set(self.flows) | set(moves)):
            have += self.flows.get(when, 0.0) + moves.get(when, 0.0)
            low = min(low, have)
        return low, have


# --- the world --------------------------------------------------------------
class World:

    def __init__(self, plan):
        from forecaster.utility import Timing
        self.plan = plan
        self.high = Decimal if plan['mode'] == 'd' else None
        self.box = {}          # the real books
        self.model = {}        # the model's
        self.made = [[Timing(high_precision=self.high), {0.5: 1.0}, None]
                     for _ in range(4)]
        for flow in plan['flows']:
            self.step_flow(*flow)

    def num(self, val):
        if isinstance(val, str) or val is None:
            return val
        return Decimal(str(val)) if self.high else val

    def floats(self, series):
        return {float(w): float(v) for w, v in series.items()}

    def step_flow(self, when, value):
        from forecaster.utility import add_transactions
        from forecaster.utility.timing import subtract_transactions
        given = {self.num(when): self.num(abs(value))}
        (add_transactions if value >= 0 else subtract_transactions)(
            self.box, given)
        self.model[float(when)] = self.model.get(float(when), 0.0) + value
        require(given == {self.num(when): self.num(abs(value))},
                'argument-changed', 'Booking a flow changed it to %s',
                show(given))
        self.balanced()
        SIM.op('flow')

    def balanced(self):
        SIM.event('box', freeze(self.box))
        require(len(self.box) == len(self.model) and all(
            abs(v - self.model.get(w, 9e99)) < 1e-6 * max(1, abs(v))
            for w, v in self.floats(self.box).items()), 'books',
            'The books say %s rather than %s', show(self.box),
            show(self.model))

    def same(self, actual, expected, what, *args):
        """ That a series is as expected, but for nothings. """
        SIM.event(what % args, freeze(dict(actual)))
        actual = {w: v for w, v in self.floats(actual).items()
                  if not abs(v) <= EPS}
        expected = {w: v for w, v in expected.items() if abs(v) > EPS}
        good = len(actual) == len(expected)
        for (w, v), (x, y) in zip(
                sorted(actual.items()), sorted(expected.items())):
            good = good and abs(w - x) < 1e-9 and close(v, y, 1e-7, 1)
        require(good, 'schedule', '%s is %s rather than %s', what % args,
                show(actual), show(expected))

    def typed(self, series, what):
        if self.high:
            require(all(isinstance(x, (Decimal, int)) for pair in
                        series.items() for x in pair), 'type',
                    '%s is not all high-precision: %s', what, show(series))

    def step_make(self, slot, spec, fault):
        """ Makes a schedule. """
        kind = spec[0]
        if kind == 'copy' and spec[1] == slot:
            return
        if kind == 'box':
            if len(self.box) < 1:
                return
            total = sum(self.model.values())
            if abs(total) < 0.01 or self.touching():
                return
        source, expected = self.source(spec)
        if source is None:
            return
        if fault:
            try:
                with Interrupter(fault):
                    self.make(spec, source)
            except Interrupt:
                SIM.probe('made_again')
        before = copy.deepcopy(source)
        timing = self.make(spec, source)
        require(source == before, 'argument-changed', 'Making a schedule '
                'of %s changed it to %s', show(before), show(source))
        self.same(timing, expected, 'Schedule of %s', spec)
        self.typed(timing, 'The schedule of %s' % spec)
        if kind == 'box':
            self.workable(timing)
        self.made[slot] = [timing, expected, source]
        SIM.op('make:' + kind)
        SIM.state(kind, len(expected), fault, self.plan['mode'],
                  len(self.box))

    def touching(self):
        """ True if cash comes to (nearly) nothing at some point, so that
        rounding decides whether anything moves. """
        have = 0.0
        levels = []
        for when in sorted(self.model):
            have += self.model[when]
            levels.append(have)
        return any(0 < abs(a - b) < 1e-4 for a in levels for b in
                   levels + [0.0])

    def make(self, spec, source):
        from forecaster.utility import Timing
        kind = spec[0]
        if kind == 'default':
            return Timing(high_precision=self.high)
        if kind == 'every':
            return Timing(self.num(spec[1]), spec[2],
                          high_precision=self.high)
        return Timing(source, high_precision=self.high)

    def source(self, spec):
        """ What a schedule is made of, and what should come of it. """
        kind = spec[0]
        place = {'start': 0.0, 'end': 1.0}
        if kind == 'default':
            return 0, {0.5: 1.0}
        if kind == 'when':
            return self.num(spec[1]), {
                float(place.get(spec[1], spec[1])): 1.0}
        if kind in ('every', 'frequency'):
            times = spec[-1]
            times = FREQUENCIES.get(times, times)
            when = place.get(spec[1], spec[1]) if kind == 'every' else 0.5
            return (spec[1] if kind == 'frequency' else 0), {
                (n + when) / times: 1 / times for n in range(times)}
        if kind == 'copy':
            timing, expected, _ = self.made[spec[1]]
            return timing, expected
        if kind == 'box':
            flows = dict(self.box)
        else:
            flows = {}
            for when, value in spec[1]:
                flows[self.num(when)] = flows.get(
                    self.num(when), self.num(0)) + self.num(value)
        return flows, self.schedule(self.floats(flows))

    @staticmethod
    def schedule(flows):
        if all(v == 0 for v in flows.values()):
            return {w: 1.0 for w in flows}
        if all(v >= 0 for v in flows.values()) or all(
                v <= 0 for v in flows.values()):
            return {w: abs(v) for w, v in flows.items()}
        return (spare if sum(flows.values()) > 0 else needed)(flows)

    def workable(self, timing):
        """ Moving the cash leaves none, and takes none that is not there
        (or brings just what is needed, when it is). """
        moves = self.floats(timing)
        if all(v >= 0 for v in self.model.values()) or all(
                v <= 0 for v in self.model.values()):
            return
        taking = sum(self.model.values()) > 0
        box = Box(self.model)
        before, _ = box.run({})
        low, left = box.run(
            {w: -v if taking else v for w, v in moves.items()})
        SIM.probe('surplus' if taking else 'shortfall')
        require(low > (before if taking else 0) - 1e-6, 'overdrawn',
                'Moving %s in a year of %s takes cash to %s', show(moves),
                show(self.model), low)
        if taking:
            require_close(left, 0, 'idle', 'cash left by moving %s in a '
                          'year of %s' % (show(moves), show(self.model)))

    def step_spread(self, slot, total, chosen, how, fault):
        """ Spreads an amount over a schedule. """
        from forecaster.utility import transactions_from_timing
        timing, expected, _ = self.made[slot]
        weights = {w: v for w, v in expected.items()}
        if sum(weights.values()) < 1e-6:
            return
        keys = None
        if chosen is not None and how != 'from':
            keys = [w for n, w in enumerate(sorted(timing))
                    if (chosen >> (n % 7)) & 1]
            weights = {float(w): float(timing[w]) for w in keys}
            if sum(weights.values()) < 1e-6:
                return
        before = dict(timing)
        amount = self.num(total) if how != 'normal' else 1

        def ask():
            if how == 'series':
                return timing.time_series(amount, keys)
            if how == 'normal':
                return timing.normalized(keys)
            given = timing if slot % 2 else dict(timing)
            if self.high and not slot % 2:
                given = timing
            return transactions_from_timing(given, amount)
        if fault:
            try:
                with Interrupter(fault):
                    ask()
            except Interrupt:
                SIM.probe('spread_again')
        series = ask()
        whole = sum(weights.values())
        self.same(series, {w: float(amount) * v / whole
                           for w, v in weights.items()},
                  '%s of %s over %s', how, total, sorted(weights))
        self.typed(series, 'The spread amount')
        require_close(sum(series.values()), amount, 'total',
                      '%s over %s' % (how, show(before)))
        require(dict(timing) == before, 'argument-changed', 'Spreading %s '
                'changed the schedule from %s to %s', total, show(before),
                show(dict(timing)))
        SIM.op('spread:' + how)

    def step_settle(self, slot):
        """ Moves cash by a schedule made of the box, and back again. """
        from forecaster.utility import add_transactions
        from forecaster.utility.timing import subtract_transactions
        timing = self.made[slot][0]
        before = dict(self.box)
        subtract_transactions(self.box, timing)
        for when, value in before.items():
            require_close(self.box[when], value - timing.get(when, 0),
                          'books', 'at %s' % when)
        require_close(
            sum(self.box.values()),
            sum(before.values()) - sum(timing.values()), 'books', 'in all')
        add_transactions(self.box, timing)
        for when in list(self.box):
            if when not in before:
                require_close(self.box.pop(when), 0, 'books', 'undone')
        self.balanced()
        SIM.op('settle')

    def step_bad(self, when, frequency):
        """ Impossible times and frequencies are refused. """
        from forecaster.utility import Timing
        try:
            if frequency is None:
                Timing(self.num(when), high_precision=self.high)
            else:
                Timing(self.num(0.5), frequency, high_precision=self.high)
        except (ValueError, TypeError):
            SIM.fault('rejected_call')
            return
        require(False, 'accepted', 'A schedule at %s, every %s, is accepted',
                when, frequency)

    def step_change(self, slot):
        """ What a schedule was made of changes; the schedule does not. """
        timing, _, source = self.made[slot]
        if not isinstance(source, dict):
            return
        before = dict(timing)
        was = dict(source)
        source[self.num(0.33)] = self.num(12345)
        require(dict(timing) == before, 'shared', 'Changing what a schedule '
                'was made of changed it to %s', show(dict(timing)))
        source.clear()
        source.update(was)
        SIM.op('change')


    def step_edit(self, slot, when, weight, drop):
        """ The user changes the schedule itself. """
        timing, expected, source = self.made[slot]
        time = {'start': 0.0, 'end': 1.0}.get(when, when)
        if drop:
            if len(timing) < 2:
                return
            key = sorted(timing)[int(time * (len(timing) - 1))]
            del timing[key]
            expected = {w: v for w, v in expected.items()
                        if abs(w - float(key)) > 1e-9}
        else:
            timing[self.num(time)] = self.num(weight)
            expected = {w: v for w, v in expected.items()
                        if abs(w - time) > 1e-9}
            expected[float(time)] = float(weight)
        self.made[slot] = [timing, expected, source]
        self.same(timing, expected, 'A schedule, once edited at %s,', when)
        SIM.op('edit')


def execute(plan, prop):
    world = World(plan)
    for step in plan['steps']:
        getattr(world, 'step_' + step[0])(*step[1:])
    SIM.years(1)
    SIM.checked()
