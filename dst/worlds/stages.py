"""World: the stages of a year, called, called again, undone and retried.

Real code: SubForecast and the five stages, strategies, Tax, Person and all
account types.
Simulated: the order in which stages are called, called again and undone,
and what else happens to cash and accounts in between; client callables
(rates, raises, inflation, strategies, taxes), which may fail in the middle
of a call; set order and hashes; the clock.
"""
import math
from collections import defaultdict

from dst.build import money
from dst.core import (
    SIM, ClientFault, Violation, close, nonzero, num, require, require_close,
    series_close, show)
from dst.worlds import forecast
from dst.worlds.forecast import Household, flows_of, untie

SHRINK_LISTS = ['steps', 'scripts.0', 'scripts.1', 'accounts', 'people']
SHRINK_KEEP = {'mode', 'year', 'route'}

REAL = ['income', 'living', 'saving', 'withdrawal', 'tax']
EPS = 1e-5

# Accounts from which the whole balance can be withdrawn.
BALANCE = ('Account', 'TaxableAccount')


# --- generation -------------------------------------------------------------
def gen_timing(rng):
    times = sorted(rng.sample([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1],
                              rng.choice([1, 1, 1, 2, 3])))
    if len(times) == 1 and rng.random() < 0.5:
        return times[0]
    return [[t, rng.choice([1, 1, 2, 5])] for t in times]


def gen_transfer(rng, names):
    first = rng.choice(['cash', 'cash', 'outside'] + names)
    second = rng.choice(
        [n for n in ['cash', 'cash', 'outside'] + names
         if n != first] or ['outside'])
    return [rng.choice([1, 1, -1]) * rng.choice([
        money(rng, 1, 500), money(rng, 1, 20000), 0]),
        rng.choice([None, 'list']) and gen_timing(rng), first, second,
        rng.random() < 0.3]


def gen_stretch(rng, names):
    """ A transfer of a little more than an account has so far, which may
    grow to it by the time of a later flow. """
    return [['of', rng.choice([1.001, 1.01, 1.02, 1.05])], rng.choice(
        [0, 0.1, 0.25, 0.5]), rng.choice(names), 'outside', False]


def generate(rng, prop, tier):
    deep = tier != 'quick'
    plan = forecast.generate(rng, 'stages', tier)
    plan['route'] = 'direct'
    # (What an overdrawn taxable account's gains are is unspecified.)
    for account in plan['accounts']:
        if account['type'] == 'TaxableAccount':
            account['type'] = 'Account'
    have = [a['type'] for a in plan['accounts']]
    for which in ('saving', 'withdrawal'):
        plan[which]['weights'] = forecast.gen_weights(rng, have)
    names = [a['id'] for a in plan['accounts']]
    plan['scripts'] = [
        [gen_transfer(rng, names) for _ in range(rng.randint(1, 4))]
        for _ in range(2)]
    plan['timings'] = [gen_timing(rng) for _ in range(2)]
    if names and rng.random() < 0.3:
        for script in plan['scripts']:
            script.insert(0, gen_stretch(rng, names))
    steps = []
    faulty = rng.random() < (0.6 if prop == 'P12' else 0.3)
    for _ in range(rng.randint(3, 9 if not deep else 24)):
        pick = rng.random()
        stage = rng.choice(REAL[:4] + ['plain0', 'plain1', 'plain0'] + (
            ['tax'] if rng.random() < 0.2 else []))
        if pick < 0.55:
            fault = None
            if faulty and rng.random() < 0.5:
                fault = [rng.choice(
                    [p['id'] for p in plan['people']] + names +
                    ['infl', 'living', 'saving', 'withdrawal', 'script',
                     'script']), rng.choice([1, 1, 2, rng.randint(1, 8)])]
            steps.append(['call', stage, rng.randint(0, 3), fault])
        elif pick < 0.7:
            steps.append(['undo', stage])
        elif pick < 0.9:
            steps.append(['ext', rng.choice(['cash', 'cash'] + names),
                          rng.choice([1, 1, -1]) * money(rng, 1, 30000),
                          rng.choice([0, 0.25, 0.5, 0.75, 1])])
        else:
            steps.append(['year'])
    if names and rng.random() < 0.5:
        name = plan['scripts'][0][0][2]
        if name in names:
            steps[:0] = [['ext', name, money(rng, 1, 500),
                          rng.choice([0.75, 1])],
                         ['call', 'plain0', 0, None]]
    plan['steps'] = steps
    # A client's own stage may move money of an account instead of cash.
    plan['wallets'] = {
        'plain%d' % number: rng.choice(names)
        for number in range(2) if rng.random() < 0.15}
    return plan


FLOW_REPORTS = {
    'saving': ('debt_repayment', 'retirement_savings', 'total'),
    'withdrawal': ('gross_withdrawals', 'net_withdrawals')}


# --- the world ----------------------------------------------------------------
class World(Household):

    def __init__(self, plan, prop):
        self.prop = prop
        super().__init__(plan)
        self.members = {**self.accounts, **self.debts}
        self.cash = defaultdict(lambda: self.num(0))
        self.now = plan['year']
        self.stages = self.build_stages()
        self.owed = {}

    # --- construction ---
    def spied(self, base):
        world = self

        class Spied(base):
            """ Has the world look at each transfer it makes. """

            def add_transaction(
                    self, value, timing=None, from_account=None,
                    to_account=None, strict_timing=False):
                return world.transfer(
                    self, super().add_transaction, value, timing,
                    from_account, to_account, strict_timing)
        Spied.__name__ = Spied.__qualname__ = base.__name__
        return Spied

    def build_stages(self):
        from forecaster.forecast import (
            IncomeForecast, LivingExpensesForecast, SavingForecast,
            SubForecast, TaxForecast, WithdrawalForecast)
        world = self
        people, accounts, debts = self.inputs()
        high = {'high_precision': self.high}
        result = {
            'income': self.spied(IncomeForecast)(self.year, people, **high),
            'living': self.spied(LivingExpensesForecast)(
                self.year, people, self.living, **high),
            'saving': self.spied(SavingForecast)(
                self.year, accounts, debts, self.saving, **high),
            'withdrawal': self.spied(WithdrawalForecast)(
                self.year, people, accounts, self.withdrawal, **high),
            'tax': self.spied(TaxForecast)(
                self.year, people, self.tax_client, **high)}

        class Scripted(self.spied(SubForecast)):
            """ A client's own stage: makes the transfers it is told to. """
            script = ()

            def __call__(self, available):
                super().__call__(available)
                for value, timing, source, target, strict in self.script:
                    world.fail('script')
                    source = world.party(source, available)
                    target = world.party(target, available)
                    if source is target:
                        continue
                    if isinstance(value, list):
                        if type(source).__name__ not in BALANCE:
                            continue
                        value = value[1] * max(0, -float(
                            source.max_outflow(world.num(timing))))
                    self.add_transaction(
                        world.num(value), timing=world.when(timing),
                        from_account=source, to_account=target,
                        strict_timing=strict)
        for number, script in enumerate(self.plan['scripts']):
            stage = Scripted(
                self.year, self.timing(self.plan['timings'][number]), **high)
            stage.script = script
            result['plain%d' % number] = stage
        return result

    def when(self, spec):
        """ A timing as a client may give it. """
        return None if spec is None else self.timing(spec)

    def fail(self, name):
        armed = self.arms.get(name, 0)
        if armed:
            self.arms[name] = armed - 1
            if armed == 1:
                SIM.fault('callable_raises')
                raise ClientFault(name)

    def party(self, name, available):
        if name == 'outside':
            return None
        if name == 'cash':
            return available
        return self.members.get(name)

    # --- observation ---
    def amounts(self):
        """ What has flowed to each party so far this year. """
        result = {'cash': nonzero(self.cash)}
        for name, account in self.members.items():
            result[name] = nonzero(account.transactions)
        return result

    def recorded(self, stage):
        return {k: nonzero(v) for k, v in flows_of(
            self.stages[stage].transactions, self.cash).items()}

    def label(self, obj):
        return 'outside' if obj is None else (
            'cash' if obj is self.cash else obj.label)

    def scale(self):
        return 1000 + max([abs(float(v)) for v in self.cash.values()] + [
            abs(float(v)) for a in self.members.values()
            for v in list(a.transactions.values()) + [a.balance]])

    # --- transfers ---
    def transfer(self, stage, add, value, timing, source, target, strict):
        from forecaster.utility import Timing
        if timing is None:
            asked = stage.default_timing
        elif isinstance(timing, Timing):
            asked = timing
        else:
            asked = Timing(timing, high_precision=self.high)
        weight = sum(asked.values())
        amount = abs(float(value))
        asked = nonzero({w: amount * float(v / weight)
                         for w, v in asked.items()}, -1)
        payer, payee = (source, target) if value >= 0 else (target, source)
        before = self.sides(stage, payer, payee)
        lasting = between = None
        if payer is not None and payer is not self.cash:
            lasting = self.lasting(payer, min(asked))
            between = self.between(payer, lasting)
        kwargs = dict(from_account=source, to_account=target,
                      strict_timing=strict)
        if timing is not None:
            kwargs['timing'] = timing
        add(value, **kwargs)
        after = self.sides(stage, payer, payee)
        SIM.op('transfer')
        moved = {k: minus(after[k], before[k]) for k in before}
        self.double_entry(payer, payee, amount, moved)
        if self.prop != 'P11':
            return
        self.timely(payer, asked, moved, strict, before, lasting, between)

    def sides(self, stage, payer, payee):
        """ The flows so far of both parties to a transfer, as they have
        them, and as the stage has them. """
        records = {k: nonzero(v, 0) for k, v in flows_of(
            stage.transactions, self.cash).items()}
        result = {}
        for side, obj in (('payer', payer), ('payee', payee)):
            result[side, 'stage'] = records.get(self.label(obj), {})
            if obj is self.cash:
                result[side, 'own'] = nonzero(self.cash, 0)
            elif obj is not None:
                result[side, 'own'] = nonzero(obj.transactions, 0)
        return result

    def double_entry(self, payer, payee, amount, moved):
        scale = self.scale()
        for (side, book), flows in sorted(moved.items()):
            sign = 1 if side == 'payee' else -1
            require_close(
                sum(flows.values()), sign * amount, 'transfer-amount',
                'Amount moved to %s of a transfer (%s\'s book)' % (side, book),
                1e-9, scale)
            require(series_close(
                flows, {w: -v for w, v in moved[
                    'payee' if side == 'payer' else 'payer',
                    'stage'].items()}, 1e-9, scale),
                'double-entry', 'A transfer from %s to %s is %s in the '
                'books of %s (%s), and %s for the other', self.label(payer),
                self.label(payee), show(flows), side, book, show(moved))

    def between(self, account, lasting):
        """ What an account can spare between its flows, where that's its
        balance: [(t, available at t)]. """
        if type(account).__name__ not in BALANCE:
            return []
        times = [t for t, _ in lasting]
        return [
            (when, -float(account.max_outflow(self.num(when))))
            for first, second in zip(times, times[1:])
            for when in (first + (second - first) * part
                         for part in (0.05, 0.25, 0.5, 0.75))]

    def lasting(self, account, when):
        """ What an account can spare at times from `when` on.

        Returns: [(t, available at t)], in order.
        """
        whens = {self.num(when)} | {
            w for w in account.keys() if float(w) >= when}
        return sorted(
            (float(w), -float(account.max_outflow(w))) for w in whens)

    def timely(self, payer, asked, moved, strict, before, lasting, between):
        """ When money moved. """
        scale = self.scale()
        flows = moved['payee', 'stage']
        done = 0.0
        for when in sorted(set(asked) | set(flows)):
            done += flows.get(when, 0) - asked.get(when, 0)
            require(done <= 1e-6 * scale, 'too-early', 'A transfer asked '
                    'for %s moved %s', show(asked), show(flows))
        if strict or payer is None:
            SIM.probe('exact_timing')
            require(series_close(flows, asked, 1e-9, scale), 'exact-timing',
                    'A transfer at exactly %s moved %s', show(asked),
                    show(flows))
            return
        if payer is self.cash:
            cash = before['payer', 'own']
            options = [shifted(cash, asked, eps)
                       for eps in (EPS, 0.9 * EPS, 1.1 * EPS)]
            if any(w not in asked for w in nonzero(options[0])):
                SIM.probe('shifted_cash')
            require(any(series_close(flows, o, 1e-9, scale)
                        for o in options), 'timing',
                    'Cash of %s pays %s at %s, instead of at %s',
                    show(cash), show(asked), show(flows), show(options[0]))
            return
        if len(asked) > 1 or not nonzero(flows):
            return
        (when, value), = asked.items()
        require(len(nonzero(flows)) == 1, 'timing', 'A transfer asked for '
                '%s moved %s', show(asked), show(flows))
        (then, _), = nonzero(flows).items()
        safe = [t for t, _ in lasting
                if all(v >= value + 2 * EPS for r, v in lasting if r >= t)]
        if safe and safe[0] == when:
            SIM.probe('account_pays_at_once')
            require(abs(then - when) < 1e-9, 'timing', 'An account with %s '
                    'pays %s at %s rather than %s', show(lasting),
                    show(value), then, when)
        elif safe:
            SIM.probe('account_pays_later')
            require(then <= safe[0] + 1e-9, 'timing', 'An account with %s '
                    'pays %s at %s', show(lasting), show(value), then)
        if between and lasting[0][0] < then and all(
                abs(then - t) > 1e-9 for t, _ in lasting):
            SIM.probe('account_pays_between_flows')
        for time, left in between:
            if time < then and left >= value + 0.01 + 1e-7 * scale and all(
                    v >= value + 0.01 + 1e-7 * scale
                    for r, v in lasting if r >= time):
                raise Violation(
                    'timing', 'An account with %s (and %s between flows) '
                    'pays %s at %s rather than by %s' % (
                        show(lasting), show(between), show(value), then,
                        time))
        if abs(then - when) > 1e-9:
            # (What shrinks by itself may be taken out before it does.)
            shrinking = math.isinf(payer.max_outflow_limit)
            short = [r for r, v in lasting
                     if r >= then and v < value - 0.01 - 1e-7 * scale
                     and not (shrinking and float(payer.balance_at_time(
                         self.num(r))) >= -0.005)]
            require(not short, 'timing', 'An account with %s pays %s at %s, '
                    'when it cannot', show(lasting), show(value), then)

    # --- steps ---
    def do_call(self, name):
        stage = self.stages[name]
        if name in ('saving', 'withdrawal', 'living') and not self.plan[
                'people']:
            return
        wallet = self.members.get(self.plan.get('wallets', {}).get(name))
        if wallet is not None:
            SIM.probe('wallet')
        stage(self.cash if wallet is None else wallet)

    def accounted(self, name, before, kind):
        """ The books: everything that moved is on record. """
        scale = self.scale()
        records = self.recorded(name)
        after = self.amounts()
        for party in sorted(after):
            expected = plus(before[party], records.get(party, {}))
            require(series_close(after[party], expected, 1e-9, scale),
                    kind, '%s has had %s, but with what %s recorded it '
                    'should be %s', party, show(after[party]), name,
                    show(nonzero(expected)))
        total = {}
        for flows in records.values():
            total = plus(total, flows)
        require(series_close(total, {}, 1e-9, scale), 'double-entry',
                'Flows of %s don\'t cancel: %s', name, show(records))
        return records

    def reports(self, name, records, opening):
        """ What a stage reports after a call. """
        stage, scale = self.stages[name], self.scale()
        result = {}
        if name == 'saving':
            for prop, members in (('debt_repayment', self.debts),
                                  ('retirement_savings', self.accounts),
                                  ('total', self.members)):
                result[prop] = sum(
                    sum(records.get(n, {}).values()) for n in members)
        elif name == 'income':
            result['carryover'] = opening
            result['net_income'] = sum(
                records.get('cash', {}).values()) - float(stage.asset_sale)
        elif name == 'living':
            result['living_expenses'] = -sum(
                records.get('cash', {}).values())
        elif name == 'withdrawal':
            result['gross_withdrawals'] = -opening
        for prop, expected in result.items():
            require_close(
                getattr(stage, prop), expected, 'stage-report', '%s.%s' % (
                    name, prop), 1e-7, scale)

    def step_call(self, name, again, fault):
        stage = self.stages[name]
        # Without what this stage did before.
        before = self.amounts()
        old = self.recorded(name)
        for party in before:
            before[party] = minus(before[party], old.get(party, {}))
        self.last = before
        if fault is not None:
            self.arms = {fault[0]: fault[1]}
            try:
                self.do_call(name)
            except ClientFault:
                SIM.op('failed_call')
            self.arms = {}
        self.do_call(name)
        SIM.op('call:' + name)
        records = self.accounted(name, before, 'books')
        opening = sum(before['cash'].values())
        self.reports(name, records, opening)
        SIM.event('call', name, again, {
            k: nonzero(v, 1e-6) for k, v in records.items()})
        SIM.state(name, fault is not None, again, tuple(sorted(
            (k if k in ('cash', 'outside') else type(
                self.members[k]).__name__, len(v))
            for k, v in records.items() if v)))
        if self.prop != 'P12':
            return
        scale = self.scale()
        if again in (1, 3):
            SIM.probe('called_again')
            if again == 3:
                SIM.rehash()
            self.do_call(name)
            self.same_books(
                records, self.accounted(name, before, 'books'), 'again',
                'When called again, %s' % name, scale)
            self.reports(name, records, opening)
        if again == 2 or fault is not None:
            SIM.probe('undone')
            stage.undo_transactions()
            self.restored(name, before)
            self.do_call(name)
            self.same_books(
                records, self.accounted(name, before, 'books'), 'redo',
                'When undone and called again, %s' % name, scale)
            self.reports(name, records, opening)

    def same_books(self, first, second, kind, what, scale):
        for party in sorted(set(first) | set(second)):
            one, two = first.get(party, {}), second.get(party, {})
            require(all(abs(one.get(w, 0) - two.get(w, 0)) <=
                        2e-4 + 1e-9 * scale for w in set(one) | set(two)),
                    kind, '%s moves %s to %s, after %s before', what,
                    show(nonzero(two)), party, show(nonzero(one)))

    def restored(self, name, before):
        scale = self.scale()
        after = self.amounts()
        for party in sorted(after):
            require(series_close(after[party], before[party], 1e-9, scale),
                    'undo', 'Undoing %s leaves %s with %s rather than %s',
                    name, party, show(after[party]),
                    show(nonzero(before[party])))
        records = self.recorded(name)
        require(not any(nonzero(v) for v in records.values()), 'undo',
                'Undoing %s leaves its records: %s', name, show(records))

    def step_undo(self, name):
        before = self.amounts()
        old = self.recorded(name)
        for party in before:
            before[party] = minus(before[party], old.get(party, {}))
        self.stages[name].undo_transactions()
        SIM.op('undo')
        self.restored(name, before)
        for prop, val in self.reported(name).items():
            require_close(val, 0, 'undone-report',
                          '%s.%s once undone' % (name, prop), 1e-9)
        SIM.event('undo', name)

    def reported(self, name):
        """ What a stage reports of the flows it has made. """
        return {prop: num(getattr(self.stages[name], prop))
                for prop in FLOW_REPORTS.get(name, ())}

    def step_ext(self, name, value, when):
        when = self.num(when)
        if name == 'cash':
            self.cash[when] += self.num(value)
        elif name in self.members:
            if name in self.debts:
                value = abs(value)
            self.members[name].add_transaction(self.num(value), when)
        SIM.op('external')
        SIM.event('ext', name, value, when)

    def step_year(self):
        if self.now + 1 >= self.plan['year'] + self.plan['num_years']:
            return  # (The scenario covers no more years.)
        last = {n: self.recorded(n) for n in self.stages}
        reports = {n: self.reported(n) for n in self.stages}
        for name in sorted(self.stages):
            self.stages[name].next_year()
        for ledgers in (self.people, self.members):
            for name in sorted(ledgers):
                # (Some of them bring others along.)
                while ledgers[name].this_year <= self.now:
                    ledgers[name].next_year()
        total = sum(self.cash.values())
        self.cash.clear()
        self.cash[self.num(0)] = total
        SIM.years(1)
        for name in sorted(self.stages):
            require(not self.recorded(name), 'new-year', '%s starts a year '
                    'with %s', name, show(self.recorded(name)))
            then = {k: nonzero(v) for k, v in flows_of(
                self.stages[name].transactions_history[self.now],
                self.cash).items()}
            require(then == last[name], 'new-year', '%s recorded %s for %s, '
                    'but had %s', name, show(then), self.now,
                    show(last[name]))
            for prop, val in self.reported(name).items():
                require_close(val, 0, 'new-year-report', '%s.%s in a new year'
                              % (name, prop), 1e-9)
                then = getattr(self.stages[name], prop + '_history')
                require_close(
                    then[self.now], reports[name][prop], 'new-year-report',
                    '%s.%s on record' % (name, prop), 1e-9)
        self.now += 1
        SIM.op('year')


def plus(first, second):
    return {w: first.get(w, 0.0) + second.get(w, 0.0)
            for w in set(first) | set(second)}


def minus(first, second):
    return {w: first.get(w, 0.0) - second.get(w, 0.0)
            for w in set(first) | set(second)}


def shifted(cash, asked, eps):
    """ When cash pays what is asked: as early as it can from then on
    without running short later, or else when asked. """
    cash, result = dict(cash), {}
    for when in sorted(asked):
        value = asked[when]
        left = {t: sum(v for r, v in cash.items() if r <= t)
                for t in set(cash) | {when} if t >= when}
        then = min(
            (t for t in left if all(
                v - value >= -eps for r, v in left.items() if r >= t)),
            default=when)
        cash[then] = cash.get(then, 0.0) - value
        result[then] = result.get(then, 0.0) + value
    return result


def execute(plan, prop):
    untie(plan)
    world = World(plan, prop)
    for step in plan['steps']:
        getattr(world, 'step_' + step[0])(*step[1:])
    SIM.checked()
