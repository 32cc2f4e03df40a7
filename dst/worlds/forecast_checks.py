"""The properties which whole forecasts decide (see forecast.py)."""
import copy
import os
import pickle
import subprocess
import sys
import types

from dst import seams
from dst.client import Interrupter
from dst.core import (
    SIM, ClientFault, Interrupt, Violation, blame_code, close, freeze, frozen_close,
    nonzero, require, require_close, series_close, show)
from dst.model import growth, retirement_age, shares
from dst.worlds.forecast import (
    ACCOUNT_PROPS, EXTRA_PROPS, FORECAST_PROPS, PERSON_PROPS, STAGES,
    STAGE_PROPS, Household, Record, attach_looks, compare, finished, note)


def scale_of(record):
    """ The size of the numbers in a record, for tolerances. """
    return max([1.0] + [
        abs(v) for (_, p), vals in record.values.items()
        if p in ('balance', 'gross_income', 'living_expenses')
        for v in vals.values()])


# --- P13: cash -----------------------------------------------------------
def check_cash(plan):
    plan['route'] = 'direct'
    house = Household(plan)
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    cash_rules(house, record)
    tax_rules(house, record)


def stage_cash(record, year):
    """ Cash flows of all stages by time. """
    result = {}
    for stage in STAGES:
        for when, value in record.get(
                stage, 'transactions', year).get('cash', {}).items():
            result[when] = result.get(when, 0.0) + value
    return result


def cash_rules(house, record):
    """ Cash carries over in full, with last year's tax settled once. """
    scale = scale_of(record)
    tax = house.tax_object
    ended = None
    for year in record.years:
        opening = {
            float(w): float(v) for w, v in house.openings[year].items()}
        expected = {}
        if ended is not None:
            expected[0.0] = sum(ended.values())
            change = record.get('tax', 'tax_adjustment', year - 1)
            if change:
                timing = tax.refund_timing if change > 0 else (
                    tax.payment_timing)
                SIM.probe('tax_refund' if change > 0 else 'tax_payment')
                total = sum(timing.values())
                for when, weight in timing.items():
                    when = float(when)
                    expected[when] = expected.get(when, 0.0) + (
                        change * float(weight / total))
        require(series_close(opening, expected, 1e-7, scale), 'opening-cash',
                'Cash at the start of %s is %s, but last year\'s final cash '
                'and tax settlement are %s', year, show(nonzero(opening)),
                show(nonzero(expected)))
        require_close(
            record.get('income', 'carryover', year), sum(expected.values()),
            'carryover', 'Carryover of %s' % year, 1e-7, scale)
        ended = dict(expected)
        for when, value in stage_cash(record, year).items():
            ended[when] = ended.get(when, 0.0) + value
    require(series_close(record.end_cash, ended, 1e-7, scale), 'final-cash',
            'Cash at the end of %s is %s, but its flows add up to %s',
            record.years[-1], show(nonzero(record.end_cash)),
            show(nonzero(ended)))


def tax_rules(house, record):
    """ The tax settled is the tax on the year's final figures. """
    scale = scale_of(record)
    people = set(house.forecast.people)
    fresh = Household.make_tax(house)
    for year in record.years:
        owing = fresh(people, year)
        require_close(
            record.get('tax', 'tax_owing', year), owing, 'tax-owing',
            'Tax owing for %s' % year, 1e-7, scale)
        withheld = sum(
            record.get(name, 'tax_withheld', year)
            for name in list(record.people) + list(record.accounts) +
            list(record.debts))
        require_close(
            record.get('tax', 'tax_withheld', year), withheld,
            'tax-withheld', 'Tax withheld in %s' % year, 1e-7, scale)
        require_close(
            record.get('tax', 'tax_adjustment', year),
            withheld - float(owing), 'tax-adjustment',
            'Tax adjustment for %s' % year, 1e-7, scale)


# --- P14: totals ---------------------------------------------------------
def check_totals(plan):
    house = Household(plan)
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    total_rules(record)


def total_rules(record):
    scale = scale_of(record)
    people, accounts, debts = record.people, record.accounts, record.debts

    def added(names, prop, year):
        return sum(record.get(name, prop, year) for name in names)

    def agree(first, prop, year, expected, what):
        require_close(
            record.get(first, prop, year), expected, 'total:%s.%s' % (
                first, prop), '%s.%s of %s against %s' % (
                    first, prop, year, what), 1e-7, scale)
    for year in record.years:
        for prop in ('gross_income', 'net_income', 'tax_withheld'):
            agree('income', prop, year, added(people, prop, year),
                  'the people\'s')
        income = added(people, 'net_income', year)
        agree('forecast', 'income', year, income, 'net incomes')
        paid = record.total('income', 'cash', year)
        require_close(paid, income + record.get('income', 'asset_sale', year),
                      'total:income-paid', 'Cash received as income in %s' %
                      year, 1e-7, scale)
        spent = -record.total('living_expenses', 'cash', year)
        agree('living_expenses', 'living_expenses', year, spent,
              'the cash spent')
        agree('forecast', 'living_expenses', year, spent, 'the cash spent')
        agree('forecast', 'savings', year, max(income - spent, 0),
              'income less living expenses')
        agree('forecast', 'principal', year,
              added(accounts, 'balance', year), 'the accounts\' balances')
        flows = {
            stage: record.get(stage, 'transactions', year)
            for stage in STAGES}
        debt = sum(sum(flows['saving'].get(n, {}).values()) for n in debts)
        asset = sum(
            sum(flows['saving'].get(n, {}).values()) for n in accounts)
        agree('saving', 'debt_repayment', year, debt, 'payments into debts')
        agree('saving', 'retirement_savings', year, asset,
              'payments into accounts')
        agree('saving', 'total', year, debt + asset,
              'payments into accounts and debts')
        cash = record.get('income', 'carryover', year) + sum(
            record.total(stage, 'cash', year) for stage in STAGES[:3])
        agree('withdrawal', 'gross_withdrawals', year, -cash,
              'the cash short before withdrawals')
        agree('forecast', 'withdrawals', year, -cash,
              'the cash short before withdrawals')
        agree('forecast', 'tax', year, record.get('tax', 'tax_owing', year),
              'tax owing')
        for name in list(accounts) + list(debts):
            expected = {}
            for stage in STAGES:
                for when, value in flows[stage].get(name, {}).items():
                    expected[when] = expected.get(when, 0.0) + value
            actual = record.get(name, 'transactions', year)
            require(series_close(actual, expected, 1e-7, scale),
                    'account-flows', '%s records %s in %s, but the forecast '
                    'moved %s', name, show(nonzero(actual)), year,
                    show(nonzero(expected)))
            if nonzero(expected):
                SIM.probe('account_flows')


# --- P16: order ------------------------------------------------------------
def check_order(plan):
    first = Household(plan)
    record = finished(first)
    note(plan, record)
    salt, days = plan['salts']
    SIM.rehash(salt)
    seams.Clock.offset_days = days
    SIM.fault('clock_jump')
    SIM.fault('set_order')
    second = Household(plan)
    other = finished(second)
    compare(record, other, 'order', 'In another order', 1e-6)
    if plan.get('hash_seed') is not None:
        SIM.fault('text_order')
        compare(record, elsewhere(plan), 'order', 'In a program which hashes '
                'text in another way', 1e-6)


def elsewhere(plan):
    """ The record which another program makes of a plan. """
    env = dict(os.environ, PYTHONHASHSEED=str(plan['hash_seed']))
    base = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    done = subprocess.run(
        [sys.executable, '-W', 'ignore', '-m', 'dst', 'record'], env=env,
        cwd=base, input=pickle.dumps(plan), stdout=subprocess.PIPE)
    if done.returncode:
        raise RuntimeError('The other program failed')
    result = pickle.loads(done.stdout)
    if 'failed' in result:
        raise Violation('order', 'In a program which hashes text in another '
                        'way: ' + result['failed'])
    return types.SimpleNamespace(**result)


def record_elsewhere(stdin, stdout):
    """ What that program does: see elsewhere(). """
    plan = pickle.loads(stdin.read())
    SIM.reset(plan['seed'])
    salt, days = plan['salts']
    SIM.rehash(salt)
    seams.Clock.offset_days = days
    try:
        record = finished(Household(plan))
        result = {'values': record.values, 'years': record.years}
    except Exception as exc:  # (The first execution was fine.)
        if not blame_code(exc):
            raise
        result = {'failed': repr(exc)}
    stdout.write(pickle.dumps(result))


# --- P20: living expenses ----------------------------------------------------
def expense(spec, record, year, retired, inflate):
    """ What a living expenses strategy should come to. """
    def total(prop, when):
        return sum(record.get(n, prop, when) for n in record.people)
    grow = inflate(year) if spec['adjust'] else 1.0
    since = inflate(year, retired) if spec['adjust'] else 1.0
    base, rate = spec['base'], spec['rate']
    name = spec['strategy']
    SIM.probe('strategy:' + name)
    if name == 'Constant contribution':
        val = total('net_income', year) - base * grow
    elif name == 'Constant living expenses':
        val = base * grow
    elif name == 'Percentage of net income':
        val = rate * total('net_income', year)
    elif name == 'Percentage of gross income':
        val = rate * total('gross_income', year)
    elif name == 'Percentage of earnings growth':
        val = base * grow + rate * (total('net_income', year) - base * grow)
    elif name == 'Percentage of principal at retirement':
        val = rate * since * sum(
            record.get(n, 'balance', retired)
            for n in list(record.accounts) + list(record.debts))
    elif name == 'Percentage of net income at retirement':
        val = rate * since * total('net_income', retired)
    else:
        val = rate * since * total('gross_income', retired)
    return max(val, 0.0)


def check_living(plan):
    house = Household(plan)
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    scale = scale_of(record)
    spec = plan['living']
    retired = min(int(p['retire'][:4]) for p in plan['people'])
    for year in record.years:
        rule = spec
        if spec.get('retired') and year > retired:
            rule = spec['retired']
            SIM.probe('retired_spending')
        expected = expense(rule, record, year, retired, house.inflation)
        if spec.get('retired') and spec.get('minimum'):
            least = expense(
                spec['minimum'], record, year, retired, house.inflation)
            if least > expected:
                SIM.probe('minimum_spending')
            expected = max(expected, least)
        require_close(
            record.get('living_expenses', 'living_expenses', year), expected,
            'living-expenses', 'Living expenses of %s' % year, 1e-7, scale)
        flows = record.get('living_expenses', 'transactions', year)
        require_close(
            sum(flows.get('outside', {}).values()), expected,
            'living-paid', 'Living expenses paid in %s' % year, 1e-7, scale)
        require_close(
            sum(flows.get('cash', {}).values()), -expected,
            'living-cash', 'Cash spent on living in %s' % year, 1e-7, scale)


# --- P02: the past ---------------------------------------------------------
def history(house, until):
    """ All that people and accounts have on record before `until`. """
    result = {}
    for obj in house.watched():
        for prop in props_of(obj):
            values = getattr(obj, prop + '_history')
            result[name_of(obj), prop] = freeze(
                {y: v for y, v in values.items() if y < until})
    return result


def name_of(obj):
    return getattr(obj, 'label', None) or obj.name


def props_of(obj):
    name = type(obj).__name__
    return PERSON_PROPS if name == 'Person' else (
        ACCOUNT_PROPS + EXTRA_PROPS.get(name, ()))


def check_past(plan):
    plan['route'] = 'direct'
    house = Household(plan)
    seen = []

    def on_call(name):
        if name == 'living' and not seen or (
                name in ('living', 'tax', 'withdrawal') and len(seen) < 8):
            year = max(obj.this_year for obj in house.watched())
            seen.append((year, history(house, year)))
    house.on_call = on_call
    record = finished(house)
    house.on_call = None
    note(plan, record)
    for year, then in seen:
        now = history(house, year)
        for key in sorted(then):
            SIM.checked()
            require(frozen_close(then[key], now[key]), 'past-changed',
                    '%s.%s before %s was %s, and is %s now', key[0], key[1],
                    year, then[key], now[key])
    poked(house, plan, record)
    # The first years of a forecast don't depend on how many follow.
    shorter = copy.deepcopy(plan)
    shorter['num_years'] = min(plan['shorter'], plan['num_years'])
    SIM.rehash()
    other = finished(Household(shorter))
    compare(other, record, 'past-depends-on-future',
            'With %s years, and with %s' % (
                shorter['num_years'], plan['num_years']), 1e-7,
            years=other.years)


def poked(house, plan, record):
    """ Whatever is done to the last year, earlier ones stay as they are. """
    forecast = house.forecast
    stages = [getattr(forecast, name + '_forecast') for name in STAGES]
    year = forecast.this_year
    for kind, pick in plan['pokes']:
        later = [obj for obj in list(stages) + [forecast] + house.watched()
                 if obj.initial_year < year and not hasattr(obj, 'acb')]
        if not later:
            return
        SIM.op('poke-' + kind)
        if kind == 'clear':
            later[pick % len(later)].clear_cache()
        elif kind == 'forget':
            obj = later[pick % len(later)]
            name = 'forecast' if obj is forecast else next(
                (n for n, s in zip(STAGES, stages) if s is obj), None)
            props = FORECAST_PROPS if obj is forecast else (
                STAGE_PROPS[name] if name else props_of(obj))
            delattr(obj, props[pick % len(props)])
        elif kind == 'undo':
            stages[pick % len(stages)].undo_transactions()
        elif kind == 'call':
            stages[pick % len(stages)](forecast.available)
        elif kind == 'tx':
            accounts = sorted(forecast.assets, key=lambda a: a.label)
            if accounts:
                accounts[pick % len(accounts)].add_transaction(
                    house.num(pick), 'start')
        elif kind == 'look':
            Record(forecast)
        elif kind == 'year' and year == forecast.this_year:
            for stage in stages:
                stage.next_year()
            for person in sorted(forecast.people, key=name_of):
                while person.this_year == year:
                    person.next_year()
            for account in sorted(
                    set(forecast.assets) | set(forecast.debts), key=name_of):
                while account.this_year == year:
                    account.next_year()
            break
    SIM.probe('poked', len(plan['pokes']))
    compare(record, Record(forecast), 'past-rewritten', 'At first, and after '
            'what is done in %s' % year, 1e-9, years=record.years[:-1])


# --- P04: looking ------------------------------------------------------------
def check_looks(plan):
    plan['route'] = 'direct'
    record = finished(Household(plan))
    note(plan, record)
    SIM.rehash()
    house = Household(plan)
    attach_looks(house, plan['looks'])
    other = finished(house)
    house.on_call = None
    compare(record, other, 'look', 'Without looking, and with', 1e-7)


# --- P15: isolation ----------------------------------------------------------
def inputs_of(house):
    """ All that can be seen of a forecast's inputs. """
    result = {}
    for obj in house.watched():
        name = name_of(obj)
        result[name, 'year'] = freeze([obj.initial_year, obj.this_year])
        for prop in props_of(obj):
            result[name, prop] = freeze(getattr(obj, prop + '_history'))
        if name in house.people:
            result[name, 'accounts'] = freeze(
                sorted(name_of(a) for a in obj.accounts))
            result[name, 'dates'] = freeze(
                [str(obj.birth_date), str(obj.retirement_date)])
            result[name, 'spouse'] = freeze(
                obj.spouse.name if obj.spouse is not None else None)
        else:
            result[name, 'owner'] = freeze(obj.owner.name)
    result['scenario', 'inflation'] = freeze(
        {y: house.scenario.inflation[y] for y in house.scenario})
    for which in ('saving', 'withdrawal'):
        func = getattr(house, which).func
        result[which, 'weights'] = freeze(func.weights)
        result[which, 'strategy'] = freeze(func.strategy)
    return result


def intact(before, house, kind, when):
    after = inputs_of(house)
    for key in sorted(before):
        require(before[key] == after.get(key), kind,
                '%s of the input %s was %s before, and is %s after %s',
                key[1], key[0], before[key], after.get(key), when)


def settings_of(plan, house):
    """ Settings which say the same as the household's own objects. """
    from forecaster.canada.settings import SettingsCanada
    from forecaster.settings import Settings
    canada = plan['tax']['kind'] == 'canada'
    settings = SettingsCanada() if canada else Settings()
    scenario, living, tax = house.scenario, plan['living'], plan['tax']
    settings.initial_year = plan['year']
    settings.num_years = plan['num_years']
    settings.inflation = scenario.inflation
    for kind in ('stock', 'bond', 'other'):
        setattr(settings, kind + '_return',
                getattr(scenario, kind + '_return'))
    invest = plan.get('investing')
    if invest:
        settings.allocation_strategy = invest['name']
        settings.allocation_target = house.num(invest['target'])
        settings.allocation_min_equity = house.num(invest['low'])
        settings.allocation_max_equity = house.num(invest['high'])
        settings.allocation_std_retirement_age = invest['standard']
        settings.allocation_risk_trans_period = invest['period']
        settings.allocation_adjust_retirement = invest['adjust']
    settings.living_expenses_strategy = living['strategy']
    settings.living_expenses_base_amount = house.num(living['base'])
    settings.living_expenses_rate = house.num(living['rate'])
    for which in ('saving', 'withdrawal'):
        setattr(settings, which + '_strategy', plan[which]['strategy'])
        setattr(settings, which + '_weights', {
            k: house.num(v) for k, v in plan[which]['weights'].items()})
    if canada:
        settings.tax_province = tax['province']
    else:
        year = plan['year']
        settings.tax_brackets = {year: {
            house.num(f): house.num(r) for f, r in tax['brackets']}}
        settings.tax_personal_deduction = {
            year: house.num(tax['deduction'] or 0)}
        settings.tax_credit_rate = {year: house.num(tax['credit_rate'] or 0)}
        settings.tax_payment_timing = tax['payment']
    return settings


def check_isolation(plan):
    from forecaster.canada.forecaster import ForecasterCanada
    from forecaster.forecaster import Forecaster
    cls = (ForecasterCanada if plan['tax']['kind'] == 'canada'
           else Forecaster)
    direct = copy.deepcopy(plan)
    direct['route'] = 'direct'
    reference = finished(Household(direct))
    note(plan, reference)
    SIM.rehash()
    house = Household(plan)
    before = inputs_of(house)
    if plan.get('built'):
        SIM.probe('built_from_settings')
        forecaster = cls(settings=settings_of(plan, house),
                         high_precision=house.high)
        if house.investing is not None:
            strategy = forecaster.build_allocation_strategy()
            for owner in plan['people']:
                for age in (25, 50, 64, 80):
                    for got, want in zip(
                            strategy(age, retirement_age=retirement_age(
                                owner)),
                            shares(plan['investing'], age,
                                   retirement_age(owner))):
                        require_close(got, want, 'allocation', 'share of '
                                      'equity at %s by settings' % age)
    else:
        forecaster = house.forecaster()
    runs = [finished(house, forecaster=forecaster)]
    intact(before, house, 'input-changed', 'a forecast')
    compare(reference, runs[0], 'forecaster', 'Forecast assembled by hand, '
            'and by Forecaster', 1e-6)
    for action, pick in plan['others']:
        SIM.op('other:' + action)
        meddle(plan, house, forecaster, runs, cls, action, pick)
        intact(before, house, 'input-changed', action)
    SIM.rehash()
    again = finished(house, forecaster=forecaster)
    intact(before, house, 'input-changed', 'forecasts')
    compare(runs[0], again, 'repeat', 'The first forecast, and one after '
            'others', 1e-6)
    # What was returned earlier is the caller's.
    compare(runs[0], Record(runs[0].forecast), 'result-changed',
            'The first forecast then, and now', 1e-9)


def meddle(plan, house, forecaster, runs, cls, action, pick):
    """ Something else that is done with the same program. """
    from forecaster.forecaster import Forecaster, Parameter
    from forecaster.settings import Settings
    if action == 'run':
        runs.append(finished(house, forecaster=forecaster))
    elif action == 'other':
        # Another forecaster, with another plan, for the same people.
        settings = Settings()
        settings.initial_year = plan['year']
        settings.num_years = 1 + pick % 4
        settings.inflation = house.num(round((pick % 7) / 100, 2))
        settings.living_expenses_base_amount = house.num(pick)
        settings.tax_brackets = {plan['year']: {
            house.num(0): house.num(0.3)}}
        settings.tax_personal_deduction = {plan['year']: house.num(pick)}
        settings.tax_credit_rate = {plan['year']: house.num(0.1)}
        Forecaster(settings=settings, high_precision=house.high).run_forecast(
            *house.inputs())
    elif action == 'settings':
        other = cls(high_precision=house.high)
        other.settings.living_expenses_base_amount = house.num(pick)
        other.settings.inflation = house.num(0.5)
        other.settings.saving_weights['Account'] = house.num(99)
        other.settings.tax_brackets[plan['year']] = {
            house.num(0): house.num(0.9)}
        other.default_types[str(Parameter.SCENARIO)] = None
        other.default_values[str(Parameter.LIVING_EXPENSES_STRATEGY)][
            'rate'] = 'settings.inflation'
        del other.default_values[str(Parameter.SAVING_STRATEGY)]
    elif action == 'param':
        other = cls(high_precision=house.high)
        other.settings.initial_year = plan['year']
        other.set_param(
            Parameter.LIVING_EXPENSES_STRATEGY, base_amount=house.num(pick))
        other.set_param(Parameter.SAVING_STRATEGY, weights={
            'Account': house.num(1)})
    elif action in ('tweak', 'set') and plan.get('built'):
        # The same forecaster, once something has been changed.
        old = {name: getattr(forecaster.settings, name) for name in (
            'living_expenses_base_amount', 'inflation', 'saving_weights')}
        changed = dict(old)
        changed['living_expenses_base_amount'] = house.num(10 * pick)
        if action == 'tweak':
            changed['inflation'] = house.num(round((pick % 9) / 100, 2))
            if pick % 2:
                changed['saving_weights'] = {
                    name: house.num(1 + (pick + n) % 5) for n, name in
                    enumerate(sorted(old['saving_weights']))}
        if action == 'set':
            forecaster.set_param(
                Parameter.LIVING_EXPENSES_STRATEGY, base_amount=changed[
                    'living_expenses_base_amount'])
            got = finished(house, forecaster=forecaster)
            forecaster.living_expenses_strategy = None
        for name, val in changed.items():
            setattr(forecaster.settings, name, val)
        if action == 'tweak':
            got = finished(house, forecaster=forecaster)
        new = cls(settings=forecaster.settings, high_precision=house.high)
        other = finished(house, forecaster=new)
        compare(other, got, 'tweaked', 'Forecasts by a new forecaster, and '
                'by one which was changed (%s)' % action, 1e-9)
        for name, val in old.items():
            setattr(forecaster.settings, name, val)
        runs.append(got)
    elif action == 'get':
        forecaster.get_param(list(Parameter)[pick % len(Parameter)])
    elif action == 'touch':
        # The caller may do as they like with a forecast they have.
        forecast = finished(house, forecaster=forecaster).forecast
        for account in sorted(forecast.assets, key=name_of):
            account.add_transaction(house.num(100 + pick), house.num(0.5))
            account.next_year()
        for person in sorted(forecast.people, key=name_of):
            person.gross_income = house.num(1)
            person.spouse = None
        forecast.available[0] += house.num(1000)


# --- P17: failures -----------------------------------------------------------
def disturb(house, plan):
    """ Forecasts which fail or are interrupted come first, if planned. """
    if plan['faults']:
        fail(house, plan, house.forecaster(), inputs_of(house))


def fail(house, plan, forecaster, before):
    for fault in plan['faults']:
        SIM.rehash()
        failed = None
        try:
            if fault[0] == 'call':
                house.arms = {fault[1]: fault[2]}
                house.run(forecaster=forecaster)
            else:
                with Interrupter(fault[1]):
                    house.run(forecaster=forecaster)
        except (ClientFault, Interrupt) as exc:
            failed = type(exc).__name__
            SIM.op('failed_forecast')
        house.arms = {}
        SIM.event('attempt', fault, failed)
        intact(before, house, 'input-changed', 'a forecast which %s ended' %
               failed)


def check_failures(plan):
    house = Household(plan)
    before = inputs_of(house)
    forecaster = house.forecaster()
    fail(house, plan, forecaster, before)
    SIM.rehash()
    record = finished(house, forecaster=forecaster)
    note(plan, record)
    intact(before, house, 'input-changed', 'a forecast')
    SIM.rehash()
    clean = Household(plan)
    other = finished(clean, forecaster=clean.forecaster())
    compare(other, record, 'retry', 'Without failures, and after some', 1e-6)


# --- P18: saving and withdrawing ----------------------------------------------
class Noted:
    """ A strategy whose allocations are noted. """

    def __init__(self, func):
        self.func = func
        self.calls = {}

    def __call__(self, available, accounts, *args, **kwargs):
        result = self.func(available, accounts, *args, **kwargs)
        year = max([a.this_year for a in accounts], default=None)
        self.calls[year] = (
            float(sum(available.values())),
            sorted(name_of(a) for a in accounts),
            {name_of(a): float(sum(s.values())) for a, s in result.items()})
        return result

    def __getattr__(self, name):
        if name in ('func', 'calls') or name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.func, name)


def check_stages(plan):
    """ Saves what is left over, and draws what is missing, as the
    strategies say, within every account's limits. """
    house = Household(plan)
    noted = {}
    for stage in ('saving', 'withdrawal'):
        client = getattr(house, stage)
        client.func = noted[stage] = Noted(client.func)
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    scale = scale_of(record)
    tol = 0.01 + 1e-7 * scale
    assets, debts = sorted(record.accounts), sorted(record.debts)
    for year in record.years:
        cash = record.get('income', 'carryover', year) + sum(
            record.total(s, 'cash', year) for s in STAGES[:2])
        for stage, sign, names in (('saving', 1, sorted(assets + debts)),
                                   ('withdrawal', -1, assets)):
            flows = record.get(stage, 'transactions', year)
            moved = {n: sum(s.values()) for n, s in flows.items()
                     if n not in ('cash', 'outside')}
            for name in sorted(moved):
                require(name in names, 'stage-account', '%s moved %s %s in %s',
                        stage, show(moved[name]), name, year)
                require(moved[name] * sign >= -tol, 'stage-sign',
                        '%s moved %s to %s in %s', stage, show(moved[name]),
                        name, year)
            if cash * sign <= tol:
                require(not moved or abs(cash) <= tol, 'stage-idle',
                        '%s moved %s in %s, with %s on hand', stage,
                        show(moved), year, show(cash))
            elif names:
                SIM.probe('active:' + stage)
                require(year in noted[stage].calls, 'stage-unasked',
                        'In %s, with %s on hand, the %s strategy was not '
                        'asked', year, show(cash), stage)
                total, asked, result = noted[stage].calls[year]
                require(asked == names, 'stage-accounts', '%s strategy was '
                        'asked about %s in %s', stage, asked, year)
                require_close(total, cash, 'stage-cash', 'Cash offered to '
                              'the %s strategy in %s' % (stage, year), 1e-7,
                              scale)
                for name in names:
                    require(abs(moved.get(name, 0) - result.get(name, 0))
                            <= tol, 'stage-flows', 'In %s, %s moved %s to %s '
                            'but its strategy said %s', year, stage,
                            show(moved.get(name, 0)), name,
                            show(result.get(name, 0)))
            cash += record.total(stage, 'cash', year)
        for name in assets + debts:
            account = (record.accounts[name] if name in record.accounts
                       else record.debts[name])
            if year + 1 not in account.balance_history:
                continue
            end = float(account.balance_history[year + 1])
            require(end >= -tol if name in assets else end <= tol,
                    'stage-balance', '%s is at %s at the end of %s', name,
                    show(end), year)
        rooms = {}
        for name in assets:
            account = record.accounts[name]
            link = getattr(account, 'max_inflow_link', None)
            if link is not None:
                paid = rooms.setdefault(
                    (link.owner.name, link.token),
                    [record.get(name, 'contribution_room', year), 0.0])
                paid[1] += sum(
                    v for v in record.get(name, 'transactions', year).values()
                    if v > 0)
        for key in sorted(rooms):
            room, paid = rooms[key]
            require(paid <= max(room, 0) + tol, 'stage-room', '%s paid into '
                    '%s in %s, with room for %s', show(paid), key, year,
                    show(room))


# --- P23: withholding at source ---------------------------------------------
def check_withholding(plan):
    """ Tax withheld on withdrawals leaves cash once, in the same year. """
    plan['route'] = 'direct'
    house = Household(plan)
    spy = house.withheld = {}
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    scale = scale_of(record)
    for year in record.years:
        for stage in ('saving', 'withdrawal'):
            flows = record.get(stage, 'transactions', year)
            moved = sum(sum(v.values()) for k, v in flows.items()
                        if k not in ('cash', 'outside'))
            cash = sum(flows.get('cash', {}).values())
            withheld = spy[stage, year]
            SIM.checked()
            excess = cash + moved + withheld
            if withheld > 1e-4:
                SIM.probe('withheld:' + stage)
            require(close(excess, 0, 1e-7, scale) or abs(excess) < 2e-4,
                    'withholding', 'In %s, %s moved %s to accounts and %s to '
                    'cash, with %s withheld', year, stage, show(moved),
                    show(cash), show(withheld))
        require_close(
            record.get('withdrawal', 'net_withdrawals', year),
            record.get('withdrawal', 'gross_withdrawals', year) -
            spy['withdrawal', year],
            'net-withdrawals', 'Net withdrawals of %s' % year, 1e-6, scale)


# --- P27: high precision ------------------------------------------------------
def exact(name, prop, val, year):
    """ High-precision values stay so. """
    from decimal import Decimal
    if isinstance(val, dict):
        for when, part in val.items():
            exact(name, prop + ' time', when, year)
            exact(name, prop, part, year)
        return
    # (A plain zero or a whole number mixes with anything.)
    require(isinstance(val, (Decimal, int)), 'precision-lost',
            '%s.%s of %s is %s, a %s', name, prop, year, val,
            type(val).__name__)


def check_precision(plan):
    house = Household(dict(plan, mode='f'))
    record = finished(house)
    note(plan, record)
    SIM.rehash()
    high = Household(dict(plan, mode='d'))
    other = finished(high)
    forecast = high.forecast
    for obj in list(forecast.people) + list(forecast.assets) + list(
            forecast.debts):
        for prop in props_of(obj):
            for year, val in getattr(obj, prop + '_history').items():
                exact(name_of(obj), prop, val, year)
    for stage in STAGES:
        stage = getattr(forecast, stage + '_forecast')
        for year, series in stage.transactions_history.items():
            for key in series:
                exact(type(stage).__name__, 'transactions',
                      dict(series[key]), year)
    for prop in FORECAST_PROPS:
        for year, val in getattr(forecast, prop + '_history').items():
            exact('forecast', prop, val, year)
    compare(record, other, 'precision', 'With floats, and with high '
            'precision', 1e-6)


# --- P28: investments --------------------------------------------------------
def check_investing(plan):
    house = Household(plan)
    disturb(house, plan)
    record = finished(house)
    note(plan, record)
    first = plan['year']
    for spec in plan['accounts']:
        if not spec.get('invested'):
            continue
        owner = next(p for p in plan['people'] if p['id'] == spec['owner'])
        for year in record.years:
            age = year - int(owner['birth'][:4])
            expected = sum(
                share * (vals if form == 'constant' else vals[year - first])
                for share, (form, vals) in zip(
                    shares(plan['investing'], age, retirement_age(owner)),
                    (plan['market'][kind]
                     for kind in ('stock', 'bond', 'other'))))
            require_close(record.get(spec['id'], 'rate', year), expected,
                          'rate', '%s in %s' % (spec['id'], year))
            balance = record.get(spec['id'], 'balance', year)
            flows = record.get(spec['id'], 'transactions', year)
            periods = {'A': 1, 'M': 12}.get(
                spec['nper'], spec['nper'] or 1)
            grown = growth(expected, periods, 1)
            require_close(
                record.get(spec['id'], 'returns', year),
                balance * (grown - 1) + sum(
                    v * (growth(expected, periods, 1 - w) - 1)
                    for w, v in flows.items()), 'returns',
                '%s in %s' % (spec['id'], year), scale=abs(balance))


CHECKS = {
    'P28': check_investing,
    'P27': check_precision,
    'P02': check_past, 'P04': check_looks, 'P13': check_cash,
    'P14': check_totals, 'P18': check_stages, 'P15': check_isolation, 'P16': check_order,
    'P17': check_failures, 'P20': check_living, 'P23': check_withholding,
}
