"""The properties: text, anchors, and how their checks run.

`python -m dst.catalog` rewrites properties.jsonl and MANIFEST.json from
this file, so that the three never disagree.
"""
import json
import os

TECHNIQUE = ('deterministic simulation with fault injection (seeded search '
             'over histories, schedules and faults, against a reference '
             'model)')

REAL_H = ['Person', 'Account', 'Debt', 'LinkedLimitAccount', 'AccountLink',
          'RRSP', 'TFSA', 'TaxableAccount', 'PrincipleResidence', 'Ledger',
          'recorded properties', 'Timing']
STUB_H = ['client callables (rates, raises, withholding, inflation): '
          'scripted, fail on demand', 'object hashes and set order: seeded',
          'wall clock: simulated', 'asynchronous interrupts: raised at a '
          'chosen executed line']
RULE_H = ('One run = one seeded household (1-3 people, 1-4 accounts of the '
          'types which the property concerns, float or Decimal) living '
          'through 2-5 years (thorough: up to 12) of seeded operations, '
          'reads, faults and year-ends stepped in a seeded order. Distinct '
          'and non-trivial: the run compared something with the oracle and '
          'its event log (every operation and observed value) differs from '
          'every other run\'s.')
STATE_H = ('distinct (stepping order, multiset of account types with their '
           'numbers of transactions, years stepped at once) at year-ends')

ASSUME = ['CPython 3.12 semantics; one thread of control at a time',
          'client callables are functions of their arguments except when a '
          'fault is injected']


def entry(pid, title, statement, over, text, why, files, mechanism, worlds,
          **kwargs):
    return dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, worlds=worlds, **kwargs)


REAL_F = ['Forecaster', 'Forecast and its five stages',
          'TransactionStrategy', 'TransactionTraversal (networkx real)',
          'LivingExpensesStrategy', 'Tax', 'TaxCanada', 'Scenario', 'Person',
          'all account types', 'Ledger', 'Timing']
STUB_F = ['client callables (rates, raises, withholding): scripted, fail on '
          'demand; strategies, tax and inflation: real ones behind a seam '
          'which can fail, look or be interrupted',
          'object hashes and set order: seeded', 'wall clock: simulated',
          'asynchronous interrupts: raised at a chosen executed line']
RULE_F = ('One run = one seeded plan (1-3 people, 1-4 accounts and debts, '
          'real strategies and taxes, float or Decimal) forecast over 2-5 '
          'years (thorough: up to 12), under the looks, faults, interrupts '
          'or second executions which the property concerns. Distinct and '
          'non-trivial: the run compared something with the oracle and its '
          'event log (every recorded value) differs from every other '
          'run\'s.')
RULE_L = ('One run = two forecasters and three sets of settings (shared or '
          'not), put through 4-12 (thorough: up to 25) seeded changes, '
          'builds, refusals, interrupts and forecasts of a seeded household. '
          'Distinct and non-trivial: the run compared something with the '
          'oracle and its event log differs from every other run\'s.')
STATE_F = ('distinct (multiset of account types, saving, withdrawing, '
           'numbers of accounts moved per stage, refund or payment) at '
           'year-ends')


def forecast(**kwargs):
    result = dict(rule=RULE_F, state_measure=STATE_F, real=REAL_F,
                  stub=STUB_F, assumptions=ASSUME)
    result.update(kwargs)
    return result


def household(**kwargs):
    result = dict(rule=RULE_H, state_measure=STATE_H, real=REAL_H,
                  stub=STUB_H, assumptions=ASSUME)
    result.update(kwargs)
    return result


def both(**kwargs):
    result = dict(
        rule=RULE_H + ' ' + RULE_F, state_measure=STATE_H + '; ' + STATE_F,
        real=sorted(set(REAL_H + REAL_F)), stub=sorted(set(STUB_H + STUB_F)),
        assumptions=ASSUME)
    result.update(kwargs)
    return result


REAL_T = ['TransactionStrategy', 'TransactionTraversal', 'TransactionNode',
          'networkx', 'debt priorities', 'Person', 'all account types',
          'AccountLink']
STUB_T = ['client callables (rates, inflation): scripted',
          'solver: real one which may run out of memory at a chosen call',
          'object hashes and set order: seeded', 'wall clock: simulated',
          'asynchronous interrupts: raised at a chosen executed line']
RULE_T = ('One run = one seeded set of 1-6 accounts, debts and groups with '
          'shared limits (thorough: up to 8) and 1-2 strategies or a nested '
          'tree of priorities, living through 2-8 (thorough: 20) seeded '
          'steps: allocations of cash (positive, negative, mixed, at any '
          'times), applied or not, failing or interrupted and retried; '
          'transactions; year-ends. Distinct and non-trivial: the run '
          'compared something with the oracle and its event log differs '
          'from every other run\'s.')
STATE_T = ('distinct (kind of priority, direction, multiset of account type, '
           'whether it got anything, whether it was filled) at allocations')


def allocation(**kwargs):
    result = dict(
        rule=RULE_T + ' ' + RULE_F, state_measure=STATE_T + '; ' + STATE_F,
        real=REAL_T + REAL_F, stub=STUB_T + STUB_F, assumptions=ASSUME)
    result.update(kwargs)
    return result


REAL_S = ['SubForecast and the five stages', 'strategies', 'Tax', 'Scenario',
          'Person', 'all account types but TaxableAccount', 'Ledger']
STUB_S = ['client stages: scripted transfers, which may fail part way',
          'client callables (rates, raises, withholding, inflation, '
          'strategies, tax): real or scripted ones which may fail on demand',
          'object hashes and set order: seeded', 'wall clock: simulated']
RULE_S = ('One run = one seeded household with its five real stages and two '
          'scripted ones, which are called, called again, undone, failed and '
          'retried in a seeded order over 3-9 (thorough: 24) steps, with '
          'other flows to cash and accounts in between and year-ends. '
          'Distinct and non-trivial: the run compared something with the '
          'oracle and its event log differs from every other run\'s.')
STATE_S = ('distinct (stage, failed or not, how called again, parties moved '
           'with their numbers of flows) after calls')


def staged(**kwargs):
    result = dict(rule=RULE_S, state_measure=STATE_S, real=REAL_S,
                  stub=STUB_S, assumptions=ASSUME)
    result.update(kwargs)
    return result


REAL_X = ['Tax', 'TaxMulti', 'TaxCanada and its jurisdictions',
          'ConstantsCanada', 'Person', 'Account', 'RRSP', 'TaxableAccount',
          'Timing']
STUB_X = ['client accounts giving credits and deductions, and inflation: '
          'scripted; inflation may fail on demand',
          'object hashes and set order: seeded',
          'asynchronous interrupts: raised at a chosen executed line']
RULE_X = ('One run = one seeded family (1-4 people, some married, with '
          '0-4 accounts) and 1-4 tax treatments (plain, of several '
          'jurisdictions, Canadian, or two sharing their inputs), asked '
          '3-14 (thorough: 50) seeded questions about any years, incomes, '
          'people and groups, with transactions and year-ends in between '
          'and failures or interrupts in the middle of answers. Distinct '
          'and non-trivial: the run compared something with the oracle and '
          'its event log (every answer) differs from every other run\'s.')
STATE_X = ('distinct (kind of treatment, question, fault, container, year, '
           'number of people, number of treatments) at answers')


def taxed(**kwargs):
    result = dict(rule=RULE_X, state_measure=STATE_X, real=REAL_X,
                  stub=STUB_X, assumptions=ASSUME)
    result.update(kwargs)
    return result


REAL_V = ['ValueReader', 'ValueReaderAttribute', 'Settings',
          'SettingsCanada', 'ConstantsCanada', 'HighPrecisionJSONEncoder',
          'Python\'s file buffering and JSON']
STUB_V = ['disk: real files in a scratch folder behind a simulated one, '
          'whose operations fail, are cut short, stop the process or lose '
          'power', 'process scheduling: one disk operation at a time, '
          'seeded', 'process ids: simulated',
          'client serialisers: may fail on demand',
          'asynchronous interrupts: raised at a chosen executed line']
RULE_V = ('One run = 1-3 seeded sets of settings living through 3-10 '
          '(thorough: 30) seeded changes, saves, loads, restarts, refused '
          'values and corrupted files, over up to three files (one of them '
          'a link), under disk faults, kills, power cuts and races of 2-4 '
          'processes where the property concerns them. Distinct and '
          'non-trivial: the run compared something with the oracle and its '
          'event log (every disk operation and outcome) differs from every '
          'other run\'s.')
STATE_V = ('distinct (outcome, fault, sequence of disk operations) of saves '
           'and loads, and (schedule, sequence of disk operations) of races')


def filed(**kwargs):
    result = dict(rule=RULE_V, state_measure=STATE_V, real=REAL_V,
                  stub=STUB_V, assumptions=ASSUME + [
                      'strings which look like numbers come back as numbers '
                      '(documented), and NaN is refused'])
    result.update(kwargs)
    return result


REAL_C = ['Timing', 'transactions_from_timing', 'add_transactions',
          'subtract_transactions']
STUB_C = ['the year: seeded flows of cash into and out of a cash box',
          'asynchronous interrupts: raised at a chosen executed line']
RULE_C = ('One run = a cash box through a year of 0-10 seeded flows, and '
          '3-14 (thorough: 40) seeded schedules made of them (or of times, '
          'frequencies and other flows), amounts spread over them, flows '
          'booked and taken back, refused and interrupted calls. Distinct '
          'and non-trivial: the run compared something with the oracle and '
          'its event log differs from every other run\'s.')
STATE_C = ('distinct (form of schedule, number of times, interrupt, number '
           'type, number of flows)')


def boxed(**kwargs):
    result = dict(rule=RULE_C, state_measure=STATE_C, real=REAL_C,
                  stub=STUB_C, assumptions=ASSUME + [
                      'flows at which cash comes within 0.0001 of nothing '
                      'are not drawn, where rounding would decide'])
    result.update(kwargs)
    return result


CATALOG = [
    entry(
        'P01', 'Balances roll forward by exactly the year\'s flows and growth',
        'Whatever sequence of deposits, withdrawals, corrections and reads an '
        'account or debt sees, its opening balance next year equals this '
        'year\'s opening balance plus this year\'s transactions plus this '
        'year\'s reported returns, with the balance and each transaction '
        'growing at this year\'s rate and compounding frequency from the '
        'time it is made. A refused transaction (at an impossible time) '
        'leaves no trace.',
        ['histories', 'schedules', 'fault_sequences'],
        'every sequence of transactions, edits, reads, failed reads and '
        'year-ends, for every account type, rate path, compounding '
        'frequency and number type',
        'Tests check one or two hand-computed years with constant rates; '
        'nothing exercises rates that change from year to year, edits '
        'between reads, or interrupted reads.',
        ['forecaster/accounts/base.py', 'forecaster/accounts/util.py',
         'forecaster/accounts/debt.py', 'forecaster/ledger'],
        [('opening balance derived from last year\'s balance, rate and '
          'transactions', 'forecaster/accounts/base.py: Account.balance, '
          'Account.returns, Account.next_year'),
         ('per-year caching of recorded values',
          'forecaster/ledger/recorded_property.py')],
        {'household': 8000}, **household()),
    entry(
        'P02', 'What is recorded for a past year never changes',
        'Once a year has ended, every value recorded for it - balances, '
        'rates, transactions, returns, incomes, taxes, contribution room, '
        'cash flows - equals what it was at that year\'s end, and stays '
        'exactly so whatever is read, transacted, reassigned or advanced in '
        'later years.',
        ['histories', 'schedules', 'fault_sequences'],
        'every history of people, accounts and forecasts, at every point '
        'after each year-end',
        'Tests read a history once, right after one call to advance; they '
        'cannot see a record which a later operation rewrites.',
        ['forecaster/ledger', 'forecaster/accounts/base.py',
         'forecaster/forecast/subforecast.py', 'forecaster/forecast/base.py'],
        [('values recorded when the year advances',
          'forecaster/ledger/base.py: Ledger.next_year'),
         ('fresh transaction containers each year',
          'forecaster/accounts/base.py: Account.next_year; '
          'forecaster/forecast/subforecast.py: SubForecast.next_year')],
        {'household': 5000, 'forecast': 600}, **both()),
    entry(
        'P03', 'Manually entered values always win',
        'A value which the user enters for a property of a person or account '
        'in a given year is the value seen in that year and recorded for it, '
        'whatever is computed, assigned or deleted by program. All other '
        'values follow from it as if it had been computed, and properties '
        'and years without an entry are unaffected.',
        ['inputs', 'histories', 'schedules'],
        'every set of entries over properties and years, and every history '
        'of operations around them',
        'Tests enter one value for one property; the guarantee is over '
        'combinations of entries with later operations and derived values.',
        ['forecaster/ledger', 'forecaster/accounts', 'forecaster/person.py',
         'forecaster/canada/accounts'],
        [('entries seed the record and block setters and deleters',
          'forecaster/ledger/recorded_property.py; '
          'forecaster/ledger/base.py: Ledger.__init__')],
        {'household': 8000}, **household()),
    entry(
        'P04', 'Looking at a plan never changes it',
        'Reading any property, history or limit of a person or account - any '
        'number of times, in any order, at any point, even if the read fails '
        'or is interrupted and is repeated - returns the value that follows '
        'from the operations so far and has no effect on any later value. '
        'The same operations without the reads lead to the same outcome.',
        ['schedules', 'histories', 'fault_sequences'],
        'every placement of reads (including failing and interrupted ones) '
        'among the operations of a history',
        'Values are computed lazily and cached; whether a cache goes stale '
        'depends on when something was read, which no test varies.',
        ['forecaster/ledger/recorded_property.py',
         'forecaster/accounts/base.py', 'forecaster/utility/precision.py',
         'forecaster/canada/accounts/taxable_account.py'],
        [('cached recorded properties and their invalidation',
          'forecaster/ledger/recorded_property.py; '
          'forecaster/canada/accounts/taxable_account.py'),
         ('zero-filled transaction lookups',
          'forecaster/accounts/base.py: Account._transactions')],
        {'household': 6000, 'forecast': 600}, **both()),
    entry(
        'P05', 'The order in which accounts are stepped does not matter',
        'Stepping people first and then the accounts to the next year in any '
        'order, one or several years at a time, linked or not, leads to the '
        'same balances, contribution room, tax amounts and records for '
        'everything. If accounts are stepped before their owners, the '
        'accounts\' own values are still the same.',
        ['schedules', 'histories'],
        'every order of stepping the members of a household, every number '
        'of years stepped at once, every set order',
        'Accounts live in sets, so the order is arbitrary in production '
        'and fixed to one value in any one test run.',
        ['forecaster/canada/accounts/registered_account.py',
         'forecaster/accounts/base.py', 'forecaster/accounts/link.py',
         'forecaster/ledger/base.py'],
        [('first account of a group computes next year\'s shared room, and '
          'steps the rest', 'forecaster/canada/accounts/'
          'registered_account.py: RegisteredAccount.next_year')],
        {'household': 6000}, **household()),
    entry(
        'P06', 'Contribution room follows the published rules, shared once',
        'Each year the room of a contributor\'s linked RRSPs is the unused '
        'room carried forward plus the lesser of 18% of the contributor\'s '
        'income and the (indexed) annual maximum, and none after the '
        'contributor turns 71; the room of a person\'s TFSAs is the unused '
        'room plus the year\'s (indexed, rounded) limit plus the amounts '
        'withdrawn, accruing from the year they turn 18. Contributions to '
        'and withdrawals from all accounts of the group count exactly once, '
        'whichever account is asked or stepped first.',
        ['histories', 'schedules', 'inputs'],
        'every history of contributions, withdrawals, manual room entries '
        'and year-ends over every grouping of accounts by contributor',
        'Tests use one account, or two in one fixed order, for one year.',
        ['forecaster/canada/accounts/registered_account.py',
         'forecaster/canada/accounts/rrsp.py',
         'forecaster/canada/accounts/tfsa.py', 'forecaster/accounts/link.py'],
        [('next year\'s room', 'RRSP.next_contribution_room, '
          'TFSA.next_contribution_room'),
         ('room shared by link', 'forecaster/accounts/linked_limit.py')],
        {'household': 8000},
        **household(
            assumptions=ASSUME + [
                'rule tables (2009-2017) are those of the pinned commit',
                'known finding KF2 is followed and reported']),
        probes=()),
    entry(
        'P07', 'Accounts that share a limit never exceed it together',
        'Accounts linked to one limit on contributions (or withdrawals) see '
        'what is left of it after all of their transactions of that kind so '
        'far this year, including hypothetical ones they are asked to '
        'consider, whoever made them. Contributing no more than an account '
        'says is allowed, in any order across the accounts, therefore never '
        'takes the group over the limit, and flows of the opposite kind '
        'never enlarge it.',
        ['histories', 'schedules', 'inputs'],
        'every interleaving of queries, transactions and limit changes '
        'across the accounts of a group, for minimum and maximum limits in '
        'both directions',
        'Tests link two accounts and make one query; over-contribution '
        'needs several accounts and several steps.',
        ['forecaster/accounts/linked_limit.py', 'forecaster/accounts/link.py',
         'forecaster/accounts/base.py'],
        [('remaining group limit', 'forecaster/accounts/linked_limit.py: '
          'LinkedLimitAccount.max_inflows, max_outflows, min_inflows, '
          'min_outflows'),
         ('group record shared through the owner',
          'forecaster/accounts/link.py: AccountLink')],
        {'household': 9000}, **household()),
    entry(
        'P08', 'Suggested flows respect balances, limits and schedules',
        'The most (or least) that an account says may flow in or out on a '
        'given schedule is spread over it in proportion, has the right '
        'sign, takes into account everything already transacted this year, '
        'and is as large as possible without passing the account\'s limit, '
        'the caller\'s limit or the year-end balance asked for. Making those '
        'flows therefore never overdraws an account and never overpays a '
        'debt, and a debt is never asked to lend. Asking leaves the schedule '
        'and the hypothetical flows it is given as they were.',
        ['histories', 'inputs', 'schedules'],
        'every state an account can reach, every schedule, every limit and '
        'every hypothetical transaction',
        'Tests query fresh accounts with one schedule; the guarantee is '
        'over states reached by earlier flows and combined limits.',
        ['forecaster/accounts/base.py', 'forecaster/accounts/debt.py',
         'forecaster/accounts/linked_limit.py',
         'forecaster/canada/accounts/rrsp.py'],
        [('flows to a target balance', 'forecaster/accounts/base.py: '
          'Account.transactions_to_balance, max_outflows, max_inflows, '
          'min_outflows, min_inflows'),
         ('debt limits', 'forecaster/accounts/debt.py')],
        {'household': 9000}, **household()),
    entry(
        'P09', 'Capital gains are realised in proportion and taxed at half',
        'A taxable account\'s cost base grows by each deposit and shrinks, at '
        'each withdrawal, in proportion to the share of the account then '
        'withdrawn; the gain is the withdrawal less that part of the cost '
        'base, and half of the year\'s gains is taxable income. This holds '
        'in order of time, for transactions made, changed or removed in any '
        'order and whatever was read in between, and the cost base carries '
        'over from year to year.',
        ['histories', 'schedules'],
        'every sequence of transactions (in any order of entry), removals, '
        'reads and year-ends on accounts that are not overdrawn',
        'The gain is cached and the cost base of next year is written when '
        'it is read; tests add everything first and read once.',
        ['forecaster/canada/accounts/taxable_account.py',
         'forecaster/accounts/base.py'],
        [('gain and cost base', 'forecaster/canada/accounts/'
          'taxable_account.py: TaxableAccount.acb, capital_gain, '
          'taxable_income, next_year')],
        {'household': 9000},
        **household(assumptions=ASSUME + [
            'taxable accounts keep a positive balance at each withdrawal'])),
    entry(
        'P10', 'Retirement accounts convert, pay minimums and withhold by rule',
        'A registered retirement account converts to an income fund no later '
        'than the year its owner turns 71 (a later date is refused); from '
        'the year after conversion the minimum withdrawal is the prescribed '
        'share, by the owner\'s age, of the opening balance. Contributions '
        'are deductible and withdrawals taxable in full, and tax is withheld '
        'at the single rate of the (indexed) bracket which the year\'s total '
        'withdrawals fall in, exempting the minimum once converted.',
        ['histories', 'inputs', 'schedules'],
        'every age, conversion date, balance path and withdrawal history, '
        'over many years, ahead of and after conversion',
        'Tests sample a few ages and one withdrawal in one year.',
        ['forecaster/canada/accounts/rrsp.py',
         'forecaster/canada/constants.py', 'forecaster/person.py'],
        [('conversion and minimum withdrawal', 'forecaster/canada/accounts/'
          'rrsp.py: RRSP.rrif_conversion_year, minimum_distribution, '
          'min_outflow_limit'),
         ('withholding', 'forecaster/canada/accounts/rrsp.py: '
          'RRSP.tax_withheld')],
        {'household': 9000},
        **household(assumptions=ASSUME + [
            'rule tables are those of the pinned commit'])),
    entry(
        'P11', 'Every transfer balances, and moves money no earlier than asked',
        'Whatever leaves one party to a transfer (cash, an account, a debt '
        'or the outside world) reaches the other at the same time and in '
        'the same amount, in both parties\' books and in the stage\'s '
        'record and reports, so that a stage\'s flows always cancel out. No '
        'money moves before the time asked for. It moves exactly then if '
        'timing is strict or the payer can spare it, and otherwise at the '
        'earliest workable time from which the payer has enough for the '
        'rest of the year, or at the time asked for if there is none.',
        ['inputs', 'histories', 'schedules'],
        'every order of transfers among cash, accounts and debts, with any '
        'amounts and schedules, after any earlier flows',
        'Tests make one transfer between two fresh parties; timing depends '
        'on everything which moved before.',
        ['forecaster/forecast/subforecast.py', 'forecaster/forecast',
         'forecaster/accounts/base.py'],
        [('transfers', 'forecaster/forecast/subforecast.py: '
          'SubForecast.add_transaction, _shift_when'),
         ('when an account can pay', 'forecaster/accounts/base.py: '
          'Account.time_to_balance')],
        {'stages': 12000}, thorough=30, **staged(assumptions=ASSUME + [
            'an account\'s earliest workable time is only bounded (it is a '
            'documented approximation), never later than one of the '
            'account\'s own transaction times which works'])),
    entry(
        'P12', 'Running a stage again replaces its earlier run',
        'Calling a stage of a year\'s plan twice does the same as calling '
        'it once; undoing it leaves cash, accounts, debts and its own '
        'records and reports as if it had never run, whatever else has '
        'moved in between; and calling it after it has failed part way (or '
        'been undone) does what a first call would. A new year starts with '
        'none of last year\'s flows, which stay on record for that year.',
        ['histories', 'fault_sequences'],
        'every order of calls, repeated calls, undos, failures, retries, '
        'other flows and year-ends',
        'Tests call a stage twice in a row with nothing in between, and '
        'never fail.',
        ['forecaster/forecast/subforecast.py', 'forecaster/forecast'],
        [('undoing', 'forecaster/forecast/subforecast.py: '
          'SubForecast.__call__, undo_transactions, next_year')],
        {'stages': 10000}, thorough=30, **staged(assumptions=ASSUME + [
            'a stage fails where client code does, between transfers, not '
            'inside one'])),
    entry(
        'P13', 'Cash is conserved from year to year, with taxes settled once',
        'In every forecast each year opens with exactly the cash that last '
        'year closed with, plus last year\'s tax refund (or less its '
        'balance owing) at the times when the tax treatment settles it, once '
        'and in full; it closes with that plus the cash flows of every '
        'stage. The amount settled is the tax withheld less the tax owing on '
        'the year\'s final figures.',
        ['inputs', 'histories', 'schedules'],
        'every household, plan, tax treatment and number of years',
        'Tests run one stage, or one forecast of identical years, with '
        'stubbed stages; leaks show only over several real years.',
        ['forecaster/forecast/base.py', 'forecaster/forecast/tax.py',
         'forecaster/forecast/subforecast.py',
         'forecaster/forecast/income.py'],
        [('cash carried over', 'forecaster/forecast/base.py: '
          'Forecast.next_year, Forecast.update_available'),
         ('tax adjustment', 'forecaster/forecast/tax.py: '
          'TaxForecast.tax_adjustment')],
        {'forecast': 2000}, **forecast()),
    entry(
        'P14', 'Reported totals equal the flows and balances they summarise',
        'In every year of every forecast, each total which it reports - '
        'income, living expenses, savings, debt repayment, withdrawals, '
        'principal, tax - equals the sum of the people\'s, accounts\' and '
        'cash records which it summarises, and each account records exactly '
        'the transactions that the forecast\'s stages made with it.',
        ['inputs', 'histories', 'schedules'],
        'every household, plan and year',
        'Tests compare totals with stubbed stages in one year; stale or '
        'double-counted totals need real stages over years.',
        ['forecaster/forecast/base.py', 'forecaster/forecast/income.py',
         'forecaster/forecast/living_expenses.py',
         'forecaster/forecast/saving.py', 'forecaster/forecast/withdrawal.py',
         'forecaster/forecast/subforecast.py'],
        [('totals', 'the recorded properties of Forecast and SubForecasts'),
         ('transactions', 'forecaster/forecast/subforecast.py: '
          'SubForecast.add_transaction')],
        {'forecast': 2000}, **forecast()),
    entry(
        'P15', 'Forecasts leave their inputs and each other alone',
        'Running a forecast leaves every person, account, scenario, setting '
        'and strategy it was given exactly as it was. Any number of '
        'forecasts and forecasters in one program - with the same or other '
        'settings, whatever is done with their results - do not affect each '
        'other: the same plan gives the same forecast again, and a forecast '
        'once returned does not change. A plan given as settings forecasts '
        'the same as one assembled from the same parts by hand, and a '
        'forecaster whose settings or parameters have been changed forecasts '
        'what a new one would with them.',
        ['histories', 'inputs', 'schedules'],
        'every plan, and every sequence of other forecasts, settings and '
        'changes around it',
        'Tests run one forecaster and look at its result; sharing shows '
        'only in the second forecast, or in what was passed in.',
        ['forecaster/forecaster.py', 'forecaster/settings.py',
         'forecaster/forecast', 'forecaster/canada/forecaster.py',
         'forecaster/canada/settings.py'],
        [('inputs copied for each forecast', 'forecaster/forecaster.py: '
          'Forecaster.run_forecast'),
         ('default parameters and types', 'forecaster/forecaster.py: '
          'Forecaster.default_values, default_types, build_param')],
        {'forecast': 600}, thorough=40, **forecast()),
    entry(
        'P16', 'A forecast does not depend on arbitrary order or on the clock',
        'The same plan leads to the same forecast - every recorded value of '
        'every person, account and stage - whatever order people, accounts '
        'and recorded properties happen to be visited in, and whatever day '
        'the program runs on.',
        ['schedules', 'inputs'],
        'every plan in which priorities are distinct, every hash order, '
        'every date',
        'Sets of accounts are ordered by address: each test run sees one '
        'order, and a result that depends on it looks like any other.',
        ['forecaster/forecast', 'forecaster/strategy', 'forecaster/tax.py',
         'forecaster/accounts'],
        [('sets of people and accounts', 'forecaster/forecast; '
          'forecaster/strategy/gross_transaction.py'),
         ('allocation of flows', 'forecaster/strategy/transaction/base.py: '
          'TransactionTraversal')],
        {'forecast': 1500},
        **forecast(assumptions=ASSUME + [
            'no two debts with the same rate and balance, and no two types '
            'of accounts with the same rank in an ordered strategy: their '
            'order is documented as undefined'])),
    entry(
        'P17', 'A failed or interrupted forecast can simply be run again',
        'If a forecast ends in the middle - because a rate, strategy, '
        'inflation or tax calculation of the user\'s fails, or because the '
        'user interrupts it at any point - everything that it was given is '
        'as before, and running it again gives exactly the forecast that an '
        'undisturbed program gives.',
        ['fault_sequences', 'crash_points', 'inputs'],
        'every plan and every sequence of failures and interrupts, at any '
        'call and any executed line',
        'No test fails or interrupts a forecast.',
        ['forecaster/forecaster.py', 'forecaster/forecast',
         'forecaster/ledger', 'forecaster/tax.py',
         'forecaster/canada/tax.py'],
        [('inputs copied for each forecast', 'forecaster/forecaster.py: '
          'Forecaster.run_forecast'),
         ('memoised tax years', 'forecaster/tax.py; '
          'forecaster/canada/tax.py')],
        {'forecast': 1200}, thorough=40, **forecast()),
    entry(
        'P18', 'Allocations use all the cash they may, and no more',
        'Saving a surplus or drawing for a shortfall moves cash in one '
        'direction only (deposits out of a surplus, withdrawals for a '
        'shortfall), never more than there is (or, for withdrawals, than is '
        'short or the accounts\' minimums demand) and never more than each '
        'account, group of accounts sharing a limit, or branch of '
        'priorities allows; minimums are met when affordable, and no cash '
        'stays idle while any account has room for it. Making the moves '
        'leaves every account within its limits, no account overdrawn and '
        'no debt overpaid. Computing them changes nothing, even if it fails '
        'part way.',
        ['inputs', 'histories', 'fault_sequences'],
        'every set of accounts, strategy, cash flow and earlier history',
        'Tests allocate round sums among two to four fresh accounts; limits '
        'interact with earlier flows, links and minimums in combinations '
        'which only search reaches.',
        ['forecaster/strategy/transaction', 'forecaster/forecast/saving.py',
         'forecaster/forecast/withdrawal.py', 'forecaster/accounts'],
        [('allocation as a flow problem', 'forecaster/strategy/transaction/'
          'base.py: TransactionTraversal'),
         ('what a stage moves', 'forecaster/forecast/saving.py; '
          'forecaster/forecast/withdrawal.py')],
        {'allocation': 3000, 'forecast': 1500}, quick=3, thorough=30,
        **allocation()),
    entry(
        'P19', 'Allocations follow the priorities and weights asked for',
        'High-interest debts are repaid before anything else, and debts '
        'among themselves in the chosen order (dearest first, or smallest '
        'first); an ordered strategy gives nothing beyond minimums to a '
        'lower-priority type of account while a higher one has room; a '
        'weighted one shares cash in proportion to weights, except where an '
        'account\'s minimum or maximum binds, and shares out the rest in '
        'proportion again. Nested priorities apply at every level. The '
        'answer depends only on the cash and the accounts: not on earlier '
        'calls, nor on the order in which accounts are visited.',
        ['inputs', 'histories', 'schedules'],
        'every tree of priorities, set of accounts, cash flow, history and '
        'visiting order',
        'Tests compare a few hand-computed allocations; the balancing of '
        'weights takes different paths for each pattern of limits.',
        ['forecaster/strategy/transaction', 'forecaster/strategy/debt_payment'],
        [('balancing of weights', 'forecaster/strategy/transaction/base.py: '
          'TransactionTraversal._balance_weighted_flows'),
         ('priorities from strategies', 'forecaster/strategy/transaction/'
          'strategy.py: TransactionStrategy'),
         ('debts', 'forecaster/strategy/debt_payment/util.py')],
        {'allocation': 2000}, quick=4, thorough=30, **allocation(
            rule=RULE_T, state_measure=STATE_T, real=REAL_T, stub=STUB_T,
            assumptions=ASSUME + [
                'no two debts with the same rate or balance, and no two '
                'types of accounts with the same weight, when their order '
                'matters',
                'how accounts of one type which share a limit split it is '
                'not specified (only that it does not depend on order)'])),
    entry(
        'P20', 'Living expenses follow the chosen rule, before and after work',
        'Each year\'s living expenses are what the chosen strategy says, '
        'given that year\'s incomes (or, once retired, the records of the '
        'year of retirement), indexed to inflation when asked; the '
        'retirement strategy takes over in the year after the first '
        'retirement, never below the minimum; expenses are never negative; '
        'and they are taken out of cash once and in full.',
        ['inputs', 'histories', 'schedules'],
        'every strategy, parameter, income path and retirement date',
        'Tests call each strategy once with stubbed people; the rules refer '
        'to histories that only a real forecast has.',
        ['forecaster/strategy/gross_transaction.py',
         'forecaster/forecast/living_expenses.py'],
        [('rules', 'forecaster/strategy/gross_transaction.py: '
          'LivingExpensesStrategy, LivingExpensesStrategySchedule'),
         ('spending', 'forecaster/forecast/living_expenses.py: '
          'LivingExpensesForecast')],
        {'forecast': 2000}, **forecast()),
    entry(
        'P21', 'Tax follows the schedule in force, however it was asked before',
        'The tax schedule, deductions and credit rate in force for a year '
        'are those given for it, or else those of the last year given '
        'before it (or the first one, for years before that), with amounts '
        'indexed from that year to this. Tax on an income is what the '
        'brackets charge on it after deductions, less credits at the credit '
        'rate, and is never negative; marginal rates and brackets are those '
        'which the income reaches, and several jurisdictions add up. None '
        'of this depends on which years, incomes or people were asked about '
        'before, in which order, on other treatments built from the same '
        'inputs, or on answers that failed or were interrupted; asking '
        'changes neither the inputs nor the people.',
        ['inputs', 'histories', 'fault_sequences'],
        'every schedule, inflation path and series of questions, with '
        'failures and interrupts at any point of an answer',
        'Tests ask a few questions of a fresh treatment; derived years are '
        'memoised, so answers could depend on what was asked before.',
        ['forecaster/tax.py', 'forecaster/canada/tax.py',
         'forecaster/utility/inflation.py'],
        [('memoised schedule', 'forecaster/tax.py: Tax.tax_brackets, accum'),
         ('indexing', 'forecaster/utility/inflation.py: '
          'extend_inflation_adjusted'),
         ('several jurisdictions', 'forecaster/tax.py: TaxMulti')],
        {'taxes': 20000}, thorough=40, **taxed()),
    entry(
        'P22', 'A group\'s tax is its members\' taxes, each counted once',
        'The tax of any group of people - in any order, in any kind of '
        'collection, with people repeated, with or without their spouses - '
        'is the sum of its members\' taxes, each counted once with their '
        'own income, deductions and credits, in every jurisdiction. A '
        'person\'s pension credit is their retirement income up to the '
        '(indexed) maximum, and a couple\'s spousal credit goes to the '
        'higher earner alone, reduced by the other\'s net income and never '
        'beyond its maximum.',
        ['inputs', 'histories', 'schedules'],
        'every family, group, collection, visiting order and history',
        'Tests assess one fixed couple; the recursion over spouses visits '
        'people in an order that depends on hashes.',
        ['forecaster/tax.py', 'forecaster/canada/tax.py'],
        [('groups', 'forecaster/tax.py: Tax.tax_people, tax_spouses'),
         ('credits', 'forecaster/canada/tax.py: '
          'TaxCanadaJurisdiction.credit')],
        {'taxes': 20000}, thorough=40, **taxed(assumptions=ASSUME + [
            'spouses whose net incomes are equal are not asked about in a '
            'Canadian jurisdiction (who claims is left open)'])),
    entry(
        'P23', 'Tax withheld at source leaves cash once, when it is withheld',
        'What reaches cash from withdrawals and sales in a year is what '
        'leaves the accounts less the tax which they withhold on it, exactly '
        'once: cash in hand never includes tax already withheld, and net '
        'withdrawals are gross withdrawals less the tax withheld.',
        ['inputs', 'histories', 'schedules'],
        'every household with withholding accounts, plan and year',
        'Tests never withdraw from an account which withholds tax in a '
        'forecast.',
        ['forecaster/forecast/withdrawal.py', 'forecaster/forecast/saving.py',
         'forecaster/canada/accounts/rrsp.py',
         'forecaster/forecast/tax.py'],
        [('withholding taken out of cash', 'forecaster/forecast/'
          'withdrawal.py: WithdrawalForecast.__call__; '
          'forecaster/forecast/saving.py')],
        {'forecast': 2000}, thorough=30, **forecast()),
    entry(
        'P24', 'Settings come back exactly as they were saved',
        'Whatever values settings are given - numbers of any size, infinite '
        'or high-precision ones, text in any script, lists, and tables '
        'keyed by numbers or text, nested - saving them and loading them in '
        'another program gives equal values, in the program\'s own number '
        'type. A setting reads as what it was last set to or loaded as, or '
        'else (if they are enabled) its default, which deleting it '
        'restores. Loading replaces all values or, if it fails, none; '
        'saving one set of settings to another\'s file changes neither set, '
        'and values which cannot be saved are refused without touching any '
        'file.',
        ['inputs', 'histories'],
        'every set of values and every sequence of changes, saves, loads, '
        'restarts and failures over several settings and files',
        'Tests round-trip a few small dicts through one file.',
        ['forecaster/value_reader.py', 'forecaster/settings.py',
         'forecaster/canada/settings.py', 'forecaster/canada/constants.py'],
        [('saving and loading', 'forecaster/value_reader.py: '
          'ValueReader.write, read'),
         ('settings as attributes', 'forecaster/value_reader.py: '
          'ValueReaderAttribute')],
        {'files': 20000}, thorough=40, **filed()),
    entry(
        'P25', 'Saving settings never loses or damages them',
        'Whatever happens while settings are saved - a disk error at any '
        'operation, a full disk, a short write, an interrupt, the program '
        'being killed or the power being cut at any point - the file then '
        'holds either all of its previous values or all of the new ones, '
        'and every other file is as it was; a save that reports success has '
        'stored the new ones, and one that fails leaves no other files '
        'behind. A file keeps its permissions, a link stays a link, and a '
        'load that fails leaves the settings in memory as they were. '
        'Several programs saving and loading one file at once each see one '
        'complete version of it, in some order which respects time.',
        ['crash_points', 'fault_sequences', 'schedules'],
        'every operation of a save or load at which a fault may strike, '
        'every durable state a power cut may leave, and every interleaving '
        'of several programs',
        'No test fails, kills or interleaves a save.',
        ['forecaster/value_reader.py'],
        [('atomic replacement', 'forecaster/value_reader.py: '
          'ValueReader.write')],
        {'files': 10000}, thorough=40, **filed(assumptions=ASSUME + [
            'disk model: renames and other changes to names become durable '
            'in order; a file\'s content is durable once synced, and may '
            'otherwise be anything between what it was and what was written',
            'looking a name up does not fail',
            'one simulated process is one process: threads of one process '
            'saving to one file at once are not covered'])),
    entry(
        'P26', 'Income follows raises until retirement, then stops',
        'A person\'s gross income grows each year by that year\'s raise, '
        'continues through the year of retirement and is zero afterwards; '
        'net income is gross income less what the person\'s tax treatment '
        'withholds on it that year. This holds whatever is read or '
        'transacted, in whichever order people and accounts are stepped, '
        'and after a failed raise or tax calculation is retried.',
        ['histories', 'schedules', 'fault_sequences'],
        'every raise path, retirement date and tax treatment, over many '
        'years, with reads and failures at any point',
        'Tests advance one person by one or two years with constant raises '
        'and no failures.',
        ['forecaster/person.py', 'forecaster/ledger'],
        [('income recurrence', 'forecaster/person.py: Person.gross_income, '
          'net_income, raise_rate, tax_withheld')],
        {'household': 9000}, **household()),
    entry(
        'P27', 'High-precision plans stay exact and agree with ordinary ones',
        'A plan given in a high-precision number type is computed in that '
        'type throughout: every recorded value and time of every person, '
        'account and stage is of that type (never silently a float), and '
        'the forecast is that of the same plan in ordinary numbers, up to '
        'rounding. So are the answers of accounts which are asked something '
        'directly, with times given in ordinary numbers.',
        ['inputs', 'histories'],
        'every plan, forecast in both number types, over all years; every '
        'household in a high-precision number type',
        'Tests convert single values; mixing shows up only where a code '
        'path reaches a plain float constant.',
        ['forecaster/utility/precision.py', 'forecaster/utility/timing.py',
         'forecaster/accounts', 'forecaster/forecast', 'forecaster/tax.py',
         'forecaster/canada'],
        [('conversion', 'forecaster/utility/precision.py: '
          'HighPrecisionHandler')],
        {'forecast': 1200, 'household': 4000}, thorough=40, **both()),
    entry(
        'P28', 'Investments earn what their allocation and scenario say',
        'Each year the shares of stocks, bonds and other assets follow the '
        'chosen strategy (at the owner\'s age and retirement age that '
        'year), add up to one, and keep equity between its minimum and '
        'maximum, with the rest shared in the strategy\'s proportions. An '
        'account invested so earns exactly the sum of those shares of that '
        'year\'s returns in the scenario, and keeps reporting it for past '
        'years.',
        ['histories', 'inputs', 'schedules'],
        'every allocation, age, retirement age and form of scenario, '
        'through every order of reading, stepping and changing a household',
        'Rates are computed lazily, through the owner, the strategy and the '
        'scenario, at whatever moment something first asks; tests ask '
        'once for a few ages.',
        ['forecaster/strategy/allocation.py', 'forecaster/scenario.py',
         'forecaster/accounts/base.py'],
        [('rate read through the owner, strategy and scenario',
          'forecaster/strategy/allocation.py: RateFunction'),
         ('memoised by year', 'forecaster/ledger/recorded_property.py')],
        {'household': 6000, 'forecast': 600}, **both()),
    entry(
        'P29', 'Inflation carries amounts between years the same way always',
        'The factor between two years is the product of the yearly rates '
        'between them (and its inverse backwards), in whatever form the '
        'scenario\'s rates are given, whichever scenario it is switched to, '
        'and whatever was asked before; a function made of a table of '
        'factors gives their ratio, from the earliest year unless told '
        'otherwise, however the table is ordered. Amounts, lists and tables of amounts, '
        'tax brackets and deductions are carried from the latest known year '
        '(or else the earliest one after) by exactly that factor, and what '
        'they were carried from is left as it was.',
        ['histories', 'inputs', 'faults'],
        'every path of inflation, pair of years, known years and order of '
        'questions',
        'Schedules are extended lazily and remembered, so an answer may '
        'depend on what was asked before; tests ask in one order.',
        ['forecaster/scenario.py', 'forecaster/utility/inflation.py',
         'forecaster/tax.py'],
        [('accumulation', 'forecaster/scenario.py: '
          'Scenario.accumulation_function'),
         ('extension of known years', 'forecaster/utility/inflation.py: '
          'extend_inflation_adjusted')],
        {'taxes': 6000}, **taxed()),
    entry(
        'P30', 'Accounts know when they will reach a balance',
        'The time at which an account or debt says it will reach a balance, '
        'from some time on, is the first one from then on at which growth at '
        'this year\'s rate and compounding frequency, and the transactions '
        'made so far, take it to (or past) that balance; it is never if they '
        'do not. Asking changes nothing.',
        ['histories', 'inputs', 'faults'],
        'every balance, starting time, rate, frequency and history of '
        'transactions made, changed and removed',
        'Transfers are timed by it; tests ask none of it of accounts with '
        'transactions.',
        ['forecaster/accounts/base.py', 'forecaster/accounts/util.py'],
        [('walks from transaction to transaction',
          'forecaster/accounts/base.py: Account.time_to_balance'),
         ('inverse of growth', 'forecaster/accounts/util.py: '
          'accumulation_function_inverse')],
        {'household': 6000}, **household()),
    entry(
        'P32', 'Marriages and ownership stay mutual; refusals change nothing',
        'Whoever is someone\'s spouse has that person for a spouse and no '
        'other, and an account is among its owner\'s accounts and nobody '
        'else\'s, whatever marriages, separations and changes of owner there '
        'have been; income, deductions and credits of an account count for '
        'its present owner. An assignment which is refused with an error (an '
        'owner or spouse who is no Person, a retirement before birth, an '
        'impossible timing, frequency or transaction time) leaves everything '
        'as it was.',
        ['histories', 'inputs'],
        'every order of marriages, separations, changes of owner, accounts '
        'opened, refused assignments, transactions and years',
        'Tests make one assignment on fresh objects and look at one side of '
        'it.',
        ['forecaster/person.py', 'forecaster/accounts/base.py',
         'forecaster/accounts/link.py'],
        [('one-to-one spouses', 'forecaster/person.py: Person.spouse'),
         ('owners\' accounts', 'forecaster/accounts/base.py: Account.owner'),
         ('checks before changes', 'forecaster/person.py: '
          'Person.retirement_date, Person.tax_treatment')],
        {'household': 6000}, **household()),
    entry(
        'P31', 'Schedules share out the whole, when the money is there',
        'A schedule made of a time, a frequency or weights has its times '
        'within the year, in those proportions, and an amount spread over it '
        '(or over some of its times) adds up to exactly that amount. A '
        'schedule made of a year\'s flows takes out a surplus as early as '
        'can be, whole, without cash ever falling lower than it did, or '
        'makes up a shortfall with no more than is needed at each time to '
        'keep cash from falling below nothing. Making and using schedules '
        'leaves what they were made of as it was, and impossible times and '
        'frequencies are refused.',
        ['inputs', 'schedules', 'histories'],
        'every series of flows within a year, every form of schedule',
        'Tests sample a handful of schedules of two or three flows.',
        ['forecaster/utility/timing.py'],
        [('schedules from flows', 'forecaster/utility/timing.py: '
          '_accum_inflows, _accum_outflows'),
         ('spreading', 'forecaster/utility/timing.py: Timing.time_series')],
        {'schedules': 9000}, **boxed()),
    entry(
        'P33', 'A forecaster uses its settings, except where told otherwise',
        'Whatever a forecaster builds - a scenario, a strategy, a tax '
        'treatment or a forecast - is made of the values given outright '
        '(by name or by position), and for the rest of what its settings '
        'say at that moment, through the kinds and builders of parts that '
        'it is told to use; inflation is that of the scenario in use. A '
        'part which is handed over or set stays in use, as it is, until it '
        'is taken back, whatever happens to the settings. Building, asking '
        'and forecasting change neither the forecaster nor its settings, '
        'even if they are refused or interrupted; values which no part can '
        'be made of are refused, and are no obstacle once replaced.',
        ['histories', 'fault_sequences', 'crash_points', 'inputs'],
        'every sequence of changes of settings and parts, builds, failures '
        'and interrupts, for two forecasters which may share settings',
        'Each test builds one part from one set of settings.',
        ['forecaster/forecaster.py', 'forecaster/canada/forecaster.py',
         'forecaster/settings.py', 'forecaster/canada/settings.py',
         'forecaster/scenario.py'],
        [('building from defaults', 'forecaster/forecaster.py: '
          'Forecaster.build_param, _get_attr_recursive'),
         ('parts in use', 'forecaster/forecaster.py: Forecaster.get_param, '
          'set_param, run_forecast')],
        {'planner': 1800}, thorough=25, **forecast(
            rule=RULE_L, state_measure='distinct (kind of step, parts '
            'in use by each forecaster, numbers of other kinds and builders, '
            'whether settings are shared)',
            real=REAL_F + ['Settings', 'SettingsCanada', 'ForecasterCanada',
                           'AllocationStrategy'],
            stub=['the user: seeded sequences of changes and requests',
                  'object hashes and set order: seeded',
                  'wall clock: simulated', 'asynchronous interrupts: raised '
                  'at a chosen executed line'])),
]





NOT_APPLICABLE = [
]


def config_of(item):
    config = {k: item[k] for k in (
        'rule', 'state_measure', 'real', 'stub', 'assumptions')}
    config['level'] = item.get('level', 'exploration')
    config['cap'] = item.get('cap', {'quick': 420, 'thorough': 850})
    config['probes'] = item.get('probes', ())
    factor = item.get('thorough', 12)
    config['worlds'] = {
        'quick': {w: n * item.get('quick', 2)
                  for w, n in item['worlds'].items()},
        'thorough': {w: n * factor for w, n in item['worlds'].items()}}
    return config


PROPERTIES = {item['id']: config_of(item) for item in CATALOG}


def _property_line(pid, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    return {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {
            'files': files, 'mechanism': [
                {'name': n, 'where': w} for n, w in mechanism],
            'hook_needed': None}}


LEVEL_NOTE = (
    'Seeded search, not exhaustive: holds on every run explored; bounds and '
    'counts are in the evidence file.')


def write(folder):
    with open(os.path.join(folder, 'properties.jsonl'), 'w') as file:
        for item in CATALOG:
            file.write(json.dumps(_property_line(
                item['id'], item['title'], item['statement'], item['over'],
                item['text'], item['why'], item['files'],
                item['mechanism'])) + '\n')
        for row in NOT_APPLICABLE:
            file.write(json.dumps(_property_line(*row[:8])) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': './check setup',
        'checks': [{
            'property': item['id'],
            'quick_cmd': './check %s quick' % item['id'],
            'thorough_cmd': './check %s thorough' % item['id'],
            'evidence_file': 'evidence/%s.json' % item['id'],
            'technique': item.get('technique', TECHNIQUE),
            'level': item.get('level', 'exploration'),
            'level_note': item.get('level_note', LEVEL_NOTE),
        } for item in CATALOG],
        'not_applicable': [
            {'property': row[0], 'reason': row[8]}
            for row in NOT_APPLICABLE],
        'notes': 'Replay a violation with ./check replay FILE; prove '
                 'determinism with ./check selftest. No hooks are needed '
                 'in /repo: every seam is installed from /verif/dst/seams.py '
                 'at run time.',
    }
    with open(os.path.join(folder, 'MANIFEST.json'), 'w') as file:
        json.dump(manifest, file, indent=1)
        file.write('\n')


if __name__ == '__main__':
    write(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
