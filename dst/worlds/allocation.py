"""World: cash allocated among real accounts, again and again over years.

Real code: TransactionStrategy, TransactionTraversal (networkx real), Person
and all account types.
Simulated: client callables (rates, inflation), which may fail in the middle
of an allocation; interrupts at any executed line; set order and hashes;
whatever else happens to the accounts in between.
"""
from dst.build import Family, gen_account, gen_person, money
from dst.client import Interrupter, gen_interrupt
from dst.core import (
    SIM, Interrupt, freeze, nonzero, require, show)

SHRINK_LISTS = ['steps', 'accounts', 'people']
SHRINK_KEEP = {'mode', 'year'}

TYPES = ['Account', 'RRSP', 'TFSA', 'TaxableAccount', 'Debt', 'Debt', 'Linked',
         'Linked']


KINDS = {
    'Account': ['Account'], 'TaxableAccount': ['Account'],
    'Debt': ['Account'], 'Linked': ['LinkedLimitAccount', 'Account'],
    'RRSP': ['RegisteredAccount', 'LinkedLimitAccount', 'Account'],
    'TFSA': ['RegisteredAccount', 'LinkedLimitAccount', 'Account']}


# --- generation -------------------------------------------------------------
def gen_cash(rng):
    """ Cash on hand (or short) over the year. """
    sign = rng.choice([1, 1, -1])
    size = rng.choice([0.001, 50, 3000, 40000, 40000, 300000])
    times = rng.sample([0, 0.1, 0.25, 0.5, 0.75, 1], rng.randint(1, 4))
    cash = [[when, round(sign * rng.uniform(0, size), 4)]
            for when in sorted(times)]
    if rng.random() < 0.25 and len(cash) > 1:
        pick = rng.randrange(len(cash))
        cash[pick][1] = round(-cash[pick][1] * rng.random(), 4)
    return cash


def gen_tree(rng, names, depth):
    names = list(names)
    if len(names) == 1:
        return names[0]
    if depth == 0:
        kids = names
    else:
        count = rng.randint(1, min(4, len(names)))
        cuts = sorted(rng.sample(range(1, len(names)), count - 1))
        kids = [gen_tree(rng, names[a:b], depth - 1)
                for a, b in zip([0] + cuts, cuts + [len(names)])]
    limits = [None, None]
    if rng.random() < 0.25:
        limits[0] = money(rng, 0, 20000)
    if rng.random() < 0.25:
        limits[1] = money(rng, 0, 20000)
    if rng.random() < 0.5:
        return ['o', kids, limits]
    weights = rng.sample(range(1, max(10, len(kids)) + 1), len(kids))
    return ['w', [[w, k] for w, k in zip(weights, kids)], limits]


def gen_options(rng):
    """ How a tree of priorities is put to use. """
    options = {'raw': rng.random() < 0.5, 'keep': rng.random() < 0.5}
    if rng.random() < 0.2:
        options['total'] = rng.choice([0.3, 0.9, 1.0, 1.5])
    if rng.random() < 0.2:
        options['assign_min'] = False
    return options


def gen_change(rng, have):
    """ What a client changes about a strategy in use. """
    what = rng.choice(['weights', 'weights', 'strategy', 'debts', 'threshold'])
    if what == 'weights':
        keys = sorted(set(have))
        return [what, dict(zip(keys, rng.sample(range(1, 9), len(keys))))]
    return [what, rng.choice({
        'strategy': ['Ordered', 'Weighted'],
        'debts': ['Avalanche', 'Snowball'],
        'threshold': [None, 0, 0.05, 0.1]}[what])]


def untie(debts):
    """ Which of two debts comes first isn't specified where neither is
    dearer, or larger. Don't have any. """
    def rates(spec):
        rate = spec['rate']
        return rate[:] if isinstance(rate, list) else [rate] * 99
    for number, spec in enumerate(debts):
        others = debts[:number]
        while any(a == b for o in others for a, b in zip(
                rates(o), rates(spec))):
            rate = spec['rate']
            spec['rate'] = (
                [round(r + 0.001, 4) for r in rate]
                if isinstance(rate, list) else round(rate + 0.001, 4))
        while any(o['balance'] == spec['balance'] for o in others):
            spec['balance'] = round(spec['balance'] - 100, 2)


def generate(rng, prop, tier):
    deep, vast = tier != 'quick', tier == 'vast'
    years = rng.randint(1, 3 if not deep else 6)
    year = rng.choice([2017, 2018])
    people = [gen_person(rng, 'p%d' % n, year, years, n == 1)
              for n in range(rng.choice([1, 1, 2]))]
    names = [p['id'] for p in people]
    accounts, limits = [], {}
    indebted = rng.random() < 0.15
    for number in range(rng.randint(1, 14 if vast else 8 if deep else 6)):
        kind = rng.choice(TYPES)
        if indebted and rng.random() < 0.7:
            kind = 'Debt'
        spec = gen_account(rng, 'a%d' % number, (
            'Account' if kind == 'Linked' else kind), names, years)
        spec['type'] = kind
        if kind == 'Linked':
            spec['links'] = {}
            token = rng.choice(['x', 'y'])
            who = rng.choice(names)
            if (who, token) not in limits:
                most = {w: money(rng, 0, 20000)
                        for w in ('max_inflow', 'max_outflow')}
                limits[who, token] = {
                    w: most[w] if w in most
                    else round(most[w.replace('min', 'max')] *
                               rng.choice([0, 0.2, 1]), 2)
                    for w in ('max_inflow', 'min_inflow',
                              'max_outflow', 'min_outflow')
                    if rng.random() < 0.6}
            for which, limit in limits[who, token].items():
                spec['links'][which] = [who, token, limit]
        accounts.append(spec)
    have = [a['type'] for a in accounts]
    strategies = []
    for _ in range(rng.randint(1, 2)):
        keys = sorted(set(have))
        weights = dict(zip(keys, rng.sample(range(1, 9), len(keys))))
        for key in keys:
            # Some types go by what they're a kind of (the nearest counts).
            if rng.random() < 0.3:
                weight = weights.pop(key)
                if rng.random() < 0.8:
                    weights[rng.choice(KINDS[key])] = weight
        if rng.random() < 0.3:
            weights[rng.choice(['Account', 'LinkedLimitAccount',
                                'RegisteredAccount'])] = 9
        for key, other in (('Debt', 10), ('TFSA', 11)):
            if key not in have and rng.random() < 0.1:
                weights[key] = other
        strategies.append({
            'strategy': rng.choice(['Ordered', 'Weighted']),
            'weights': weights,
            'debts': rng.choice(['Avalanche', 'Snowball', None]),
            'threshold': rng.choice([None, 0, 0.05, 0.1])})
    untie([a for a in accounts if a['type'] == 'Debt'])
    debts = [a['id'] for a in accounts if a['type'] == 'Debt']
    if debts and rng.random() < 0.3:
        # One is just as dear as that.
        strategies[0]['exact'] = rng.choice(debts)
    ids = [a['id'] for a in accounts]
    trees = []
    if rng.random() < 0.4:
        free = [a['id'] for a in accounts if a['type'] != 'Linked']
        rng.shuffle(free)
        if len(free) > 1:
            trees.append(gen_tree(rng, free, rng.choice([1, 2, 3])))
    steps = []
    faulty = rng.random() < 0.4
    for _ in range(rng.randint(2, 8 if not deep else 20)):
        pick = rng.random()
        if pick < 0.6:
            fault = None
            if faulty and rng.random() < 0.4:
                fault = rng.choice([
                    ['library', rng.choice([1, 2, rng.randint(1, 8)])],
                    ['interrupt', gen_interrupt(rng, 300, 6000)]])
            form = ['strategy', rng.randrange(len(strategies))]
            if trees and rng.random() < 0.6:
                form = ['tree', 0]
            elif 'Debt' in have and rng.random() < 0.15:
                form = ['debts', rng.choice(['Avalanche', 'Snowball'])]
            some = ids if rng.random() < 0.8 else sorted(
                rng.sample(ids, rng.randint(0, len(ids))))
            steps.append(['alloc', form, gen_cash(rng), some,
                          rng.random() < 0.6, fault,
                          gen_options(rng) if form[0] == 'tree' else {}])
        elif pick < 0.85:
            steps.append(['tx', rng.choice(ids), rng.choice([1, 1, -1]) *
                          round(rng.random(), 3),
                          rng.choice([0, 0.25, 0.5, 1])])
        elif pick < 0.92:
            steps.append(['retell', rng.randrange(len(strategies)),
                          gen_change(rng, have), rng.random() < 0.5])
        else:
            steps.append(['year'])
    return {
        'mode': 'f' if rng.random() < 0.85 else 'd', 'year': year,
        'inflation': rng.choice([None, 0.02]), 'people': people,
        'accounts': accounts, 'strategies': strategies, 'trees': trees,
        'steps': steps}


# --- reference --------------------------------------------------------------
def level(total, spec):
    """ Shares in proportion to weights, within [low, high] each.

    `spec` has (weight, low, high) triples; sum of lows <= total <= sum of
    highs.
    """
    low, high = 0.0, 1.0
    while sum(min(max(high * w, a), b) for w, a, b in spec) < total - 1e-9:
        high *= 2
        if high > 1e15:
            break
    for _ in range(200):
        mid = (low + high) / 2
        if sum(min(max(mid * w, a), b) for w, a, b in spec) < total:
            low = mid
        else:
            high = mid
    return [min(max(high * w, a), b) for w, a, b in spec]


class Leaf:
    """ Accounts which the reference doesn't tell apart. """

    def __init__(self, key, least, most):
        self.key, self.least, self.most = key, min(least, most), most

    def give(self, total, result):
        result[self.key] = result.get(self.key, 0.0) + total


class Ordered:
    def __init__(self, kids, limit=None):
        self.kids = kids
        self.most = sum(k.most for k in kids)
        self.least = min(sum(k.least for k in kids), self.most)
        if limit is not None:
            # (A limit below the accounts' own minimums gives way to them.)
            self.most = max(min(self.most, limit), self.least)

    def give(self, total, result):
        if total < sum(k.least for k in self.kids):
            for kid in self.kids:
                part = min(kid.least, total)
                kid.give(part, result)
                total -= part
            return
        for number, kid in enumerate(self.kids):
            later = sum(k.least for k in self.kids[number + 1:])
            part = min(kid.most, total - later)
            kid.give(part, result)
            total -= part


class Weighted:
    def __init__(self, kids, limit=None):
        self.kids = kids
        self.most = sum(k.most for _, k in kids)
        self.least = min(sum(k.least for _, k in kids), self.most)
        if limit is not None:
            self.most = max(min(self.most, limit), self.least)

    def give(self, total, result):
        if total < sum(k.least for _, k in self.kids):
            spec = [(w, 0, k.least) for w, k in self.kids]
        else:
            spec = [(w, k.least, k.most) for w, k in self.kids]
        for (_, kid), part in zip(self.kids, level(total, spec)):
            kid.give(part, result)


class FailingLibrary:
    """ The solver runs out of memory when it is called for the n-th time. """

    def __init__(self, count):
        self.left = count

    def __enter__(self):
        from networkx.algorithms import flow
        self.flow, self.real = flow, flow.max_flow_min_cost

        def solve(*args, **kwargs):
            self.left -= 1
            if self.left == 0:
                SIM.fault('library_fails')
                raise MemoryError()
            return self.real(*args, **kwargs)
        flow.max_flow_min_cost = solve

    def __exit__(self, *_):
        self.flow.max_flow_min_cost = self.real


# --- the world ----------------------------------------------------------------
class World(Family):

    def __init__(self, plan, prop):
        self.prop = prop
        for number, spec in enumerate(plan['accounts']):
            # Equal debts may be repaid in any order.
            more = 0.0001 * (1 + int(spec['id'][1:]))
            rates = spec['rate']
            spec['rate'] = (
                [round(round(r, 3) + more, 4) for r in rates]
                if isinstance(rates, list)
                else round(round(rates, 3) + more, 4))
            for strategy in plan['strategies']:
                if strategy.get('exact') == spec['id']:
                    rates = spec['rate']
                    strategy['threshold'] = (
                        rates[0] if isinstance(rates, list) else rates)
        super().__init__(plan)
        from forecaster.strategy import TransactionStrategy
        self.strategy_class = TransactionStrategy
        self.strategies = [
            self.build_strategy(s) for s in plan['strategies']]
        self.all = dict(self.accounts)
        self.all.update(self.debts)
        self.now = plan['year']
        self.kept = {}      # traversals which clients hold on to
        self.specs = {a['id']: a for a in plan['accounts']}

    def build(self):
        linked = [a for a in self.plan['accounts'] if a['type'] == 'Linked']
        self.plan['accounts'] = [
            a for a in self.plan['accounts'] if a['type'] != 'Linked']
        super().build()
        from forecaster.accounts import LinkedLimitAccount

        class Linked(LinkedLimitAccount):
            """ As a client would define one. """
        for spec in linked:
            if spec['owner'] not in self.people:
                continue
            kwargs = {}
            for which, (who, token, limit) in spec['links'].items():
                if who not in self.people:
                    continue
                if 'outflow' in which:
                    limit = -limit
                kwargs[which + '_link'] = (self.people[who], which + token)
                kwargs[which + '_limit'] = self.num(limit)
            account = Linked(
                self.people[spec['owner']], balance=self.num(spec['balance']),
                rate=self.per_year(spec['id'], spec['rate']),
                nper=spec['nper'], high_precision=self.high, **kwargs)
            account.label = spec['id']
            self.accounts[spec['id']] = account
        self.plan['accounts'] += linked

    def build_strategy(self, spec):
        kwargs = {}
        if spec['debts'] is not None:
            kwargs['debt_strategy'] = spec['debts']
        from forecaster.strategy import TransactionStrategy
        return TransactionStrategy(
            spec['strategy'],
            {k: self.num(v) for k, v in spec['weights'].items()},
            high_interest_threshold=self.num(spec['threshold']),
            high_precision=self.high, **kwargs)

    # --- what is allowed ---
    def groups(self, names, which):
        """ Accounts which share a limit, and those on their own. """
        result = {}
        for name in names:
            link = getattr(self.all[name], which + '_link', None)
            key = (name,)
            if link is not None:
                key = ('link', link.owner.name, link.token)
            result.setdefault(key, []).append(name)
        return result

    def bound(self, names, which, limits):
        """ What all of these accounts together may receive. """
        return sum(
            max(limits[n] for n in group)
            for group in self.groups(names, which).values())

    def limits(self, names, cash, which):
        method = which + 's'
        return {
            name: abs(float(sum(
                getattr(self.all[name], method)(cash).values())))
            for name in names}

    # --- reference tree of a strategy ---
    def reference(self, form, names, least, most, flow):
        """ The reference's tree for this allocation. """
        def leaf(members):
            return Leaf(tuple(sorted(members)),
                        self.bound(members, 'min_' + flow, least),
                        self.bound(members, 'max_' + flow, most))
        if form[0] == 'tree':
            def convert(node):
                if isinstance(node, str):
                    return leaf([node]) if node in names else None
                limit = node[2][0 if flow == 'inflow' else 1]
                if node[0] == 'o':
                    kids = [convert(k) for k in node[1]]
                    kids = [k for k in kids if k]
                    return Ordered(kids, limit) if kids else None
                kids = [(w, convert(k)) for w, k in node[1]]
                kids = [k for k in kids if k[1]]
                return Weighted(kids, limit) if kids else None
            return convert(self.plan['trees'][form[1]])
        if form[0] == 'debts':
            return Ordered([leaf([n]) for n in sorted(
                names, key=lambda n: abs(float(self.debts[n].balance))
                if form[1] == 'Snowball' else -float(self.debts[n].rate))])
        spec = self.plan['strategies'][form[1]]
        debts = [n for n in names if n in self.debts
                 and float(self.debts[n].balance) < 0]
        threshold = spec['threshold']
        high = [] if threshold is None else [
            n for n in debts if float(self.debts[n].rate) >= threshold - 1e-12]
        low = [n for n in debts if n not in high]

        def by_priority(members):
            if spec['debts'] == 'Snowball':
                return sorted(
                    members, key=lambda n: abs(float(self.debts[n].balance)))
            return sorted(members, key=lambda n: -float(self.debts[n].rate))
        grouped = {}
        for name in names:
            if name in self.debts and name not in low:
                continue
            kind = self.specs[name]['type']
            key = None
            bases = [kind]
            if kind in ('RRSP', 'TFSA'):
                bases += ['RegisteredAccount', 'LinkedLimitAccount']
            if kind == 'Linked':
                bases += ['LinkedLimitAccount']
            for base in bases + ['Account']:
                if base in spec['weights']:
                    key = base
                    break
            if key is not None:
                grouped.setdefault(key, []).append(name)
        parts = []
        for key, members in grouped.items():
            if all(n in low for n in members):
                tree = Ordered([leaf([n]) for n in by_priority(members)])
            elif len(self.groups(members, 'max_' + flow)) < len(members) or (
                    len(self.groups(members, 'min_' + flow)) < len(members)):
                # Who gets what of a shared limit isn't specified.
                tree = leaf(members)
                SIM.probe('shared_limit')
            else:
                tree = Weighted([(1, leaf([n])) for n in members])
            parts.append((spec['weights'][key], tree))
        if spec['strategy'] == 'Ordered':
            top = Ordered([t for _, t in sorted(parts, key=lambda p: p[0])])
        else:
            top = Weighted(parts)
        if high:
            SIM.probe('high_interest')
            top = Ordered(
                [leaf([n]) for n in by_priority(high)] + [top])
        return top

    def real_tree(self, node, names, raw=False, top=True):
        """ As clients may give it: in terms of nodes, or of (raw) lists,
        tuples and dicts as far as these will do. """
        from forecaster.strategy.transaction import (
            LimitTuple, TransactionNode)
        if isinstance(node, str):
            return self.all[node] if node in names else None
        low, high = node[2]
        limits = LimitTuple(
            max_inflow=self.num(low),
            max_outflow=self.num(-high if high is not None else None))
        if node[0] == 'o':
            kids = [self.real_tree(k, names, raw, False) for k in node[1]]
            kids = [k for k in kids if k is not None]
            if raw and not top:
                kids = tuple(kids)
        else:
            kids = {}
            for weight, kid in node[1]:
                kid = self.real_tree(kid, names, raw, False)
                if kid is not None:
                    kids[kid if raw else TransactionNode(kid)] = (
                        self.num(weight))
        if not kids:
            return None
        if not raw:
            return TransactionNode(kids, limits)
        if low is None and high is None and (top or node[0] == 'o'):
            return kids
        return TransactionNode(kids, tuple(limits))

    def traversal(self, form, names, options, fresh):
        """ A traversal of a tree; perhaps one in use already. """
        from forecaster.strategy.transaction import TransactionTraversal
        keep = options.get('keep') and not fresh
        if keep and (form[1], tuple(names)) in self.kept:
            SIM.probe('traversal_reused')
            return self.kept[form[1], tuple(names)]
        tree = self.real_tree(
            self.plan['trees'][form[1]], names,
            options.get('raw', False) != fresh)
        if keep and self.kept:
            # The same one, for another purpose.
            traverse = self.kept.pop(sorted(self.kept)[0])
            old = traverse.priority
            if type(old) is type(tree) and isinstance(old, (list, dict)):
                # (Its owner works on the very list it gave.)
                old.clear()
                getattr(old, 'extend' if isinstance(old, list) else 'update')(
                    tree)
                tree = old
                SIM.probe('traversal_edited')
            traverse.priority = tree
            SIM.probe('traversal_repurposed')
        else:
            traverse = TransactionTraversal(tree, high_precision=self.high)
        if keep:
            self.kept[form[1], tuple(names)] = traverse
        return traverse

    def method(self, form, names, fresh=False, options=()):
        """ The allocation method: a function of cash. """
        if form[0] == 'tree':
            options = dict(options)
            traverse = self.traversal(form, names, options, fresh)
            kwargs = {}
            if 'assign_min' in options:
                kwargs['assign_min'] = options['assign_min']
            share = options.get('total')
            return lambda cash: traverse(
                cash, None if share is None else
                sum(cash.values()) * self.num(share), **kwargs)
        if form[0] == 'debts':
            from forecaster.strategy.debt_payment import DebtPaymentStrategy
            strategy = DebtPaymentStrategy(form[1], high_precision=self.high)
            debts = {self.debts[n] for n in names}
            return lambda cash: strategy(debts, cash)
        strategy = self.strategies[form[1]]
        if fresh:
            strategy = self.build_strategy(self.plan['strategies'][form[1]])
        accounts = {self.all[n] for n in names}
        return lambda cash: strategy(cash, accounts)

    # --- steps ---
    def cash(self, pairs):
        return {self.num(w): self.num(v) for w, v in pairs}

    def seen(self):
        """ Everything that an allocation must leave alone. """
        return freeze({
            name: [dict(a.transactions), a.balance, a.rate,
                   getattr(a, 'contribution_room', None)]
            for name, a in self.all.items()})

    def step_alloc(self, form, pairs, names, apply, fault, options):
        names = [n for n in names if n in self.all]
        if form[0] == 'debts':
            names = [n for n in names if n in self.debts]
        if form[0] == 'tree':
            names = [n for n in flatten(self.plan['trees'][form[1]])
                     if n in self.all]
            # One of each group that shares a limit: how a tree splits a
            # limit between its branches isn't specified.
            names = sorted(g[0] for g in self.groups(
                names, 'max_inflow').values())
        if sum(v for _, v in pairs) < 0:
            names = [n for n in names if self.drawable(n)]
        if form[0] == 'tree' and not names:
            return
        cash = self.cash(pairs)
        total = float(sum(cash.values())) * options.get('total', 1)
        before, given = self.seen(), freeze(cash)
        method = self.method(form, names, options=options)
        if fault is not None:
            try:
                if fault[0] == 'library':
                    with FailingLibrary(fault[1]):
                        method(cash)
                else:
                    with Interrupter(fault[1]):
                        method(cash)
            except (MemoryError, Interrupt):
                SIM.op('failed_allocation')
            require(given == freeze(cash) and before == self.seen(),
                    'failed-allocation', 'An allocation which failed changed '
                    'what it was given')
        result = self.named(method(cash))
        require(before == self.seen(), 'allocation-side-effect',
                'Allocating changed an account')
        require(given == freeze(cash), 'allocation-side-effect',
                'Allocating changed the cash it was given')
        SIM.op('allocate')
        SIM.event('alloc', form, pairs, {
            n: round(sum(s.values()), 3) for n, s in result.items()})
        if abs(total) <= 2e-5:
            for name, series in result.items():
                require(not nonzero(series), 'no-cash',
                        '%s gets %s of no cash', name, show(series))
            return
        flow = 'inflow' if total > 0 else 'outflow'
        least = self.limits(names, cash, 'min_' + flow)
        most = self.limits(names, cash, 'max_' + flow)
        if not options.get('assign_min', True):
            least = {n: 0.0 for n in least}
        got = {n: 0.0 for n in names}
        for name, series in result.items():
            require(name in got, 'stranger', '%s is given %s without being '
                    'asked for', name, show(series))
            got[name] = abs(sum(series.values()))
        if self.prop == 'P18':
            self.bounds(form, names, cash, total, flow, result, got, least,
                        most)
        else:
            self.priorities(form, names, total, flow, got, least, most)
            SIM.rehash()
            again = self.named(self.method(
                form, names, fresh=True, options=options)(cash))
            for name in names:
                first = sum(result.get(name, {}).values())
                second = sum(again.get(name, {}).values())
                require(abs(first - second) < tolerance(total), 'order',
                        '%s is given %s, and %s when asked again', name,
                        show(first), show(second))
        SIM.state(form[0], flow, tuple(sorted(
            (self.specs[n]['type'], got[n] > 0.01,
             got[n] >= most[n] - 0.01) for n in names)))
        if apply:
            for name in sorted(result):
                for when, value in result[name].items():
                    self.all[name].add_transaction(
                        self.num(value), self.num(when))
            SIM.op('applied')
            self.lawful(total)

    def named(self, result):
        out = {}
        for account, series in result.items():
            out[account.label] = {
                float(w): float(v) for w, v in series.items()}
        return out

    def bounds(self, form, names, cash, total, flow, result, got, least,
               most):
        """ Signs, limits, minimums and no idle cash. """
        tol = tolerance(total)
        sign = 1 if total > 0 else -1
        whens = {float(w) for w in cash}
        for name, series in result.items():
            for when, value in series.items():
                require(value * sign >= -tol, 'sign', '%s has a flow of %s '
                        'out of cash of %s', name, show(value), show(total))
                require(abs(value) < 1e-9 or any(
                    abs(when - w) < 1e-9 for w in whens), 'timing',
                    '%s has a flow of %s at %s, when there is no cash', name,
                    show(value), when)
            require(got[name] <= max(most[name], least[name]) + tol,
                    'over-limit', '%s is given %s, but only %s may flow',
                    name, show(got[name]), show(most[name]))
        given = sum(got.values())
        minimum = self.bound(names, 'min_' + flow, least)
        tree = self.reference(form, names, least, most, flow)
        need = abs(total)
        if flow == 'outflow':
            need = max(need, tree.least if form[0] == 'tree' else min(
                need + minimum, tree.least))
        require(given <= need + tol, 'over-spent',
                '%s is allocated out of %s', show(given), show(total))
        for key, group in self.groups(names, 'max_' + flow).items():
            if len(group) > 1:
                SIM.probe('linked_group')
                require(sum(got[n] for n in group) <= max(
                    most[n] for n in group) + tol, 'over-group-limit',
                    '%s together are given %s, but %s may flow', group,
                    show(sum(got[n] for n in group)),
                    show(max(most[n] for n in group)))
        require(given >= min(need, tree.most) - tol, 'idle-cash',
                '%s is allocated of %s, though %s may flow', show(given),
                show(total), show(tree.most))
        if need >= tree.least and form[0] != 'tree':
            expected = {}
            tree.give(tree.least, expected)
            for members, part in expected.items():
                require(sum(got[n] for n in members) >= part - tol,
                        'minimum', '%s get %s, less than their minimum of %s',
                        members, show(sum(got[n] for n in members)),
                        show(part))

    def priorities(self, form, names, total, flow, got, least, most):
        """ Exactly the shares which the strategy asks for. """
        tree = self.reference(form, names, least, most, flow)
        need = abs(total)
        if flow == 'outflow':
            need = max(need, tree.least)
        expected = {}
        tree.give(min(need, tree.most), expected)
        tol = tolerance(total)
        for members, part in sorted(expected.items()):
            require(abs(sum(got[n] for n in members) - part) <= tol,
                    'priority', '%s get %s of %s, but %s is their share (%s)',
                    members, show(sum(got[n] for n in members)),
                    show(total), show(part), form)
        SIM.probe('priority:' + (
            form[0] if form[0] != 'strategy'
            else self.plan['strategies'][form[1]]['strategy']))

    def lawful(self, total):
        """ No account is beyond its limits. """
        tol = tolerance(total)
        for name, account in sorted(self.all.items()):
            end = float(account.balance_at_time('end'))
            if name in self.debts:
                require(end <= tol, 'overpaid', '%s ends the year at %s',
                        name, show(end))
            elif name not in self.overdrawn:
                require(end >= -tol, 'overdrawn', '%s ends the year at %s',
                        name, show(end))
        for which, prop in (('max_inflow', 'inflows'),
                            ('max_outflow', 'outflows')):
            for key, group in self.groups(sorted(self.all), which).items():
                if key[0] != 'link':
                    continue
                limit = abs(float(getattr(
                    self.all[group[0]], which + '_limit')))
                moved = abs(sum(
                    float(getattr(self.all[n], prop)()) for n in group))
                require(moved <= limit + tol, 'over-room', '%s together '
                        'moved %s, but their limit is %s', group, show(moved),
                        show(limit))

    overdrawn = ()

    def drawable(self, name):
        """ False for a taxable account which was paid into this year: an
        earlier withdrawal might overdraw it for a while, and there is no
        saying what an overdrawn one's capital gains are. """
        return self.specs[name]['type'] != 'TaxableAccount' or not any(
            v > 0 for v in self.all[name].transactions.values())

    def step_tx(self, name, share, when):
        if name not in self.all:
            return
        account, when = self.all[name], self.num(when)
        one = {when: self.num(1)}
        if share > 0:
            room = sum(account.max_inflows(one).values())
        elif not self.drawable(name):
            return
        else:
            room = sum(account.max_outflows(one).values())
        value = float(room) * abs(share)
        value = round(max(min(value, 30000), -30000) * 0.99, 2)
        if abs(value) < 0.01:
            return
        account.add_transaction(self.num(value), when)
        SIM.op('transaction')

    def step_retell(self, number, change, edit):
        """ A client changes its mind about a strategy in use. """
        if number >= len(self.strategies):
            return
        what, value = change
        strategy = self.strategies[number]
        self.plan['strategies'][number] = dict(
            self.plan['strategies'][number], **{what: value})
        if what == 'weights':
            value = {k: self.num(v) for k, v in value.items()}
            if edit:
                weights = strategy.weights
                weights.clear()
                weights.update(value)
            else:
                strategy.weights = value
        elif what == 'strategy':
            strategy.strategy = value
        elif what == 'debts':
            strategy.debt_strategy = value
        else:
            strategy.high_interest_threshold = self.num(value)
        SIM.op('strategy_changed')

    def step_year(self):
        self.now += 1
        for name in sorted(self.people):
            self.people[name].next_year()
        for name in sorted(self.all):
            while self.all[name].this_year < self.now:
                self.all[name].next_year()
        # (Balances may end within a rounding error of zero.)
        SIM.years(1)
        SIM.op('year')


def flatten(node):
    if isinstance(node, str):
        return [node]
    kids = node[1] if node[0] == 'o' else [k for _, k in node[1]]
    return [name for kid in kids for name in flatten(kid)]


def tolerance(total):
    return 0.005 + 1e-7 * abs(total)


def execute(plan, prop):
    world = World(plan, prop)
    for step in plan['steps']:
        getattr(world, 'step_' + step[0])(*step[1:])
    SIM.event('end', {n: round(float(a.balance), 4)
                      for n, a in sorted(world.all.items())})
