"""Runs a property's check: seeded search, minimisation, replay, evidence."""
import copy
import hashlib
import importlib
import json
import math
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

from dst import core, seams
from dst.build import settle_dates
from dst.core import (
    SIM, ClientFault, Interrupt, PowerLoss, RunTimeout, Violation,
    blame_code, describe)

VERIF = core.VERIF
RUN_WALL = 40          # seconds before a run is re-judged by step count
STEP_BUDGET = 60_000_000   # lines executed in the code under test
CHUNK = 20             # runs per process
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')


class HarnessError(Exception):
    """ The check itself failed; says nothing about the property. """


# --- one run ------------------------------------------------------------
def seed_for(base_seed, prop, world, index):
    text = '%s/%s/%s/%s' % (base_seed, prop, world, index)
    return int(hashlib.sha256(text.encode()).hexdigest()[:12], 16)


def get_world(name):
    return importlib.import_module('dst.worlds.' + name)


class RoundNumbers(random.Random):
    """ Picks the round numbers people like, so that some coincide. """

    def uniform(self, a, b):
        step = 10.0 ** math.floor(math.log10(max(b - a, 1e-6)))
        if step > 0.2 * (b - a):
            step /= 2 if step < 0.5 * (b - a) else 5
        value = round(round(super().uniform(a, b) / step) * step, 9)
        return float(min(max(value, a), b))


def make_plan(prop, world, seed, tier):
    rng = random.Random('plan-%s' % seed)
    if rng.random() < 0.12:
        rng = RoundNumbers('round-%s' % seed)
    # A few are larger than the rest.
    size = random.Random('size-%s' % seed).random()
    if size < 0.01:
        tier = 'vast'
    elif size < 0.06:
        tier = 'thorough'
    plan = get_world(world).generate(rng, prop, tier)
    plan['world'] = world
    plan['seed'] = seed
    # The plan is data: what a replay file holds is exactly what runs.
    return json.loads(json.dumps(plan))


def run_plan(plan, prop):
    """ Executes one plan.

    Returns:
        None if the property held, else {'kind', 'message'}.
    """
    SIM.reset(plan['seed'])
    seams.Clock.offset_days = 0
    seams.Clock.reads = 0
    world = get_world(plan['world'])
    try:
        plan = copy.deepcopy(plan)
        settle_dates(plan)
        world.execute(plan, prop)
    except Violation as exc:
        return {'kind': exc.kind, 'message': exc.message}
    except (RunTimeout, KeyboardInterrupt):
        raise
    except (ClientFault, Interrupt):
        # An injected fault which got past the harness: the code asked the
        # client something where no harness call expected it. It decides
        # nothing; the rest of the run is given up (and counted).
        SIM.probe('given_up')
        return None
    except (Exception, Interrupt, PowerLoss) as exc:
        # pylint: disable=broad-except
        if blame_code(exc):
            return {
                'kind': 'exception:%s:%s' % (
                    type(exc).__name__, core.where(exc)),
                'message': 'unexpected ' + describe(exc)}
        if isinstance(exc, (TypeError, AttributeError)) and (
                'NoneType' in str(exc)):
            # The code gave nothing where it gives something otherwise.
            return {'kind': 'nothing', 'message': describe(exc)}
        raise HarnessError(traceback.format_exc()) from exc
    return None


def _alarm(*_):
    raise RunTimeout()


def run_plan_bounded(plan, prop, wall=RUN_WALL):
    """ run_plan under a wall limit; {'kind': 'timeout'} if it is hit. """
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        return run_plan(plan, prop)
    except RunTimeout:
        return {'kind': 'timeout', 'message': 'wall limit'}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_plan_steps(plan, prop):
    """ run_plan with a deterministic bound on steps (liveness). """
    left = [STEP_BUDGET]
    prefix = core.REPO + os.sep

    def tracer(frame, event, _arg):
        if not frame.f_code.co_filename.startswith(prefix):
            return None
        left[0] -= 1
        if left[0] < 0:
            raise RunTimeout()
        return tracer
    sys.settrace(tracer)
    try:
        return run_plan(plan, prop)
    except RunTimeout:
        return {
            'kind': 'no-progress',
            'message': 'run did not finish within %d steps' % STEP_BUDGET}
    finally:
        sys.settrace(None)


# --- processes ------------------------------------------------------------
def _child(write_fd, func, args):
    code = 0
    try:
        result = ('ok', func(*args))
    except HarnessError as exc:
        result = ('harness', str(exc))
    except BaseException:  # pylint: disable=broad-except
        result = ('harness', traceback.format_exc())
    try:
        with os.fdopen(write_fd, 'wb') as out:
            pickle.dump(result, out)
    except BaseException:  # pylint: disable=broad-except
        code = 9
    finally:
        os._exit(code)


def fork_map(func, tasks, workers, deadline=None, stop=None):
    """ Runs func(*task) for each task, each in a process of its own.

    Yields (index, ('ok', result) | ('harness', text)) as they finish.
    Tasks not started by `deadline`, or once `stop()` holds, are skipped.
    """
    pending = list(enumerate(tasks))[::-1]
    live = {}
    try:
        while pending or live:
            while pending and len(live) < workers:
                if deadline is not None and time.time() > deadline:
                    pending = []
                    break
                if stop is not None and stop():
                    pending = []
                    break
                index, task = pending.pop()
                read_fd, write_fd = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(read_fd)
                    for other in live:
                        os.close(other)
                    _child(write_fd, func, task)
                os.close(write_fd)
                live[read_fd] = (index, pid, [])
            if not live:
                continue
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    live[fd][2].append(data)
                    continue
                index, pid, parts = live.pop(fd)
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                try:
                    result = pickle.loads(b''.join(parts))
                except Exception:  # pylint: disable=broad-except
                    result = ('harness', 'worker died, status %s' % status)
                yield index, result
    finally:
        for fd, (_, pid, _) in live.items():
            os.close(fd)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)


def in_child(func, *args):
    """ func(*args) in a fresh fork of this (pristine) process. """
    for _, result in fork_map(func, [args], 1):
        if result[0] == 'harness':
            raise HarnessError(result[1])
        return result[1]


def execute_plans(plans, prop, steps=False):
    """ Executes plans in order in this process; verdict of the first to
    fail, with its position. """
    for index, plan in enumerate(plans):
        if steps:
            verdict = run_plan_steps(plan, prop)
        else:
            verdict = run_plan_bounded(plan, prop)
        if verdict is not None:
            verdict['index'] = index
            verdict['digest'] = SIM.digest()
            verdict['trace'] = SIM.log[-400:]
            return verdict
    return None


def run_chunk(prop, world, tier, base_seed, first, count, want_logs=False):
    """ Runs `count` seeds from `first`; stops at a failure. """
    out = {
        'runs': 0, 'failure': None, 'distinct': set(), 'nontrivial': 0,
        'sample': None, 'digests': [], 'checked': 0}
    for index in range(first, first + count):
        seed = seed_for(base_seed, prop, world, index)
        plan = make_plan(prop, world, seed, tier)
        verdict = run_plan_bounded(plan, prop)
        out['runs'] += 1
        out['checked'] += SIM.steps_checked
        digest = SIM.digest()
        if want_logs:
            out['digests'].append((index, digest, list(SIM.log)))
        if SIM.steps_checked > 0 and SIM.log:
            out['distinct'].add(digest)
        if out['sample'] is None and index == first:
            out['sample'] = {
                'world': world, 'seed': seed, 'plan': plan,
                'log_tail': SIM.log[-12:]}
        if verdict is not None:
            out['failure'] = {
                'verdict': verdict, 'index': index, 'first': first}
            break
    out['totals'] = SIM.totals
    out['states'] = SIM.states
    out['sim_years'] = SIM.sim_years
    return out


# --- minimisation -----------------------------------------------------------
def same_class(verdict, kind):
    return verdict is not None and verdict['kind'] == kind


def _ddmin(items, test, budget):
    """ Smallest sublist (by chunk removal) for which test holds. """
    size = max(1, len(items) // 2)
    while items and budget():
        reduced = False
        start = 0
        while start < len(items) and budget():
            candidate = items[:start] + items[start + size:]
            if test(candidate):
                items = candidate
                reduced = True
            else:
                start += size
        if size == 1 and not reduced:
            break
        size = max(1, size // 2) if not reduced or size > 1 else 1
    return items


def _paths(node, path=()):
    """ Paths of the leaves of a JSON value, deepest last. """
    if isinstance(node, dict):
        for key in sorted(node):
            yield path + (key,), node[key]
            yield from _paths(node[key], path + (key,))
    elif isinstance(node, list):
        for index, val in enumerate(node):
            yield path + (index,), val
            yield from _paths(val, path + (index,))


def _set_path(plan, path, val):
    plan = copy.deepcopy(plan)
    node = plan
    for key in path[:-1]:
        node = node[key]
    node[path[-1]] = val
    return plan


def _get_path(plan, path):
    node = plan
    for key in path:
        node = node[key]
    return node


def minimise(plans, prop, kind, steps, seconds):
    """ Shrinks a failing list of plans, keeping the violation's class. """
    end = time.time() + seconds

    def budget():
        return time.time() < end

    def fails(candidate):
        try:
            return same_class(
                in_child(execute_plans, candidate, prop, steps), kind)
        except HarnessError:
            return False
    # 1. Only the failing run, if it needs no predecessors.
    if len(plans) > 1 and fails(plans[-1:]):
        plans = plans[-1:]
    elif len(plans) > 1:
        last = plans[-1]
        plans = _ddmin(
            plans[:-1], lambda c: fails(c + [last]), budget) + [last]
    if kind in ('timeout', 'no-progress'):
        return plans
    # 2. Each run's lists (operations, faults, accounts...) and values.
    for number in range(len(plans) - 1, -1, -1):
        world = get_world(plans[number]['world'])

        def with_plan(plan, number=number):
            return plans[:number] + [plan] + plans[number + 1:]
        for _ in range(3):
            before = json.dumps(plans[number], sort_keys=True)
            for name in getattr(world, 'SHRINK_LISTS', ['ops']):
                path = tuple(name.split('.'))
                try:
                    items = _get_path(plans[number], path)
                except (KeyError, TypeError):
                    continue
                if not isinstance(items, list):
                    continue
                best = _ddmin(
                    items, lambda c, p=path: fails(
                        with_plan(_set_path(plans[number], p, c))), budget)
                plans[number] = _set_path(plans[number], path, best)
            # Simplify values
            keep = getattr(world, 'SHRINK_KEEP', set()) | {'world', 'seed'}
            for path, val in list(_paths(plans[number])):
                if not budget():
                    break
                if path[0] in keep:
                    continue
                try:
                    val = _get_path(plans[number], path)
                except (KeyError, IndexError, TypeError):
                    continue
                options = []
                if isinstance(val, bool):
                    options = [False] if val else []
                elif isinstance(val, (int, float)):
                    options = [o for o in (0, 1, 100, round(val))
                               if o != val and abs(o) < max(abs(val), 1)]
                elif isinstance(val, dict) and val:
                    options = [{}] + [
                        {k: v for k, v in val.items() if k != drop}
                        for drop in list(val)[:4]]
                elif isinstance(val, list) and val and isinstance(
                        path[-1], str) and len(path) > 1:
                    options = [[]]
                for option in options:
                    candidate = _set_path(plans[number], path, option)
                    if fails(with_plan(candidate)):
                        plans[number] = candidate
                        break
            if json.dumps(plans[number], sort_keys=True) == before:
                break
    return plans


# --- checks -------------------------------------------------------------------
def load_known():
    try:
        with open(KNOWN_FILE) as file:
            return json.load(file)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def write_replay(prop, tier, plans, verdict, steps):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    body = {
        'property': prop, 'tier': tier, 'steps': steps,
        'kind': verdict['kind'], 'message': verdict['message'],
        'digest': verdict['digest'], 'trace': verdict['trace'],
        'plans': plans}
    text = json.dumps(body, indent=1, sort_keys=True)
    name = '%s-%s.json' % (
        prop, hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, 'w') as file:
        file.write(text)
    return path


def replay(path):
    """ Re-executes a replay file; exit status. """
    with open(path) as file:
        body = json.load(file)
    seams.install()
    for plan in body['plans']:
        get_world(plan['world'])
    verdict = in_child(
        execute_plans, body['plans'], body['property'], body['steps'])
    if verdict is None:
        print('replay: the property held (no violation reproduced)')
        return 0
    for line in verdict['trace']:
        print('  |', line)
    same = (verdict['kind'] == body['kind'] and
            verdict['digest'] == body['digest'])
    print('replay: %s: %s' % (verdict['kind'], verdict['message']))
    print('replay: %s' % (
        'identical to the recorded run' if same
        else 'DIFFERS from the recorded run'))
    print('VIOLATION property=%s replay=%s' % (body['property'], path))
    return 1


def investigate(prop, tier, base_seed, world, failure, seconds):
    """ Turns a failing chunk into a confirmed, minimised replay file. """
    plans = [
        make_plan(prop, world, seed_for(base_seed, prop, world, i), tier)
        for i in range(failure['first'], failure['index'] + 1)]
    verdict = failure['verdict']
    steps = verdict['kind'] == 'timeout'
    if steps:
        for candidate in (plans[-1:], plans):
            verdict = in_child(execute_plans, candidate, prop, True)
            if verdict is not None:
                plans = candidate
                break
        if verdict is None:
            return None  # Merely slow: not a violation.
    else:
        again = in_child(execute_plans, plans, prop)
        if not same_class(again, verdict['kind']):
            raise HarnessError(
                'violation did not reproduce: %s then %s' % (verdict, again))
        verdict = again
    plans = plans[:verdict['index'] + 1]
    plans = minimise(plans, prop, verdict['kind'], steps, seconds)
    final = in_child(execute_plans, plans, prop, steps)
    if final is None:
        raise HarnessError('minimised plan no longer fails: %s' % verdict)
    path = write_replay(prop, tier, plans, final, steps)
    return path, final


def check(prop, tier, config):
    """ Runs the check of a property. Returns its exit status. """
    start = time.time()
    base_seed = int(os.environ.get('VERIF_SEED', '1'))
    print('check property=%s tier=%s VERIF_SEED=%s' % (
        prop, tier, base_seed), flush=True)
    seams.install()
    workers = int(os.environ.get('DST_WORKERS', os.cpu_count() or 1))
    scale = float(os.environ.get('DST_SCALE', '1'))
    cap = config['cap'][tier]
    deadline = start + cap
    tasks, meta = [], []
    per_world = {}
    for world, runs in config['worlds'][tier].items():
        get_world(world)
        runs = max(1, int(runs * scale))
        per_world[world] = {'planned': runs, 'runs': 0}
        for first in range(0, runs, CHUNK):
            count = min(CHUNK, runs - first)
            tasks.append((prop, world, tier, base_seed, first, count))
            meta.append((world, first))
    # Interleave the worlds so that a cap cuts all of them alike.
    order = sorted(range(len(tasks)), key=lambda i: (
        meta[i][1] / max(1, per_world[meta[i][0]]['planned']), meta[i][0]))
    tasks = [tasks[i] for i in order]
    meta = [meta[i] for i in order]
    failures = []
    harness = []
    distinct, states = set(), set()
    totals = {name: {} for name in SIM.totals}
    checked = runs_done = sim_years = 0
    samples = {}
    for number, (status, result) in fork_map(
            run_chunk, tasks, workers, deadline,
            stop=lambda: bool(failures) or bool(harness)):
        if status == 'harness':
            harness.append(result)
            continue
        world = meta[number][0]
        per_world[world]['runs'] += result['runs']
        runs_done += result['runs']
        checked += result['checked']
        sim_years += result['sim_years']
        distinct |= {(world, d) for d in result['distinct']}
        states |= {(world, s) for s in result['states']}
        for name, counter in result['totals'].items():
            for key, val in counter.items():
                totals[name][key] = totals[name].get(key, 0) + val
        samples.setdefault(world, result['sample'])
        if result['failure']:
            failures.append((number, world, result['failure']))
    search_s = time.time() - start
    violations = []
    slow = 0
    # Report the violation found at the lowest run number, so that which
    # one is reported does not depend on how workers were scheduled.
    for number, world, failure in sorted(failures, key=lambda f: f[0])[:3]:
        try:
            found = investigate(
                prop, tier, base_seed, world, failure,
                30 if tier == 'quick' else 120)
        except HarnessError as exc:
            harness.append(str(exc))
            continue
        if found is None:
            slow += 1
            continue
        violations.append(found)
        break
    known = load_known()
    by_id = {f['id']: f for f in known['findings']}
    for finding in sorted(totals['known']):
        entry = by_id.get(finding)
        if entry is None or prop not in entry['property'].split(','):
            harness.append('unlisted finding ' + finding)
            continue
        print('KNOWN-FINDING: property=%s %s (%s; observed %d times)' % (
            prop, entry['what'], finding, totals['known'][finding]))
    wall = time.time() - start
    planned = sum(w['planned'] for w in per_world.values())
    evidence = {
        'property': prop, 'tier': tier, 'seed': base_seed,
        'level': config['level'],
        'coverage': {
            'evaluations': runs_done,
            'distinct_nontrivial': len(distinct),
            'rule': config['rule'],
            'samples': [samples[w] for w in sorted(samples)],
            'oracle_comparisons': checked,
            'runs_by_world': per_world,
            'runs_planned': planned,
            'runs_per_hour': int(runs_done / max(search_s, 1e-9) * 3600),
            'seeds_per_hour': int(runs_done / max(search_s, 1e-9) * 3600),
            'simulated_years': sim_years,
            'faults_injected': totals['faults'],
            'operations': totals['ops'],
            'probes': totals['probes'],
            'known_findings_observed': totals['known'],
            'distinct_states': len(states),
            'state_measure': config['state_measure'],
            'real_components': config['real'],
            'stubbed_components': config['stub'],
            'workers': workers,
        },
        'wall_s': round(wall, 2),
        'violations': [
            {'kind': v[1]['kind'], 'message': v[1]['message'],
             'replay': v[0]} for v in violations],
        'assumptions': config['assumptions'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as file:
        json.dump(evidence, file, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)
    print('runs=%d/%d distinct=%d states=%d comparisons=%d sim_years=%d '
          'faults=%s wall=%.1fs' % (
              runs_done, planned, len(distinct), len(states), checked,
              sim_years, json.dumps(totals['faults'], sort_keys=True), wall))
    if violations:
        path, verdict = violations[0]
        print('%s: %s' % (verdict['kind'], verdict['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if harness:
        print('HARNESS ERROR\n' + harness[0], file=sys.stderr)
        return 2
    if runs_done < max(1, planned // 10):
        print('HARNESS ERROR: only %d of %d runs fit in %ds' % (
            runs_done, planned, cap), file=sys.stderr)
        return 2
    if slow:
        print('note: %d runs were slow but finished' % slow)
    for probe in config.get('probes', ()):
        if not totals['probes'].get(probe):
            print('note: probe %r was never hit' % probe)
    return 0
