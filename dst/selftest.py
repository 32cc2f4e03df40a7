"""Proves that one seed is one exactly repeatable execution.

    ./check selftest [RUNS] [PROP ...]

Runs the same seeds several times - in this process, in one which hashes
strings differently, with another number of workers and in chunks of
another size (so that each run follows different earlier runs in its
process) - and compares what was logged, event by event.
"""
import json
import os
import subprocess
import sys

from dst import runner, seams
from dst.catalog import PROPERTIES

VARIANTS = [
    # (name, PYTHONHASHSEED, workers, runs per process)
    ('reference', '0', 8, 10),
    ('again', '0', 8, 10),
    ('other hash seed, one worker', '4242', 1, 10),
    ('other chunks', '7', 3, 3)]


def collect(prop, runs, workers, chunk):
    """ {world: {run number: (digest, log)}} """
    seams.install()
    out = {}
    for world in PROPERTIES[prop]['worlds']['quick']:
        runner.get_world(world)
        tasks = [
            (prop, world, 'quick', 1, first, min(chunk, runs - first), True)
            for first in range(0, runs, chunk)]
        seen = out[world] = {}
        for _, (status, result) in runner.fork_map(
                runner.run_chunk, tasks, workers):
            if status != 'ok':
                raise runner.HarnessError(result)
            if result['failure']:
                raise runner.HarnessError(str(result['failure']))
            for index, digest, log in result['digests']:
                seen[index] = (digest, log)
    return out


def main(args):
    if args and args[0] == '--child':
        prop, runs, workers, chunk = args[1], *map(int, args[2:5])
        json.dump(collect(prop, runs, workers, chunk), sys.stdout)
        return 0
    runs = int(args[0]) if args and args[0].isdigit() else 30
    props = [a for a in args if a in PROPERTIES] or list(PROPERTIES)
    bad = compared = 0
    for prop in props:
        reference = None
        for name, hashseed, workers, chunk in VARIANTS:
            env = dict(os.environ, PYTHONHASHSEED=hashseed)
            done = subprocess.run(
                [sys.executable, '-W', 'ignore', '-m', 'dst', 'selftest',
                 '--child', prop, str(runs), str(workers), str(chunk)],
                env=env, stdout=subprocess.PIPE, check=False)
            if done.returncode:
                print('%s: %s: exit %d' % (prop, name, done.returncode))
                return 2
            result = json.loads(done.stdout)
            if reference is None:
                reference = result
                continue
            for world, seen in reference.items():
                for index, (digest, log) in seen.items():
                    other, other_log = result[world][index]
                    compared += 1
                    if digest == other:
                        continue
                    bad += 1
                    first = next(
                        (pair for pair in zip(log, other_log)
                         if pair[0] != pair[1]), (len(log), len(other_log)))
                    print('DIFFERS: %s %s run %s (%s): %s' % (
                        prop, world, index, name, first))
        print('%s: %s' % (prop, 'repeatable' if not bad else 'DIFFERS'),
              flush=True)
    print('%d executions compared, %d differ' % (compared, bad))
    return 1 if bad else 0
