"""Command line: python -m dst check P01 quick | replay FILE | selftest ..."""
import sys

from dst import runner
from dst.catalog import PROPERTIES


def main(argv):
    if argv[0] == 'check':
        tier = argv[2] if len(argv) > 2 else 'quick'
        return runner.check(argv[1], tier, PROPERTIES[argv[1]])
    if argv[0] == 'replay':
        return runner.replay(argv[1])
    if argv[0] == 'selftest':
        from dst import selftest
        return selftest.main(argv[1:])
    if argv[0] == 'record':
        from dst.worlds.forecast_checks import record_elsewhere
        runner.seams.install()
        record_elsewhere(sys.stdin.buffer, sys.stdout.buffer)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
