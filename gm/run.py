"""Usage: python -m gm.run C01 | --worker ... | --meta C01 |
--case C01 tier seed scenario index | --replay C01 file | --selftest"""
import sys

from gm import core


def main(argv):
    if argv[0] == '--worker':
        core.worker(argv[1:])
        return 0
    if argv[0] == '--meta':
        core.print_meta(argv[1])
        return 0
    if argv[0] == '--case':
        return core.one_case(argv[1:])
    if argv[0] == '--replay':
        return core.replay(argv[1], argv[2])
    if argv[0] == '--selftest':
        return core.selftest()
    return core.run(argv[0])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
