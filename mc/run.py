"""python -m mc.run <ID> [quick|thorough] [--replay file]"""
import sys, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    tier = 'thorough' if 'thorough' in argv else 'quick'
    from mc import common
    mod = None
    for f in sorted(os.listdir(os.path.join(ROOT, 'mc', 'checks'))):
        m = re.match(r'(.*)\.py$', f)
        if m and m.group(1).split('_')[0].upper() == prop.upper():
            mod = 'mc.checks.' + m.group(1)
    if mod is None:
        print('no check for', prop, file=sys.stderr)
        return 3
    return common.run_check(prop, mod, tier, replay)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
