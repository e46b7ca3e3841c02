"""check.py PROP [--tier quick|thorough] [--family F] [--replay FILE]   (use ./check, which sets the environment)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return core.replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--family' in a: only = a[a.index('--family') + 1].split(',')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return core.run(prop, tier, seed, only)
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
