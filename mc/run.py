"""Usage: run.py C01 [--tier quick|thorough] [--workers N] [--replay FILE] [--seconds S]"""
import os, sys, argparse, importlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HYPERTAG_REPO', '/repo')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--workers', type = int)
    ap.add_argument('--seconds', type = float)
    ap.add_argument('--replay')
    args = ap.parse_args()

    # the code under test is imported from the working tree, nothing is cached or written there
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.path.join(REPO, 'src'), ROOT]
    import hypertag
    assert os.path.realpath(hypertag.__file__).startswith(os.path.realpath(REPO)), hypertag.__file__

    from mc import core, ladder
    check = ladder.attach(importlib.import_module('mc.checks.' + args.check.lower()))
    if args.replay: return core.replay(check, args.replay)
    return core.run_check(check, args.tier, args.workers, args.seconds)

if __name__ == '__main__':
    sys.exit(main())
