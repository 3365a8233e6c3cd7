import importlib
import os
import sys
import traceback


def main():
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from . import engine
    sys.path.insert(0, engine.REPO)
    try:
        mod = importlib.import_module('mc.props.' + pid.lower())
    except BaseException:  # the code under test does not even import
        path = os.path.join(engine.ROOT, 'replays', pid + '-import.txt')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(traceback.format_exc())
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if mode == 'replay':
        return engine.replay(mod, sys.argv[3])
    return engine.main(mod, mode)


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
