import importlib
import os
import sys

from mc import core


def main():
    property_id = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    replay_path = os.path.abspath(sys.argv[3]) if mode == 'replay' else None
    try:
        sys.path.insert(0, core.VERIF)
        from mc import sched
        sched.install()
        core.setup_repo()
        module = importlib.import_module('mc.checks.' + property_id.lower())
    except Exception as exc:  # pylint: disable=broad-except
        # the public API the check is bound to is gone or broken: the code cannot be used
        message = 'the code cannot be loaded\n' + core.describe_exception(exc)
        os.makedirs(os.path.join(core.VERIF, 'replays'), exist_ok=True)
        path = os.path.join(core.VERIF, 'replays', '%s-load.txt' % property_id)
        with open(path, 'w') as fp:
            fp.write(message)
        print(message)
        print('VIOLATION property=%s replay=%s' % (property_id, path))
        return 1
    if replay_path:
        return core.replay(module, replay_path)
    return core.main(module, mode)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
