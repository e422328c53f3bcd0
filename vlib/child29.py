"""Helper process of C29: performs pickled calls and prints the pickled outcomes."""
import pickle
import sys


def main():
    todo = pickle.loads(sys.stdin.buffer.read())
    from vlib import deps
    deps.ensure()
    import run_check
    run_check.load_target()
    from vlib.props import c29
    out = c29.isolated(todo)
    sys.stdout.buffer.write(b'RESULT' + pickle.dumps(out))
    sys.stdout.flush()


if __name__ == '__main__':
    main()
