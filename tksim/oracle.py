"""Compiles templates in pristine processes: python -m tksim.oracle REPO

Reads lists of items (compilelib), one per line, and answers with the list of
their results.  Each item is compiled in a process of its own, forked from this
one, which has compiled nothing yet.
"""
import json
import os
import sys


def main():
    repo = sys.argv[1]
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != repo]
    sys.path.insert(0, repo)
    sys.modules["tonnikala.runtime._buffer"] = None     # the Python buffer
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    import tonnikala.loader
    import tonnikala.runtime.debug  # noqa
    import slimit.minifier  # noqa
    from tksim import compilelib

    assert os.path.abspath(tonnikala.__file__).startswith(repo), tonnikala.__file__
    out.write("ready\n")
    for line in sys.stdin:
        answers = []
        for item in json.loads(line):
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                code = 1
                try:
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
                    v = json.dumps(compilelib.result(item, compilelib.Loaders())).encode()
                    with os.fdopen(w, "wb") as f:
                        f.write(v)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            answers.append(json.loads(data) if st == 0 else ["dead", st])
        out.write(json.dumps(answers) + "\n")


if __name__ == "__main__":
    main()
