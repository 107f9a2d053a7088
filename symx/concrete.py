"""Child process: executes harness bodies on doubles against the unmodified
modules of the repository.  One JSON job per input line, one JSON verdict per
output line; every job runs in its own forked process and scratch directory."""
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def run_job(line, timeout=120):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        d = tempfile.mkdtemp(prefix="symx")
        try:
            import signal
            signal.alarm(timeout)
            os.chdir(d)
            sys.dont_write_bytecode = True
            from symx import harness
            out = json.dumps(harness.run_concrete(json.loads(line)))
        except BaseException as e:  # noqa
            out = json.dumps({"status": "error", "exception": repr(e)})
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        with os.fdopen(w, "w") as f:
            f.write(out)
            f.flush()
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out = f.read()
    os.waitpid(pid, 0)
    return out or json.dumps({"status": "error", "exception": "child died"})


def main():
    sys.dont_write_bytecode = True
    import numpy  # noqa  (preload before forking)
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        proto.write(run_job(line).replace("\n", " ") + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
