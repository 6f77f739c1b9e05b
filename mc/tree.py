"""Mirror of /repo's working tree as importable Python 3, in a scratch directory.

The project is Python 2 code; like the project's own build it is translated
with lib2to3, all fixers.  The mirror is made anew by every check from the
files of /repo as they are, and removed when the check ends.
"""

import atexit
import logging
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("MC_REPO", "/repo")
PARTS = ("mtoolkit", "nrml")


def _tool():
    warnings.simplefilter("ignore")
    from lib2to3 import refactor
    logging.getLogger("RefactoringTool").setLevel(logging.CRITICAL)
    logging.getLogger("lib2to3.main").setLevel(logging.CRITICAL)
    fixers = refactor.get_fixers_from_package("lib2to3.fixes")
    with_stmt = refactor.RefactoringTool(fixers)
    function = refactor.RefactoringTool(
        [f for f in fixers if not f.endswith(".fix_print")],
        {"print_function": True})
    return with_stmt, function


def _translate(tools, src, dst):
    with open(src, "rb") as f:
        text = f.read().decode("utf-8")
    if not text.endswith("\n"):
        text += "\n"
    try:
        out = str(tools[0].refactor_string(text, src))
    except Exception as first:
        try:
            out = str(tools[1].refactor_string(text, src))
        except Exception:
            raise first
    with open(dst, "wb") as f:
        f.write(out.encode("utf-8"))


def _files(root):
    jobs = []
    for part in PARTS:
        for path, dirs, files in os.walk(os.path.join(REPO, part)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            out = os.path.join(root, os.path.relpath(path, REPO))
            os.makedirs(out, exist_ok=True)
            for name in sorted(files):
                jobs.append((os.path.join(path, name),
                             os.path.join(out, name)))
    jobs.append((os.path.join(REPO, "main.py"), os.path.join(root, "main.py")))
    return jobs


def build(workers=8):
    """Translate /repo into a fresh scratch tree; returns its path."""
    scratch = tempfile.mkdtemp(prefix="mc-tree-")
    owner = os.getpid()
    atexit.register(
        lambda: os.getpid() == owner and shutil.rmtree(scratch, True))
    root = os.path.join(scratch, "py3")
    os.makedirs(root)
    python = []
    for src, dst in _files(root):
        if src.endswith(".py"):
            python.append((os.path.getsize(src), src, dst))
        elif os.path.isfile(src) and not src.endswith(".pyc"):
            shutil.copyfile(src, dst)
    python.sort(reverse=True)
    tools = _tool()
    pids = []
    for k in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                # snake order keeps the shares alike
                for i, (_, src, dst) in enumerate(python):
                    turn, pos = divmod(i, workers)
                    if (pos if turn % 2 == 0 else workers - 1 - pos) == k:
                        _translate(tools, src, dst)
                code = 0
            except BaseException as error:
                sys.stderr.write("translation failed: %s: %s\n" % (src, error))
            finally:
                os._exit(code)
        pids.append(pid)
    bad = 0
    for pid in pids:
        bad |= os.waitpid(pid, 0)[1]
    if bad:
        sys.stderr.write("the working tree of %s does not build\n" % REPO)
        sys.exit(2)
    return root
