"""Builds a runnable tree from /repo's *current working tree*.

/repo is Python 2 source; it is translated with lib2to3 exactly as the
project's own build does (same fixers), but into a private directory, so the
checks never depend on (or disturb) what /opt/vp/build.sh left behind.
Translations are cached by content hash; the cache is only an accelerator.
"""

import compileall
import hashlib
import logging
import os
import shutil
import sys
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     ".cache", "translate")
WANTED = ("mtoolkit", "nrml")
_TOOLS = {}


class TreeError(Exception):
    pass


def _tools():
    if not _TOOLS:
        warnings.simplefilter("ignore")
        logging.getLogger("RefactoringTool").setLevel(logging.CRITICAL)
        from lib2to3 import refactor
        fixers = refactor.get_fixers_from_package("lib2to3.fixes")
        _TOOLS["a"] = refactor.RefactoringTool(fixers)
        _TOOLS["b"] = refactor.RefactoringTool(
            [f for f in fixers if not f.endswith(".fix_print")],
            {"print_function": True})
    return _TOOLS


def translate(source, name):
    text = source.decode("utf-8")
    if not text.endswith("\n"):
        text += "\n"
    tools = _tools()
    try:
        return str(tools["a"].refactor_string(text, name)).encode("utf-8")
    except Exception as first:
        try:
            return str(tools["b"].refactor_string(text, name)).encode("utf-8")
        except Exception:
            raise TreeError("%s cannot be parsed: %s" % (name, first))


def _translated(source, name):
    key = hashlib.sha256(source).hexdigest()
    path = os.path.join(CACHE, key)
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        pass
    result = translate(source, name)
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d" % (path, os.getpid())
        with open(tmp, "wb") as f:
            f.write(result)
        os.replace(tmp, path)
    except OSError:
        pass
    return result


def sources(repo=REPO):
    out = []
    for top in WANTED:
        for path, dirs, files in os.walk(os.path.join(repo, top)):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for name in sorted(files):
                if not name.endswith(".pyc"):
                    out.append(os.path.relpath(os.path.join(path, name), repo))
    out.append("main.py")
    return out


def build(dest, repo=REPO):
    """Translate the tool into dest; returns a digest of the sources."""
    h = hashlib.sha256()
    for rel in sources(repo):
        src = os.path.join(repo, rel)
        dst = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(src, "rb") as f:
            data = f.read()
        h.update(rel.encode() + b"\0" + data + b"\0")
        if rel.endswith(".py"):
            data = _translated(data, src)
        with open(dst, "wb") as f:
            f.write(data)
    compileall.compile_dir(dest, quiet=2, force=True)
    return h.hexdigest()[:16]


if __name__ == "__main__":
    print(build(sys.argv[1]))
