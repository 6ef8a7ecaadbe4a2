"""Simulated processes of the tool on a World.

run_main() is `python main.py ARGS`: the tool's modules are imported afresh
(all their state is volatile), sys.argv / stdout / stderr / cwd / logging /
random state are those of a new process, main.py is executed as __main__, and
at the end what a real interpreter would do at exit happens (logging shut down,
unreferenced files closed).  run_api() is the same for a function that uses the
tool as a library.
"""

import csv
import gc
import logging
import os
import random
import sys
import time
import types
import warnings

import numpy as np

from . import world as W
from .world import SimCrash, HarnessError

TREE = None
_CODE = {}
_LOG_BASE = None
_PRISTINE = {}
FORCE_BUDGET = None
PKGS = ("mtoolkit", "nrml")


class BudgetExceeded(BaseException):
    """The process used more than its step budget."""


class WallTimeout(BaseException):
    """The harness' own real-time guard (never part of a verdict)."""


class Injected(object):
    """Marker mixin of injected asynchronous exceptions."""


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedFPE(FloatingPointError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


ASYNC = {"FloatingPointError": InjectedFPE, "MemoryError": InjectedMemoryError,
         "KeyboardInterrupt": InjectedInterrupt}


def use_tree(tree):
    """Preloads everything that is not the tool, and names the tool's tree."""
    global TREE, _LOG_BASE
    TREE = os.path.realpath(tree)
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    import scipy.stats.mstats          # noqa
    import lxml.etree                  # noqa
    import shapely.geometry            # noqa
    import yaml, csv, argparse, tempfile, shutil, codecs    # noqa
    import concurrent.futures, threading, xml.etree.ElementTree  # noqa
    sys.path.insert(0, TREE)
    # one import outside any world: pulls in whatever third-party modules a
    # changed tool may use, so that no simulated run pays or logs for them
    try:
        import mtoolkit.workflow, mtoolkit.console, nrml.writer, nrml.reader  # noqa
    except Exception:
        pass
    purge()
    _LOG_BASE = set(logging.Logger.manager.loggerDict)
    _PRISTINE.update(_process_state())
    sys.unraisablehook = lambda *a: None
    gc.collect()
    gc.freeze()


def purge():
    for name in [n for n in sys.modules if n.split(".")[0] in PKGS]:
        del sys.modules[name]


def _process_state():
    """What else belongs to a process and could be altered by the tool."""
    return dict(err=np.geterr(), print=np.get_printoptions(),
                warn=list(warnings.filters), field=csv.field_size_limit(),
                depth=sys.getrecursionlimit(), env=dict(os.environ),
                switch=sys.getswitchinterval())


def _reset_state():
    want, have = _PRISTINE, _process_state()
    if not want or want == have:
        return
    np.seterr(**want["err"])
    np.set_printoptions(**want["print"])
    warnings.filters[:] = want["warn"]
    csv.field_size_limit(want["field"])
    sys.setrecursionlimit(want["depth"])
    sys.setswitchinterval(want["switch"])
    for k in set(want["env"]) | set(have["env"]):
        if k not in want["env"]:
            del os.environ[k]
        elif want["env"][k] != have["env"].get(k):
            os.environ[k] = want["env"][k]
    if want["env"].get("TZ") != have["env"].get("TZ"):
        time.tzset()


def _reset_logging():
    for name, logger in list(logging.Logger.manager.loggerDict.items()):
        if not isinstance(logger, logging.Logger):
            continue
        for h in list(logger.handlers):
            logger.removeHandler(h)
            try:
                h.close()
            except Exception:
                pass
        logger.setLevel(logging.NOTSET)
        logger.propagate = True
        logger.disabled = False
        logger.filters[:] = []
        logger._cache.clear()
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    logging.raiseExceptions = True


class Outcome(object):
    def __init__(self):
        self.status = None          # ok | error | crash | budget
        self.exc = None
        self.msg = None
        self.value = None
        self.lines = 0
        self.sublines = 0
        self.injected = False
        self.args = None
        self.escapes = []
        self.opened_write = []
        self.opened_read = []
        self.touched = []
        self.fired = []
        self.records = []           # (level, message) of log records
        self.stdout = ""
        self.stderr = ""
        self.exc_obj_attrs = None

    def brief(self):
        return [self.status, self.exc, self.msg]


class Records(logging.Handler):
    """Collects log records, from the root of the logger hierarchy."""

    def __init__(self, sink):
        logging.Handler.__init__(self, 0)
        self.sink = sink

    def emit(self, record):
        if record.name == "mt_logger" or record.levelno >= logging.WARNING:
            try:
                text = record.getMessage()
            except Exception:
                text = None
            self.sink.append((record.levelno, text))


class Tracer(object):
    """Counts executed lines of the tool; injects async exceptions, budgets."""

    def __init__(self, budget=None, at=None, exc=None, hook=None, world=None,
                 only=None):
        self.n = 0
        self.k = 0          # lines in files below 'only'; 'at' counts these
        self.budget = budget
        self.at = at
        self.exc = exc
        self.hook = hook
        self.fired = False
        self.world = world
        self.prefix = TREE + os.sep
        self.only = self.prefix + (only or "")

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.budget is not None and self.n > self.budget:
                sys.settrace(None)
                raise BudgetExceeded("after %d lines" % self.n)
            if frame.f_code.co_filename.startswith(self.only):
                self.k += 1
            if self.k == self.at and not self.fired:
                self.fired = True
                self.world.count("fault:line:%s" % self.exc)
                if self.exc == "CRASH":
                    self.world.crash()
                raise ASYNC[self.exc]("injected")
            if self.hook is not None:
                self.hook(frame)
        return self.line


class process(object):
    """Context manager: one process of the tool on a world."""

    def __init__(self, world, faults=(), io=None, now=None, utc_offset=0,
                 seed=0, keep_modules=False, argv=None, trace=None, cwd=".",
                 leave_modules=False, records=False, console=True):
        self.console = console      # False: started without stdout and stderr
        self.w = world
        self.conf = dict(faults=faults, io=io, now=now, utc_offset=utc_offset)
        self.seed = seed
        self.keep = keep_modules            # continues the previous process
        self.leave = leave_modules or keep_modules  # may be continued
        self.argv = argv or ["main.py"]
        self.trace = trace
        self.cwd = cwd
        self.records = records

    def run(self, fn):
        w = self.w
        out = Outcome()
        old = (sys.argv, sys.stdout, sys.stderr, os.getcwd())
        if not self.keep:
            purge()
            _reset_state()
        _reset_logging()
        if self.records:
            logging.getLogger().addHandler(Records(out.records))
        w.configure(**self.conf)
        w.event("BOOT", [str(a) for a in self.argv[1:]])
        w.count("processes")
        if self.seed is not None:
            random.seed(self.seed)
            np.random.seed(self.seed)
        os.makedirs(w.path(self.cwd), exist_ok=True)
        os.chdir(w.path(self.cwd))
        tracer = None
        if self.trace is not None or FORCE_BUDGET:
            trace = dict(self.trace or {})
            if FORCE_BUDGET and not trace.get("budget"):
                trace["budget"] = FORCE_BUDGET
            tracer = Tracer(world=w, **trace)
        w.install()
        sys.argv = list(self.argv)
        sys.stdout = W.SimConsole(w, "<stdout>")
        sys.stderr = W.SimConsole(w, "<stderr>")
        if not self.console:
            sys.stdout = sys.stderr = None
        try:
            if tracer is not None:
                sys.settrace(tracer.call)
            try:
                out.value = fn()
                out.status = "ok"
            except SimCrash:
                out.status = "crash"
            except BudgetExceeded as e:
                out.status, out.exc, out.msg = "budget", "BudgetExceeded", str(e)
            except SystemExit as e:
                out.status = "ok" if e.code in (None, 0) else "error"
                out.exc, out.msg = "SystemExit", str(e.code)
            except BaseException as e:
                if isinstance(e, (HarnessError, WallTimeout)):
                    raise
                out.status = "error"
                out.exc = type(e).__name__
                out.injected = isinstance(e, Injected)
                out.msg = str(e)[:300]
                out.args = [str(a)[:200] for a in e.args]
                e.__traceback__ = None
                e.__context__ = None
                e.__cause__ = None
                e = None
            finally:
                sys.settrace(None)
            if w.dead:
                out.status = "crash"
            if tracer is not None:
                out.lines = tracer.n
                out.sublines = tracer.k
            # --- what the interpreter does at exit
            if not self.leave or not w.dead:
                try:
                    self._exit(w)
                except SimCrash:
                    out.status = "crash"
                if w.dead:
                    out.status = "crash"
        finally:
            sys.settrace(None)
            sys.argv, sys.stdout, sys.stderr = old[:3]
            w.uninstall()
            if not self.leave:
                purge()
                _reset_state()
            _reset_logging()
            os.chdir(old[3])
        w.settle()
        out.escapes = list(w.escapes)
        out.opened_write = list(w.opened_write)
        out.opened_read = list(w.opened_read)
        out.touched = list(w.touched)
        out.fired = [dict((k, v) for k, v in f.items() if k[0] != "_")
                     for f in w.fired()]
        if tracer is not None and tracer.fired:
            out.fired.append({"op": "line", "kind": tracer.exc})
        out.stdout = "".join(w.console_text["<stdout>"])
        out.stderr = "".join(w.console_text["<stderr>"])
        w.count("outcome:" + out.status)
        w.event("EXIT", out.status, out.exc)
        return out

    def _exit(self, w):
        for logger in list(logging.Logger.manager.loggerDict.values()):
            if isinstance(logger, logging.Logger):
                for h in list(logger.handlers):
                    try:
                        h.flush()
                        h.close()
                    except Exception:
                        pass
        if w.handles:
            gc.collect()


def _main_code():
    path = os.path.join(TREE, "main.py")
    if path not in _CODE:
        with W.REAL["open"](path, "rb") as f:
            _CODE[path] = compile(f.read(), path, "exec")
    return path, _CODE[path]


def arguments(config, detailed, spelling=0):
    """One of the ways to write the command line."""
    opt = [["-i", config], ["--input-file", config], ["-i" + config],
           ["--input-file=" + config]][spelling % 4]
    det = [["-d"], ["--detailed"]][spelling // 4 % 2] if detailed else []
    return det + opt if spelling % 3 == 2 else opt + det


def run_main(world, config="cfg.yml", detailed=False, args=None, spelling=0,
             **kw):
    """python main.py -i CONFIG [-d]"""
    path, code = _main_code()
    argv = [path] + (args if args is not None else
                     arguments(config, detailed, spelling))

    def body():
        mod = types.ModuleType("__main__")
        mod.__file__ = path
        glob = mod.__dict__
        try:
            exec(code, glob)
        finally:
            glob.clear()
        return None

    return process(world, argv=argv, **kw).run(body)


def run_api(world, fn, *args, **kw):
    """fn(*args) as the body of a process; import the tool inside fn."""
    return process(world, **kw).run(lambda: fn(*args))
