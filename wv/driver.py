"""Runs the implementation on a job and records what it shows to its environment
through its documented interface: the callbacks it makes, with their arguments and the
state of the current context, and the final status and state.
"""

from __future__ import annotations

import io
import os
import re
import random
import shutil
import signal
import sys
import tempfile
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import chardet  # noqa: E402
from antlr4 import InputStream  # noqa: E402
import wizard.contexts as wctx  # noqa: E402
from wizard.contexts import (  # noqa: E402
    WizardSelectManyContext,
    WizardSelectOneContext,
    WizardTerminationContext,
)
from wizard.errors import (  # noqa: E402
    WizardError,
    WizardIndexError,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardParseError,
    WizardTypeError,
)
from wizard.interpreter import WizardInterpreter  # noqa: E402
from wizard.manager import SelectOption  # noqa: E402
from wizard.runner import WizardRunnerState  # noqa: E402
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus  # noqa: E402
from wizard.severity import Issue, Severity, SeverityContext  # noqa: E402
from wizard.state import WizardInterpreterState  # noqa: E402
from wizard.tweaks import WizardINISettingEdit  # noqa: E402
from wizard.utils import make_basic_context_factory, make_runner_context_factory  # noqa: E402
from wizard.value import SubPackage, SubPackages, Value, Void  # noqa: E402

ISSUES = [
    Issue.MULTIPLE_DEFAULTS_IN_SELECT_ON, Issue.USAGE_OF_NOTSET_VARIABLES,
    Issue.USAGE_OF_NON_STRING_CASE_LABELS, Issue.USAGE_OF_ANYTHING_IN_NOTE,
    Issue.SELECT_MISSING_SUBPACKAGE, Issue.SELECT_MISSING_PLUGIN,
]
SEVERITIES = [Severity.ALLOW, Severity.WARNING, Severity.ERROR]

CPU_LIMIT = float(os.environ.get("VERIF_JOB_CPU", "4"))
MAX_EVENTS = 400


class Hang(BaseException):
    pass


class ProbeError(Exception):
    def __init__(self, code):
        super().__init__(f"probe {code}")
        self.code = code


# An environment can fail in any way (but TypeError and IndexError are what the
# interpreter makes WizardTypeError and WizardIndexError of, wherever they come from).
PROBES = [ProbeError] + [type("Probe" + c.__name__, (ProbeError, c), {}) for c in (
    ValueError, KeyError, AttributeError, RuntimeError, NotImplementedError, OSError, ZeroDivisionError)]


def manner(rng):
    """The manner in which the environment of a job does what it does."""
    return {
        # options are given back as they came, as equal ones, either way, or only with their names
        "copies": rng.choice([0, 0, 0, 1, 1, 2, 2, 3]),
        # True and False, or other values that are as good
        "truths": rng.choice([0, 0, 0, 1, 2]),
        # several options as a list or a tuple
        "tuples": rng.random() < 0.3,
        # cancel(), complete() and error() are not overridden
        "defaults": rng.random() < 0.25,
        # a runner is told that there are no packages, or not told about any
        "nopkgs": rng.random() < 0.5,
        # what it raises
        "raises": rng.choice([0, 0, rng.randrange(len(PROBES))]),
    }


class Pkg(SubPackage):
    def __init__(self, name, files):
        super().__init__(name)
        self._files = list(files)

    @property
    def files(self):
        return iter(self._files)


def cps(s):
    return [ord(c) for c in s]


def plain(o):
    """Texts of the installer state must be plain strings."""
    return cps(o) if type(o) is str else [-1]


class Encoder:
    queries = False  # look at the INI tweaks through their query methods too

    def __init__(self, pkgs, fold=False):
        self.pkgs = pkgs
        self.fold = fold  # plugins with several spellings: compare them case-folded

    def value(self, v):
        """Encoding of a Python value of the language."""
        if v is None or isinstance(v, Void):
            return [4]
        if isinstance(v, bool):
            return [0, int(v)]
        if isinstance(v, int):
            return [1, v] if abs(v) < 2**31 else [97]
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return [97]
            p, q = v.as_integer_ratio()
            if abs(p) >= 2**31 or q >= 2**31:
                return [97]
            if p == 0 and str(v).startswith("-"):
                return [2, 0, -1]
            return [2, p, q]
        if isinstance(v, str):
            return [3] + cps(v)
        if isinstance(v, SubPackages):
            same = len(v) == len(self.pkgs) and all(a is b for a, b in zip(v, self.pkgs))
            return [5] if same else [96]
        if isinstance(v, SubPackage):
            for i, p in enumerate(self.pkgs):
                if p is v:
                    return [6, i + 1]
            return [96] + cps(v.name)
        if isinstance(v, Value):
            return [95]
        return [94]

    def snap(self, state, names):
        vs = state.variables
        v = [self.value(vs[n].value) if n in vs else [] for n in names]
        v += [[98]] * len([n for n in vs if n not in names])
        if type(state) is WizardInterpreterState or getattr(state, "basic", False):
            return EMPTY_SNAP | {"v": v}
        ren = sorted([plain(k.name.casefold()), plain(t)] for k, t in state.renames.items())
        tw = state.tweaks
        more = {"tq": self.tweak_queries(tw)} if self.queries else {}
        return more | {
            "v": v,
            "sp": [plain(p.name) for p in state.subpackages],
            "pl": [plain(p.name.casefold() if self.fold else p.name) for p in state.plugins],
            "ren": ren,
            "notes": [plain(n) for n in state.notes],
            "td": [self.setting(t) for t in tw.disabled],
            "tm": [self.setting(t) for t in tw.modified],
        }

    def setting(self, t):
        e = (t.value, t.comment) if isinstance(t, WizardINISettingEdit) else ()
        return [self.value(x) for x in (t.filename, t.section, t.setting, *e)]

    def tweak_queries(self, tw):
        """What the queries on the tweaks answer."""
        if any(type(t.filename) is not str for ts in (tw.disabled, tw.modified) for t in ts):
            return []
        files = list(tw.files())
        asked = {g for f in files[:6] for g in (f, f.lower(), f.upper()) if g.lower() == f.lower()} | {"none.ini"}
        return [{"b": int(bool(tw)), "f": [plain(f) for f in files],
                 "t": [{"q": cps(f), "r": [self.setting(t) for t in tw.tweaks(f)]} for f in sorted(asked)]}]

    def decode(self, v):
        if v[0] == 0:
            return bool(v[1])
        if v[0] == 1:
            return v[1]
        if v[0] == 2:
            return v[1] / v[2]
        if v[0] == 3:
            return "".join(map(chr, v[1:]))
        if v[0] == 6:
            return self.pkgs[v[1] - 1]
        return None


UNKNOWN_SNAP = {"v": [[99]], "sp": [], "pl": [], "ren": [], "notes": [], "td": [], "tm": []}
EMPTY_SNAP = {"v": [], "sp": [], "pl": [], "ren": [], "notes": [], "td": [], "tm": []}
RET_VOID = {"r": "ret", "v": [4], "h": 0}


class Plan:
    """Replays given answers; past the end, plain answers."""

    def __init__(self, plan):
        self.plan = list(plan)
        self.i = 0
        self.exhausted = False

    def answer(self, ev):
        if self.i < len(self.plan):
            r = self.plan[self.i]
            self.i += 1
            return r
        self.exhausted = True
        raise Hang("plan exhausted")


class Policy:
    """Random answers. cfg: rets (name -> list of encoded values, or default "*"),
    p (probability of an odd answer), budget (number of odd answers), kinds."""

    def __init__(self, rng, cfg):
        self.rng = rng
        self.rets = cfg.get("rets", {})
        self.p = cfg.get("p", 0.0)
        self.error_p = cfg.get("error_p", self.p)
        self.budget = cfg.get("budget", 0)
        self.kinds = cfg.get("kinds", [])
        self.calm = cfg.get("calm", 40)
        self.n = 0

    def answer(self, ev):
        self.n += 1
        rng = self.rng
        k, n = ev["k"], ev["n"]
        p = self.error_p if k == "error" else self.p
        if self.budget and self.kinds and rng.random() < p:
            kind = rng.choice(self.kinds)
            if kind == "decline" and k in ("cancel", "complete"):
                self.budget -= 1
                return {"r": "ret", "v": [0, 0], "h": 1}
            if kind == "abort" and k != "cancel":
                self.budget -= 1
                return {"r": "abort", "v": [4], "h": 0}
            if kind == "raise" and k != "cancel":
                self.budget -= 1
                return {"r": "raise", "v": [1, 100 + self.n], "h": 0}
            if kind == "rewind":
                self.budget -= 1
                return {"r": "rewind", "v": [4], "h": rng.randint(1, self.n)}
        if k == "fn":
            c = self.rets.get(n, self.rets.get("*", [[1, 0]]))
            if self.n > self.calm:      # a false value of the usual type
                return {"r": "ret", "v": {0: [0, 0], 2: [2, 0, 1], 3: [3]}.get(c[0][0], [1, 0]), "h": 0}
            return {"r": "ret", "v": rng.choice(c), "h": 0}
        if n == "selectOne":
            return {"r": "ret", "v": [rng.randint(1, ev["a"][1][1])], "h": 0}
        if n == "selectMany":
            m = ev["a"][1][1]
            s = [i for i in range(1, m + 1) if rng.random() < 0.5]
            if rng.random() < 0.3:
                rng.shuffle(s)
            return {"r": "ret", "v": s, "h": 0}
        if k in ("cancel", "complete"):
            return {"r": "ret", "v": [0, 1], "h": 0}
        return dict(RET_VOID)


class Held:
    """What a caller got from a state at some moment and still holds."""

    def __init__(self, state):
        names = ("variables", "subpackages", "plugins", "renames", "notes", "tweaks")
        self.basic = type(state) is WizardInterpreterState
        for a in names[:1] if self.basic else names:
            setattr(self, a, getattr(state, a))


class Recorder:
    """Environment shared by all ways of executing a script."""

    def __init__(self, job, source, pkgs):
        self.job = job
        self.names = job.names
        self.source = source
        self.enc = Encoder(pkgs, job.fold)
        self.events = []
        self.handles = []
        self.held = []
        self.observe = None  # random generator: look again at earlier contexts
        self.initial = None  # the state passed in by the caller
        self.inside = None  # called inside every callback, before it is answered
        self.initial_held = None
        self.manner = job.manner
        self.told = None  # by the default error(), which lets it out again

    def start(self):
        self.initial = initial_state(self.job, self.enc)
        self.initial_held = Held(self.initial)

    def observations(self, at_end=False):
        """States of earlier contexts as they are now."""
        if self.observe is None:
            return []
        n = len([e for e in self.events if e["r"] is not None])
        hs = list(range(1, n + 1))
        if len(hs) > (40 if at_end else 2):
            hs = self.observe.sample(hs, 40 if at_end else 2)
        held = self.observe.random() < 0.5
        o = [{"h": h, "s": self.enc.snap(self.held[h - 1] if held else self.handles[h - 1].state, self.names)} for h in hs]
        if self.initial is not None:
            o.append({"h": 0, "s": self.enc.snap(self.initial_held if held else self.initial, self.names)})
        return o

    def record(self, k, n, a, state, handle):
        s = self.enc.snap(state, self.names) if state is not None else UNKNOWN_SNAP
        ev = {"k": k, "n": n, "a": a, "s": s, "o": self.observations()}
        if len(self.events) >= MAX_EVENTS:
            raise Hang("too many callbacks")
        self.handles.append(handle)
        self.held.append(Held(state) if state is not None else None)
        if self.inside is not None:
            self.inside()
        r = self.source.answer(ev)
        if k == "error" and r["r"] == "ret" and self.manner.get("defaults"):
            r = {"r": "default", "v": [4], "h": 0}
        self.events.append({"e": ev, "r": r})
        return r

    def end(self, n, a, state):
        s = self.enc.snap(state, self.names) if state is not None else EMPTY_SNAP
        self.events.append({"e": {"k": "end", "n": n, "a": a, "s": s, "o": self.observations(True)}, "r": None})

    def error_args(self, ex):
        line, nm = [], []
        if isinstance(ex, ProbeError):
            return "custom", [[], [1, ex.code]]
        cls = type(ex).__name__
        if isinstance(ex, WizardError):
            line = [1, ex.line]
            if isinstance(ex, WizardNameError):
                cls, nm = "name", [3] + cps(ex.name)
            elif isinstance(ex, WizardIndexError):
                cls, nm = "index", [1, int(ex.index)] if isinstance(ex.index, int) else []
            elif isinstance(ex, WizardTypeError):
                cls = "type"
            elif isinstance(ex, WizardParseError):
                cls = "parse"
            elif isinstance(ex, WizardMissingPackageError):
                cls, nm = "mpkg", [3] + cps(str(ex.subpackage))
            elif isinstance(ex, WizardMissingPluginError):
                cls, nm = "mplg", [3] + cps(str(ex.subpackage))
            if not described(ex):
                cls += " (whose text does not tell)"
        return cls, [line, nm]


def described(ex):
    """The text of an error tells the line and the name, package, plugin or index."""
    try:
        t, m = str(ex), ex.message
    except Exception:
        return False
    what = [getattr(ex, x) for x in ("name", "subpackage", "index") if hasattr(ex, x)]
    return isinstance(m, str) and m in t and str(ex.line) in t.replace(m, "", 1) and isinstance(ex.column, int) and all(str(w) in m for w in what)


def option_args(o):
    return [[3] + cps(o.name), [3] + cps(o.description), [4] if o.image is None else [3] + cps(o.image)]


class Runner(WizardScriptRunner):
    """The runner under test with recorded callbacks."""

    def __init__(self, subpackages):
        super().__init__(subpackages)
        self.rec = None

    def attach(self, rec, sev=None):
        self.rec = rec
        if sev is not None:
            for i, s in zip(ISSUES, sev):
                self.set_severity(i, SEVERITIES[s])

    # the context can be missing if the very first callback comes too early
    def current(self):
        return self.context()

    def respond(self, k, n, a):
        ctx = self.current()
        return self.react(self.rec.record(k, n, a, ctx.state if ctx is not None else None, ctx))

    def react(self, r):
        if r["r"] == "abort":
            self.abort()
        if r["r"] == "rewind":
            self.rewind(self.rec.handles[r["h"] - 1])
        if r["r"] == "raise":
            raise PROBES[self.rec.manner.get("raises", 0)](r["v"][1])
        return r["v"]

    def fn(self, n, *args):
        return self.rec.enc.decode(self.respond("fn", n, [self.rec.enc.value(a) for a in args]))

    def compareGameVersion(self, version):
        return self.fn("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self.fn("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self.fn("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self.fn("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self.fn("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, filename, fallback=-1):
        return self.fn("getPluginLoadOrder", filename, fallback)

    def getPluginStatus(self, filename):
        return self.fn("getPluginStatus", filename)

    def getFilename(self, path):
        return self.fn("getFilename", path)

    def getFolder(self, path):
        return self.fn("getFolder", path)

    def warning(self, text):
        self.respond("warning", "warning", [[3] + cps(text) if isinstance(text, str) else []])

    def error(self, exc):
        cls, a = self.rec.error_args(exc)
        ctx = self.current()
        r = self.rec.record("error", cls, a, ctx.state if ctx is not None else None, ctx)
        if r["r"] == "default":
            self.rec.told = exc
            super().error(exc)
        self.react(r)

    def cancel(self):
        ctx = self.current()
        msg = ctx.message() if isinstance(ctx, WizardTerminationContext) else None
        r = bool(self.respond("cancel", "cancel", [self.rec.enc.value(msg)])[1])
        return super().cancel() if r and self.rec.manner.get("defaults") else self.truth(r)

    def complete(self):
        r = bool(self.respond("complete", "complete", [])[1])
        return super().complete() if r and self.rec.manner.get("defaults") else self.truth(r)

    def truth(self, r):
        return [(False, True), (0, 1), (None, "yes")][self.rec.manner.get("truths", 0)][r]

    def given(self, o):
        c = self.rec.manner.get("copies", 0)
        if c == 1 or c == 2 and (len(self.rec.events) + len(o.name)) % 2:
            return SelectOption(o.name, o.description, o.image)
        if c == 3:
            return SelectOption(o.name, "", None)
        return o

    def prompt(self, n, description, options, defaults):
        a = [self.rec.enc.value(description), [1, len(options)]]
        for o in list(options) + list(defaults):
            a += option_args(o)
        return self.respond("prompt", n, a)

    def selectOne(self, description, options, default):
        v = self.prompt("selectOne", description, options, [default])
        return self.given(options[v[0] - 1])

    def selectMany(self, description, options, defaults):
        v = self.prompt("selectMany", description, options, defaults)
        o = [self.given(options[i - 1]) for i in v]
        return tuple(o) if self.rec.manner.get("tuples") else o

    def requiresVersions(self, game_version, script_extender_version=None,
                         graphics_extender_version=None, wrye_bash_version=None):
        e = self.rec.enc.value
        self.respond("require", "requiresVersions", [
            e(game_version), e(script_extender_version), e(graphics_extender_version), e(wrye_bash_version)])


class Stepper(Runner):
    """Same environment, but the contexts are executed one by one by hand, and the
    driver can go on from any earlier context: current() is the context being
    executed."""

    ctx = None

    def current(self):
        return self.ctx

    def step_script(self, script, state, jump):
        """As run()."""
        steps = self.steps(script, state, jump)
        while True:
            try:
                next(steps)
            except StopIteration as ex:
                return ex.value

    def steps(self, script, state, jump):
        """As run(), one step at a time. jump(n): the context to go on from after the
        step that made the n-th callback, or None."""
        ctx = self.make_top_level_context(script, state)
        aborted = False
        while True:
            self.ctx = ctx
            yield
            n = len(self.rec.events)
            try:
                if aborted:
                    aborted = False
                    self.abort()
                nxt = ctx
                if isinstance(ctx, WizardSelectOneContext):
                    nxt = ctx.select(self.selectOne(ctx.description, ctx.options, ctx.default))
                elif isinstance(ctx, WizardSelectManyContext):
                    nxt = ctx.select(self.selectMany(ctx.description, ctx.options, ctx.defaults))
                elif isinstance(ctx, WizardTerminationContext):
                    status = ("CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE")
                    if (self.cancel() if ctx.is_cancel() else self.complete()) or ctx.is_complete():
                        return status, ctx.state
                    raise Hang("declined")
                nxt = nxt.exec()
            except WizardScriptRunner.RewindFlow as ex:
                nxt = ex.context
            except WizardScriptRunner.CancelFlow:
                try:
                    if self.cancel():
                        return "CANCEL", ctx.state
                    nxt = ctx
                except WizardScriptRunner.RewindFlow as ex:
                    nxt = ex.context
            except Exception as ex:
                try:
                    self.error(ex)
                    return "ERROR", ctx.state
                except WizardScriptRunner.RewindFlow as fex:
                    nxt = fex.context
                except WizardScriptRunner.CancelFlow:
                    aborted = True
                    nxt = ctx
            if len(self.rec.events) > n and not aborted:
                nxt = jump(len(self.rec.events)) or nxt
            ctx = nxt


class cpu_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *_):
        raise Hang("cpu")

    # They nest: the time inside does not count for the outer one.
    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, self._fire)
        self.left = signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, *self.left)
        signal.signal(signal.SIGVTALRM, self.old)


def make_pkgs(job):
    return SubPackages([Pkg(n, fs) for n, fs in job.pkgs])


# The forms in which run() takes a script: of texts, and of files in some encoding.
TEXT_FORMS = ["str", "stream", "stringio", "textfile"]
FILE_FORMS = ["path", "binfile", "rawfile", "bytesio"]
FORMS = TEXT_FORMS + FILE_FORMS
LONE_CR = re.compile("\r(?!\n)")
ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "latin-1", "utf-32", "cp1252"]


def detectable(text, enc):
    """Can the encoding of the file be told from its contents?"""
    try:
        data = text.encode(enc)
        return data.decode(chardet.detect(data)["encoding"] or "utf-8") == text
    except (UnicodeError, LookupError):
        return False


class script_source:
    """The script of the job in one of the forms that run() takes: "str", or another
    form and an encoding, like "path:utf-8"."""

    def __init__(self, job, form):
        self.text, self.form = job.script, form
        self.tmp = self.fp = None

    def file(self, enc):
        self.tmp = tempfile.mkdtemp(prefix="wvscript")
        path = os.path.join(self.tmp, "wizard.txt")
        with open(path, "wb") as fp:
            fp.write(self.text.encode(enc))
        return path

    def __enter__(self):
        form, _, enc = self.form.partition(":")
        if form == "str":
            return self.text
        if form == "stream":
            return InputStream(self.text)
        if form == "stringio":
            return io.StringIO(self.text, newline="")
        if form == "bytesio":
            return io.BytesIO(self.text.encode(enc))
        path = self.file(enc)
        if form == "path":
            return Path(path)
        self.fp = {"textfile": lambda: open(path, encoding=enc, newline=None if len(self.text) % 2 and not LONE_CR.search(self.text) else ""),
                   "binfile": lambda: open(path, "rb"), "rawfile": lambda: open(path, "rb", buffering=0)}[form]()
        return self.fp

    def __exit__(self, *_):
        if self.fp is not None:
            self.fp.close()
        if self.tmp is not None:
            shutil.rmtree(self.tmp)


def forms_of(text):
    """All the forms in which a script can be given."""
    encs = ["utf-8"] + [e for e in ENCODINGS[1:] if not text.isascii() or e in ("utf-8-sig", "utf-16")]
    good = [e for e in encs if text and detectable(text, e)] or (["utf-8"] if text.isascii() else [])
    return ["str", "stream", "stringio", "textfile:utf-8", "textfile:utf-16"] + [f + ":" + e for f in FILE_FORMS for e in good]


def initial_state(job, enc):
    state = WizardRunnerState()
    for n, v in job.init.items():
        state.set(n, Value(enc.decode(v)))
    return state


def run_job(job, source, form="str", runner=None, script=None, observe=None):
    """Run a job with run() and return the recorder."""
    if runner is None:
        runner = new_runner(job)
    rec = Recorder(job, source, runner._verif_pkgs)
    rec.observe = observe
    runner.attach(rec, job.sev)
    with script_source(job, form) as source:
        return finish(rec, lambda: runner.run(script if script is not None else source), lambda: runner.context().state)


def finish(rec, run, state_of):
    try:
        with cpu_limit(CPU_LIMIT):
            status, state = run()
        rec.end(status if isinstance(status, str) else status.name, [], state)
    except Hang as h:
        rec.end("HANG", [[3] + cps(str(h))], None)
    except Exception as ex:
        raised(rec.end, rec, ex, state_of)
    return rec


def raised(end, rec, ex, state_of):
    """The end of an execution that let an exception out."""
    if ex is rec.told:
        end("RAISED", [[0, 1]], state_of())
    elif isinstance(ex, ProbeError):
        end("RAISED", [[1, ex.code]], state_of())
    else:
        end("RAISED", [[3] + cps(type(ex).__name__)], None)


def step_job(job, source, rng=None, p_jump=0.0, jump_budget=0, script=None, observe=None, jumps=None, form="str"):
    """Execute a job step by step by hand; returns (recorder, jumps)."""
    runner = new_runner(job, Stepper)
    rec = Recorder(job, source, runner._verif_pkgs)
    rec.observe = observe
    rec.start()
    runner.attach(rec, job.sev)
    given = dict((i + 1, h) for i, h in enumerate(jumps or []) if h)
    made = {}
    left = [jump_budget]

    def jump(n):
        if jumps is not None:
            h = given.get(n, 0)
        elif left[0] and rng is not None and rng.random() < p_jump:
            left[0] -= 1
            h = rng.randint(1, n)
        else:
            return None
        if not h:
            return None
        made[n] = h
        return rec.handles[h - 1]

    with script_source(job, form) as source:
        finish(rec, lambda: runner.step_script(script if script is not None else source, rec.initial, jump),
               lambda: runner.ctx.state)
    return rec, [made.get(i + 1, 0) for i in range(max(made, default=0))]


def new_runner(job, cls=Runner):
    pkgs = make_pkgs(job)
    r = cls(pkgs if pkgs or not job.manner.get("nopkgs") or issubclass(cls, Assembled) else None)
    r._verif_pkgs = pkgs
    return r


# ------------------------------------------------------------------ walks
# Types of the contexts (the ones that the package exports), as the specification
# calls them.
KINDS = {
    "top": "TopLevel", "body": "Body", "assign": "Assignment", "compound": "CompoundAssignment", "while": "WhileLoop",
    "for": "ForLoop", "selone": "SelectOne", "selmany": "SelectMany", "cases": "SelectCases", "case": "Case",
    "cancel": "Cancel", "return": "Return", "break": "Break", "continue": "Continue", "term": "Termination",
    "RequireVersions": "RequireVersions", "SelectAll": "SelectAll", "DeSelectAll": "DeSelectAll",
    "SelectAllPlugins": "SelectAllPlugins", "DeSelectAllPlugins": "DeSelectAllPlugins",
    "ResetAllPluginNames": "ResetAllPluginNames", "SelectSubPackage": "SelectSubPackage",
    "DeSelectSubPackage": "DeSelectSubPackage", "SelectPlugin": "SelectPlugin", "DeSelectPlugin": "DeSelectPlugin",
    "RenamePlugin": "RenamePlugin", "ResetPluginName": "ResetPluginName", "Note": "Note",
}
KINDS = {k: getattr(wctx, "Wizard" + v + "Context") for k, v in KINDS.items()}
TARGETS = dict(KINDS, kw=wctx.WizardKeywordContext, select=wctx.WizardSelectContext, any=wctx.WizardInterpreterContext)


def kind_of(ctx):
    for k, c in KINDS.items():
        if isinstance(ctx, c):
            return k
    return "other"


class Walker(Stepper):
    """Contexts executed by hand, in any order."""

    def result(self, ctx):
        k = kind_of(ctx)
        r = {"k": k, "s": self.rec.enc.snap(ctx.state, self.rec.names), "w": "", "m": [4]}
        if k == "term":
            r["w"] = ("cancel" if ctx.is_cancel() else "") + ("return" if ctx.is_return() else "") + \
                ("end" if ctx.is_complete() else "")
        if k in ("term", "cancel"):
            r["m"] = self.rec.enc.value(ctx.message())
        if k == "RequireVersions":
            r["m"] = [self.rec.enc.value(v) for v in (
                ctx.game_version, ctx.script_extender_version, ctx.graphics_extender_version, ctx.wrye_bash_version)]
        return r

    def failure(self, ex):
        if isinstance(ex, WizardScriptRunner.CancelFlow):
            cls, a = "abort", [[], []]
        else:
            cls, a = self.rec.error_args(ex)
        return {"k": "raise", "n": cls, "a": a, "s": UNKNOWN_SNAP, "w": "", "m": [4]}

    def step(self, ctx, direct):
        """Execute one context; a prompt is answered first (direct: with the defaults
        if these are chosen, the context is executed as it is)."""
        self.ctx = ctx
        if isinstance(ctx, WizardSelectOneContext):
            o = self.selectOne(ctx.description, ctx.options, ctx.default)
            if not (direct and o is ctx.default):
                ctx = ctx.select(o)
        elif isinstance(ctx, WizardSelectManyContext):
            o = self.selectMany(ctx.description, ctx.options, ctx.defaults)
            if not (direct and len(o) == len(ctx.defaults) and all(a is b for a, b in zip(o, ctx.defaults))):
                ctx = ctx.select(o)
        return ctx.exec()


class Severities(SeverityContext):
    def __init__(self, runner):
        super().__init__()
        self.runner = runner

    def warning(self, text):
        self.runner.warning(text)


class Assembled(Walker):
    """The same walks on an interpreter put together from its parts: a context factory
    for a manager ("parts"), or a basic one that knows no manager nor installer
    ("basic"), and a severity context of its own."""

    api = "parts"

    def __init__(self, subpackages):
        super().__init__(subpackages)
        self.severities = Severities(self)
        if self.api == "parts":
            f = make_runner_context_factory(subpackages, self, self.severities)
        else:
            f = make_basic_context_factory(subpackages, self.severities)
        self.interpreter = WizardInterpreter(f)

    def set_severity(self, issue, severity):
        self.severities.set_severity(issue, severity)

    def make_top_level_context(self, script, state):
        if self.api == "basic":
            if not state.variables and len(script) % 2:
                return self.interpreter.make_top_level_context(script)
            state = WizardInterpreterState(state.variables)
        return self.interpreter.make_top_level_context(script, state)

    def exec_until(self, context, targets):
        return self.interpreter.exec_until(context, targets)


class Basic(Assembled):
    api = "basic"


WALKERS = {"run": Walker, "parts": Assembled, "basic": Basic}


def walk_job(job, source, rng, nops=40, p_old=0.25, p_until=0.1, p_look=0.1, given=None):
    """Walk over the contexts of a job at random (or as given). Returns (recorder, ops)."""
    runner = new_runner(job, WALKERS[job.api])
    rec = Recorder(job, source, runner._verif_pkgs)
    rec.start()
    runner.attach(rec, job.sev)
    ops = []
    ctxs = []
    tnames = list(TARGETS)

    def choose():
        if given is not None:
            for o in given:
                yield dict(o)
            return
        for _ in range(nops):
            x = rng.random()
            live = [i for i, c in enumerate(ctxs) if not isinstance(c, WizardTerminationContext)]
            last = len(ctxs)
            if x < p_look:
                yield {"u": "look", "h": rng.randint(0, last), "held": rng.random() < 0.5}
            elif x < p_look + p_until:
                ts = rng.sample(tnames, rng.choice([0, 1, 1, 2, 3]))
                if rng.random() < 0.3:
                    ts = [t for t in tnames if t not in ("body", "assign", "top")]
                yield {"u": "until", "h": rng.choice([last, rng.randint(1, last)]),
                       "t": [t for t in ts if t != "any" or rng.random() < 0.1]}
            elif x < p_look + p_until + p_old or last - 1 not in live:
                # near the end more often than anywhere
                h = live[-1 - min(len(live) - 1, int(rng.expovariate(0.3)))] if rng.random() < 0.5 else rng.choice(live)
                yield {"u": "exec", "h": h + 1, "d": rng.random() < 0.5}
            else:
                yield {"u": "exec", "h": last, "d": rng.random() < 0.5}
        for h in sorted(rng.sample(range(len(ctxs) + 1), min(len(ctxs) + 1, 25))):
            yield {"u": "look", "h": h, "held": rng.random() < 0.5}

    def look(o):
        h = o["h"]
        if o["held"]:
            s = held[h - 1] if h else rec.initial_held
        else:
            s = ctxs[h - 1].state if h else rec.initial
        return {"k": "look", "s": rec.enc.snap(s, rec.names), "w": "", "m": [4]}

    try:
        with cpu_limit(CPU_LIMIT):
            held = []
            ctxs.append(runner.make_top_level_context(job.script, rec.initial))
            held.append(Held(ctxs[0].state))
            for o in choose():
                ctx = ctxs[o["h"] - 1] if o["h"] else None
                try:
                    if o["u"] == "look":
                        o["r"] = look(o)
                    else:
                        if o["u"] == "until":
                            runner.ctx = None
                            nxt = runner.exec_until(ctx, [TARGETS[t] for t in o["t"]])
                        else:
                            nxt = runner.step(ctx, o["d"])
                        ctxs.append(nxt)
                        held.append(Held(nxt.state))
                        o["r"] = runner.result(nxt)
                except Hang as h:
                    o["r"] = {"k": "hang", "n": str(h), "s": UNKNOWN_SNAP, "w": "", "m": [4]}
                except (Exception, WizardScriptRunner.CancelFlow) as ex:
                    o["r"] = runner.failure(ex)
                o["n"] = len(rec.events)  # so far
                ops.append(o)
                if o["r"]["k"] == "hang":
                    break
    except Hang:
        pass
    return rec, ops
