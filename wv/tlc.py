"""Runs TLC on the specification."""

from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.prints = []
        self.states = 0
        self.distinct = 0
        self.violated = None
        self.output = ""
        self.rc = 0
        self.coverage = {}


def run_tlc(module, cfg, env=None, workers=8, timeout=840, extra=(), heap="6g", coverage=False,
            keep_going=False):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    tmp = tempfile.mkdtemp(prefix="wvtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cfgf = os.path.join(tmp, "run.cfg")
        with open(cfgf, "w") as fp:
            fp.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss32m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "meta"), "-config", "run.cfg"]
        if coverage:
            cmd += ["-coverage", "1"]
        if keep_going:
            cmd += ["-continue"]
        cmd += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            raise TLCError(f"TLC timed out on {module}: {(ex.stdout or b'')[-2000:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = Result()
    r.output, r.rc = out, rc
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                r.prints.append(json.loads(json.loads(line)))
            except ValueError:
                raise TLCError("unreadable: " + line[:500])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated"
                  r"|Error: Temporal properties were violated", out)
    if m:
        r.violated = m.group(1) or m.group(2) or "temporal"
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)$", out, re.M):
        r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
    if "Model checking completed. No error has been found." not in out and not r.violated \
            and "The number of states generated" not in out:
        raise TLCError(f"TLC failed on {module} (rc {rc}):\n" + out[:3000] + "\n...\n" + out[-3000:])
    return r


TRACE_CFG = """SPECIFICATION Spec
INVARIANT Judge
CHECK_DEADLOCK FALSE
"""


def validate(jobs, workers=8, heap="6g", timeout=840, coverage=False, module="WizardTrace", cfg=TRACE_CFG):
    """Validate recorded jobs. Returns ({id: verdict}, Result)."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="wvjobs")
    try:
        with os.fdopen(fd, "w") as fp:
            json.dump(jobs, fp)
        r = run_tlc(module, cfg, env={"WIZ_JOBS": path}, workers=workers, heap=heap, timeout=timeout,
                    coverage=coverage)
    finally:
        os.unlink(path)
    verdicts = {}
    for v in r.prints:
        if v["id"] in verdicts:
            raise TLCError(f"two verdicts for job {v['id']}")
        verdicts[v["id"]] = v
    missing = [j["id"] for j in jobs if j["id"] not in verdicts]
    if missing:
        raise TLCError(f"no verdict for jobs {missing[:5]} ({len(missing)}):\n" + r.output[-4000:])
    return verdicts, r


def with_data(module, cfg, data, workers=8, coverage=False, extra=(), timeout=840):
    """Run TLC on a module whose jobs are given by data."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="wvdata")
    try:
        with os.fdopen(fd, "w") as fp:
            json.dump(data, fp)
        return run_tlc(module, cfg, env={"WIZ_JOBS": path}, workers=workers, coverage=coverage, extra=extra, timeout=timeout)
    finally:
        os.unlink(path)


def table(module, cfg, data, workers=8, coverage=False):
    """Judge a table of rows: the module prints the verdicts other than accept."""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="wvrows")
    try:
        with os.fdopen(fd, "w") as fp:
            json.dump(data, fp)
        r = run_tlc(module, cfg, env={"WIZ_JOBS": path}, workers=workers, coverage=coverage)
    finally:
        os.unlink(path)
    if r.distinct != len(data["rows"]) or "Model checking completed. No error" not in r.output:
        raise TLCError(f"{module}: {r.distinct} rows judged of {len(data['rows'])}\n" + r.output[-4000:])
    return {v["id"]: v for v in r.prints}, r
