#!/opt/venv/bin/python
"""replay.py FILE: runs a reported violation (evidence/Cxx-violation-n.json) again on the
current tree and has the specification judge it again. Exit code 1 if it still fails."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from wv import big, driver, engine, names, skeletons, tables  # noqa: E402


def execution(doc):
    a = doc["job"]["again"]
    driver.Encoder.queries = doc["property"] == "C14"
    if a["fn"] == "behaviour":
        sk = skeletons.family(*a["family"])[0][a["index"]]
        engine._SK = [sk.job()]
        i, b, seed, form = a["args"]
        jobs = [engine.gen_one((i, dict(b, id=0), seed, form))]
    else:
        mod, fn = a["fn"].rsplit(".", 1)
        jobs = getattr(importlib.import_module(mod), fn)(tuple(a["args"]))
        jobs = jobs if isinstance(jobs, list) else [jobs]
    for k, j in enumerate(jobs):
        j["id"] = k
    v, _ = engine.validate(jobs, doc["module"])
    bad = 0
    for j in jobs:
        w = engine.classify(j, v[j["id"]])
        print(j["key"], w)
        if w == "reject":
            bad = 1
            print(engine.show(j, v[j["id"]]))
    return bad


def main(path):
    doc = json.load(open(path, encoding="utf-8"))
    if doc.get("module") in ("WizardTrace", "WizardWalk"):
        return execution(doc)
    if "row" in doc:
        x = dict(doc["row"], id=0)
        m = {"numbers": big, "names": names}.get(doc["engine"], tables)
        ev, ju = m.evaluate, m.judge
        was, x["out"] = x["out"], ev([x])[0]
        bad, _ = tables.judge_rows([x], 1, ju)
        print(json.dumps({"what": doc["key"], "was": was, "now": x["out"], "verdict": bad}, ensure_ascii=False))
        return int(bool(bad) and bad[0]["v"] == "reject")
    print(doc.get("summary") or json.dumps(doc, ensure_ascii=False)[:4000])
    print("(small enough to be read: run the check again with VERIF_SEED=%s)" % doc.get("seed", "of that run"))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
