"""C17: executing one quantum leaves exactly the promised state."""
from __future__ import annotations

import hypothesis.strategies as st

import core
import execs
import qgs
from core import Facet, expect, expect_eq

LEVEL = "exploration"
RULE = ("histories of 1-5 executions of one quantum (full butler or quantum-backed butler) with generated task behaviour "
        "(success, missing outputs, failures before, between and after writes, no work, partial outputs, failing "
        "construction), skip/clobber/assume/raise options, stale outputs inserted and outputs removed in between; "
        "non-trivial if some execution met existing outputs or did not simply succeed")


@st.composite
def cases(draw):
    case = draw(execs.one_task(adjust=draw(st.integers(0, 3)) == 0, missing=draw(st.integers(0, 3)) == 0))
    steps = []
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 7))
        if k == 0:
            steps.append({"op": "stale", "mask": draw(st.integers(1, 255))})
        elif k == 1 and i:
            steps.append({"op": "remove", "mask": draw(st.integers(1, 255))})
        else:
            steps.append({"op": "exec", "skip": draw(st.booleans()), "clobber": draw(st.booleans()),
                          "assume": draw(st.integers(0, 7)) == 0, "raise_partial": draw(st.booleans()),
                          "job": draw(st.booleans()), "action": draw(execs.ACTIONS), "how": draw(st.sampled_from(("skip_existing", "in")))})
    case["steps"] = steps
    return case


def check(case):
    with core.scratch_dir() as d:
        try:
            h = execs.OneQuantum(d, case)
        except Exception as exc:
            if type(exc).__name__ in qgs.ERROR_NAMES:
                return {"nontrivial": False, "labels": ["not built"]}
            raise
        if h.quantum is None:
            return {"nontrivial": False, "labels": ["no quanta"]}
        labels = [case["mode"]]
        nontrivial = False
        refs = h.all_output_refs()
        for n, s in enumerate(case["steps"]):
            before = h.state()
            if s["op"] == "stale":
                for i, r in enumerate(refs):
                    if (s["mask"] >> (i % 8)) & 1 and r.id not in before:
                        h.put_stale(r, f"step{n}")
                continue
            if s["op"] == "remove":
                b = h.limited()
                gone = [r for i, r in enumerate(refs) if (s["mask"] >> (i % 8)) & 1 and r.id in before]
                if gone:
                    b.pruneDatasets(gone, disassociate=True, unstore=True, purge=True)
                continue
            assume = s["assume"] and not before
            kw = dict(clobber_outputs=s["clobber"], assume_no_existing_outputs=assume, raise_on_partial_outputs=s["raise_partial"])
            if s["skip"]:
                if s["how"] == "in" and case["mode"] == "full":
                    kw["skip_existing_in"] = ["in1", "out"]
                else:
                    kw["skip_existing"] = True
            elif s["how"] == "in" and case["mode"] == "full":
                kw["skip_existing_in"] = ["in1"]  # not the output run: nothing to skip
            if s["job"]:
                kw["job_metadata"] = {"j": 7}
            o = execs.predict(h, existing=set(before), action=s["action"], skip=s["skip"], clobber=s["clobber"], assume=assume,
                              raise_partial=s["raise_partial"])
            result, after = execs.run_and_compare(h, h.executor(**kw), s["action"], o, before)
            labels.append(o.kind)
            if before:
                labels.append("over-existing")
            nontrivial |= bool(before) or o.kind != "run" or bool(o.caveats)
            if o.kind in ("run", "no-work"):
                md = after[h.metadata_ref.id]["metadata"]
                expect_eq(md.get("job"), {"j": 7} if s["job"] else None, "job metadata")
            # inputs are never touched
            there = h.repo.butler.stored_many([r for rs in execs.split_refs(h).values() for r in rs])
            for r, yes in there.items():
                expect_eq(yes, r.id in h.stored, f"input {r} after execution")
        return {"nontrivial": nontrivial, "labels": labels}


FACETS = [Facet("history", cases, check, quick=440, thorough=9000, setup=qgs.template)]
