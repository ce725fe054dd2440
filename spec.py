#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 spec.py`
after editing. P(id, title, statement, over, quantifier text, why tests can't,
files, mechanism, observe_at, technique, level_note)."""
import json
import os

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, observe,
      technique, note, state=(), level="exploration"):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement)
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)),
        check=dict(property=id, quick_cmd="python3 run.py %s quick" % id,
                   thorough_cmd="python3 run.py %s thorough" % id,
                   evidence_file="evidence/%s.json" % id, technique=technique,
                   level=level, level_note=note)))


T = "buildcc/lib/target/"
from spec_props import define  # noqa: E402

define(P)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["prop"]) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py setup",
             hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified and "
                        "replace only the process-spawning library (harness/shim/process.hpp)",
                        source_commits=[]),
             checks=[p["check"] for p in PROPS], not_applicable=NOT_APPLICABLE,
             notes="Every check rebuilds the harness from /repo's working tree into /verif/build (git-ignored) "
                   "with ninja, then runs generated cases in forked workers; see DESIGN.md.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
