"""All properties: what is claimed (properties.jsonl), how it is checked (MANIFEST.json, check.py)."""
CHECKS = {}
PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, harness, rule,
         note="", assumptions=()):
    assert len(title) <= 80, (pid, len(title))
    PROPS.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over, "text": " ".join(qtext.split())},
                  "why_tests_cant": " ".join(why.split()),
                  "anchors": {"files": ["opm/core/" + f for f in files],
                              "mechanism": [{"name": n, "where": "opm/core/" + w} for n, w in mechanism],
                              "observe_at": observe, "hook_needed": None}})
    if harness is None:
        NOT_APPLICABLE.append({"property": pid, "reason": rule})
        return
    CHECKS[pid] = dict(harness=harness, rule=" ".join(rule.split()), level="model_checking",
                       assumptions=list(assumptions), note=" ".join(note.split()))


BASE = "The real code is compiled from /repo (AddressSanitizer, assertions on) and executed on every case in the bounds; "

from registry_grid import *      # noqa
for _m in ("registry_deck", "registry_wells", "registry_flow", "registry_props", "registry_util", "registry_transport", "registry_sim", "registry_io"):
    try:
        __import__(_m)
    except ImportError as e:
        if e.name != _m:
            raise
