"""Known findings: genuine defects recorded, not repaired (see
known_findings.txt).  Each has a probe with the exact failing input; the line
is printed only while that input still fails."""
import contextlib
import io


def _same_name_in_two_scopes():
    """Two different objects called ?x get one name and one is lost."""
    from concept_formation.preprocessor import (
        NameStandardizer, Flattener, SubComponentProcessor, Pipeline)
    inst = {'?a': {'?x': {'v': 'p'}}, '?b': {'?x': {'v': 'q'}}}
    flat = Pipeline(NameStandardizer(), Flattener(),
                    SubComponentProcessor()).transform(inst)
    return 'p' not in flat.values() or 'q' not in flat.values()


PROBES = {
    'F1': ('C15', _same_name_in_two_scopes,
           "renaming apart {'?a': {'?x': {'v': 'p'}}, '?b': {'?x': {'v': "
           "'q'}}} gives both ?x objects one name; flattening and extraction "
           "then lose one of them (F1 in known_findings.txt)"),
}


def lines(prop):
    out = []
    for _, (p, probe, text) in sorted(PROBES.items()):
        if p != prop:
            continue
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                fails = probe()
            except Exception:
                fails = True
        if fails:
            out.append('KNOWN-FINDING: property=%s %s' % (p, text))
    return out
