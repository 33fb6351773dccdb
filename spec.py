#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 spec.py` after editing."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
MM, MMC, GR, GRC, IX = ("src/findex_mm/mm.rs", "src/findex_mm/compact.rs", "src/findex_graph/graph.rs",
                        "src/findex_graph/compact.rs", "src/index/mod.rs")
ET, CT, EDX, EDS = "src/edx/entry_table.rs", "src/edx/chain_table.rs", "src/edx/mod.rs", "src/edx/structs.rs"

MISSED = {
    "P09c": "yes: a link read only while the previous ones are found was accepted; the links of a chain are now required whole (`whole_chains`)",
    "P34a": "yes: P34 did not follow the blocks of the value under construction",
    "P09b": "yes: P09 did not ask what is left to fetch when a search ends",
    "P04b": "yes by P04, which trusted P03 with the table layer; P02, P04-P09, P18 and P33 now look at the tables too",
}
P = []        # (id, title, statement, over, quantifier text, why, [(mechanism, where)], technique, level_note)
NA = []       # (id, title, statement, over, text, why, [(mechanism, where)], reason)


def prop(*a):
    P.append(a)


def na(*a):
    NA.append(a)


exec(open(os.path.join(HERE, "spec_table.py")).read())


def line(x):
    pid, title, st, over, text, why, mech = x[:7]
    assert len(title) <= 80, (pid, len(title))
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    return {"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}


def main():
    rows = sorted(P + NA, key=lambda x: x[0])
    assert len({r[0] for r in rows}) == len(rows)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for r in rows:
            f.write(json.dumps(line(r)) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "none", "enable": "no hook was added to /repo: the checks read the unmodified crate",
                     "source_commits": []},
           "checks": [{"property": r[0], "quick_cmd": "python3 check.py %s --tier quick" % r[0],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % r[0],
                       "technique": r[7], "level": "other", "level_note": r[8]} for r in sorted(P)],
           "not_applicable": [{"property": r[0], "reason": r[7]} for r in sorted(NA)]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")

    design(rows)


def design(rows):
    """Rewrites the generated part of DESIGN.md."""
    f = os.path.join(HERE, "DESIGN.md")
    a, b = "<!-- generated by spec.py -->\n", "<!-- end of the generated part -->\n"
    s = open(f).read()
    import sys
    sys.path.insert(0, os.path.join(HERE, "analysis"))
    from framework import RULES
    for m in ["rules"] + ["rules%d" % i for i in range(2, 9)]:
        __import__(m)
    out, claimed = [], {r[0] for r in P}
    for r in rows:
        out.append("### %s %s\n\n" % (r[0], r[1]))
        out.append("*Quantified over*: %s. *Beyond tests*: %s\n\n" % (r[4].rstrip("."), r[5]))
        if r[0] in claimed:
            out.append("Decided by %s; rules (`%s.py`):\n\n" % (r[7], RULES[r[0]][0].__module__))
            out += ["- %s\n" % (x.__doc__ or x.__name__).strip() for x in RULES[r[0]]]
            out.append("\nBounds: %s\n\n" % r[8] if r[8] != NOTE else "\n")
        else:
            out.append("**Not applicable.** %s\n\n" % r[7])
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "".join(out) + s[j:]
    a, b = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    out = ["| bug | what it does | needs | missed at first |\n|---|---|---|---|\n"]
    for x in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", x, "meta.json")))
        out.append("| %s | %s | %s | %s |\n" % (x, m["what_it_breaks"], m["needs"], MISSED.get(x, "no")))
    open(f, "w").write(s[:i] + "".join(out) + s[j:])


main()
