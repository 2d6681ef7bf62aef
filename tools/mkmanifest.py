#!/usr/bin/env python3
"""Regenerates MANIFEST.json from config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import config
checks = []
for p in config.ALL:
    proof = p in config.PROOF
    c = config.PROOF.get(p, {})
    note = (("Contracts on the functions extracted from /repo on every run (%s), all obligations discharged by Verus for all inputs. "
             "Trusted: the std contracts of specs/prelude.rs, gcx, Verus/Z3. %s A bounded search of the real code (harness) runs beside it to turn failed "
             "obligations into inputs and to cover functions whose text no longer fits their contract; it is never counted as proved.") % (", ".join(c["modules"]), c.get("note", ""))
            if proof else "BOUNDED stand-in: seeded and small-scope inputs against the real code with an independent oracle; not proved. " + config.BOUNDED_WHY.get(p, ""))
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p,
                       technique="contract-based deductive verification (Verus) of functions extracted from /repo" if proof else "bounded check standing in for contracts (labelled bounded)",
                       level="proof" if proof else "exploration", level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property="C20", reason="It speaks about interleavings of processes and interruption points of file-system calls, and the code gives no such guarantee to prove: the lock file it creates is never consulted. Sequential function contracts cannot state it and no deductive verifier here reaches std::fs.")],
         notes="All checks: python3 check.py <id> <tier>. No hooks in /repo; only fix: commits. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
