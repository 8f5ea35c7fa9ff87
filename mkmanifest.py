#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, re, glob
NOT = {
 "C28": "Freedom from deadlock, crash and races for every interleaving is a property of schedules. The contracts here are verified against a sequential semantics with one schedule per goroutine (no ownership or permission logic for Go is available offline), so no obligation they generate can decide it; defects seen by reading are described in DESIGN.md.",
 "C29": "Bounds on elapsed time depend on timers and the scheduler; functional contracts over the sequential semantics have no notion of time, and time.After/context deadlines are modelled as events that may fire at any moment.",
}
claimed = sorted({p for f in glob.glob('contracts/**/*.go', recursive=True) for l in open(f) if l.startswith('//vf:prop') for p in l.split()[1:]})
props = [json.loads(l) for l in open('properties.jsonl')]
def marked():
    "per property: the contracts that are bounded, with the first words of their comment, and whether all are"
    out, every = {}, {}
    for f in sorted(glob.glob('contracts/**/*.go', recursive=True)):
        doc = []
        for l in open(f):
            if l.startswith('//'):
                doc.append(l.strip()); continue
            fn = re.match(r'func (?:\([^)]*\) )?(?:zz_)?(\w+)', l)
            if fn:
                text = ' '.join(d[2:].strip() for d in doc if not d.startswith('//vf:') and d != '//')
                bs = any(d.startswith('//vf:bounded') for d in doc)
                for p in [p for d in doc if d.startswith('//vf:prop') for p in d.split()[1:]]:
                    every[p] = every.get(p, True) and bs
                    if bs: out.setdefault(p, []).append('%s (%s)' % (fn.group(1), text.strip()))
            if l.strip(): doc = []
    return out, every
bounded, every = marked()
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOT:
        na.append({"property": i, "reason": NOT[i]}); continue
    if i not in claimed:
        na.append({"property": i, "reason": "No contract for it has been completed yet."}); continue
    checks.append({
      "property": i,
      "quick_cmd": f"./check {i}",
      "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
      "evidence_file": f"evidence/{i}.json",
      "technique": "contract-based deductive verification of the real code: contracts on /repo's functions, verification conditions generated from their SSA form on every run and discharged by SMT solvers",
      "level": "model_checking" if every.get(i) else "proof",
      "level_note": "Every obligation generated from the current source is discharged for all inputs and iterations, under the assumptions listed in evidence (models of the standard library, lengths below 2^31, the sequential semantics and the other items under 'assumptions'). Functions under a contract marked bounded, or contracts that could not be decided, are named in the evidence and not counted as proved. A failed obligation is reported with an input replayed on the real code where one exists." + (" Bounded, not counted as proved: " + "; ".join(bounded[i]) if i in bounded else ""),
    })
m = {
 "version": 1,
 "setup_cmd": "./build",
 "checks": checks,
 "not_applicable": na,
 "notes": "The verifier is gocv/ (built by ./build), the contracts are contracts/<package>/*.go and are laid over /repo's packages with an overlay, so /repo needs no hooks. Genuine defects repaired or recorded: known-findings.txt.",
}
json.dump(m, open('MANIFEST.json','w'), indent=1); open('MANIFEST.json','a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
