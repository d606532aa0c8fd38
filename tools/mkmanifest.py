"""Regenerate MANIFEST.json from properties.jsonl, settings.json and the contract modules present."""
import json, os
V = '/verif'
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
S = json.load(open(f'{V}/settings.json'))
checks = []
for p in props:
    i = p['id']
    cfg = S['props'].get(i, {})
    proved = os.path.exists(f"{V}/contracts/{i.lower()}.py")
    note = cfg.get('note', '')
    if proved:
        tech = "contracts on the real Python code, obligations generated from /repo's source on every run and discharged by z3/cvc5"
        lvl = 'proof'
        text = (note + " " if note else "") + ("Functions outside the contracts (" + cfg['bounded'] + ") are covered by a bounded randomised contract check, not counted as proved. " if cfg.get('bounded') else "") + "Trusted: the VC generator pyvc, its models of the built-ins, and the assumptions listed in the evidence."
    else:
        tech = "executable contracts evaluated on the real code (bounded stand-in for the deductive check)"
        lvl = 'other'
        text = "Bounded: " + (note or "randomised evaluation of the contract on the real functions; nothing is proved.")
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                       technique=tech, level=lvl, level_note=text))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo. Repairs are the 'fix:' commits listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
