"""writes MANIFEST.json"""
import json
props = [json.loads(l) for l in open('properties.jsonl')]
NOTE = {
 'default': 'symbolic execution of the LLVM IR of the C++ sources (rebuilt from /repo on every run) and of sacf/*.py over exact reals with NaN and infinities; z3 decides every branch and assertion for all values within the stated sizes; in scenarios named rounded-* doubles are affine forms with every rounding error a solver variable, elsewhere rounding is outside the claim; counterexamples are replayed on a real build',
}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique='symbolic execution of the compiled C++ and the Python code, decided by z3, counterexamples replayed', level='model_checking',
                       level_note=NOTE.get(i, NOTE['default'])))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[]), open('MANIFEST.json', 'w'), indent=1)
