"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ('Every feasible path of the compiled code within the bounds is explored and decided by Z3; nothing is sampled. Bounds: %s '
        'Trusted: rustc\'s lowering to LLVM IR, the IR interpreter (sampled paths are compared with native runs), Z3, the oracle in harness/src.')
M = dict(version=1,
         setup_cmd='python3 check.py --setup',
         checks=[dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                      technique='symbolic execution of the compiled LLVM IR of the real code with Z3 deciding branches and assertions',
                      level='model_checking', level_note=NOTE % props.PROPS[i]['bounds']) for i in ids if i in props.PROPS],
         not_applicable=[],
         notes='No hooks in /repo: the harnesses use the public API only. See DESIGN.md.')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
