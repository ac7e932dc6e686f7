#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from props.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ' Decided for all values within the bounds by Z3 over the LLVM IR of the current sources; shapes and histories are enumerated up to the bounds in the evidence file. Doubles are exact reals (rounding outside the model); libc/libstdc++ binaries are models; every counterexample is replayed on the compiled code before it is reported.'
NA = getattr(props, 'NA', {})
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique='solver-based checking: symbolic execution of the LLVM IR of the real code, decided by Z3', level='model_checking', level_note=(props.PROPS[i].get('bounds') or 'Bounded symbolic execution.') + NOTE) for i in ids if i in props.PROPS],
  not_applicable=[dict(property=i, reason=NA.get(i, 'no check yet')) for i in ids if i not in props.PROPS])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
