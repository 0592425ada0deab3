#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the explorers that exist."""
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bfs={'C08','C15'}
notes={
 'C01':'every pair of operands within the bounds, every operator form, executed on the real code in lockstep with the exact term-map model',
 'C02':'as C01 for products, scalars and powers',
 'C03':'all dividends x all divisors up to a length over GF(2), GF(3), GF(5), GF(7) and rationals (unique q and r), integers and floats within bounds',
 'C13':'all products of linear/quadratic factors over a root grid up to a degree; numeric accuracy is judged with a tolerance',
}
checks=[];na=[]
for l in open(os.path.join(root,'properties.jsonl')):
    p=json.loads(l); i=p['id']
    h='harness_nightly' if i=='C16' else 'harness'
    if not os.path.exists(f'{root}/{h}/src/bin/{i.lower()}.rs'):
        na.append(dict(property=i,reason='the explorer for this property is not built yet'))
        continue
    checks.append(dict(property=i,quick_cmd=f'bash run_check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough bash run_check.sh {i}',
      technique='explicit-state model checking: '+('breadth-first search over operation sequences of the real objects in lockstep with a term-map model' if i in bfs else 'exhaustive enumeration of bounded operand/operation spaces on the real code, in lockstep with a term-map model'),
      level='model_checking',
      level_note=notes.get(i,'exhaustive within the bounds listed in the evidence; every transition is executed by the real code and compared with an independent model')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na)
if os.path.exists(f'{root}/harness_nightly'):
    c=subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^hook:'],capture_output=True,text=True).stdout.split()
    m['hooks']=dict(guard='rustc cfg rustnomial_verif (together with cargo feature array_polynomials)',enable='RUSTFLAGS="--cfg rustnomial_verif" cargo +nightly build, in harness_nightly (only C16)',source_commits=c)
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); print(len(checks),'checks')
