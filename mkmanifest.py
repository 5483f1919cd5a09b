#!/usr/bin/env python3
# Writes MANIFEST.json: every check of `polcheck list` is claimed, everything else in properties.jsonl is not applicable.
import json,subprocess,os
d=os.path.dirname(os.path.abspath(__file__))
subprocess.check_call([d+'/run.sh','build'])
ids=[l.split()[0] for l in subprocess.check_output([d+'/bin/polcheck','list'],text=True).splitlines()]
T='abstract interpretation of the SSA form (gated value-numbering dataflow)'
tech={
'C01':T+': facts at accepting returns, per layer',
'C02':T+': algebraic dependence of the accepted equations on every input',
'C03':T+': what every challenge digest absorbs',
'C04':T+': digest terms at constructor exits',
'C05':'effect analysis: in-place mutations reaching arguments or shared objects',
'C06':T+': committed vector versus stored vertex at the database write',
'C07':T+': alias and write-through analysis of the root cache',
'C08':T+': path length and element bounds at returns',
'C09':T+': sign facts at accepting returns; effects dominated by the refusal',
'C10':T+': symbolic composition of encoder and decoder',
'C11':'provenance dataflow of random draws',
'C12':'taint dataflow of the setup trapdoor',
'C13':T+': inputs of hash-to-group derivations',
'C14':T+': bounds of index and slice expressions; vector lengths at accepting returns',
'C15':'typestate and lockset analysis of spawned goroutines',
'C16':T+': length facts at normal returns, full-range use of operands',
'C17':'effect analysis of read operations; absence flag facts',
'C18':T+': aggregation coefficients as functions of the position, compared symbolically',
'C19':T+': calls of the update callback and the recurrence of the walk that makes them',
'C20':T+': emitted stream content; use of write errors',
'C21':'order-sensitivity analysis of map iterations',
'C22':'dataflow from forbidden sources into verdicts',
'C23':'error-result dataflow at every call site',
'C24':T+': keys of new vertices as a recurrence along the path, split back into parent and index',
'C25':T+': prover and verifier in one abstract state, arguments of component provers and verifiers compared element by element',
'C26':T+': witnesses of component provers compared element by element with the vertex they are about',
'C29':T+': the walk of a lookup as a recurrence, records of the vertices it yields by position, arguments and must-calls of recording',
'C34':T+': result at a generic position in polynomial normal form compared with the named value; sums as recurrences of one term per position',
'C35':T+': results and accepted equations in polynomial normal form compared with the scheme, sums term by position',
'C36':T+': prover and verifier in one abstract state, statements handed on compared as polynomials with sums over positions as monomials',
'C28':T+': prover and verifier of each argument in one abstract state, transcripts compared piece by piece',
'C27':T+': generators and sizes of generated parameters compared position by position',
}
assume='Assumes the math library, Go standard library and compiler behave as their documented effects (modelled by a table). Decides the structural property for every input, loop count and schedule the abstraction covers; constructs the analysis cannot resolve are resolved in favour of the code.'
na={
'C30':'an algebraic identity between prover and verifier over the run-time values of every history; no shape of the code decides it for a whole proof of a tree (the decomposition into bits, the folding rounds and the final equation of a range proof are out of reach). Parts are claimed in C06, C07, C10, C16, C19 and, for the algebra of the arguments one by one, in C36.',
'C31':'quantifies over all efficient adversaries; not visible in the shape of code. Structural necessary conditions are claimed in C01-C03, C11-C14 and C18.',
'C32':'there is no recovery path or transaction in the code whose shape could be checked; the property needs crash histories.',
'C33':'quantifies over run-time magnitudes of sums that no static argument in reach can bound. That no single amount passes through a narrower type is claimed in C29.',
}
props=[json.loads(l) for l in open(d+'/properties.jsonl')]
m={'version':1,'setup_cmd':'./run.sh build','checks':[],'not_applicable':[],
 'notes':'All checks are one static analyser (polcheck). Nothing of /repo is executed. No hooks in /repo; its fix: commits are listed in known-findings.txt.'}
notes={}
try: notes=json.load(open(d+'/levelnotes.json'))
except FileNotFoundError: pass
for p in props:
    i=p['id']
    if i in ids:
        m['checks'].append({'property':i,'quick_cmd':'./run.sh '+i,'thorough_cmd':'./run.sh '+i,'technique':tech[i],'level':'other','level_note':(notes.get(i,'')+' '+assume).strip()})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'no check built yet')})
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open(d+'/MANIFEST.json','a').write('\n')
