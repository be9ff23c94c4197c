import json, jsonschema, os
T='exhaustive bounded exploration of the real code (stateless choice-tree enumeration) against a reference model'
FLAT='exhaustive enumeration of the input space on the real code against a reference model'
BFS='explicit-state breadth-first search over operation histories of the real objects in lockstep with a reference model'
GEN='exhaustive enumeration of programs up to a bound, compiled with the real macros and executed against a reference machine'
A='Exhaustive within the stated alphabets and bounds (listed in the evidence file); trusts the reference model in /verif/mc/src and the hash primitives.'
C={}
def c(i,tech,note): C[i]=(tech,note)
exec(open('/verif/tools/claims.py').read())
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd='bash /verif/check.sh build',
 checks=[dict(property=i,quick_cmd=f'bash /verif/check.sh {i} quick',thorough_cmd=f'bash /verif/check.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique=C[i][0],level='model_checking',level_note=C[i][1]) for i in ids if i in C],
 not_applicable=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in C],
 notes='Every check rebuilds from the current /repo working tree (content hash, not modification times). Known findings: known_findings.txt. No hooks in /repo are needed: everything is judged through the public API.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
if os.path.exists('/root/.vp/MANIFEST.schema.json'): jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']),'claimed',[x['property'] for x in m['not_applicable']])
