import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
conf=json.load(open(R+'/tools/claims.json'))
ch=[];na=[]
T='contract-based deductive verification of the real code (own verification-condition generator over the LLVM IR of the contract harness linked with the real sources; loop invariants proved inductive; z3, cvc5)'
for p in props:
    i=p['id']
    if i in conf['claimed']:
        c=conf['claimed'][i]
        ch.append({'property':i,'quick_cmd':f'python3-vt engine/run.py {i} --tier quick','thorough_cmd':f'python3-vt engine/run.py {i} --tier thorough',
          'technique':c.get('technique',T),'level':c['level'],'level_note':c['note']})
    else: na.append({'property':i,'reason':conf['na'].get(i,'no check built yet')})
m={'version':1,'setup_cmd':'bash setup.sh','checks':ch,'not_applicable':na}
json.dump(m,open(R+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,S)
print(len(ch),'claimed',len(na),'na')
