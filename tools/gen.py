#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, subprocess
def F(*f): return ["src/"+x for x in f]
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,level_note,technique="explicit-state exploration of the real code (BFS, all operation sequences)",state=None,observe=None,hook=None,na=None):
    P.append(dict(id=id,title=title,statement=stmt,over=over,qtext=qtext,why=why,files=files,mech=mech,level_note=level_note,technique=technique,state=state or [],observe=observe or [],hook=hook,na=na))
HOOK="cfg(sequential_storage_verif): Clone/Hash on storages and caches, to snapshot and de-duplicate states"
NOTE="Exhaustive within the stated worlds (geometry, alphabet, crash/fault budget): every reachable state is expanded with the real library; almost all worlds are closed (frontier exhausted). Trusts the simulated NOR flash and the reference model."
exec(open(__file__.replace('gen.py','props.py')).read())
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        f.write(json.dumps(dict(id=x['id'],title=x['title'],statement=x['statement'],quantifier=dict(over=x['over'],text=x['qtext']),why_tests_cant=x['why'],
            anchors=dict(files=x['files'],state=x['state'],mechanism=[dict(name=a,where=b) for a,b in x['mech']],observe_at=x['observe'],hook_needed=x['hook'])))+"\n")
hooks=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if 'verif hook' in l]
m=dict(version=1,setup_cmd="bash setup.sh",
  hooks=dict(guard="cfg(sequential_storage_verif)",enable='RUSTFLAGS="--cfg sequential_storage_verif" (set by build_env.sh, which check.sh sources)',source_commits=hooks),
  checks=[dict(property=x['id'],quick_cmd=f"bash check.sh {x['id']} quick",thorough_cmd=f"bash check.sh {x['id']} thorough",evidence_file=f"evidence/{x['id']}.json",technique=x['technique'],level="model_checking",level_note=x['level_note']) for x in P if not x['na']],
  not_applicable=[dict(property=x['id'],reason=x['na']) for x in P if x['na']],
  notes="All checks explore the library itself; the reference model is only the oracle. DESIGN.md describes worlds and bounds; known-findings.txt lists the defects found (all repaired).")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(P),'properties',len(m['checks']),'checks')
