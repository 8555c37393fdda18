#!/usr/bin/env python3
"""usage: run.py FILE.py [ids...]   builds /verif/seeded/<id> from plant descriptions and validates each."""
import sys, os, json, subprocess, importlib.util, re, time
def sh(cmd, timeout=900, env=None, cwd=None):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
DEMO=open('/verif/tools/plant_demo.sh').read()
FULL=open('/verif/tools/plant_demo_full.sh').read()
def clean(): sh('git -C /repo checkout -- .')
def main():
    spec=importlib.util.spec_from_file_location('p',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want=sys.argv[2:]
    base=json.load(open('/opt/vp/BASELINE.json'))
    ps=[p for p in m.P if not want or p['id'] in want]
    rc,o=sh('git -C /repo status --porcelain'); assert not o.strip(), o
    # pass 1: demos quiet on the clean tree
    sh('bash /opt/vp/build.sh')
    for p in ps:
        d='/verif/seeded/'+p['id']; os.makedirs(d,exist_ok=True)
        open(d+'/demo.sh','w').write(FULL if p.get('full') else DEMO)
        if p.get('full'):
            for n in ('gribberish','readap'): open(f'{d}/{n}.rs','w').write(open(f'/verif/stubs/{n}/src/lib.rs').read())
        os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo.rs','w').write(p['demo'].lstrip('\n'))
        json.dump({"property":p['prop'],"needs":p['needs'],"what_it_breaks":p['breaks']},open(d+'/meta.json','w'),indent=1)
        rc,o=sh(f'bash {d}/demo.sh',cwd='/repo')
        p['ok']=True
        if rc!=0: print(p['id'],'DEMO FAILS ON CLEAN',rc,o[-1500:],flush=True); p['ok']=False
    for p in ps:
        d='/verif/seeded/'+p['id']; t=time.time()
        try:
            for f,old,new in p['edits']:
                path='/repo/'+f; s=open(path).read()
                if s.count(old)!=1:
                    print(p['id'],'EDIT MATCHES',s.count(old),f,flush=True); p['ok']=False; break
                open(path,'w').write(s.replace(old,new))
            if not p['ok']: continue
            rc,o=sh('git -C /repo diff'); open(d+'/patch.diff','w').write(o)
            rc,o=sh('bash /opt/vp/build.sh')
            if rc: print(p['id'],'BUILD FAILS',o[-1500:],flush=True); continue
            rc,o=sh('bash /opt/vp/test.sh /tmp/plants/out.json')
            out=json.load(open('/tmp/plants/out.json'))
            bad=cmp(base,out)
            if bad: print(p['id'],'TESTS FAIL',bad,flush=True); continue
            rc,o=sh(f'bash {d}/demo.sh',cwd='/repo')
            if rc==0 or rc==97: print(p['id'],'DEMO',rc,o[-800:],flush=True); continue
            rc2,o2=sh(f'./check.sh {p["prop"]}',cwd='/verif',env={'VERIF_SEED':'1','VERIF_TIER':'quick'})
            v=[l for l in o2.splitlines() if l.startswith('VIOLATION')]
            caught=rc2==1 and any(f'property={p["prop"]} ' in l+' ' for l in v)
            print(p['id'],'CAUGHT' if caught else f'MISSED rc={rc2} {o2[-300:]}',f'demo rc={rc}',f'{time.time()-t:.0f}s',flush=True)
        finally: clean()
    sh('bash /opt/vp/build.sh')
def cmp(base,out):
    def passed(x):
        if 'passed' in x and isinstance(x['passed'],list): return set(x['passed'])
        if 'tests' in x: x=x['tests']
        return {k for k,v in x.items() if v in ('passed','pass',True)}
    b=passed(base) if 'stable' not in base else set(base['stable'])
    return sorted(b-passed(out))
main()
