import sys, os, subprocess, json, shutil
sys.path.insert(0,'/tmp/seeds')
import importlib
mod = importlib.import_module(sys.argv[1])
only = sys.argv[2:]
W='/tmp/seeds/wt'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
if not os.path.exists(W): sh(f'cp -a /repo {W}')
pre=open('/tmp/seeds/prelude.rs').read()
for s in mod.S:
    if only and s['id'] not in only: continue
    sh(f'cd {W} && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null; cd {W} && git reset -q --hard $(git -C /repo rev-parse HEAD)')
    ok=True
    d=f'/tmp/seeds/out/{s["id"]}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/demo.rs','w').write(('' if s.get('raw') else pre)+'\n'+s['demo'].strip()+'\n')
    open(d+'/demo.sh','w').write(s.get('sh') or open('/tmp/seeds/demo.sh').read())
    for (n,c) in s.get('files',{}).items(): open(d+'/'+n,'w').write(c)
    r0=sh(f'cd {W} && bash {d}/demo.sh')
    for (f,old,new) in s['edits']:
        p=f'{W}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT count',t.count(old),old[:60]); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    diff=sh(f'cd {W} && git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    t=sh(f'cd {W}/ && CARGO_TARGET_DIR={W}/target RUSTUP_TOOLCHAIN=nightly-2025-10-03 cargo test --offline --workspace 2>&1 | grep -E "^test result|FAILED|failed|error" | sort | uniq -c')
    r1=sh(f'cd {W} && bash {d}/demo.sh')
    bad = 'FAILED' in t.stdout or 'error' in t.stdout
    good = r0.returncode==0 and r1.returncode not in (0,3) and not bad
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    print(s['id'],s['prop'],'OK' if good else 'BAD','clean',r0.returncode,'patched',r1.returncode, '' if good else r0.stdout[-600:]+r1.stdout[-600:]+t.stdout[-600:])
    if good:
        dd=f'/verif/seeded/{s["id"]}'; shutil.rmtree(dd,ignore_errors=True); shutil.copytree(d,dd)
    sh(f'cd {W} && git checkout -q -- .')
