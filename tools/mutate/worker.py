import json,os,subprocess,sys,shutil,fcntl,time
k=int(sys.argv[1]); W=int(sys.argv[2]); LIST=sys.argv[3]; OUT=sys.argv[4]
base=f'/tmp/mut/w{k}'
cpus=f'{2*k}-{2*k+1}'
def sh(cmd,cwd,env,timeout):
    try:
        p=subprocess.run(['taskset','-c',cpus]+cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors='replace',timeout=timeout)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return None,''
if not os.path.isdir(base):
    os.makedirs(base)
    subprocess.run(['git','clone','-q','/repo',base+'/repo'],check=True)
    for f in ('Cargo.lock',):
        if os.path.exists('/repo/'+f): shutil.copy('/repo/'+f,base+'/repo/'+f)
    shutil.copytree('/verif/harness',base+'/harness')
    t=open(base+'/harness/Cargo.toml').read().replace('path = "/repo"',f'path = "{base}/repo"')
    t=t.replace('[profile.dev]\nopt-level = 1','[profile.dev]\nopt-level = 0\n[profile.dev.package."*"]\nopt-level = 1\n[profile.dev.package.rdf-types]\nopt-level = 0\n[profile.dev_]'.replace('\n[profile.dev_]','')) if False else t
    open(base+'/harness/Cargo.toml','w').write(t)
env=dict(os.environ); env.pop('RUSTFLAGS',None)
env.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTFLAGS='--cap-lints=warn -Awarnings',CARGO_BUILD_JOBS='3')
er=dict(env,CARGO_TARGET_DIR=base+'/tr',CARGO_INCREMENTAL='1')
eh=dict(env,CARGO_TARGET_DIR=base+'/th',CARGO_INCREMENTAL='1')
ORDER={
 'pattern/quad':['C10','C04','C05','C06','C17','C22'],'pattern/triple/map':['C12'],'pattern/triple':['C11','C10','C12','C04'],'pattern/resource':['C10'],
 'impl/indexed_btree_dataset':['C01','C02','C03','C04','C06','C05','C07','C21','C22','C17','C14','C20'],'impl/btree_dataset':['C01','C02','C07','C21','C22','C17','C20'],
 'graph/impl':['C01','C02','C03','C04','C07','C21','C22','C17','C20'],'isomorphism':['C09','C08'],'quad.rs':['C25','C15','C14','C16'],'triple.rs':['C25','C15','C14','C16'],
 'dataset/':['C22','C01','C04','C07'],'blankid':['C13','C14','C15','C16','C17'],'literal':['C15','C16','C14','C17'],'interpretation':['C19','C18'],'generator':['C18','C19'],'display':['C14'],'term':['C15','C16','C14','C17'],'id':['C15','C16','C14','C17'],'utils':['C04','C05'],'macro':['C23'],
}
ALL=['C%02d'%i for i in range(1,26) if i!=24]
import re
muts=json.load(open(LIST))
for n,m in enumerate(muts):
    if n%W!=k: continue
    rel,line,op,old,new=m
    path=base+'/repo/'+rel
    subprocess.run(['git','-C',base+'/repo','checkout','-q','--','.'])
    src=open(path).read().split('\n')
    assert src[line-1]==old,(rel,line)
    src[line-1]=new
    open(path,'w').write('\n'.join(src))
    t0=time.time(); res=None; kill=None
    rc,_=sh(['cargo','check','--offline','--quiet','--features','contextual,serde'],base+'/repo',er,200)
    if rc!=0: res='nocompile'
    else:
        rc,_=sh(['cargo','test','--offline','--quiet','--features','contextual,serde'],base+'/repo',er,240)
        if rc is None: res='tests-timeout'
        elif rc!=0: res='tests'
        else:
            bins=['--bin','monitor','--bin','macros'] if 'macro.rs' in rel or rel in('src/quad.rs','src/triple.rs') else ['--bin','monitor']
            rc,_=sh(['cargo','build','--offline','--quiet']+bins,base+'/harness',eh,600)
            if rc!=0: res='harness-nobuild'
            else:
                order=[]
                for key,v in ORDER.items():
                    if key in rel: order=v; break
                order=order+[p for p in ALL if p not in order]
                res='survived'
                for div in (10,1):
                    for p in order:
                        if p=='C23':
                            if 'macros' not in bins: continue
                            rc,out=sh([base+'/th/debug/macros'],base,env,60)
                        else:
                            if div==1 and p=='C20' : continue
                            rc,out=sh([base+'/th/debug/monitor',p,'--div',str(div),'--out',base+'/ev','--replays',base+'/rp','--cap','120'],base,env,300)
                        if rc!=0:
                            res='killed'; kill=f'{p}/{div}' + ('' if rc==1 else f' rc={rc}'); break
                    if res=='killed': break
    with open(OUT,'a') as f:
        fcntl.flock(f,fcntl.LOCK_EX)
        f.write(json.dumps([res,kill,round(time.time()-t0),*m])+'\n')
