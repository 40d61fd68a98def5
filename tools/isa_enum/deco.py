import sys,pickle,subprocess,re,os
sys.path.insert(0,'/verif')
from concurrent.futures import ProcessPoolExecutor
import enumf
res=pickle.load(open('gasforms.pkl','rb'))
MEM=enumf.MEM
def txt(form,mode,hi=0):
    name,ks,deco=form
    ops=[]
    for k in ks:
        if k[:2]=='vm':
            idx={'x':'xmm','y':'ymm','z':'zmm'}[k[2]]
            ops.append(MEM['m'+k[3:]]+' ptr [%s+%s2*4+64]'%({64:'rsi',32:'esi',16:'esi'}[mode],idx)); continue
        s=enumf.t(k,mode)
        if hi and k in('x','y','z'): s=s[:3]+'19'
        ops.append(s)
    for d in deco:
        if d=='k': ops[0]+='{k1}'
        elif d=='kz': ops[0]+='{k1}{z}'
        elif d[0]=='b':
            el=d[1:].split('x')[0]
            i=[j for j,k in enumerate(ks) if k in MEM][0]
            ops[i]=MEM['m'+el]+' bcst '+ops[i][ops[i].index('ptr ')+4:]
        else:
            j=len(ops)
            while j and ks[j-1]=='i8': j-=1
            ops[j-1]+=', {%s}'%d
    return name+' '+', '.join(ops)
def gas(job):
    mode,texts=job
    fn='/dev/shm/d%d.s'%os.getpid()
    open(fn,'w').write('.intel_syntax noprefix\n.code%d\n'%mode+'\n'.join(texts)+'\n')
    p=subprocess.run(['as','--64' if mode==64 else '--32','-o','/dev/null',fn],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
    bad=set(int(m.group(1)) for m in re.finditer(rb':(\d+): Error',p.stderr))
    os.unlink(fn)
    return [i+3 not in bad for i in range(len(texts))]
def gasall(mode,texts):
    ch=[texts[i:i+5000] for i in range(0,len(texts),5000)]
    with ProcessPoolExecutor(8) as ex: return [x for l in ex.map(gas,[(mode,c) for c in ch]) for x in l]
if __name__=='__main__':
    out={}
    VEC={'x','y','z'}
    for mode in (64,32,16):
        forms=[(n,k,()) for n,k in res[mode]]
        # vsib
        vs=[n for n in enumf.names if 'gather' in n or 'scatter' in n]
        for n in vs:
            for v in 'xyz':
                for el in ('32','64','128','256','512'):
                    for d in 'xyz':
                        forms.append((n,(d,'vm'+v+el,d),()))
                        forms.append((n,(d,'vm'+v+el),('k',)))
                        forms.append((n,('vm'+v+el,d),('k',)))
                    forms.append((n,('vm'+v+el,),('k',)))
        cand=[]
        for f in forms:
            n,ks,d=f
            if d or n[0]!='v': continue
            if not any(k in VEC for k in ks): continue
            cand.append((n,ks,('k',))); 
            if ks and (ks[0] in VEC): cand.append((n,ks,('kz',)))
            mi=[j for j,k in enumerate(ks) if k in MEM]
            if mi:
                for el in('16','32','64'):
                    for cnt in(2,4,8,16,32):
                        if int(el)*cnt in (128,256,512) or int(el)*cnt==64:
                            bd='b%sx%d'%(el,cnt)
                            for kk in ((),('k',),('kz',)): cand.append((n,ks,kk+(bd,)))
            else:
                for r in('sae','rn-sae','rd-sae','ru-sae','rz-sae'):
                    for kk in ((),('k',),('kz',)): cand.append((n,ks,kk+(r,)))
        allf=forms+cand
        ok=gasall(mode,[txt(f,mode) for f in allf])
        acc=[f for f,o in zip(allf,ok) if o]
        if mode==64:
            hi=gasall(64,[txt(f,64,1) for f in acc]); ev={f for f,h in zip(acc,hi) if h and any(k in VEC or k[:2]=='vm' for k in f[1])}
        for f in acc: out.setdefault(f,[]).append(mode)
        print(mode,len(forms),len(allf),len(acc))
    pickle.dump((out,ev),open('forms1.pkl','wb'))
