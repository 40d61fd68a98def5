import subprocess,sys,re,itertools,os,pickle
from concurrent.futures import ProcessPoolExecutor
names=[n for n in open('names.txt').read().split()]
names=sorted(set(n.lower() for n in names))
MEM={'m8':'byte','m16':'word','m32':'dword','m48':'fword','m64':'qword','m80':'tbyte','m128':'xmmword','m256':'ymmword','m512':'zmmword'}
REG={'r8':'bl','r16':'bx','r32':'ebx','r64':'rbx','mm':'mm3','x':'xmm3','y':'ymm3','z':'zmm3','k':'k3','sreg':'ds','cr':'cr3','dr':'dr3','st':'st','sti':'st(3)',
 'al':'al','ax':'ax','eax':'eax','rax':'rax','cl':'cl','dx':'dx','1':'1','i8':'5','i16':'300','i32':'70000','i64':'0x123456789a','bnd':'bnd1'}
def t(k,mode):
    base={16:'[si]',32:'[esi]',64:'[rsi]'}[mode]
    if k=='m': return base
    if k in MEM: return MEM[k]+' ptr '+base
    return REG[k]
def run(job):
    mode,stmts=job
    fn='/dev/shm/e%d.s'%os.getpid()
    with open(fn,'w') as f:
        f.write('.intel_syntax noprefix\n.code%d\n'%mode)
        for n,ks in stmts: f.write(n+' '+', '.join(t(k,mode) for k in ks)+'\n')
    p=subprocess.run(['as','--64' if mode==64 else '--32','-o','/dev/null',fn],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
    bad=set(int(m.group(1)) for m in re.finditer(rb':(\d+): Error',p.stderr))
    os.unlink(fn)
    return mode,[s for i,s in enumerate(stmts) if i+3 not in bad], len(bad)
K2=list(MEM)+['m']+list(REG)
V=['x','y','z','k','mm']
M=['m8','m16','m32','m64','m128','m256','m512','m']
K3a=['r16','r32','r64','x','y','z','k','mm','m8','m16','m32','m64','m128','m256','m512','bnd']
K3b=['r16','r32','r64','x','y','z','k','mm']+M
K3c=['r16','r32','r64','x','y','z','k','mm','i8','i16','i32','cl','eax','rax']+M
def all_(mode,n):
    bad={64:set()}.get(mode,{'r64','rax','i64'})
    f=lambda l:[k for k in l if k not in bad]
    for _ in (1,):
        yield n,()
        for a in f(K2): yield n,(a,)
        for a in f(K2):
            for b in f(K2): yield n,(a,b)
        for a in f(K3a):
            for b in f(K3b):
                for c in f(K3c):
                    if sum(x[0]=='m' and x!='mm' for x in (a,b,c))<2: yield n,(a,b,c)
        if n[0]=='v':
            for a in V[:4]+['m64','m128']:
                for b in V[:4]+['m128']:
                    for c in ['x','y','z','r32','r64','i8']+M:
                        for d in ['i8','x','y','z','m128','m256','m512','m32','m64']:
                            if sum(q[0]=='m' for q in (a,b,c,d))<2:
                                if 'r64' in (a,b,c,d) and mode!=64: continue
                                yield n,(a,b,c,d)
        elif n in('insertq','extrq'):
            yield n,('x','x','i8','i8'); yield n,('x','i8','i8')

def work(j):
    mode,n=j
    return run((mode,list(all_(mode,n))))
if __name__=='__main__':
    res={64:[],32:[],16:[]}
    js=[(m,n) for m in (64,32,16) for n in names]
    with ProcessPoolExecutor(8) as ex:
        for i,(m,ok,nb) in enumerate(ex.map(work,js,chunksize=4)):
            res[m]+=ok
            if i%50==0: print(i,len(js),{k:len(v) for k,v in res.items()},flush=True)
    pickle.dump(res,open('gasforms.pkl','wb'))
    print({k:len(v) for k,v in res.items()})
