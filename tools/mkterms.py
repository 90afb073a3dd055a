#!/usr/bin/env python3
"""Dev-time generator: sim/src/terms.rs and sim/terminfo/ from the installed terminfo database (infocmp, tic)."""
import subprocess,os,re,sys
OUT='/verif/sim/terminfo'
subprocess.run(['tic','-o',OUT,os.path.dirname(os.path.abspath(__file__))+'/custom.ti'],check=True)
os.environ['TERMINFO_DIRS']='/etc/terminfo:/lib/terminfo:/usr/share/terminfo:'+OUT
terms=['xterm','xterm-256color','linux','screen-256color','tmux-256color','rxvt-unicode-256color','rxvt','dumb','vt220','xterm-sim','sim-mini','sim-noclear']
keys=[('kcuu1','Up'),('kcud1','Down'),('kcub1','Left'),('kcuf1','Right'),('khome','Home'),('kend','End'),('knp','PageDown'),('kpp','PageUp'),('kdch1','Delete'),('kich1','Insert')]+[('kf%d'%i,'F%d'%i) for i in range(1,13)]
caps=['bold','sitm','rev','smul','setaf','setab','smkx','rmkx','smcup','rmcup','csr','home','cup','clear','el','ed','cuu1','cuu','cud','cub1','cub','cuf1','cuf','civis','cnorm','sgr0']
def unesc(s):
    out=bytearray();i=0
    while i<len(s):
        c=s[i]
        if c=='\\':
            i+=1;c=s[i]
            if c in 'Ee': out.append(27)
            elif c=='n': out.append(10)
            elif c=='r': out.append(13)
            elif c=='t': out.append(9)
            elif c=='b': out.append(8)
            elif c=='s': out.append(32)
            elif c=='0' and not s[i+1:i+3].isdigit(): out.append(0)
            elif c.isdigit(): out.append(int(s[i:i+3],8)&255); i+=2
            else: out.append(ord(c))
        elif c=='^':
            i+=1; out.append(127 if s[i]=='?' else ord(s[i])&31)
        else: out.append(ord(c))
        i+=1
    return bytes(out)
rs=['// generated by tools/mkterms.py from the installed terminfo database','use crate::scen::K;','pub struct Term { pub name: &\'static str, '+', '.join('pub %s: bool'%c for c in caps)+', pub keys: &\'static [(&\'static [u8], K)] }','impl Term { pub fn xterm(&self)->bool { self.name=="xterm"||self.name.starts_with("xterm-") } }','pub static TERMS: &[Term] = &[']
for t in terms:
    r=subprocess.run(['infocmp','-1',t],capture_output=True,text=True)
    assert r.returncode==0,t
    src=r.stdout
    d={}
    for l in src.splitlines()[2 if src.startswith('#') else 1:]:
        l=l.strip().rstrip(',')
        if '=' in l and '#' not in l.split('=')[0]:
            k,v=l.split('=',1); d[k]=v
    for c in caps:
        assert '$<' not in d.get(c,''),(t,c,d[c])
    os.makedirs(OUT+'/'+t[0],exist_ok=True)
    p='/tmp/_ti.src'; open(p,'w').write(src)
    subprocess.run(['tic','-o',OUT,p],check=True)
    ks=[]
    for cap,name in keys:
        if cap in d:
            b=unesc(d[cap]); assert all(x<128 for x in b)
            n='K::F(%s)'%name[1:] if re.match(r'F\d',name) else 'K::'+name
            ks.append('(b"%s", %s)'%(''.join('\\x%02x'%x for x in b),n))
    rs.append('Term { name: "%s", %s, keys: &[%s] },'%(t,', '.join('%s: %s'%(c,'true' if c in d else 'false') for c in caps),', '.join(ks)))
    print(t,{c:d.get(c) for c in ['clear','ed','el','cup','home','cud','cub1','smcup','rmcup','smkx','rmkx','csr','sgr0','rmul','cnorm','civis']})
rs.append('];')
open('/verif/sim/src/terms.rs','w').write('\n'.join(rs)+'\n')
