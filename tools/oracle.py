# Writes the reference data the analyser compares with (analyzer/oracle/*).
#  cp949.txt  from Python's cp949 codec (the code page, independent of /repo)
#  jamo.txt   from the Unicode character names and decompositions of Python
#  hanja.txt  readings: from the Korean collation of CLDR (Node's ICU) where it
#             has the hanja, and the reference dictionary (the table of the
#             pinned commit) for the others
import re,unicodedata as U,subprocess,os,sys
O=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','analyzer','oracle')
def w(n,lines): open(os.path.join(O,n),'w').write('\n'.join(lines)+'\n')

cp=[]
for n in range(0x8000,0x10000):
    try: s=bytes([n>>8,n&255]).decode('cp949')
    except UnicodeDecodeError: continue
    if len(s)==1: cp.append('%04x %04x'%(n,ord(s)))
w('cp949.txt',cp)

def name(c):
    try: return U.name(chr(c))
    except ValueError: return ''
out=[]
comp={}
for c in range(0x3131,0x3164): comp[name(c).replace('HANGUL LETTER ','')]=c
for kind,pre,lo,hi in (('lead','HANGUL CHOSEONG ',0x1100,0x1112),('medial','HANGUL JUNGSEONG ',0x1161,0x1175),('tail','HANGUL JONGSEONG ',0x11a8,0x11c2)):
    for c in range(lo,hi+1):
        l=name(c).replace(pre,'')
        out.append('%s %04x %04x'%(kind,c,comp[l]))
for l,c in comp.items(): out.append('compat %04x %04x'%(c,c))
# What compound letters are written with.
basic={'KIYEOK':'KIYEOK','NIEUN':'NIEUN','TIKEUT':'TIKEUT','RIEUL':'RIEUL','MIEUM':'MIEUM','PIEUP':'PIEUP','SIOS':'SIOS','CIEUC':'CIEUC','THIEUTH':'THIEUTH','PHIEUPH':'PHIEUPH','HIEUH':'HIEUH'}
vow={'AE':'A I','YAE':'YA I','E':'EO I','YE':'YEO I','WA':'O A','WAE':'O A I','OE':'O I','WEO':'U EO','WE':'U EO I','WI':'U I','YI':'EU I'}
for l,c in comp.items():
    if l.startswith('SSANG'): p=[l[5:]]*2
    elif '-' in l: p=l.split('-')
    elif l in vow: p=vow[l].split()
    else: continue
    out.append('compound %04x %s'%(c,' '.join('%04x'%comp[x] for x in p)))
st=dict(KIYEOK=1,NIEUN=1,TIKEUT=2,RIEUL=3,MIEUM=3,PIEUP=4,SIOS=2,IEUNG=1,CIEUC=3,CHIEUCH=4,KHIEUKH=2,THIEUTH=3,PHIEUPH=4,HIEUH=3,A=2,YA=3,EO=2,YEO=3,O=2,YO=3,U=2,YU=3,EU=1,I=1)
for l,n in st.items(): out.append('stroke %04x %d'%(comp[l],n))
for c in range(0xac00,0xd7a4):
    d=U.normalize('NFD',chr(c))
    out.append('syllable %04x %s'%(c,' '.join('%04x'%ord(x) for x in d)))
# constants
L={'G':'KIYEOK','GG':'SSANGKIYEOK','GS':'KIYEOK-SIOS','N':'NIEUN','NJ':'NIEUN-CIEUC','NH':'NIEUN-HIEUH','D':'TIKEUT','DD':'SSANGTIKEUT','L':'RIEUL','R':'RIEUL','LG':'RIEUL-KIYEOK','LM':'RIEUL-MIEUM','LB':'RIEUL-PIEUP','LS':'RIEUL-SIOS','LT':'RIEUL-THIEUTH','LP':'RIEUL-PHIEUPH','LH':'RIEUL-HIEUH','M':'MIEUM','B':'PIEUP','BB':'SSANGPIEUP','BS':'PIEUP-SIOS','S':'SIOS','SS':'SSANGSIOS','ZS':'IEUNG','NG':'IEUNG','J':'CIEUC','JJ':'SSANGCIEUC','C':'CHIEUCH','K':'KHIEUKH','T':'THIEUTH','P':'PHIEUPH','H':'HIEUH'}
V='A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I'.split()
for n in L:
    if n!='R': out.append('const %s %04x'%(n,ord(U.lookup('HANGUL LETTER '+L[n]))))
for n in V: out.append('const %s %04x'%(n,ord(U.lookup('HANGUL LETTER '+n))))
for n in 'G GG N D DD R M B BB S SS ZS J JJ C K T P H'.split(): out.append('const Lead%s %04x'%(n,ord(U.lookup('HANGUL CHOSEONG '+L[n]))))
for n in V: out.append('const Medial%s %04x'%(n,ord(U.lookup('HANGUL JUNGSEONG '+n))))
for n in 'G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H'.split(): out.append('const Tail%s %04x'%(n,ord(U.lookup('HANGUL JONGSEONG '+L[n]))))
w('jamo.txt',out)

js='''const col=new Intl.Collator("ko",{sensitivity:"base"});
const syl=[];for(let s=0xac00;s<=0xd7a3;s++)syl.push(String.fromCharCode(s));
for(let c=0x2e80;c<0x30000;c++){ if(c>=0xac00&&c<=0xdfff)continue; const ch=String.fromCodePoint(c);
 let lo=0,hi=syl.length-1,f=null;while(lo<=hi){const m=(lo+hi)>>1;const r=col.compare(ch,syl[m]);if(r==0){f=syl[m];break}if(r<0)hi=m-1;else lo=m+1}
 if(f)console.log(c.toString(16)+" "+f);}'''
C={}
for l in subprocess.check_output(['node','-e',js],text=True).splitlines():
    a,b=l.split(); C.setdefault(int(a,16),set()).add(ord(b))
# A compatibility ideograph stands for another reading of its unified one.
for c in list(C):
    if 0xf900<=c<=0xfaff:
        u=U.normalize('NFC',chr(c))
        if len(u)==1 and ord(u)!=c and ord(u) in C: C[ord(u)]|=C[c]
H={}
src=subprocess.check_output(['git','-C','/repo','show',sys.argv[1]+':hanja/table.go'],text=True)
for a,b in re.findall(r'0x(\w+): 0x(\w+),',src): H[int(a,16)]=int(b,16)
lines=[];odd=[]
for k in sorted(H):
    r=[H[k]]
    if k in C:
        if H[k] not in C[k]: odd.append((hex(k),chr(k),chr(H[k]),''.join(map(chr,C[k]))))
        r+=sorted(C[k]-{H[k]})
    lines.append('%04x %s %s'%(k,'k' if k in C else '-',' '.join('%04x'%x for x in r)))
w('hanja.txt',lines)
print(len(H),len([k for k in H if k in C]),len(odd),odd)
print([hex(c) for c in C if c not in H and U.name(chr(c),'').startswith('CJK')])
