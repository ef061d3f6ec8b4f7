"""turn a case text (pda(...){...} init=aut{...} final=aut{...}) into C++ literals for a demo"""
import re,sys
t=sys.stdin.read()
m=re.search(r'pda\(states=(\d+),labels=(\d+)\)\{(.*?)\}\s',t+' ')
n,k,rs=int(m[1]),int(m[2]),m[3]
ops=dict(push='oPUSH',pop='oPOP',swap='oSWAP',noop='oNOOP')
out=[f"    RPda p; p.n = {n}; p.m = {k};"]
for r in rs.split(';'):
    r=r.strip()
    if not r: continue
    q=re.match(r'(\d+)<(.*?)>->(\d+):(\w+)(?: (\d+))?(?: w=(-?\d+))?$',r)
    wild=q[2]=='*'
    out.append(f"    p.rules.push_back({{{q[1]}, {{{'' if wild else q[2]}}}, {'true' if wild else 'false'}, {q[3]}, {ops[q[4]]}, {q[5] or 0}, {q[6] or 0}}});")
for nm,a in re.findall(r'(init|final|aut)=aut\{(.*?)\}',t):
    es,acc=a.split('acc:'); acc=[x for x in acc.split(',') if x]
    edges=re.findall(r'(\d+)-(\d+)->(\d+)',es)
    mx=max([n-1]+[int(x) for e in edges for x in (e[0],e[2])]+[int(x) for x in acc])
    v='a_'+nm
    out.append(f"    RAut {v}; {v}.n = {mx+1}; {v}.acc.assign({mx+1}, 0);"+''.join(f" {v}.acc[{x}] = 1;" for x in acc)+f" {v}.edges = {{"+', '.join('{%s,%s,%s}'%e for e in edges)+"};")
print('\n'.join(out))
