# planted-bug table of DESIGN.md from a log of check runs ("id check exit=1 5s ...", last entry per id counts)
import sys,os
rows={}
for l in open(sys.argv[1]):
    w=l.split()
    if len(w)>3 and w[2].startswith('exit='): rows[w[0]]=(w[1],w[2][5:],w[3])
have=sorted(os.listdir('/verif/seeded'))
out=['| planted bug | check | reported | time |','|---|---|---|---|']
for i in have:
    c,x,t=rows.get(i,(i[:3],'?','-'))
    out.append('| %s | %s | %s | %s |'%(i,c,{'1':'yes','0':'no'}.get(x,x),t))
open('/verif/tools/design/table.md','w').write('\n'.join(out)+'\n')
print(len(have),'bugs; not reported or not run:',[i for i in have if rows.get(i,('','',''))[1]!='1'])
