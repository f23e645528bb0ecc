import json,os
d='/verif/seeded'; rows=[]
for i in sorted(os.listdir(d)):
    m=json.load(open(f'{d}/{i}/meta.json')); rows.append((m['property'],i,m['needs'],m['what_it_breaks']))
rows.sort()
t='| property (its check catches it) | seed | needs | breaks |\n|---|---|---|---|\n'+'\n'.join('| %s | %s | %s | %s |'%r for r in rows)
p='/verif/DESIGN.md'; s=open(p).read()
a,b='<!-- seeds -->','<!-- /seeds -->'
if a in s: s=s[:s.index(a)]+a+'\n'+t+'\n'+b+s[s.index(b)+len(b):]
else: s=s.replace('@@SEEDS@@',a+'\n'+t+'\n'+b)
open(p,'w').write(s)
