import json,os
d='/verif/'
head=open('/verif/tools/design_head.md').read()
seeds=[]
for i in sorted(os.listdir(d+'seeded')):
    m=json.load(open(f'{d}seeded/{i}/meta.json'))
    seeds.append((m['property'],i,m['needs']))
seeds.sort()
t='| property | change | needs |\n|---|---|---|\n'+''.join(f'| {p} | {i} | {n} |\n' for p,i,n in seeds)
open(d+'DESIGN.md','w').write(head.replace('@@SEEDS@@',t).replace('@@NSEEDS@@',str(len(seeds))))
