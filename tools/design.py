"""fills the generated parts of DESIGN.md from DESIGN.in.md"""
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k=json.load(open(here+'/known-findings.json'))
s=open(here+'/DESIGN.in.md').read()
s=s.replace('FIXCOUNT',str(len({x.split()[2] for x in k['fixed']})))
s=s.replace('FINDINGS','\n'.join('* **%s** `%s` — %s'%(x['property'],x['key'],x['what']) for x in k['findings']))
rows=['| id | property | needs | caught by |','|---|---|---|---|']
hits=json.load(open(here+'/tools/seed/hits.json')) if os.path.exists(here+'/tools/seed/hits.json') else {}
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),hits.get(i,'')))
s=s.replace('SEEDTABLE','\n'.join(rows))
open(here+'/DESIGN.md','w').write(s)
