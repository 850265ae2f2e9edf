# Rewrites the generated sections of DESIGN.md (between the markers) from spec/, claimed.json, seeded/, known-findings.json.
import json,glob,re,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed=json.load(open(root+'/tools/claimed.json'))
caught=json.load(open(root+'/tools/caught.json'))
how=json.load(open(root+'/tools/how.json'))
titles={}
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
fn={i:{} for i in titles}; trusted={i:set() for i in titles}
for f in sorted(glob.glob(root+'/spec/*.spec')):
    cur=None
    for l in open(f):
        m=re.match(r'func (.*?)\(([^()]*)\) *(\(.*\))?\s*$',l)
        if l.startswith('func '):
            cur=m.group(1) if m else l[5:].strip()
        elif cur and l.startswith('  props '):
            for p in l.split()[1:]:
                fn[p].setdefault(os.path.basename(f),[]).append(cur.replace('syncpki.','').replace('pki.','').replace('lib.','').replace('main.',''))
out=['']
for i in sorted(claimed):
    out.append('**%s. %s.** Contracts: %s. %s %s'%(i,titles[i],'; '.join('`spec/%s`: %s'%(k,', '.join('`%s`'%x for x in v)) for k,v in fn[i].items()),how[i],claimed[i])); out.append('')
na=json.load(open(root+'/MANIFEST.json'))['not_applicable']
for n in na:
    out.append('**%s. %s.** Not applicable here: %s'%(n['property'],titles[n['property']],n['reason'])); out.append('')
seeds=['','| seeded change | breaks | caught by |','|---|---|---|']
for s in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/'+s+'/meta.json'))
    seeds.append('| %s | %s: %s | %s |'%(s,m['property'],m['what_it_breaks'].replace('|','/'),caught.get(s,'its own check: failed obligation and failing input')))
seeds.append('')
fixes=['']
for x in json.load(open(root+'/known-findings.json'))['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',x); fixes.append('* %s (`%s`): %s.'%m.groups())
fixes.append('')
d=open(root+'/DESIGN.md').read()
for name,body in (('PROPERTIES',out),('SEEDS',seeds),('FIXES',fixes)):
    d=re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)'%(name,name),lambda m:m.group(1)+'\n'.join(body).strip('\n')+'\n'+m.group(2),d,flags=re.S)
open(root+'/DESIGN.md','w').write(d)
