import json,subprocess,sys
f='/verif/known_findings.json'; k=json.load(open(f))
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
def h(s):
    r=[l.split()[0] for l in log if s in l]; assert r,s; return r[0]
def fixed(p,subj,what):
    c=h(subj); k.append(dict(property=p,status='fixed',harness='',match='',what=f'fixed: property={p} {c} {what}',commit=c))
for a in json.load(open(sys.argv[1])): fixed(*a)
json.dump(k,open(f,'w'),indent=1); open(f,'a').write('\n')
