import json,re,subprocess
src=open('/dev/stdin').read() if False else ''
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import glob
rules={}
for f in glob.glob('/verif/ripcheck/*.go'):
    t=open(f).read()
    for m in re.finditer(r'register\("(C\d\d)",\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+),',t):
        rules[m.group(1)]=''.join(json.loads(s) for s in re.findall(r'"(?:[^"\\]|\\.)*"',m.group(2)))
ns={}
exec(open('/verif/doc/notes.py').read(),ns)
out=[ns['HEAD']]
for p in props:
    i=p['id']
    if i not in rules: continue
    out.append('### %s — %s\n'%(i,p['title']))
    out.append('*Method.* '+rules[i]+'\n')
    out.append('*Why tests cannot.* '+ns['WHY'][i]+'\n')
    out.append('*Limits and trust.* '+ns['LIM'][i]+'\n')
out.append(ns['TAIL'])
open('/verif/DESIGN.md','w').write('\n'.join(out))
print(sorted(rules), len(rules))
