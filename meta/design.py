import json,os,glob,subprocess
head = open('/verif/meta/design_head.md').read()
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    files=sorted({l[6:].strip() for l in open(os.path.dirname(d)+'/patch.diff') if l.startswith('+++ b/')})
    rows.append(f"| {i} | {m['property']} | {', '.join(files)} | {m['needs']} |")
tab="| change | caught by | where | needs |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
open('/verif/DESIGN.md','w').write(head.replace('@SEEDS@',tab))
