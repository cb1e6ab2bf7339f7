import json,glob,os,re
rows=[]
for f in glob.glob('/verif/seeded/*/meta.json'):
    m=json.load(open(f)); rows.append((m['property'],os.path.basename(os.path.dirname(f)),m['needs']))
rows.sort()
print('| property | bug | needs |\n|---|---|---|')
for p,i,n in rows: print(f'| {p} | `{i}` | {n.strip().replace("|","/")} |')
