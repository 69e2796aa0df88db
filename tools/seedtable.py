import json,glob,re
rows=["| change | breaks | needs |","|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append("| %s | %s | %s |"%(f.split('/')[-2],d['what_it_breaks'],d['needs']))
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'<!--SEEDS-->.*<!--/SEEDS-->',lambda m:'<!--SEEDS-->\n'+"\n".join(rows)+'\n<!--/SEEDS-->',s,flags=re.S); open(p,'w').write(s)
