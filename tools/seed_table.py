import json,glob,os
rows=["| change | what it breaks | needs | caught by |","|---|---|---|---|"]
extra={"c01-giant-step":"C01, C16"}
for d in sorted(glob.glob("/verif/seeded/*")):
    m=json.load(open(d+"/meta.json")); i=os.path.basename(d)
    rows.append("| %s | %s | %s | %s |"%(i,m["what_it_breaks"],m["needs"],extra.get(i,m["property"])))
t=open("/verif/DESIGN.md").read()
a,b=t.index("<!-- seeds -->"),t.index("<!-- /seeds -->")
t=t[:a]+"<!-- seeds -->\n"+"\n".join(rows)+"\n"+t[b:]
open("/verif/DESIGN.md","w").write(t)
