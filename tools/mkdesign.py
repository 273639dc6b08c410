#!/usr/bin/env python3
# Assembles DESIGN.md from tools/design.md, properties.jsonl, the harness comments, seeded/ and tools/catches.txt.
import json,os,re,glob
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
harness={}
for f in sorted(glob.glob(d+"/harness/c*.go")):
    t=open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (C\d\d)_(\w+)\(\)',t):
        c=" ".join(x.strip()[2:].strip() for x in m.group(1).strip().split("\n"))
        harness.setdefault(m.group(2),[]).append((m.group(2)+"_"+m.group(3),c))
how=json.load(open(d+"/tools/how.json"))
out=[]
for l in open(d+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n{how.get(i,'')}\n")
    for n,c in harness.get(i,[]):
        c=re.sub(r'^'+n+r':\s*','',c)
        a,_,b=c.partition("Bound:")
        out.append(f"* `{n}`: {a.strip()} *Bound:* {b.strip()}")
    out.append("")
k=json.load(open(d+"/known_findings.json"))["findings"]
known="\n".join(f"* `{e['id']}` ({e['property']}): {e['what']}" for e in k if e["status"]=="known")
nf=sum(e["status"]=="fixed" for e in k)
res={}
for l in open(d+"/tools/catches.txt"):
    w=l.split(None,1)
    if w: res[w[0]]=w[1].strip()
b=["| bug | property | needs | quick check |","|---|---|---|---|"]
for f in sorted(glob.glob(d+"/seeded/*/meta.json")):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    b.append(f"| {i} | {m['property']} | {m['needs']}: {m['what_it_breaks']} | {res.get(i,'not run')} |".replace("\n"," "))
t=open(d+"/tools/design.md").read()
ref=open(d+"/tools/refactorings.md").read() if os.path.exists(d+"/tools/refactorings.md") else ""
for x,y in (("PROPS","\n".join(out)),("KNOWN",known),("NFIXED",str(nf)),("NKNOWN",str(len(k)-nf)),("BUGS","\n".join(b)),("REFACT",ref)):
    t=t.replace("{{"+x+"}}",y)
open(d+"/DESIGN.md","w").write(t)
print(len(t))
