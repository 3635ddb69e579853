"""mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS ; writes /verif/seeded/ID"""
import sys, os, subprocess, json, shutil, runpy
K=os.path.join(os.path.dirname(os.path.abspath(__file__)),"seedkit")
def make(d):
    out="/verif/seeded/"+d["ID"]; os.makedirs(out,exist_ok=True)
    assert not subprocess.run(["git","-C","/repo","status","--porcelain"],capture_output=True,text=True).stdout.strip()
    try:
        for e in d["EDITS"]:
            f,a,b=e[:3]
            p="/repo/src/rust/"+f; s=open(p).read(); c=s.split(a)
            if len(e)==3:
                assert len(c)==2,(f,len(c)-1,a)
                s=b.join(c)
            else:
                n=e[3]; s=a.join(c[:n+1])+b+a.join(c[n+1:])
            open(p,"w").write(s)
        pt=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    open(out+"/patch.diff","w").write(pt)
    if "PYDEMO" in d:
        open(out+"/demo.py","w").write(open(K+"/cliutil.py").read()+d["PYDEMO"])
        shutil.copy(K+"/demo_cli.sh",out+"/demo.sh")
    if "DEMO" in d:
        open(out+"/demo.rs","w").write(d["DEMO"])
        for f in ("demo.sh","util.rs"): shutil.copy(K+"/"+f,out)
    json.dump({"property":d["PROP"],"needs":d["NEEDS"],"what_it_breaks":d["BREAKS"]},open(out+"/meta.json","w"),indent=1)
    print(out)
for s in sys.argv[1:]:
    make(runpy.run_path(s))
