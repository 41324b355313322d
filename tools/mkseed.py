"""Helper for tools/seeds*.py: writes /verif/seeded/<id>/ from a table entry."""
import os, subprocess, shutil, json, tempfile
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, edits, needs, breaks, main, imports=()):
    d=os.path.join(V,"seeded",id)
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp()
    try:
        subprocess.check_call(["git","clone","-q","/repo",w+"/r"])
        for f,a,b in edits:
            p=os.path.join(w,"r",f); s=open(p).read()
            assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,"w").write(s.replace(a,b))
        subprocess.check_call(["gofmt","-w"]+[os.path.join(w,"r",f) for f,_,_ in edits])
        diff=subprocess.check_output(["git","-C",w+"/r","diff"]).decode()
    finally:
        shutil.rmtree(w)
    open(d+"/patch.diff","w").write(diff)
    for f in ("demo.sh","lib.go"): shutil.copy(os.path.join(V,"tools","demolib",f),d+"/"+f)
    imps="".join('\t"%s"\n'%(i if "/" not in i or not i.startswith("@") else "github.com/jtcaraball/goexpdt"+i[1:]) for i in imports)
    open(d+"/main.go","w").write("package main\n\nimport (\n"+imps+")\n\n"+main.strip()+"\n")
    subprocess.call(["gofmt","-w",d+"/main.go"])
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
