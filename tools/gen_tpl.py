#!/usr/bin/env python3
"""Make the harness of the templates: gen_tpl.py REPO VPDIR

Writes VPDIR/tpl/<variant>/ (code made from the templates), a copy of the container
models per variant that runs on it, and VPDIR/cmd/tpl/. Exit 7: a template no
longer makes code that compiles.
"""
import os, re, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gogp

repo, vp = sys.argv[1], sys.argv[2]
imports, made = [], []


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


for name, golike, improve in (("gpa", False, "true"), ("gpb", False, "false"), ("goa", True, "true"), ("gob", True, "false")):
    gogp.containers(repo, golike, improve).write(os.path.join(vp, "tpl", name))
    made.append(name)
    src = os.path.join(vp, "cmd/stl")
    for f in sorted(os.listdir(src)):
        if f == "main.go" or not f.endswith(".go"):
            continue
        t = open(os.path.join(src, f)).read()
        t = t.replace("package main", "package h" + name, 1).replace('"github.com/vipally/gx/stl"', 'stl "vp/tpl/%s"' % name)
        t = re.sub(r"mon\.Register\(&mon\.Prop\{ID: ", 'mon.Register(&mon.Prop{ID: "%s:" + ' % name, t)
        put(os.path.join(vp, "tpl", "h" + name, f), t)
    imports.append("h" + name)
item = open(os.path.join(vp, "tpl/item.go.txt")).read()
for name, golike, order, improve in (("igl", False, "", "true"), ("igg", False, "Greater", "false"),
                                     ("iol", True, "Lesser", "false"), ("iog", True, "Greater", "true")):
    gogp.items(repo, golike, order, improve).write(os.path.join(vp, "tpl", name))
    made.append(name)
    t = item.replace("PKG", "h" + name).replace("SRC", name).replace("GREATER", "true" if order == "Greater" else "false").replace('"ID"', '"%s:items"' % name)
    put(os.path.join(vp, "tpl", "h" + name, "item.go"), t)
    imports.append("h" + name)
for name, golike in (("xgp", False), ("xgo", True)):
    gogp.extras(repo, golike).write(os.path.join(vp, "tpl", name))
    made.append(name)
    for f in sorted(os.listdir(os.path.join(vp, "tpl"))):
        m = re.match(r"x_(\w+)\.go\.txt$", f)
        if m:
            t = open(os.path.join(vp, "tpl", f)).read()
            put(os.path.join(vp, "tpl", "h" + name, m.group(1) + ".go"), t.replace("PKG", "h" + name).replace("SRC", name).replace("NAME", name))
            if "h" + name not in imports:
                imports.append("h" + name)
    if golike:
        t = open(os.path.join(vp, "tpl/ring.go.txt")).read()
        put(os.path.join(vp, "tpl", "h" + name, "ring.go"), t.replace("PKG", "h" + name).replace("SRC", name).replace("NAME", name))
env = dict(os.environ)
r = subprocess.run(["bash", "-c", 'cd "$1/cmd/stl" && exec go build %s' % " ".join("vp/tpl/" + n for n in made), "-", vp],
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-3000:])
    sys.exit(7)
main = "package main\n\nimport (\n\t\"vp/mon\"\n" + "".join('\t_ "vp/tpl/%s"\n' % n for n in imports) + """)

func main() {
	mon.Compose("C40", "as for the shipped containers, per template variant; non-trivial as there", 4, "C", "items")
	mon.Compose("C41", "a case is a history of one object; distinct by hash of the history", 1, "extra")
	mon.Main()
}
"""
put(os.path.join(vp, "cmd/tpl/main.go"), main)
