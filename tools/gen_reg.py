#!/usr/bin/env python3
"""Make the harness of the registry and random templates: gen_reg.py REPO VPDIR

Copies the packages regable and math/rand to VPDIR/tpl/{reg,rnd}, adds code made from
their templates under other names, and adapts the models to it. Exit 7: a template
no longer makes code that compiles.
"""
import os, re, subprocess, sys

repo, vp = sys.argv[1], sys.argv[2]


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def get(path):
    return open(path).read().replace("\r\n", "\n")


def copy(pkg, name):
    d = os.path.join(repo, pkg)
    for f in os.listdir(d):
        if f.endswith(".go") and not f.endswith("_test.go"):
            put(os.path.join(vp, "tpl", name, f), get(os.path.join(d, f)))


def expand(t, cfg):
    for k, v in cfg.items():
        t = t.replace("<%s>" % k, v)
    return t


# name, value type, may be set, has names, can be reversed, how to make a value from a *mon.Rand
KINDS = [
    ("Uint32", "uint32", True, True, False, "r.U32()"),
    ("Bool", "bool", True, True, True, "r.Bool()"),
    ("ConstUint32", "uint32", False, True, False, "r.U32()"),
    ("NoNameConstUint32", "uint32", False, False, False, "r.U32()"),
    ("String", "string", True, False, False, "string(r.Bytes(r.Intn(9)))"),
    ("ConstString", "string", False, False, False, "string(r.Bytes(r.Intn(9)))"),
    ("Interface", "interface{}", True, True, False, "anyValue(r)"),
    ("ConstInterface", "interface{}", False, True, False, "anyValue(r)"),
    ("Uint64", "uint64", True, True, False, "r.U64()"),
    ("ConstUint64", "uint64", False, True, False, "r.U64()"),
    ("NoNameConstUint64", "uint64", False, False, False, "r.U64()"),
]
copy("regable", "reg")
tpl = get(os.path.join(repo, "regable/reg.gp"))
model = get(os.path.join(vp, "tpl/reg.go.txt"))
for name, typ, setable, named, rev, mk in KINDS:
    cfg = dict(TYPENAME_L_SHORT="t" + name, TYPENAME_L="t" + name, TYPENAME_U="T" + name, VALUE_TYPE=typ, DEFAULT_REG_CNT="1024",
               LOCK_COMMENT="" if setable else "//", REVERSE_COMMENT="" if rev else "//",
               NAME_INSTEAD="" if named else '"?"', NAME_COMMENT_B="" if named else "/*", NAME_COMMENT_E="" if named else "*/")
    put(os.path.join(vp, "tpl/reg/z_%s.go" % name.lower()), expand(tpl, cfg))
    if name == "Uint32":
        continue  # the model of the shipped registry drives this one
    m = model.replace("T_KIND", "T" + name).replace("T_VALUE", typ).replace("T_MAKE", mk).replace("T_NAME", name)
    for tag, on in (("SET", setable), ("NAME", named), ("REV", rev)):
        m = re.sub(r"//\[%s\n(.*?)//%s\]\n" % (tag, tag), lambda k: k.group(1) if on else "", m, flags=re.S)
        m = re.sub(r"//\[!%s\n(.*?)//!%s\]\n" % (tag, tag), lambda k: "" if on else k.group(1), m, flags=re.S)
    put(os.path.join(vp, "tpl/hreg%s/reg.go" % name.lower()), m)
t = get(os.path.join(vp, "cmd/state/regs.go")).replace("package main", "package hreg", 1)
t = t.replace('"github.com/vipally/gx/regable"', 'regable "vp/tpl/reg"').replace("Uint32", "TUint32").replace("NewRangeTUint32", "NewRangeUint32")
t = t.replace('ID: "C39"', 'ID: "reg:z39"')
names = re.search(r"^var names = .*$", get(os.path.join(vp, "cmd/state/errs.go")), re.M).group(0)
put(os.path.join(vp, "tpl/hreg/regs.go"), t + "\n" + names + "\n")

copy("math/rand", "rnd")
tpl = get(os.path.join(repo, "math/rand/rand.gp"))
tpl = re.sub(r"Rand(Max|Range|)<BITS>", r"Tand\1<BITS>", tpl)
for bits, a, c in (("32", "7368787", "2750159"), ("64", "4294955897", "4094975977")):
    put(os.path.join(vp, "tpl/rnd/z_%s.go" % bits), expand(tpl, dict(BITS=bits, SEED_TYPE="uint" + bits, PRIME_A=a, PRIME_C=c)))
t = get(os.path.join(vp, "cmd/conc/conc.go")).replace("package main", "package hrnd", 1)
t = t.replace('gxrand "github.com/vipally/gx/math/rand"', 'gxrand "vp/tpl/rnd"')
t = re.sub(r"gxrand\.(New|)Rand(Max|Range|)(32|64)", r"gxrand.\1Tand\2\3", t)
t = re.sub(r'ID: "(C\d\d)"', r'ID: "rnd:\1"', t)
put(os.path.join(vp, "tpl/hrnd/rand.go"), t)

r = subprocess.run(["bash", "-c", 'cd "$1/cmd/stl" && exec go build vp/tpl/reg vp/tpl/rnd', "-", vp],
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-3000:])
    sys.exit(7)
main = "package main\n\nimport (\n\t\"vp/mon\"\n" + "".join('\t_ "vp/tpl/hreg%s"\n' % k[0].lower() for k in KINDS[1:]) + """\t_ "vp/tpl/hreg"
	_ "vp/tpl/hrnd"
)

func main() {
	mon.Compose("C47", "one evaluation = one value looked up, one refused id, one concurrent operation or one draw; distinct = registry states, interleavings, bounds and seeds", 3, "kind", "C33", "z39")
	mon.Main()
}
"""
put(os.path.join(vp, "cmd/tplreg/main.go"), main)
