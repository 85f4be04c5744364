#!/usr/bin/env python3
"""A small stand-in for the gogp tool: makes Go code from the templates of the repository.

Two sources give the same code: X.gp (placeholders in angle brackets) and X.gp.go (the Go file
X.gp is taken from, disabled by a comment that lies in an ignored block).
"""
import os, re

IGN = re.compile(r"^[ \t]*//#GOGP_IGNORE_BEGIN.*?^[ \t]*//#GOGP_IGNORE_END[^\n]*\n?", re.S | re.M)
NAMES = {"GOGPValueType": "VALUE_TYPE", "GOGPKeyType": "KEY_TYPE", "GOGPGlobalNamePrefix": "GLOBAL_NAME_PREFIX"}


def on(cfg, name):
    return cfg.get(name.strip("<> \t"), "") not in ("", "false")


class Gen:
    def __init__(self, repo, pkg, golike, sections=None):
        self.repo, self.pkg, self.golike = repo, pkg, golike
        self.sections = sections or {}
        self.files, self.once = {}, set()

    def source(self, path):
        """path: of a template without extension, as in a REQUIRE line or relative to the repository"""
        path = path.replace("github.com/vipally/gx/", "")
        t = open(os.path.join(self.repo, path + (".gp.go" if self.golike else ".gp"))).read().replace("\r\n", "\n")
        if self.golike:
            m = re.search(r"^//#GOGP_FILE_BEGIN[^\n]*\n(.*?)^//#GOGP_FILE_END", t, re.S | re.M)
            t = m.group(1)
        return IGN.sub("", t)

    def make(self, path, cfg):
        name = "%s_%s" % (os.path.basename(path), re.sub(r"\W", "", cfg.get("GLOBAL_NAME_PREFIX", "")))
        if name in self.files:
            return
        self.files[name] = ""
        out, stack, oncebuf, repl = [], [], None, []
        for line in self.source(path).split("\n"):
            s = line.strip()
            m = re.match(r"//#GOGP_(\w+)(.*)$", s)
            if m:
                d, arg = m.group(1), m.group(2).strip()
                if d == "IFDEF":
                    stack.append([on(cfg, arg.split()[0]), False])
                elif d == "ELSE":
                    stack[-1] = [not stack[-1][0], True]
                elif d in ("ENDIF", "END_IF"):
                    stack.pop()
                elif d == "ONCE":
                    oncebuf = []
                elif d == "END_ONCE":
                    k = "\n".join(oncebuf).strip()
                    if k not in self.once:
                        self.once.add(k)
                        out += oncebuf
                    oncebuf = None
                elif all(x[0] for x in stack):
                    if d == "REQUIRE":
                        a = [self.cfg(x.strip(), cfg) for x in arg.strip("()").split(",", 1)] if "GPGCFG" not in arg else \
                            [self.cfg(x.strip(), cfg) for x in re.match(r"\((.*?),(.*)\)$", arg).groups()]
                        if len(a) == 1 or a[1] != "_":
                            self.make(a[0], self.sections[a[1]] if len(a) > 1 else cfg)
                    elif d == "REPLACE":
                        a = [x.strip() for x in arg.strip("()").split(",")]
                        repl.append(a)
                continue
            if not all(x[0] for x in stack):
                continue
            (out if oncebuf is None else oncebuf).append(line)
        t = "\n".join(out)
        if self.golike:
            for n, k in NAMES.items():
                t = t.replace(n, "<%s>" % k)
        else:
            t = t.replace("<PACKAGE>", "")
        for a, b in repl:
            t = t.replace(a, b)
        t = self.cfg(t, cfg)
        for k, v in cfg.items():
            t = t.replace("<%s>" % k, v)
        self.files[name] = "package %s\n\n%s\n" % (self.pkg, t)

    @staticmethod
    def cfg(t, cfg):
        return re.sub(r"#GOGP_GPGCFG\((\w+)\)", lambda m: cfg.get(m.group(1), ""), t)

    def write(self, d):
        os.makedirs(d)
        for n, t in self.files.items():
            if t.strip():
                open(os.path.join(d, n + "_t.go"), "w").write(t)


ITEM = """package it

// Item is a value type with an order of its own: items with equal keys differ in ID.
type Item struct{ K, ID int }

func (a Item) Less(b Item) bool { return a.K < b.K }
"""


def containers(repo, golike, improve):
    """the containers of int, as shipped in stl"""
    sec = {"_tree": dict(GOGP_HasCmpFunc="true", VALUE_TYPE="*IntTreeNode", GLOBAL_NAME_PREFIX="IntTreeNode")}
    g = Gen(repo, "stl", golike, sec)
    base = dict(VALUE_TYPE="int", GLOBAL_NAME_PREFIX="Int")
    for t in ("sort_slice", "stack", "deque", "queue", "list", "slist"):
        g.make("stl/gp/" + t, base)
    g.make("stl/gp/tree", dict(base, GOGP_HasCmpFunc="false", GOGP_SectionSortSlice="_tree"))
    g.make("stl/gp/heap", dict(base, GOGP_ImproveSTL=improve))
    return g


def items(repo, golike, order, improve):
    """the containers of a type that brings its own order, with the given default order"""
    base = dict(GOGP_HasCmpFunc="true", GOGP_DefaultCmpType=order, VALUE_TYPE="Item", GLOBAL_NAME_PREFIX="Item")
    sec = {"_tree": dict(base, VALUE_TYPE="*ItemTreeNode", GLOBAL_NAME_PREFIX="ItemTreeNode")}
    g = Gen(repo, "it", golike, sec)
    for t in ("sort_slice", "stack", "deque", "queue", "list", "slist"):
        g.make("stl/gp/" + t, base)
    g.make("stl/gp/tree", dict(base, GOGP_SectionSortSlice="_tree"))
    g.make("stl/gp/heap", dict(base, GOGP_ImproveSTL=improve))
    g.files["item"] = ITEM
    return g


def extras(repo, golike):
    """the templates no shipped code is made from"""
    g = Gen(repo, "ex", golike)
    base = dict(KEY_TYPE="string", VALUE_TYPE="int", GLOBAL_NAME_PREFIX="SI")
    g.make("regable/gp/mapping", base)
    g.make("stl/gp/lfqueue", base)
    g.make("stl/gp/lfdeque", base)
    if golike:  # there is no .gp file of this one
        g.make("stl/gp/ringbuffer", base)
    return g
