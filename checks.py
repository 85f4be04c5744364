"""The checks: which harness decides which property, and how it is run."""

CHECKS = {}


def _c(pid, cmd, **kw):
    CHECKS[pid] = dict(cmd=cmd, **kw)


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C42"):
    _c(_p, "stl")
for _p in ("C11", "C12"):
    _c(_p, "spin", race=True, fx=True, shards=2, procs=4)
_c("C13", "base", race=True, fx=True)
for _p in ("C14", "C16", "C17", "C18", "C19", "C20", "C21"):
    _c(_p, "base")
for _p in ("C15", "C33", "C34"):
    _c(_p, "conc", race=True, fx=True, shards=3, procs=4)
_c("C26", "conc", flags=["-gcflags=github.com/vipally/gx/unsafe=-d=checkptr=2"], shards=4, procs=4)

for _p in ("C22", "C23", "C24"):
    _c(_p, "crypt")
_c("C25", "crypt", shards=4)
for _p in ("C27", "C28", "C29", "C31"):
    _c(_p, "misc")
_c("C32", "misc", shards=2)
for _p in ("C30", "C39"):
    _c(_p, "state", race=True, fx=True, shards=3, procs=4)
for _p in ("C35", "C43", "C45"):
    _c(_p, "fsys", nobody=True)
for _p in ("C36", "C37"):
    _c(_p, "fsys", nobody=True)
for _p in ("C38", "C46"):
    _c(_p, "fsys", nobody=True)
_c("C44", "fsys", nobody=True)
_c("C40", "tpl", gen="tools/gen_tpl.py")
_c("C41", "tpl", gen="tools/gen_tpl.py", race=True, fx=True, shards=3, procs=4)
_c("C47", "tplreg", gen="tools/gen_reg.py", race=True, fx=True, shards=3, procs=4)
