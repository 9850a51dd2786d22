"""What each check explores: harness, configuration and bounds per property."""
class Job:
    def __init__(s, name, src, defs=None, cfg=None, tier='both', timeout=None, jobs=1, extra=(), extra_flags=(), lib=True, reach=(), bounds='', nsamples=6, maxsteps=20000000):
        c = {'CFG_STYLES': 0}; c.update(cfg or {})
        s.name, s.src, s.tier, s.timeout, s.jobs, s.lib, s.reach, s.bounds, s.nsamples, s.maxsteps = name, src, tier, timeout, jobs, lib, list(reach), bounds, nsamples, maxsteps
        s.cfg = ['-D%s=%s' % (k, v) for k, v in sorted(c.items())]
        s.defs = ['-D%s' % k if v is None else '-D%s=%s' % (k, v) for k, v in (defs or {}).items()] + (['-DSTYLES'] if c['CFG_STYLES'] else [])
        s.extra, s.extra_flags = list(extra), list(extra_flags)
class Spec:
    def __init__(s, jobs, assumptions=(), level='model_checking'): s.jobs, s.assumptions, s.level = jobs, list(assumptions), level
COMMON_ASSUMPTIONS = [
 'clang 18 -O0 lowering of the C sources plus mem2reg, x86-64 data model',
 'C library functions (string.h, sprintf family) replaced in the symbolic runs by the C models in harness/libc.c; sampled paths are replayed against glibc and compared observation by observation',
 'Z3 4.8.12 verdicts',
]
SPECS = {}
import importlib, pkgutil, os
_ns = {'Job': Job, 'Spec': Spec, 'SPECS': SPECS}      # shared by the files in jobs/
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'jobs'))):
    if _f.endswith('.py'):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'jobs', _f)).read(), _f, 'exec'), _ns)
