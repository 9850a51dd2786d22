# C36: memory use
_C36L = ['ls', 'ls l', 'ls n', 'cd l/%2\rpwd\rcd ../..', 'help', 'help far', 'help f?99', 'cat big', 'xxd big', 'cat ' + rep(300, 'f003 ') + 'f00?', 'c003 ' + rep(600, 'a ') + '?', 'c003 ' + rep(600, '" " '), rep(999, 'ab') * 5 + '?', 'echo ' + rep(999, 'abcd') * 3 + '\\x41? > f001', 'echo ' + rep(999, 'abcd') * 3, '\t\t', 'f25?\t\t', 'l/%0\b\t', 'AB\t', 'n/s\t', 'big', 'f001 %0 %1', 'far', 'cd n/s299', 'n/s2?9/x', 'cd ' + '/' * 300, 'ls ' + '/a' * 150, 'cd ' + '/..' * 100 + '/?', 'l/%2/x' , rep(999, '../') * 3 + '?', rep(900, '\x1b[A') + rep(900, '\b') + 'z?', '%4', '?', '??']
def memory(name, lines, bounds, jobs=8, tier='both', **d):
    d['LINES'] = _lines(lines)
    return Job(name, 'c36_memory.c', d, jobs=jobs, tier=tier, reach=['done'], maxsteps=3000000000, bounds=bounds)
_C36B = 'every service call of %d lines with symbolic characters and 11 kinds of API calls'
SPECS['C36'] = Spec([
  memory('many', _C36L, _C36B % len(_C36L) + ', 301 files, 300 subdirectories, 300 commands, names of 300, lines and texts of 9000 characters, path limit 320', DIRS=None, TEXT=9000, PMAX=320, RLINE=12000, OUTMAX=400000),
  memory('deep', _C36L, _C36B % len(_C36L) + ', 300 levels, path limit 608', DEEP=300, PMAX=608, RLINE=12000, OUTMAX=400000),
  memory('groups', _C36L, _C36B % len(_C36L) + ', 302 groups, path limit 320', GROUPS=None, PMAX=320, RLINE=12000, OUTMAX=400000),
  memory('buffers', _C36L, _C36B % len(_C36L) + ', working buffers of 40000 and 30000 bytes', IN=40000, OUT=30000, PMAX=320, RLINE=12000, OUTMAX=400000),
])
SPECS['C11'].jobs.append(Job('over-limit', 'c11_tree.c', {'K': 3, 'P': 4, 'PM': 2, 'ROOTED': None}, jobs=4, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'root unmounted', 'done'], bounds='the same with a path limit of 2: directories whose paths do not fit it'))
