# the huge world (harness/huge.h): more than 256 of everything
def huge(pid, name, lines, bounds, jobs=4, tier='both', **d):
    d['LINES'] = _lines(lines)
    SPECS[pid].jobs.append(Job(name, 'huge.c', d, jobs=jobs, tier=tier, reach=['done'], maxsteps=3000000000, bounds='huge world (300 commands, 301 files in a directory, names of 300 characters): ' + bounds))
huge('C08', 'huge', ['c299 a', 'c2?5', '?043', 'f299', 'f25?', 'f256 1', '/f?11', '%4 a', '%5', 'l/%0', '/l/%1 b', 'n/s299/x', 'n/s25?/x', 'n/s043/x', 'l/%2/x', 'l/%3/x', 'big', 'f300', 'c300'], 'commands and files behind the 256th, long names', DIRS=None, jobs=8)
_HX = [a + b for a in ('c', 'f') for b in ('', '2', '25', '29', '299', '2?', '25?')]
huge('C13', 'huge', [w + t for w in ['', 'c', 'c2', 'c29', 'c299', 'c?', 'c2?', 'f', 'f0', 'f25', 'f?5', 'b', 'bi', 'x f25', '?', 'k '] for t in ('\t', '\t\t', '\t\t9')], 'completion among 1..600 candidates', jobs=8, OUTMAX=200000)
huge('C13', 'huge-dirs', [w + t for w in ['', 's', 's2', 's25', 's2?', 's299', 's300', '?'] for t in ('\t', '\t\t', '\t\t9')], 'completion among 300 subdirectories', jobs=8, DIRS=None, CDS='{"cd n\\r"}', OUTMAX=200000)
huge('C13', 'huge-names', ['A\t', 'AB?\t', 'AB\t\t', 'a\t', 'ab\t\t', 'ab\t1\t', 'k\t', 'kl\t\t', 'kl\t2\t', '#020ab ##005\b#b\t', '#290ab ##588\b#b\t', 'x %0\b\t\t', 'x %0\b?\t\t', '%4\b\t', '%4\b\b\t'], 'completion of names of 300 characters', jobs=8, CDS='{"cd l\\r"}')
huge('C17', 'huge', ['ls', 'ls /', 'ls l', 'ls l/%2', 'ls l/%2?', 'ls n', 'ls n/s2?9', 'ls ./n', 'ls l/%0'], 'listings of 301 files, 300 subdirectories, names of 300 characters', jobs=8, DIRS=None)
huge('C18', 'huge', ['help', 'help c2?9', 'help c256', 'help ?04', 'help f299', 'help big', 'help far', 'help %4', 'help l/%1', 'help %5?', 'help %0'], 'help of 310 commands, names of 300 and manuals and descriptions of 700 characters', jobs=8)
huge('C18', 'huge-groups', ['help', 'help g299', 'help g2?8', 'help c299', 'help far', 'help help'], '302 groups', jobs=4, GROUPS=None)
huge('C18', 'far', ['help', 'help far', 'help big', 'help ?ar'], 'manuals and descriptions of 66000 characters', jobs=4, TEXT=66000, OUTMAX=300000)
huge('C04', 'huge', ['c003 ' + rep(300, 'a '), 'c003 ' + rep(256, 'ab ') + '?', 'c003 ' + rep(255, 'b '), 'c003 ' + rep(254, '"" '), 'c003 ' + rep(600, 'a '), 'c003 ' + rep(900, ' ') + 'z', 'c003 "' + rep(700, 'a b') + '" ?', 'c003 ' + rep(300, '\\"\\\\') + '?', rep(600, ' ') + 'c003 ' + rep(300, '"a b" '), 'c003 ' + rep(257, 'x ') + '"?'], 'up to 600 arguments, 2100-character arguments', jobs=8)
huge('C02', 'huge', [rep(999, 'a') + rep(999, 'b') + '?', 'c003 ' + rep(700, 'ab ') + rep(520, '\b') + '?', 'c003 ' + rep(999, 'x') + rep(999, '\b') + ' y?', 'c003 ' + rep(600, 'ab\b\x1b[A') + '?z', 'c0' + rep(300, '\x7f') + 'c003 a?', rep(300, '\x1b[A') + 'c003?', rep(300, '\x1b') + '[Bc003'], 'lines of up to 2000 characters and 2500 keys', jobs=8)
huge('C03', 'huge', [rep(999, 'a') + rep(999, 'b') + '?', 'c003 ' + rep(700, 'ab ') + rep(520, '\b') + '?', 'c003 ' + rep(600, 'ab\b\x1b[A') + '?z', 'c25' + rep(300, '\t') + '3?', 'x ' + rep(500, 'x') + ' c25\t\t3?', 'bi' + rep(300, '\t\b') + 'ls?'], 'lines of up to 2000 characters, 300 completions', jobs=8, OUTMAX=400000)
huge('C15', 'huge', ['cat ' + rep(300, 'f001 '), 'cat ' + rep(256, 'f002 ') + 'f00?', 'cat ' + rep(299, 'f003 ') + 'zz', 'cat f299 f25? f298', 'cat ' + rep(257, 'f004 ') + 'f007', 'cat l/%0 l/%1', 'cat n/s299/x n/s25?/x', 'cat ' + rep(150, 'n/s256/x ')], 'up to 300 arguments', jobs=8, DIRS=None)
huge('C15', 'far-world', ['cat big', 'cat big big', 'cat ?ig'], 'a file of 66000 bytes', jobs=4, TEXT=66000, OUTMAX=300000)
huge('C16', 'huge', ['xxd f299', 'xxd f25?', 'xxd l/%0', 'xxd l/%1', 'xxd n/s2?9/x'], 'files behind the 256th, long names', jobs=4, DIRS=None)
huge('C19', 'huge', ['echo ' + rep(700, 'abc') + '? > f001', 'echo ' + rep(500, '\\x41') + '\\x?? > f256', 'echo ' + rep(999, 'a') + rep(999, 'b') + '?', 'echo a? > n/s299/x', 'echo a > f2?6', 'echo ? > l/%0'], 'texts of up to 2100 characters', jobs=8, DIRS=None)
huge('C19', 'small-buffer', ['echo ' + rep(n, 'ab') + x + t for n in (15, 16, 17, 40, 64, 200) for x in ('', '?', '\\x??') for t in ('', ' > f001')], 'texts longer than the output buffer', jobs=8, OUT=32)
huge('C21', 'huge', ['big', 'far', '?ar', 'l/%0'], 'printing texts of 700 characters, directory names of 300 characters', jobs=4, CDS='{"","cd l/%2\\r","cd n\\r"}')
huge('C21', 'far', ['big', 'far', '?ar'], 'printing texts of 66000 characters', jobs=4, TEXT=66000, OUTMAX=300000)
_deep = ['cd ' + rep(k, 'q/') + 'q' for k in (254, 255, 256, 257, 259)]
huge('C12', 'deep', [d + x for d in _deep + ['cd ' + rep(100, 'q/') + rep(160, '../') + rep(256, 'q/'), 'cd ' + rep(260, 'q/../') + 'q', 'cd ' + rep(300, './') + 'q', 'cd l/%2', 'cd l/%3', 'cd l/%2/../%3', 'cd n/s2?9', 'cd n/s256'] for x in ('\rx\rls\rcd ..\rpwd', '?')], 'directories 260 levels deep, the 300th subdirectory, names of 300 characters', jobs=8, DEEP=260, DIRS=None)
huge('C09', 'deep', [d + '\rpwd\r' for d in _deep + ['cd ' + rep(a, 'q/') + rep(b, '../') + '?' for a, b in ((256, 256), (257, 1), (255, 300), (200, 199))] + ['cd ' + rep(256, './') + 'q/q?', 'cd /' + rep(257, 'q/../') + 'n?']], 'paths of up to 400 components', jobs=8, DEEP=260)
huge('C10', 'deep', [c + rep(k, p) + t for c in ('cd ', 'ls ', 'cat ', '') for p in ('q/', './') for k in (126, 127, 128, 254, 255, 256, 260) for t in ('x', '?')], 'a path limit of 512 characters, paths of 250..520', jobs=8, DEEP=126, PMAX=512, CDS='{"","cd q\\r"}')
huge('C11', 'deep', [x + rep(k, 'q/') + 'x' + t for x in ('', 'cat ', 'help ') for k in (1, 100, 254, 255, 256, 257, 260) for t in ('', '?')] + ['n/s299/x', 'n/s043/x', 'n/s255/x', 'n/s25?/x', 'ls n'], 'lookups in a tree 260 levels deep and a directory with 300 subdirectories', jobs=8, DEEP=260, DIRS=None)
huge('C24', 'huge', ['g299 a', 'g2?6', '?043', 'g000', 'far', 'c299', 'help'], '302 groups', jobs=4, GROUPS=None)
SPECS['C23'].jobs += [
  Job('model-lines', 'c23_ref.c', {'WHOLE': None}, jobs=8, reach=['done'], bounds='three shells with different files, groups and trees under the same names; 25x25 pairs of lines with arbitrary bytes and file contents executed in turn (7 lines), each compared with its own model'),
  Job('model-calls', 'c23_ref.c', {}, jobs=8, reach=['done'], bounds='the same, the three shells alternating every 1, 2 or 5 service calls'),
]
SPECS['C24'].jobs += [
  Job('same-list', 'c24_groups.c', {'K': 3, 'SAME': 2}, jobs=4, reach=['removed', 'done'], bounds='any 3 operations with two groups made from one file list'),
  Job('part-list', 'c24_groups.c', {'K': 3, 'SAME': 1}, jobs=4, reach=['removed', 'done'], bounds='any 3 operations with two groups whose lists start at the same file'),
]
SPECS['C05'].jobs.append(Job('far', 'c05_burst.c', {'LINES': _lines(['ls files\r', 'cat q/f\r', 'k01 a\r']), 'FAR': None, 'STRIDE': 37, 'STARTS': 4}, jobs=8, maxsteps=3000000000, reach=['refused', 'long stall', 'done'], bounds=_BIGDOC + '1030 or 66000 refusals in a row at 4 points of the output, or as many calls without input before the line or after its first 1..3 bytes'))

def _more(name, cfg, **k):
    j = _v(name, cfg, MORE=None, **k); j.jobs = 4; j.bounds = j.bounds.replace('27 lines', '47 lines (every error), the 13 status texts'); return j
SPECS['C30'].jobs += [
  _more('translated', {'CFG_TRANSLATED': 1}), _more('translated-styles', {'CFG_TRANSLATED': 1, 'CFG_STYLES': 1}),
  _more('arduino', {'CFG_ARDUINO': 1, 'CFG_STYLES': 1}), _more('english', {}),
  _more('narrow', {'CFG_ALIGN': 1, 'CFG_COLUMNS': 1}), _more('columns-3', {'CFG_ALIGN': 3, 'CFG_COLUMNS': 3}), _more('wide', {'CFG_ALIGN': 41, 'CFG_COLUMNS': 16}), _more('columns-20', {'CFG_ALIGN': 17, 'CFG_COLUMNS': 20, 'CFG_STYLES': 1}),
]
for _j in SPECS['C30'].jobs[-8:]:
    if _j.name in ('english', 'columns-3', 'columns-20', 'translated-styles'): _j.tier = 'thorough'
SPECS['C21'].jobs.append(Job('translated', 'c21_print.c', {'L': 2}, cfg={'CFG_TRANSLATED': 1}, jobs=4, reach=['status', 'done'], bounds='the same with every text of the library replaced (lengths 0 to 40, one containing a per cent sign)'))
SPECS['C16'].jobs += [Job('columns-%d' % c, 'c16_xxd.c', {'LEN': 2 * c + 1, 'S': 2, 'COLS': c}, cfg={'CFG_COLUMNS': c}, jobs=2, reach=['done'], bounds='%d columns, lengths up to %d, any two bytes' % (c, 2 * c + 1)) for c in (1, 3, 16, 20)]
SPECS['C17'].jobs += [Job('align-%d' % c, 'c17_ls.c', {'ATTR': None, 'SHAPES': 2, 'N': 0, 'L': 2}, cfg={'CFG_ALIGN': c}, jobs=2, reach=['done'], bounds='every attribute as above, file names aligned to %d columns' % c) for c in (1, 20)]
