# checks in the large world (harness/big.h): behaviour that depends on sizes
_esc = {'\\': '\\\\', '"': '\\"', '\r': '\\r', '\t': '\\t', '\n': '\\n', '\b': '\\b', '\x1b': '\\033', '\x7f': '\\177', '\x03': '\\003'}
def _lines(ls): return ','.join('"' + ''.join(_esc.get(c, c) for c in l) + '"' for l in ls)
def big(pid, name, lines, bounds, jobs=2, tier='both', reach=('done',), **d):
    d['LINES'] = _lines(lines)
    d = {k: v for k, v in d.items()}
    SPECS[pid].jobs.append(Job(name, 'big.c', d, jobs=jobs, tier=tier, reach=list(reach), maxsteps=500000000, bounds='large world (14+14 names that are prefixes of each other or differ in the last character, lengths 3..65; 42 commands; 47 directories, up to 12 deep and 21 siblings; 600-byte files): ' + bounds))
_Q = _ns_any = None
_L = 'abcdefghijklmn'
_names = ['%0' + c for c in _L] + ['%1' + c for c in _L]
_some = ['%0a', '%1e', '%0i', '%0l']
_up = '../' 
def rep(n, s): return '#%03d%s#' % (n, s)
# C08
big('C08', 'long-names', [n + s for n in _names for s in ('', ' a', '?')], 'every such name as a command, followed by nothing, an argument or any byte', jobs=4)
big('C08', 'long-names-any', _some + ['k0?', 'k?0', 'k1?'], 'names of 17, 8, 9, 40 and 3 characters with any byte at any position', jobs=4, ANYPOS=None)
big('C08', 'long-paths', ['/files/' + n for n in _names[::2]] + ['/p/%s/f' % n for n in _names[:14]] + ['/q/q/q/q/q/q/q/q/q/q/q/q/f', '/q/q/q/q/q/q/q/q/q/q/q/q/q/f', 'q/q/q/q/q/q/q/../f', '.hidden', '..x', '...', '.../x', '/...//x', 'temperature-sensor-a', 'configurations-old/x', '/configurations-new/x', 's1/s1/x', 's1/s2/x', 's3/x', 'many/ma', 'many/mxx', 'd', 'd/', 'blob', 'z\xe9'[0:1]],
    'files by long and deep paths, any byte at every third position', jobs=8, ANYPOS=None, STEP=3)
# C02, C03
_edit = [rep(300, 'a'), rep(130, 'ab ') + rep(20, '\b'), 'u ' + rep(126, 'x') + rep(126, '\b'), 'u ' + rep(60, 'ab\b\x1b[A') + 'z', 'u ' + rep(255, 'y') + '\x7f\x7fz', rep(254, 'w') + '\b', rep(300, 'c') + rep(310, '\b') + 'k09 r']
big('C02', 'long-lines', _edit, 'lines of 100..400 keys with backspaces and cursor keys, any byte at every 7th position', jobs=8, ANYPOS=None, STEP=7)
big('C03', 'long-lines', _edit + [rep(250, 'x') + ' k1\t3', rep(260, 'x ') + '/\t\b\b'], 'the same with completions, compared byte by byte', jobs=8, ANYPOS=None, STEP=9)
# C04
_args = ['k09 ' + rep(60, 'a '), 'k09 ' + rep(100, '"" '), 'k09 ' + rep(20, '"a b"c '), 'k09 ' + rep(300, 'x') + ' y', 'k09 "' + rep(150, 'x ') + '" y', 'k09 ' + rep(90, '\\" ') + 'z', 'k09 ' + rep(60, '\\x41'), 'k09 ' + rep(257, ' ') + 'z', rep(256, ' ') + 'k09 a', 'k09 ' + rep(126, 'xy') + '"', 'k09 ' + rep(126, 'xy') + '\\']
big('C04', 'long-lines', _args, 'up to 100 arguments and 300-character arguments, any byte at every 5th position', jobs=8, ANYPOS=None, STEP=5)
# C07
big('C07', 'long-lines', _edit[:3] + _args[::3] + ['cat ' + rep(20, 'blob '), 'ls ' + rep(100, '../'), 'help ' + rep(300, 'a'), 'echo ' + rep(100, '\\x4') + ' > blob', 'ab\t\t\t', 'xxd blob'], 'long commands, any byte at every 11th position', jobs=8, ANYPOS=None, STEP=11)
# C09, C12
_cds = ['cd /p/%0a', 'cd p/%0c', 'cd /p/%0b/../%0e', 'cd q/q/q/q/q/q/q/q', 'cd ' + rep(20, '../') + 'files', 'cd ' + rep(9, 'q/') + rep(9, '../') + 'q', 'cd ' + rep(100, './') + 's1/s2', 'cd /.../', 'cd ...', 'cd ....', 'cd /..././..', 'cd ..x', 'cd /configurations-new', 'cd configurations-old', 'cd /s1/s1/..', 'cd /p/%1a', 'cd /p/%0n', 'cd ' + rep(60, 'q/../') + 'q', 'cd ' + rep(12, 'q/') + 'q', 'cd ' + rep(12, 'q/'), 'cd /many']
big('C09', 'long-paths', [l + '\rpwd\r' for l in _cds], 'long and deep paths with many components, any byte at every 2nd position, then pwd', jobs=8, ANYPOS=None, STEP=2, CDS='{"","cd q/q/q/q/q\\r"}')
_seq = [l + '\rpwd\rf 1\rx\rls\rcat f\rcd ..\rpwd\rls ' + x for l in _cds for x in ('.', 'q')]
big('C12', 'long-paths', _seq, 'cd to long and deep directories, any last byte, then pwd, relative lookups, ls', jobs=8, CDS='{"","cd q/q/q/q/q\\r","cd /p/abcdefghijklmnop\\r"}')
big('C12', 'long-paths-any', [l + '\rpwd\rf\rls' for l in _cds[::2]], 'the same with any byte at every 3rd position', jobs=8, ANYPOS=None, STEP=3)
# C10
for _pm in (80, 130, 258):
    _ls = []
    for _d in range(-4, 4):
        _n = _pm + _d
        for _c in ('cd %s', 'ls %s', 'cat %sf', '%sf', 'echo a > %sf', 'xxd %sf', 'help %sf'):
            _m = _n - (1 if _c.endswith('f') else 0) - 3   # /q/ + ./ ... 
            _ls.append(_c % ('/q/' + rep(_m // 2, './') + ('/' if _m % 2 and not _c.endswith('f') else '')))
            _ls.append(_c % (rep(_n, '?')[0:0] + rep(_n - 1, 'a')))
    big('C10', 'limit-%d' % _pm, _ls, 'path_max_length %d, arguments of %d..%d characters, from / and /q/q/q/q' % (_pm, _pm - 5, _pm + 3), jobs=2, PMAX=_pm, CDS='{"","cd q/q/q/q\\r"}')
# C13, C14
_tabs = ['a\t\t', 'abc?\t', 'abcd\t', '%0g\t\t', '%0a\t', '%0f?\t', '%0l\t\t', '%0n\t', '%1n\t', '%1a\t', 'x y %0m\t', 'k\t\t', 'k0\t1', 'k1?\t\t', 't\t', 'temp\t\t', 'temperature-sensor-a\t', 's\t\t', 'con\t\t', 'configurations-o\t', '.\t\t', '..\t', '...\t', 'm\t\t', 'mz\t', 'q\t', 'z\t', '\t', '\t\t', 'cat b\t', 'e\t', 'f\t', '%0n?\t', '%0i\t\t']
big('C13', 'long-names', [t + u for t in _tabs for u in ('', '?')], 'completion of long words and many candidates, any byte at marked positions', jobs=8, CDS='{"","cd p\\r","cd files\\r","cd q/q\\r","cd many\\r","cd s1\\r"}')
big('C13', 'long-names-any', [t + '\t' for t in _tabs[:16]], 'the same with any byte at every position', jobs=8, ANYPOS=None)
_room = [t for t in _tabs] + [rep(k, 'x') + ' ' + t for k in (0, 1, 2, 5, 30, 60) for t in ('abc\t', '\t', '%0b?\t', 'temp\t\t', 'k1\t')]
for _in in (5, 9, 16, 17, 18, 32, 33, 34, 64, 65, 66, 67, 100):
    big('C14', 'room-%d' % _in, _room, 'input buffer of %d bytes, completion of names longer and shorter than it, lines longer than it' % _in, jobs=1, IN=max(_in, 10) if _in < 10 else _in, ROOM=None, CDS='{""}')
# C15
_cat = ['cat blob', 'cat temperature-sensor-b temperature-sensor-a blob', 'cat empty', 'cat empty blob empty', 'cat ' + rep(20, 'q/f ') + 'blob', 'cat ' + ' '.join('many/m%s%s' % (chr(97 + i), 'x' * (i % 2)) for i in range(24)), 'cat ' + rep(19, 'empty ') + 'zz', 'cat ' + rep(12, '%0a ')[0:0] + 'blob d blob', 'cat ' + rep(30, 'blob ') + '%0a', 'cat /p/%0f/f p/%0b/f /files/%0n', 'cat k03 blob', 'cat z']
big('C15', 'long', _cat, 'up to 31 arguments, files of 0..600 bytes with any byte at a boundary position, output buffers 64 and 600', jobs=4, DATA='0,1,7,63,64,127,128,254,255,256,257,511,512,599', OUTS='{64,600}')
big('C15', 'long-any', ['cat blob empty q/f', 'cat temperature-sensor-a temperature-sensor-b', 'cat /p/%0i/f /files/%0d'], 'any byte at every position', jobs=4, ANYPOS=None)
# C16
big('C16', 'long', ['xxd blob', 'xxd temperature-sensor-a', 'xxd temperature-sensor-b', 'xxd empty', 'xxd /p/%0f/f', 'xxd q/q/q/q/q/q/q/q/f', 'xxd /files/%0n', 'xxd /files/%1n', 'xxd many/mb', 'xxd k03'], 'files of 0..600 bytes, any byte at a boundary position', jobs=8, DATA='0,7,8,127,128,254,255,256,257,599')
# C17
big('C17', 'long', ['ls', 'ls /', 'ls files', 'ls /many', 'ls p', 'ls p/%0n', 'ls q', 'ls q/q/q/q/q/q/q', 'ls ' + rep(12, 'q/'), 'ls s1', 'ls s?', 'ls ...', 'ls configurations-old', 'ls configurations-new/', 'ls ' + rep(100, '../'), 'ls p/%0a/..', 'ls p q', 'ls ....', 'ls temperature-sensor-a'], 'listings of up to 28 files and 21 subdirectories with long names and descriptions, any byte at every position', jobs=8, ANYPOS=None, CDS='{"","cd q/q/q\\r"}', OUTS='{600}')
big('C17', 'long-small-buffer', ['ls many', 'ls q', 'ls s1', 'ls s1/s1', 'ls configurations-new', 'ls ...'], 'the same with an output buffer of 64 bytes where lines fit it', jobs=2, CDS='{""}', OUTS='{64,65,128,256}')
# C18
big('C18', 'long', ['help', 'help ' , 'help blob'] + ['help ' + n for n in _names] + ['help /p/%s/f' % n for n in _names[:14:3]] + ['help /files/' + n for n in _names[::3]] + ['help temperature-sensor-a', 'help x', 'help configurations-new/x', 'help configurations-old/x', 'help q/f', 'help ' + rep(100, 'a'), 'help help help'], 'help of 42+7 commands, manuals of 519 characters, long names, any byte at every 3rd position', jobs=8, ANYPOS=None, STEP=3, OUTS='{600}')
# C19
_texts = [rep(n, 'a') for n in (1, 16, 63, 127, 200, 255, 256, 257, 300, 500)] + [rep(n, '\\x41') for n in (1, 20, 63, 64, 65, 100, 120)] + [rep(60, '\\\\') , rep(100, 'a\\x0') + '0', '"' + rep(120, 'a b') + '"', rep(30, '\\x00\\xFf'), rep(254, 'a') + '\\x41', rep(255, 'a') + '\\x4']
big('C19', 'long', ['echo ' + t + u for t in _texts for u in ('', ' > blob', ' > q/q/f', ' > temperature-sensor-a', '?', '? > blob', '\\x?? > blob', '\\x4? > /files/%1a')], 'texts of 1..500 characters, the last characters any byte', jobs=8)
big('C19', 'long-any', ['echo ' + t + u for t in _texts[3:] for u in ('', ' > blob')], 'any byte at every 13th position', jobs=8, ANYPOS=None, STEP=13)
# C21
big('C21', 'long', ['k00', 'k01', 'k02', 'k03', 'k04', 'k05', 'k07', 'k08'], 'callbacks printing 519-character texts in every way from directories with names of 1..65 characters', jobs=4, OUTS='{520,521,640}', CDS='{""' + ''.join(',"cd /p/%s\\r"' % 'abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'[:n] for n in (17, 3, 33, 32, 65)) + ',"cd q/q/q\\r"}', reach=['done'])
# C26
big('C26', 'long', [l + '\rk06 a' for l in _cds[:8]] + ['k06 ' + rep(300, 'x'), 'k06 ' + rep(40, '"a b" '), 'cd q/q/q\rk06?\rls'], 'a command that resets after long lines and in deep directories, any byte at every 5th position', jobs=8, ANYPOS=None, STEP=5)
