# lines longer than 16-bit counters can hold
def _far(pid, name, mode, bounds, reach=('done',), jobs=4, len=66000, tier=None, places=None):
    k = {'tier': tier} if tier else {}
    SPECS[pid].jobs.append(Job(name, 'far_line.c', {'MODE': mode, 'LEN': len, **({'PLACES': places} if places else {})}, jobs=jobs, maxsteps=4000000000, reach=list(reach), bounds=bounds, **k))
_far('C02', 'far', 'EDIT', 'a line of 66000 characters, any printable character at 4 places (255, 256, 65535, 65536), rubbed out over 0, 3 or all characters behind the place and typed again')
_far('C02', 'far-fill', 'FILL', places='{ 65535, LEN }', bounds='an input buffer of 66002 characters filled to the last usable place, likewise')
_far('C02', 'far-idle', 'RUBS', '66000 backspaces and escape sequences with any final byte on an empty line before a command')
_far('C04', 'far', 'ARGS', '66000 arguments, last one any character', jobs=2)
_far('C19', 'far', 'ECHO', '66000 bytes written by echo, any coded byte at 4 places (255, 256, 65535, 65536)')
_far('C13', 'far', 'TABS', 'completion of a word of 66000 characters, any letter at 4 places (255, 256, 65535, 65536)', reach=('done', 'completed', 'not completed'))

_P17 = '{ 0, 1, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, LEN - 1 }'
for _p, _m in (('C02', 'EDIT'), ('C02', 'FILL'), ('C19', 'ECHO'), ('C13', 'TABS')):
    _far(_p, 'far-places-' + _m.lower(), _m, 'the same at 18 places', jobs=8, tier='thorough', places=_P17)

SPECS['C20'].jobs.append(Job('far', 'c20_large.c', {'SIZES': '66000', 'MAXTEXT': 66100, 'FEW': None}, jobs=8, maxsteps=4000000000, reach=['complete', 'overflow', 'done'], bounds='an output buffer of 66000 bytes, third print in 4 formats and 6 lengths'))
SPECS['C20'].jobs.append(Job('far-all', 'c20_large.c', {'SIZES': '65535,65536,65537,66000', 'MAXTEXT': 66100}, tier='thorough', jobs=8, maxsteps=4000000000, reach=['complete', 'overflow', 'done'], bounds='output buffers of 65535..66000 bytes, all formats'))

SPECS['C06'].jobs.append(Job('pending', 'c06_step.c', {'N': 2, 'KW': 1, 'LINES': '{"ab","abc\\x1b","u \\"q","zz\\b\\b","abcdefgh\\x1b["}'}, jobs=4, reach=['done'], bounds='any 2 bytes and CR after 5 pending inputs (text, an open quote, an open escape sequence), any one write refused'))
SPECS['C20'].jobs.append(Job('lengths', 'c20_printf.c', {'K': 2, 'KINDS': 1, 'SIZES': '{32,40}'}, jobs=8, reach=['complete', 'overflow', 'done'], bounds='two prints of symbolic texts of every pair of lengths, output buffers of 32 and 40 bytes'))
