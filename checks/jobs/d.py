_BIGDOC = 'large world (names of 3..65 characters, 42 commands, 47 directories, up to 12 deep and 21 siblings, 600-byte files): '
SPECS['C11'].jobs += [
  Job('large', 'c11_big.c', {'K': 2, 'LS': None}, jobs=8, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'done'], bounds='trees of 24 directories (up to 9 siblings, 6 deep, long names) mounted in 4 orders, any 2 mounts/unmounts of 35 paths, every lookup after each, listings at the end'),
  Job('large-query', 'c11_big.c', {'K': 1, 'QUERY': None}, jobs=8, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'done'], bounds='the same with one operation, then the lookup of a path with any byte at any position'),
  Job('large-3', 'c11_big.c', {'K': 3}, tier='thorough', jobs=8, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'done'], bounds='the same with any 3 operations'),
]
SPECS['C24'].jobs += [
  Job('many', 'c24_many.c', {'K': 2}, jobs=8, reach=['removed', 'removed twice', 'added again', 'done'], bounds='12 groups with shared names added in 3 orders, any 2 removals or additions, help, completion, execution of every name'),
  Job('many-3', 'c24_many.c', {'K': 3}, tier='thorough', jobs=8, reach=['removed', 'removed twice', 'added again', 'done'], bounds='the same with any 3 operations'),
]
_L5 = _lines(['cat blob\r', 'xxd temperature-sensor-b\r', 'help\r', 'ls files\r', 'ls p\r', 'k\t\t00\r', 'k01\r', 'k05\r', 'echo #A > blob\r'.replace('#A', 'x' * 60) + 'cat q/f\r', 'cd q/q/q\rpwd\r', 'abc' + '\b' * 3 + 'k09 1 2\r', 'zz\r', 'help blob\r'])
SPECS['C05'].jobs += [
  Job('stalls', 'c05_burst.c', {'LINES': _L5}, jobs=8, maxsteps=500000000, reach=['refused', 'long stall', 'done'], bounds=_BIGDOC + 'from every 7th of the first 280 output bytes, 1..260 refusals in a row, or a refusal of every 2nd..16th write with delayed reads'),
  Job('stalls-fine', 'c05_burst.c', {'LINES': _L5, 'STRIDE': 1, 'STARTS': 250}, tier='thorough', jobs=8, maxsteps=500000000, reach=['refused', 'long stall', 'done'], bounds=_BIGDOC + 'the same from every one of the first 250 output bytes'),
]
SPECS['C22'].jobs += [
  Job('large', 'c22_big.c', {}, jobs=8, maxsteps=500000000, reach=['done'], bounds=_BIGDOC + 'deinitialised after 0..432 service calls of 7 lines, then a second life'),
]
_L6 = _lines(['help\r', 'ls files\r', 'ls p\r', 'cat blob empty q/f\r', 'xxd blob\r', 'a\t\t', 'k\t\t', '?\t\r', 'k0?\r', 'cat ' + 'empty ' * 60 + '\r', 'k09 ' + 'ab ' * 60 + '\r', 'echo ' + '\\x41' * 60 + ' > blob\r', 'cd q/q/q/q/q/q/q/q\rpwd\r', 'help blob\r', 'z' * 300 + '\b' * 300 + '\x03', 'k09 "' + 'q ' * 100 + '\r', 'k00\rk01\rk06\r', '\x1b[A' * 50 + '\r', 'abc\x1b[Ad\x1bOBe\x1b[3~fg\x1b[1;5C\r'])
SPECS['C06'].jobs.append(Job('long', 'c06_big.c', {'LINES': _L6}, jobs=8, maxsteps=500000000, reach=['done'], bounds=_BIGDOC + 'every service call of 19 long commands, completions and lines, with arbitrary bytes and contents; number of calls bounded by the output'))
SPECS['C20'].jobs.append(Job('large', 'c20_large.c', {'SIZES': '64,127,128,255,256,257,300,520,1024'}, jobs=8, maxsteps=500000000, reach=['complete', 'overflow', 'done'], bounds='output buffers of 64..1024 bytes, three prints in 4 formats (strings, precision, width, hexadecimal) whose total length is around the buffer size, arbitrary first or last characters'))
SPECS['C25'].jobs.append(Job('long-names', 'c25_small.c', {'OUTMAX': 8192, 'MAXLEN': 300, 'SIZES': '{4,16,30,48,63,64,65,68,100,127,128,129,132,255,256,257,259,260,261,303,304,305,400}', 'LENS': '1,60,61,64,100,124,125,128,252,253,255,256,257,300'}, jobs=8, reach=_R25, bounds='output buffers of 4..400 bytes, names of 1..300 characters'))
SPECS['C27'].jobs += [
  Job('large', 'c27_big.c', {'STRIDE': 29, 'TIMES': 6}, jobs=8, maxsteps=500000000, reach=['changed while busy', 'changed while a line is half typed', 'done'], bounds=_BIGDOC + 'one of 12 changes (siblings, whole subtrees, the working directory, groups, replaced directories) at 6 times of 13 long commands, completions and half typed lines from 4 directories'),
  Job('large-fine', 'c27_big.c', {'STRIDE': 7, 'TIMES': 120}, tier='thorough', jobs=8, maxsteps=500000000, timeout=5400, reach=['changed while busy', 'changed while a line is half typed', 'done'], bounds=_BIGDOC + 'the same at 120 times'),
]
SPECS['C28'].jobs.append(Job('long', 'c28_paths.c', {'N': 1300, 'LONG': None}, jobs=8, reach=['one level', 'several levels', 'canonical', 'done'], bounds='paths of up to 1300 characters with 1..300 components of 1..300 characters and one arbitrary byte'))
SPECS['C01'].jobs.append(Job('long', 'c01_bytes.c', {'N': 1, 'FILL': None, 'IN_SIZES': '{64,127,128,129,255,256,257,300,512}', 'OUT_SIZES': '{32}', 'SUF': '"\\r"'}, jobs=8, maxsteps=500000000, reach=['executed', 'done'], bounds='input buffers of 64..512 bytes filled to within -6..+3 characters of their size by 11 patterns after 4 commands, any byte, CR'))
SPECS['C23'].jobs.append(Job('round-robin', 'c23_two.c', {'SW': 0, 'N': 0, 'STRIDE': 1, 'RR': None}, jobs=8, reach=['all switches used', 'callbacks compared', 'done'], bounds='13x12 pairs of lines (editing, escape sequences, quotes, completion, every command), the shells alternating every 1,2,3,4,7 or 11 service calls with 4 head starts'))
