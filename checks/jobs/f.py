_R31 = ['successful call', 'failing call', 'done']
SPECS['C31'] = Spec([
  Job('one-call', 'c31_inside.c', {'OPS': 1}, jobs=8, reach=_R31, bounds='28 calls (mount, unmount, change directory with 8 paths, add or remove groups) and 8 endings (no print, every print function with any text of 0..2 characters, reset) from 4 callbacks in 3 working directories'),
  Job('two-calls', 'c31_inside.c', {'OPS': 2, 'FINS': 1}, jobs=8, reach=_R31, bounds='any two of these calls, then a print of any character'),
  Job('getter-hook', 'c31_inside.c', {'OPS': 1, 'SAFE': None}, jobs=8, reach=['called from a getter or the hook', 'done'], bounds='one call and ending as above from the general hook of 12 lines and the getters of cat and xxd: memory safety, prompt, later commands'),
])
_H = ['ls\r', 'ls d\r', 'ls x\r', 'help\r', 'help h\r', 'help ?\r', 'cat g\r', 'cat g d/q\r', 'cat\r', 'xxd g\r', 'xxd d/q\r', 'cd d\r', 'cd ..\r', 'cd ?\r', 'pwd\r', 'echo a\\x42\r', 'echo "?" > g\r', 'echo b >\r', 'u ?\r', 'f2 1 2\r', 'w\r', '/d/p\r', 'd/f "a b" c\r', 'zz\r', '\r', '   \r', 'f\t\t', 'd\t/\tp\r', 'h\t\t\x03', 'ab\b\b\r', '\x1b[', 'x\x1bO', '"a', 'a\\', '?\t', 'help \t\t\r']
_H3 = ['ls d\r', 'help\r', 'cat g d/q\r', 'xxd g\r', 'cd d\r', 'cd ..\r', 'echo "?" > g\r', 'u ?\r', '/d/p\r', 'd/f 1\r', 'f\t\t', 'h\t', 'a\x1b[', '"?', 'zz\b\x03']
SPECS['C32'] = Spec([
  Job('pairs', 'c32_history.c', {'LINES': _lines(_H), 'K': 2}, jobs=8, reach=['call between lines', 'done'], bounds='any two of 36 complete and incomplete lines (with any characters and contents), completions, prints or resets'),
  Job('triples', 'c32_history.c', {'LINES': _lines(_H3), 'K': 3}, jobs=8, reach=['call between lines', 'done'], bounds='any three of 15 lines and 3 calls'),
  Job('quadruples', 'c32_history.c', {'LINES': _lines(_H3), 'K': 4}, tier='thorough', jobs=8, reach=['call between lines', 'done'], bounds='any four of 15 lines and 3 calls'),
  Job('large-pairs', 'c32_history.c', {'LINES': _lines(['cat blob\r', 'xxd temperature-sensor-a\r', 'help\r', 'ls files\r', 'ls p\r', 'k\t\t\x03', 'k0?\r', 'k05\r', 'cd q/q/q/q\r', 'cd /\r', 'cat q/f empty blob\r', 'echo abcdefgh > blob\r', 'temp\t\t\x03', 'pwd\r', 'help blob\r', 'x' * 300 + '\x03']), 'BIG': None, 'K': 2}, jobs=8, maxsteps=500000000, reach=['call between lines', 'done'], bounds=_BIGDOC + 'any two of 16 lines and 3 calls'),
])
_H33 = _lines(_H + ['echo abc > d/e/r\r', 'echo "\\x41??" > g\r', 'help /d/p\r', 'xxd nn\r', '??\r', '???\t', 'cat /d/q g d/q ?\r'])
SPECS['C33'] = Spec([
  Job('line', 'c33_readonly.c', {'LINES': _H33, 'K': 1, 'S': 6}, jobs=8, reach=['done'], bounds='43 lines (with any characters) and 8 API calls, any 6 bytes of data and 3 of text'),
  Job('two', 'c33_readonly.c', {'LINES': _lines([l for l in _H if l.count('?') == 0]), 'K': 2}, jobs=8, reach=['done'], bounds='any two of 30 lines and 8 API calls, one data byte symbolic'),
  Job('two-any', 'c33_readonly.c', {'LINES': _H33, 'K': 2}, tier='thorough', jobs=8, reach=['done'], bounds='any two of 43 lines (with any characters) and 8 API calls, one data byte symbolic'),
])
