SPECS['C01'] = Spec([
  Job('sizes-5', 'c01_bytes.c', {'N': 5}, tier='thorough', jobs=8, reach=['executed', 'done'], bounds='every sequence of 5 bytes (no TAB) with input buffer sizes 2,3,4,6 and output buffer sizes 4,64'),
  Job('sizes', 'c01_bytes.c', {'N': 4}, jobs=4, reach=['executed', 'done'], bounds='every sequence of 4 bytes (no TAB) with input buffer sizes 2,3,4,6 and output buffer sizes 4,64'),
  Job('commands', 'c01_bytes.c', {'N': 3, 'IN_SIZES': '{24}', 'OUT_SIZES': '{4,20,64}', 'PRES': '{"cat ","xxd ","ls ","cd ","help ","echo ","echo a > ","pwd "}', 'SUF': '"\\r"'}, jobs=4, reach=['executed', 'done'], bounds='every built-in command followed by any 3 bytes and CR, input buffer 24, output buffer sizes 4,20,64'),
  Job('wrap', 'c01_bytes.c', {'N': 3, 'IN_SIZES': '{8,9}', 'PRES': '{"u aaaaa","aaaaaaaaaaaa","u \\"a\\\\","cat g g"}', 'SUF': '"\\r"'}, jobs=2, reach=['executed', 'done'], bounds='lines reaching and exceeding an input buffer of 8 or 9 bytes, any 3 bytes, CR'),
])
SPECS['C05'] = Spec([
  Job('refuse-1', 'c05_press.c', {'KW': 1, 'LINES': '{"cat g /d/q\\r","xxd g\\r","ls\\r","help\\r","help h\\r","echo ab\\\\x00c > g\\r","echo ab\\r","cd d\\r","pwd\\r","u 1\\r","d/p\\r","zz\\r","a\\b\\t\\x1b[A\\x03","u\\t\\r","f2 \\r"}'}, jobs=2, reach=['all refusals used', 'done'], bounds='each built-in, callback prints, editing and completion, with any single write refused; file contents symbolic'),
  Job('refuse-2', 'c05_press.c', {'KW': 2, 'LINES': '{"cat g\\r","pwd\\r","d/p\\r","ab\\b\\r"}'}, jobs=4, reach=['all refusals used', 'done'], bounds='any two writes refused (in a row or apart)'),
  Job('refuse-delay', 'c05_press.c', {'KW': 1, 'KR': 1, 'LINES': '{"cat g\\r","u \\t\\b\\r"}'}, jobs=2, reach=['all refusals used', 'all delays used', 'done'], bounds='any one write refused and any one read delayed'),
  Job('bytes-2', 'c05_press.c', {'KW': 1, 'KR': 1, 'N': 2}, jobs=4, reach=['executed', 'done'], bounds='any two bytes and CR with any one write refused and any one read delayed'),
])
SPECS['C06'] = Spec([
  Job('bytes-3', 'c06_step.c', {'N': 3, 'KW': 1}, tier='thorough', jobs=8, reach=['done'], bounds='any 3 bytes and CR, any one write refused, then optionally print, printf or reset from outside'),
  Job('bytes', 'c06_step.c', {'N': 2, 'KW': 1}, jobs=4, reach=['done'], bounds='any 2 bytes and CR, any one write refused, then optionally print, printf or reset from outside'),
  Job('commands', 'c06_step.c', {'N': 1, 'KW': 0, 'LINES': '{"cat g d/q g\\r","xxd g\\r","ls\\r","ls d\\r","help\\r","help h\\r","echo a > g\\r","echo a\\r","cd d\\r","pwd\\r","u 1\\r","d/p\\r","zz\\r","\\t","u\\t","f\\t\\t","h\\r"}'}, jobs=2, reach=['done'], bounds='every built-in and callback kind, completion, then any byte and CR'),
])
SPECS['C07'] = Spec([
  Job('bytes', 'c07_back.c', {'N': 4}, jobs=6, reach=['done'], bounds='any 4 bytes (TAB included), input buffer sizes 7 and 24, then Ctrl-C, CR CR or LF LF; at most 2500 service calls to become idle'),
  Job('lines', 'c07_back.c', {'N': 2, 'IN_SIZES': '{7,16}', 'PRES': '{"aaaaa","aaaaaa","aaaaaaa","u \\"a","cat g","ls d","help ","xxd g","echo \\\\x","cd d/","f\\t","\\x1b["}'}, jobs=2, reach=['done'], bounds='the same after 12 prefixes: full buffers, open quotes, built-ins with partial arguments; any 2 bytes'),
])
SPECS['C08'] = Spec([
  Job('names', 'c08_names.c', {'N': 4, 'HOOK': 'true'}, jobs=6, reach=['file executed', 'done'], bounds='every first argument of 0..4 characters, 4 working directories, with and without a further argument, execute hook configured'),
  Job('paths', 'c08_names.c', {'N': 3, 'HOOK': 'false', 'PRE': '"../d/"'}, jobs=2, reach=['file executed', 'done'], bounds='every first argument ../d/ plus 0..3 characters, no hook'),
])
SPECS['C09'] = Spec([
  Job('any-text', 'c09_paths.c', {'N': 5}, jobs=4, reach=['root', 'a mounted directory', 'done'], bounds='every path text of 1..5 characters of any value, 4 working directories'),
  Job('dots', 'c09_paths.c', {'N': 8, 'TAIL': None}, jobs=4, reach=['root', 'done'], bounds='every path text of 1..8 characters among . / d, 4 working directories'),
  Job('cd-pwd', 'c09_cd.c', {'N': 5}, jobs=4, reach=['done'], bounds='cd with every argument of 1..5 characters among . / d e, then pwd'),
])
SPECS['C10'] = Spec([
  Job('limit', 'c10_long.c', {'N': 3}, jobs=4, reach=['refused', 'fits', 'done'], bounds='path_max_length 5..10, depth 0..3, every working directory, 7 commands, arguments of 0..3 characters among ./degpx, executed or completed'),
  Job('long', 'c10_long.c', {'N': 1, 'FILL': 10}, jobs=4, reach=['refused', 'fits', 'done'], bounds='the same with 0..10 characters ././ in front of 0..1 characters'),
])
SPECS['C11'] = Spec([
  Job('symbolic-paths', 'c11_tree.c', {'K': 3, 'P': 4, 'ROOTED': None}, jobs=4, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'root unmounted', 'done'], bounds='root mounted, then any 3 mounts/unmounts and one lookup with every canonical path of 1..4 characters of any value'),
  Job('unrooted', 'c11_tree.c', {'K': 3, 'P': 2}, jobs=2, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'root unmounted', 'done'], bounds='any 3 operations from the empty tree, paths of 1..2 characters'),
  Job('pool', 'c11_tree.c', {'K': 4, 'P': 8, 'POOL': None, 'ROOTED': None, 'REUSE': None}, jobs=2, reach=['mounted', 'mount refused', 'unmounted', 'unmount refused', 'done'], bounds='any 4 operations over 7 nested paths, nodes reused after unmounting'),
])
SPECS['C12'] = Spec([
  Job('sequences', 'c12_cwd.c', {'K': 2, 'PRE': '"cd d/e\\r"'}, jobs=2, reach=['unmounted the working directory', 'done'], bounds='any 2 operations (cd with 14 arguments, unmount, mount) starting in /d/e, each followed by pwd; then ls and relative lookups'),
  Job('sequences-3', 'c12_cwd.c', {'K': 3}, jobs=4, reach=['unmounted the working directory', 'done'], bounds='any 3 operations starting in /'),
  Job('cd-any', 'c12_cwd.c', {'K': 2, 'ANY': None, 'N': 3}, jobs=4, reach=['done'], bounds='the same with cd arguments of any 0..3 characters, 2 operations'),
])
SPECS['C13'] = Spec([
  Job('names', 'c13_tab.c', {'L': 2, 'N': 1, 'PRES': 2}, cfg={'CFG_COMMANDS': 0}, jobs=6, reach=['extended', 'listed', 'nothing', 'done'], bounds='two command names, a file name and a directory name of any 1..2 characters; 0..1 typed characters of any value after nothing or a word; TAB TAB, typing, execution'),
  Job('names-3', 'c13_tab.c', {'L': 3, 'N': 1, 'PRES': 4, 'ONEGRP': None}, cfg={'CFG_COMMANDS': 0}, jobs=6, reach=['extended', 'listed', 'nothing', 'done'], bounds='a command, file and directory name of any 1..3 characters'),
  Job('world', 'c13_world.c', {'N': 2}, jobs=4, reach=['done'], bounds='0..2 characters of any value (TAB included) in 4 directories with all built-ins, after nothing, cat or u'),
])
SPECS['C14'] = Spec([
  Job('any-bytes', 'c14_room.c', {'N': 2, 'L': 3, 'IN_SIZES': '{2,3,4,5}'}, cfg={'CFG_COMMANDS': 0}, jobs=6, reach=['done'], bounds='any 2 bytes then TAB TAB, input buffer sizes 2..5, two names of any 1..3 characters'),
  Job('builtins', 'c14_room.c', {'N': 2, 'L': 1, 'IN_SIZES': '{2,3,4,5,6}'}, jobs=4, reach=['done'], bounds='the same with the built-in commands as candidates, buffer sizes 2..6'),
  Job('fits', 'c14_room.c', {'N': 2, 'L': 3, 'IN_SIZES': '{3,4,5}', 'FITS': None}, cfg={'CFG_COMMANDS': 0}, jobs=4, reach=['completed', 'empty line stays empty', 'done'], bounds='0..2 plain characters, 1..3 TABs, execution: text kept, capacity respected'),
])
SPECS['C15'] = Spec([
  Job('cat-2', 'c15_cat.c', {'A': 2, 'D': 3}, jobs=2, reach=['empty file without data pointer', 'error', 'done'], bounds='0..2 arguments among 9 kinds (files, commands, nested, unreadable, missing, directory, empty), each getter call supplying 0..3 symbolic bytes or nothing without setting the pointer'),
  Job('cat-3', 'c15_cat.c', {'A': 3, 'D': 1}, jobs=4, reach=['empty file without data pointer', 'error', 'done'], bounds='0..3 arguments, 0..1 symbolic bytes per getter call'),
  Job('back-pressure', 'c05_press.c', {'KW': 2, 'LINES': '{"cat g q /g\\r","cat g /d/q g\\r"}'}, jobs=2, reach=['all refusals used', 'done'], bounds='cat with symbolic contents and any two writes refused'),
])
SPECS['C16'] = Spec([
  Job('dump', 'c16_xxd.c', {'LEN': 17, 'S': 3}, jobs=4, reach=['several lines', 'done'], bounds='every length 0..17, any 3 consecutive bytes symbolic, at every position'),
  Job('dump-8', 'c16_xxd.c', {'LEN': 6, 'S': 6}, jobs=4, reach=['done'], bounds='every length 0..6 with every byte symbolic'),
  Job('arguments', 'c16_xxd.c', {'LEN': 0, 'S': 1, 'ARGS': None}, jobs=1, reach=['done'], bounds='9 argument lists'),
])
SPECS['C17'] = Spec([
  Job('attributes', 'c17_ls.c', {'ATTR': None, 'SHAPES': 2, 'N': 0, 'L': 2}, jobs=4, reach=['long listing', 'done'], bounds='a file with every combination of callbacks, description of 0..2 characters, symbolic or 15..17 character name'),
  Job('paths', 'c17_ls.c', {'SHAPES': 5, 'N': 3}, jobs=2, reach=['long listing', 'done'], bounds='5 trees, every path argument of 0..3 characters, from / and /d'),
])
SPECS['C18'] = Spec([
  Job('list', 'c18_help.c', {'LIST': None}, jobs=2, reach=['done'], bounds='commands with symbolic names and descriptions, one or two groups'),
  Job('manual', 'c18_help.c', {'N': 3}, jobs=4, reach=['done'], bounds='help with every argument of 0..3 characters and 7 argument lists, symbolic manuals'),
])
SPECS['C19'] = Spec([
  Job('text', 'c19_echo.c', {'N': 3}, jobs=4, reach=['written', 'done'], bounds='any text of 0..3 characters after nothing, \\\\x, an open quote or \\\\x4, 9 targets'),
  Job('hex', 'c19_echo.c', {'N': 5, 'HEX': None, 'PRES': '{""}'}, jobs=4, reach=['written', 'done'], bounds='any text of 0..5 characters among backslash, x, quote, space, hexadecimal digits and their neighbours'),
  Job('spacing', 'c19_echo.c', {'N': 2, 'RAW': None, 'PRES': '{""," \\"\\"","  "}'}, jobs=2, reach=['written', 'wrote nothing', 'done'], bounds='empty and missing arguments, any 0..2 characters'),
])
SPECS['C20'] = Spec([
  Job('overflow', 'c20_printf.c', {'K': 2, 'KINDS': 1}, jobs=2, reach=['complete', 'overflow', 'done'], bounds='two prints of symbolic texts of every length 0..size+1 for output buffer sizes 4,5,6,18..21,24; from outside, with pending text, from a command callback'),
  Job('formats', 'c20_printf.c', {'K': 2, 'KINDS': 4, 'SIZES': '{4,8,17,18,19,20,26,40}'}, jobs=2, reach=['complete', 'overflow', 'format error', 'done'], bounds='two prints of 4 formats including a failing one'),
  Job('any-time', 'c20_any.c', {}, jobs=2, reach=['done'], bounds='two prints after 0..59 service calls of 7 lines'),
  Job('no-nul', 'c20_printf.c', {'K': 1, 'KINDS': 1, 'NONUL': None}, jobs=1, reach=[], bounds='one print: no NUL byte is emitted (known finding)'),
])
SPECS['C21'] = Spec([
  Job('prints', 'c21_print.c', {'L': 4}, jobs=4, reach=['status', 'done'], bounds='4 print calls with any text of 0..4 characters or every status, from a callback or outside (with and without a pending line), any host name of 0..3 characters, 4 directories one with a symbolic name'),
])
SPECS['C22'] = Spec([
  Job('lives', 'c22_init.c', {'N': 2}, jobs=4, reach=['deinitialised', 'without groups', 'done'], bounds='indeterminate memory, or a previous use with any 2 keys stopped after 0..11 service calls, with or without deinitialisation or overwritten memory'),
])
SPECS['C23'] = Spec([
  Job('interleave', 'c23_two.c', {'SW': 2, 'N': 0, 'STRIDE': 17}, jobs=4, reach=['all switches used', 'callbacks compared', 'done'], bounds='8x7 pairs of lines, at most 2 free switches on a grid of 17 service calls'),
  Job('api', 'c23_two.c', {'SW': 1, 'N': 0, 'STRIDE': 17, 'API': None}, jobs=4, reach=['all switches used', 'callbacks compared', 'done'], bounds='the same with mount, print, group removal or reset on one shell at 4 times and one free switch'),
  Job('interleave-fine', 'c23_two.c', {'SW': 2, 'N': 0, 'STRIDE': 5}, tier='thorough', jobs=4, reach=['all switches used', 'callbacks compared', 'done'], bounds='8x7 pairs of lines, at most 2 free switches on a grid of 5 service calls'),
  Job('bytes', 'c23_two.c', {'SW': 1, 'N': 1, 'STRIDE': 17}, tier='thorough', jobs=4, reach=['all switches used', 'callbacks compared', 'done'], bounds='one arbitrary byte typed in each shell after the lines, one free switch'),
])
SPECS['C24'] = Spec([
  Job('sequences', 'c24_groups.c', {'K': 4}, jobs=4, reach=['removed', 'done'], bounds='any 4 add/remove operations on 3 groups with shared names, then help, completion and execution of any 0..2 characters'),
  Job('each', 'c24_groups.c', {'K': 3, 'EACH': None}, jobs=2, reach=['removed', 'done'], bounds='any 3 operations with help after each'),
])
