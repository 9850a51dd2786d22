_R25 = ['complete ls', 'complete help', 'complete xxd', 'small', 'done']
SPECS['C25'] = Spec([
  Job('sizes', 'c25_small.c', {'SIZES': '{4,5,6,7,8,9,10,11,12,16,17,18,19,20,21,24,25,26,27,30,43,44,45}', 'LENS': '1,2,3,4,8,15,16,17,18,20,24,25,26,27,40'}, jobs=4, reach=_R25, bounds='23 output buffer sizes from 4 to 45, name lengths 1..40 (15 values; first character any plain one), with and without description, long directory names, xxd contents of 0..9 bytes with symbolic bytes'),
  Job('styles', 'c25_small.c', {'SIZES': '{4,5,6,7,8,16,20,21,24,25,26,27,30,43,44,45,48,49,50}', 'LENS': '1,8,15,16,17,18,20,24,25,40'}, cfg={'CFG_STYLES': 1}, jobs=4, reach=_R25, bounds='the same with text styles'),
])
SPECS['C26'] = Spec([
  Job('any-moment', 'c26_reset.c', {'STRIDE': 3, 'N': 0}, jobs=4, reach=['reset while busy', 'reset while idle', 'done'], bounds='reset (once or again during the banner) after every third service call while 21 lines or partial lines are typed or executed, then 5 kinds of input incl. any byte and CR'),
  Job('from-command', 'c26_reset.c', {'FROMCMD': None, 'N': 1}, jobs=4, reach=['command executed', 'at the root', 'done'], bounds='a command that resets, called in 6 ways followed by any byte from 4 directories, with and without hook'),
  Job('any-moment-2', 'c26_reset.c', {'STRIDE': 1, 'N': 1, 'NB': 2}, tier='thorough', jobs=8, timeout=5400, reach=['reset while busy', 'reset while idle', 'done'], bounds='reset after every service call of 21 lines followed by any byte; then any 2 bytes and CR'),
])
_R27 = ['changed while busy', 'changed while a line is half typed', 'done']
SPECS['C27'] = Spec([
  Job('one-change', 'c27_change.c', {'STRIDE': 3, 'CHANGES': 1}, jobs=8, reach=_R27, bounds='one of 8 changes (unmount /d/e, /d and /d/e, /b; remove either group; mount /dn or /d/n; add a group) after every third service call of 13 commands or completions and 3 half typed lines (continued with any byte), from / and /d/e, symbolic file contents'),
  Job('every-call', 'c27_change.c', {'STRIDE': 1, 'CHANGES': 1}, tier='thorough', jobs=8, reach=_R27, bounds='the same after any service call'),
  Job('two-changes', 'c27_change.c', {'STRIDE': 5, 'CHANGES': 2}, tier='thorough', jobs=8, reach=_R27, bounds='two changes on a grid of 5 service calls'),
])
_DEMO = ['examples/demo_linux/' + f for f in ('shell.c', 'commands.c', 'fs/fs.c', 'fs/path/root.c', 'fs/path/etc.c', 'fs/path/dev.c', 'fs/path/bin.c')]
import os as _os
_DF = ['-I' + _os.environ.get('VERIF_REPO', '/repo') + '/examples/demo_linux', '-Dtime=demo_time', '-Drand=demo_rand', '-Dsrand=demo_srand']
SPECS['C29'] = Spec([
  Job('write', 'c29_demo.c', {'K': 1, 'OVER': 0, 'LENS': '0,1,2,3,15,16,17,18,31,32,33,100,200,225'}, extra=_DEMO, extra_flags=_DF, jobs=4, reach=['written', 'refused', 'done'], bounds='one write of 0..225 characters (14 sizes, up to 32 for the eeprom; first and last character symbolic, plain or hexadecimal coded) to each of 10 files, then every file is read'),
  Job('write-2', 'c29_demo.c', {'K': 2, 'OVER': 0, 'LENS': '0,2,17,32'}, extra=_DEMO, extra_flags=_DF, jobs=4, reach=['written', 'refused', 'done'], bounds='two writes'),
  Job('eeprom-over', 'c29_demo.c', {'K': 1, 'OVER': 1, 'LENS': '33,34,40,200'}, extra=_DEMO, extra_flags=_DF, jobs=1, bounds='writes of more than 32 characters to the eeprom (known finding)'),
])
_R28 = ['root', 'one level', 'several levels', 'canonical', 'done']
SPECS['C28'] = Spec([
  Job('helpers', 'c28_paths.c', {'N': 9}, jobs=4, reach=_R28, bounds='every canonical absolute path of 1..9 characters of any value, exact-size buffers'),
  Job('deep', 'c28_paths.c', {'N': 13, 'ALPHA': '"/.a"'}, jobs=8, reach=_R28, bounds='every canonical absolute path of 1..13 characters among / . a'),
  Job('helpers-13', 'c28_paths.c', {'N': 13}, tier='thorough', jobs=8, reach=_R28, bounds='the same with 1..13 characters of any value'),
])
_CMDS = ['CAT', 'CD', 'ECHO', 'HELP', 'LS', 'PWD', 'XXD']
def _v(name, cfg, **k):
    return Job(name, 'c30_config.c', dict({'N': 1}, **k), cfg=cfg, jobs=2, reach=['done'], bounds='27 lines and partial lines (with TAB) followed by any byte and CR, symbolic file contents; built with ' + ', '.join('%s=%s' % (a[4:], b) for a, b in cfg.items()))
SPECS['C30'] = Spec([_v('full', {'CFG_STYLES': 0})] + [_v('no-' + c.lower(), {'CFG_' + c: 0}) for c in _CMDS] + [_v('only-' + c.lower(), {'CFG_' + x: int(x == c) for x in _CMDS}) for c in _CMDS] + [
  _v('no-completion', {'CFG_AUTOCOMPLETE': 0}), _v('styles', {'CFG_STYLES': 1}), _v('styles-no-completion', {'CFG_STYLES': 1, 'CFG_AUTOCOMPLETE': 0}),
  _v('no-commands', {'CFG_COMMANDS': 0}), _v('no-commands-styles', {'CFG_COMMANDS': 0, 'CFG_STYLES': 1}), _v('nothing', {'CFG_COMMANDS': 0, 'CFG_AUTOCOMPLETE': 0}),
  _v('all-builtins-off', {'CFG_' + c: 0 for c in _CMDS}), _v('no-completion-only-ls', dict({'CFG_' + c: int(c == 'LS') for c in _CMDS}, CFG_AUTOCOMPLETE=0))])
import itertools as _it
for _m in range(128):
    _on = [c for _i, c in enumerate(_CMDS) if _m >> _i & 1]
    if len(_on) in (0, 1, 6, 7): continue
    _j = _v('subset-' + '-'.join(c.lower() for c in _on), dict({'CFG_' + c: int(c in _on) for c in _CMDS}, CFG_STYLES=_m & 1, CFG_AUTOCOMPLETE=_m >> 1 & 1)); _j.tier = 'thorough'
    SPECS['C30'].jobs.append(_j)
SPECS['C16'].jobs.append(Job('far', 'c16_far.c', {'LEN': 66000}, jobs=8, maxsteps=2000000000, reach=['done'], bounds='a file of 66000 bytes, byte 65536 symbolic'))
SPECS['C16'].jobs.append(Job('far-4k', 'c16_far.c', {'LEN': 4100, 'MORE': None}, jobs=4, maxsteps=2000000000, reach=['done'], bounds='a file of 4100 bytes, one symbolic byte at each of 11 places'))
SPECS['C15'].jobs.append(Job('far', 'c16_far.c', {'LEN': 66000, 'CAT': None}, jobs=2, maxsteps=2000000000, reach=['done'], bounds='a file of 66000 bytes, byte 65536 symbolic'))
