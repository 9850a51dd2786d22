# long histories of one use (counters that wrap, reserves that are not given back)
def _again(pid, kinds, what, times='{300,66000}', jobs=2, name='again', tier=None):
    k = '{' + ','.join(map(str, kinds)) + '}'
    SPECS[pid].jobs.append(Job(name, 'again.c', {'KINDS': k, 'TIMES': times}, jobs=jobs, maxsteps=20000000000, reach=['done'], bounds='%s repeated 300%s times, each time as the second time, then an arbitrary line' % (what, ' and 66000' if '66000' in times else ''), **({'tier': tier} if tier else {})))
_F = '{300}'
_again('C32', [0, 1, 2, 12, 14], 'empty, unknown, executing and edited lines', jobs=4)
_again('C32', [18], 'refused lines', times=_F, name='again-refused')
_again('C02', [8, 16], 'an abandoned line, rubbing out nothing')
_again('C07', [9, 13], 'escape sequences, overlong lines', jobs=4)
_again('C04', [12], 'a line with quotes')
_again('C15', [5], 'cat')
_again('C16', [10], 'xxd')
_again('C17', [4], 'ls and help', times=_F)
_again('C18', [11], 'help of a command, of nothing')
_again('C19', [6, 15], 'echo to a file and to the terminal', jobs=4)
_again('C13', [7, 17], 'completions', times=_F)
_again('C13', [7, 17], 'completions', times='{66000}', name='again-far', tier='thorough')
_again('C17', [4], 'ls and help', times='{66000}', name='again-far', tier='thorough')
_again('C32', [18], 'refused lines', times='{66000}', name='again-refused-far', tier='thorough')
_again('C11', ['A_MOUNT', 'A_FAIL'], 'mount and unmount, refused calls')
_again('C24', ['A_GROUP'], 'removing and adding a group')
_again('C12', ['A_SETCWD', 3], 'cd forth and back', jobs=4)
_again('C21', ['A_UPRINT', 'A_USTATUS', 'A_UFLUSH'], 'prints from outside', jobs=4)
_again('C20', ['A_UPRINTF', 'A_OVER'], 'formatted prints, overflowing formatted prints', jobs=4)
_again('C26', ['A_URESET'], 'reset')
_again('C22', ['A_LIFE'], 'deinitialisation and initialisation')
_again('C06', ['A_IDLE'], 'four idle service calls')
_again('C05', ['A_STALL'], 'a command with every third write refused')
_again('C31', ['A_CBOPS'], 'a callback that mounts, unmounts, removes and adds')
SPECS['C22'].jobs.append(Job('huge', 'c22_huge.c', {}, jobs=4, maxsteps=3000000000, reach=['done'], bounds='300 siblings, 260 levels, 302 groups; deinitialised after 0, 150 or 300 service calls of 6 lines, or one of 5 siblings unmounted before, or any of 7 lines in the second life with the same nodes'))
_C14 = 'input buffers of %s bytes, %s characters typed behind %s others, one or two candidates of 126..300 characters differing in any character at 2 places, 1 or 3 TABs'
SPECS['C14'].jobs.append(Job('huge', 'c14_huge.c', {'SIZES': '{64,128,255,256,257,258,302,303,600}', 'TYPED': '{1,127,254,256}', 'PRES': '{0,130}'}, cfg={'CFG_COMMANDS': 0}, jobs=8, maxsteps=3000000000, reach=['completed', 'does not fit', 'done'], bounds=_C14 % ('64..600', '1, 127, 254, 256', '0 or 130')))
SPECS['C14'].jobs.append(Job('huge-fine', 'c14_huge.c', {}, cfg={'CFG_COMMANDS': 0}, jobs=8, tier='thorough', maxsteps=3000000000, reach=['completed', 'does not fit', 'done'], bounds=_C14 % ('64..600 (14 sizes)', '1..299 (11 lengths)', '0, 2, 130, 260')))
SPECS['C22'].jobs.append(Job('descriptors', 'c22_desc.c', {'OUTMAX': 2048}, jobs=4, maxsteps=500000000, reach=['done'], bounds='every pair of 4 descriptors (buffers 16..80 and 64..300 bytes, path limits 8..44, host names of 0..5, with and without hook), 12 lines in the first life stopped at 6 places, with and without deinitialisation, old buffers freed, 8 lines in the second life'))
_C34 = 'a command and a file with a process callback doing any %d of 14 actions (waiting, changing the state, writing text, binary data or the output buffer, every print call, handing over to another file, mounting) and then any 1 in a second use, shared fields set to any values at every second call%s'
SPECS['C34'] = Spec([
  Job('scripts', 'c34_process.c', {'K': 3, 'NREF': 1}, jobs=8, maxsteps=500000000, reach=['done'], bounds=_C34 % (3, '')),
  Job('refused', 'c34_process.c', {'K': 2, 'NREF': 12}, jobs=8, maxsteps=500000000, reach=['done'], bounds=_C34 % (2, ', three writes refused at 11 places')),
  Job('after', 'c34_process.c', {'K': 1, 'NREF': 1, 'AFTER': None}, jobs=4, maxsteps=500000000, reach=['done'], bounds='any action, another in a second use, then any of 12 lines as in a shell that never ran it'),
  Job('reset', 'c34_process.c', {'K': 2, 'NREF': 1, 'RESET': 40}, jobs=8, maxsteps=500000000, reach=['done'], bounds=_C34 % (2, ', the shell reset from outside after 0..39 service calls')),
  Job('scripts-4', 'c34_process.c', {'K': 4, 'NREF': 1}, jobs=8, tier='thorough', maxsteps=500000000, reach=['done'], bounds=_C34 % (4, '')),
])
SPECS['C21'].jobs.append(Job('long-prompts', 'c21_host.c', {}, cfg={'CFG_COMMANDS': 0}, jobs=2, maxsteps=3000000000, reach=['done'], bounds='host names and directory names of 20 lengths from 15 to 513, any last character'))
SPECS['C21'].jobs.append(Job('far-prompts', 'c21_host.c', {'SIZES': '{1000,32767,32768,65535,65536,66000}'}, cfg={'CFG_COMMANDS': 0}, jobs=2, maxsteps=3000000000, reach=['done'], bounds='host names and directory names of 6 lengths to 66000, any last character'))
_C35 = 'decoding any text of 0..%d bytes into 0..%d bytes of room and in place, prefix test and joining of texts of 0..4, last argument and last part and parent of texts of 0..%d, all 256 bytes'
_R35 = ['decoded', 'decoded in place', 'prefix', 'last argument', 'printable', 'joined', 'parent', 'done']
SPECS['C35'] = Spec([
  Job('strings', 'c35_strings.c', {'L': 10}, jobs=8, maxsteps=500000000, reach=_R35, bounds=_C35 % (10, 11, 10)),
  Job('strings-13', 'c35_strings.c', {'L': 13}, jobs=8, tier='thorough', maxsteps=500000000, reach=_R35, bounds=_C35 % (13, 14, 13)),
])
SPECS['C16'].jobs.append(Job('fills', 'c16_xxd.c', {'FILL': '{1,8,9,16,23,24,40,63,64,65,96,128}', 'LEN': 128, 'S': 1}, jobs=4, maxsteps=500000000, reach=['several lines', 'done'], bounds='files of 12 lengths to 128 in which 1, 2, 3 or all rows from any row on are filled with any one byte, any two bytes in turn, or any byte and another last one'))
SPECS['C26'].jobs.append(Job('large', 'c26_big.c', {}, jobs=4, maxsteps=500000000, reach=['done'], bounds='large world: 12 directories up to 12 deep, 12 lines, reset after 0..300 service calls or when idle, then any byte in a line'))
