SPECS['C02'] = Spec([
  Job('any-4', 'c02_edit.c', {'N': 4}, jobs=8, reach=['done', 'two characters pending', 'inside an escape sequence', 'executed within'], bounds='every sequence of 4 bytes (all values but NUL and TAB) from an empty line, then CR, LF or Ctrl-C, then a second command'),
  Job('edit-7', 'c02_edit.c', {'N': 7, 'EDITKEYS': None}, jobs=8, reach=['done'], bounds='every sequence of 7 keys among BS, DEL, ESC, [, O and letters, then CR, LF or Ctrl-C'),
  Job('edit-capacity', 'c02_edit.c', {'N': 5, 'EDITKEYS': None, 'IN': 6}, jobs=4, reach=['done'], bounds='the same with 5 keys and an input buffer filled to its last usable position (size 6)'),
  Job('after-text', 'c02_edit.c', {'N': 3, 'PRE': '"\\"u ab\\""'}, jobs=4, reach=['done'], bounds='every sequence of 3 bytes after the pending text u ab'),
])
SPECS['C03'] = Spec([
  Job('screen-4', 'c02_edit.c', {'N': 4, 'SCREEN': None}, jobs=8, reach=['done', 'three characters pending'], bounds='every sequence of 4 keys among printable ASCII, BS, DEL, ESC and TAB, terminal screen compared after every key'),
  Job('screen-pre', 'c02_edit.c', {'N': 3, 'SCREEN': None, 'PRE': '"\\"u \\""'}, jobs=4, reach=['done'], bounds='the same, 3 keys, after a pending word'),
])
