SPECS['C04'] = Spec([
  Job('tokens-5', 'c04_tokens.c', {'N': 5}, jobs=8, reach=['empty', 'compared', 'three arguments', 'empty argument'], bounds='all lines of 0..5 characters (every byte value except NUL and the editing keys), CR and LF'),
])
