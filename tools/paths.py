RV, ROL, DEC, SEQ, SET, OUTF, FUN, STR, BLK, FAC, UTL, ALT = ('src/' + f + '.py' for f in (
    'randvar', 'roller', 'decorators', 'seq', 'settings', 'output', 'funclib', 'string_rvs', 'blackrv', 'factory', 'utils', 'altcast'))
PAR, RES, EXE = ('src/parser/' + f + '.py' for f in ('myparser', 'python_resolver', 'parse_and_exec'))
