import sys; sys.path.insert(0,'/verif/tools/bugs')
import lib, importlib
mods=sys.argv[1].split(','); 
for m in mods: importlib.import_module(m)
what=sys.argv[2]; ids=sys.argv[3:] or list(lib.BUGS)
for i in ids:
    b=lib.BUGS[i]
    try:
        if 'm' in what:
            if not lib.make(b): continue
        if 'c' in what: lib.check(b)
    except AssertionError as e: print(i,'ASSERT',e); lib.clean()
    sys.stdout.flush()
