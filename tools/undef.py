import sys, importlib, builtins, dis, types
sys.path.insert(0, '/verif')
def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)
for m in sys.argv[1:]:
    M = importlib.import_module(m)
    c = compile(open(M.__file__).read(), M.__file__, 'exec')
    seen = set()
    for k in codes(c):
        for ins in dis.get_instructions(k):
            if ins.opname in ('LOAD_GLOBAL',) and not hasattr(M, ins.argval) and not hasattr(builtins, ins.argval):
                if (ins.argval, k.co_name) not in seen:
                    seen.add((ins.argval, k.co_name))
                    print(m, k.co_name, k.co_firstlineno, ins.argval)
