"""Declared signals: (file, name) -> list of parameter type codes; and the name emitted by a g_signal_emit node."""
from absint import walk
GT = {16 << 2: 'STRING', 17 << 2: 'POINTER', 11 << 2: 'UINT64', 10 << 2: 'INT64', 7 << 2: 'UINT', 6 << 2: 'INT', 5 << 2: 'BOOLEAN', 8 << 2: 'LONG', 9 << 2: 'ULONG'}
def strip(e, refs):
    while True:
        if e['k'] == 'cast': e = e['x']
        elif e['k'] == 'ref' and e['i'] in refs: e = refs[e['i']]
        else: return e
def declared(prog):
    out = {}
    for f in prog.fns.values():
        refs = None
        for name, node in f.callees:
            if name != 'g_signal_new': continue
            if refs is None: refs = {i: e['x'] for b, i, e in f.exprs() if e['k'] == 'ex'}
            a = [strip(x, refs) for x in node['a']]
            if a[0]['k'] != 'str': continue
            ts = []
            for x in a[9:]:
                ts.append(GT.get(x['v'], 'OTHER') if x['k'] == 'int' else 'OTHER')
            out[(f.file, a[0]['v'].replace('_', '-'))] = ts
    return out
def emitted(prog, file, node):
    """signal name of a g_signal_emit call node, or None"""
    e = node['a'][1]
    while e['k'] == 'cast': e = e['x']
    if e['k'] == 'idx' and e['x']['k'] == 'int':
        n = prog.signals().get(file, {}).get(e['x']['v'])
        return n.replace('_', '-') if n else None
    return None
