"""compact printing of terms"""
def pp(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'init':
        return str(t[1])
    if k == 'enum':
        return t[1].split('::')[-1]
    if k == 'fld' and len(t) == 3:
        return pp(t[1]) + '.' + pp(t[2])
    if k == 'elem' and len(t) == 3:
        return pp(t[1]) + '[' + str(t[2]).replace('\u00a7', '') + ']'
    if k == 'rec':
        b = t[1][1] if t[1][0] == 'new' else pp(t[1])
        return b.split('::')[-1] + '{' + ', '.join(pp(x) + '=' + pp(y) for x, y in t[2]) + '}'
    if k == 'seq':
        return '[' + ', '.join(('' if p[0] == 'one' else p[0] + ' ') + pp(p[1]) for p in t[1]) + ']'
    if k == 'cat':
        return '(' + ' + '.join(pp(x) for x in t[1]) + ')'
    if k == 'app' and len(t) == 3:
        return t[1] + '(' + ', '.join(pp(x) for x in t[2]) + ')'
    if k == 'eq':
        return pp(t[1]) + ' == ' + pp(t[2])
    if k == 'not':
        return '!(' + pp(t[1]) + ')'
    if k == 'task':
        return 'task@' + str(t[-1])
    if k == 'clo':
        return 'lambda'
    if k in ('ref', 'ptr') and len(t) == 2:
        return k + ':' + ploc(t[1])
    if isinstance(k, str):
        return k + '(' + ', '.join(pp(x) for x in t[1:]) + ')'
    return '<' + ', '.join(pp(x) for x in t) + '>'

def ploc(l):
    try:
        return '.'.join([str(x) for x in l[0][1:]] + [pp(x) for x in l[1]])
    except Exception:
        return str(l)
