"""Sizes at which the code may start to behave differently: the integer constants and narrow casts of the functions reached."""

LOW, HIGH = 9, 300


def reached(srv, roots, krates=('triangulate',)):
    """instances of the crate reachable from the roots through calls, closures and function values"""
    seen, todo = set(roots), list(roots)
    while todo:
        n = todo.pop()
        i = srv.inst(n)
        if not i['body'] or i['krate'] not in krates:
            continue
        b = srv.body(n)
        if b is None:
            continue
        nxt = []
        for bl in b['blocks']:
            t = bl['t']
            if t and t[0] == 'call' and t[1][0] != 'op':
                nxt.extend(x for x in t[1][1:3] if isinstance(x, int))
        for ty in b['locals']:
            t = srv.type(ty, n)
            if t['k'] in ('closure', 'fndef'):
                nxt.append(t['inst'])
        for x in nxt:
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return [n for n in seen if srv.inst(n)['krate'] in krates and srv.inst(n)['body']]


def numbers(x, out):
    if isinstance(x, dict):
        if x.get('k') == 'int':
            try:
                out.add(int(x['v']))
            except (TypeError, ValueError):
                pass
        for y in x.values():
            numbers(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            numbers(y, out)


def turns(srv, roots, low=LOW, high=HIGH, krates=('triangulate',)):
    """(numbers within reach, numbers beyond) at which some comparison could change its outcome"""
    got = set()
    for n in reached(srv, roots, krates):
        b = srv.body(n)
        if b is None:
            continue
        for bl in b['blocks']:
            for s in bl['s']:
                numbers(s, got)
                if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'IntToInt':
                    t = srv.type(s[2][3], n)
                    w = {'u8': 256, 'i8': 128, 'u16': 65536, 'i16': 32768}.get(t['s'])
                    if w:
                        got.add(w)
            if bl['t']:
                t = bl['t']
                numbers(t[:-1] if isinstance(t, list) else t, got)
                if t[0] == 'switch':
                    for v in t[2]:
                        try:
                            got.add(int(v[0]))
                        except (TypeError, ValueError):
                            pass
    return sorted(x for x in got if low <= x <= high), sorted(x for x in got if high < x < 1 << 32)
