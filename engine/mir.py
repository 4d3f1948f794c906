#!/usr/bin/env python3
"""mir.py <crate> <root raw path> : print the MIR the analyses see (development aid)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Server
srv = Server(sys.argv[1], 'rel')


def show(n):
    i = srv.inst(n)
    b = srv.body(n)
    print('==', i['full'], i['raw'])
    if b is None:
        return
    for j, l in enumerate(b['locals']):
        print('  _%d: %s' % (j, srv.type(l, n)['s']))
    for j, blk in enumerate(b['blocks']):
        print(' bb%d' % j)
        for s in blk['s']:
            print('   ', str(s)[:300])
        t = blk['t']
        e = ''
        if t[0] == 'call' and t[1][0] != 'op':
            e = ' ## ' + srv.inst(t[1][1])['full']
        print('    ->', str(t)[:300], e)


for r in srv.roots():
    if r['raw'] == sys.argv[2]:
        show(r['inst'])
        if len(sys.argv) > 3:
            seen = set()
            todo = [r['inst']]
            while todo:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                b = srv.body(n)
                if n != r['inst'] and srv.inst(n)['krate'] in ('triangulate', 'harness'):
                    show(n)
                if b is None or srv.inst(n)['krate'] not in ('triangulate', 'harness'):
                    continue
                for blk in b['blocks']:
                    if blk['t'][0] == 'call' and blk['t'][1][0] != 'op':
                        todo.append(blk['t'][1][1])
        break
else:
    for r in srv.roots():
        print(r['raw'])
