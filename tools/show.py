#!/usr/bin/env python3
"""Show one event of a recorded session: show.py FILE.s SESSION-ID POS"""
import sys, json
def txt(b): return ''.join(chr(x) if 32 <= x < 127 else '\\x%02x' % x for x in b)
for line in open(sys.argv[1]):
    s = json.loads(line)
    if s[0]['id'] == sys.argv[2]:
        a = s[0]
        print('uw', a['uw'], 'owned', a['owned'], 'cap', a['cap'], 'tv', a['tv'], 'cv', a['cv'], 'wf', a['wf'], 'ff', a['ff'],
              'threads', a['threads'], ' '.join(k for k, v in a['cfg'].items() if v))
        n = int(sys.argv[3])
        for i in (range(1, n) if len(sys.argv) > 4 else [n - 1]):
            e = s[i]
            print(i + 1, e['ev'], 'in:', txt(e['in']), '| out:', txt(e['out']), '| fl', e['fl'], e['st'], e['why'], e['err'], e['ed'], 'cf', e['cf'], 'bad', e['bad'], e.get('msg', ''))
            if e['rs']['k'] != 'None': print('   ', e['rs'])
            for c in e['calls']: print('   ', c['f'], c['a'], '->', c['k'], c['v'])
