"""cover.py PROPERTY [JOB]: how varied the behaviours TLC produces for a property's jobs are (per operation and outcome)."""
import collections, json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import props, tlc
d = tempfile.mkdtemp(prefix='cover-')
try:
    for j in props.jobs(sys.argv[1], False):
        if len(sys.argv) > 2 and sys.argv[2] not in j['name']:
            continue
        beh, st = tlc.run(j['module'], j['cfg'], d, j['name'], simulate=min(j['simulate'], 400) if j.get('simulate') else None, depth=j.get('depth'),
                          seed=7 + j.get('seed', 0), workers=1, timeout=600, heap='2g', behaviours=True, constants=j.get('extra_files'))
        print('==', j['name'], j['module'], st['behaviours'])
        tab = collections.defaultdict(lambda: [0, collections.Counter(), collections.defaultdict(collections.Counter), 0, 0])
        for line in open(beh):
            for e in json.loads(line):
                t = tab[e['op'], e['o'] + (':' + str(e['r'][0] if isinstance(e['r'], list) else e['r']) if e['o'] == 'err' else '')]
                t[0] += 1
                t[1][e['k']] += 1
                a = e['a'] if isinstance(e['a'], list) else [e['a']]
                for i, x in enumerate(a):
                    t[2][i][json.dumps(x)] += 1
                if len(a) >= 2:
                    t[3] += 1
                    t[4] += a[0] == a[1]
        for k in sorted(tab):
            t = tab[k]
            top = lambda c: '%d(%s %d%%)' % (len(c), c.most_common(1)[0][0][:12], 100 * c.most_common(1)[0][1] // sum(c.values()))
            print('%-28s %6d  k=%-60s a=%s%s' % ('/'.join(k)[:28], t[0], ','.join('%s:%d' % x for x in sorted(t[1].items()))[:60],
                                        ' '.join(top(c) for _, c in sorted(t[2].items())[:4]), '  EQUAL %d%%' % (100 * t[4] // t[3]) if t[3] and t[4] * 2 > t[3] else ''))
finally:
    shutil.rmtree(d)
