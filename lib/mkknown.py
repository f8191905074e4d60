"""Writes known_findings.json: findings that are not repaired, and the repaired ones with their commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of each fix commit
PROPS = '''cec7ac3 P01
bb8d310 P01
131c6c8 X01
647d439 T01
73bd181 T01
659e9d9 X01
bc0f14c T02
1867872 T04
221127d N02
c4a681e X02
32f4957 R01
58f2527 N02
c148085 X03
ea08717 N01
6fe8857 N01
db1cc4e N01
19d242f B01
2f40bd1 B01
eaaf289 B01
897b91e B01
979c397 E01
2710a46 E01
eeaab66 R01
db93545 X03
94cc4bf G01
1261631 R01
47f7271 K01
c10f905 X02
24100ec X03
0c77fab X02
80e8438 X02
234a7d4 X02
ad0e857 D01
1818f3f D01
acd73a3 D01
a7bd72f D01
f401d4d D01
2c6ae63 D02
fc6eb5e D02
854f751 P03
bc33fa2 P03
fa46018 P03
cc5231b P01
170c7b9 P02
5f4eb61 D02
3b0e1a4 D02
28f59ed S02
4ab76d9 S02
5e9b56e S02
ab943d1 S02
a5cc70b S02
36e6192 S03
059294e S04
be36115 S04
e256938 S03
a063c22 S02
067e716 S03
af460a7 L01
330651a L01
a7f2b30 L01
1e8d565 V01
19e0674 V01
2985134 V01
c9449ef V02
2955c16 V03
6f07782 V03
c31203e A01
00ed8c9 A01
56d8f53 X03
3618ee2 X03
2b3fa2b X03
c715ac9 X03
6faa46f X03
ca72392 X03
b52332f R01
a3dfeee R01
84b92f3 R01
91cd023 R01
366a854 R01
4719b7d X03
e1de581 X03
7875297 X03
63ec1fa R01
23f4c30 R01
dc20447 R01
c02d0df R01
ddd21a4 X03
b5bf6ed X03
64cf708 X03
61e5c87 X03
5f190f3 X02
8f0c522 X02
72a2717 X02
bde0f72 X02
19b1167 X02
d146cb2 X01
733cd35 X01'''
FINDINGS = [
    {'property': 'X03', 'subtest': 'fixedpoint', 'case': {'seed': 1}, 'key': 'mlp-inline-fixedpoint',
     'what': "convert(MLPClassifier, method='inline', use_fixedpoint=True) succeeds, but predict() gives an error code for every row: fixed-point inference of networks is not implemented"},
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    title = {l.split(' ', 1)[0]: l.split(' ', 1)[1] for l in log}
    m = dict(l.split() for l in PROPS.splitlines())
    fixed = []
    for h, t in title.items():
        if t.startswith('fix:'):
            fixed.append('fixed: property=%s %s %s' % (m[h], h, t[5:]))
    assert len(fixed) == len(m), (len(fixed), len(m))
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
    print(len(fixed), 'fixed,', len(FINDINGS), 'not fixed')


if __name__ == '__main__':
    main()
