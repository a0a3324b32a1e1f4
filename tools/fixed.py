"""Writes the "fixed" list of known_findings.json: property of every fix commit in /repo (git log) -> entries."""
import json, subprocess, os
PROP = dict(l.split() for l in '''
2fe53a6 C01
c3174de C19
1d61717 C10
95a5b1e C06
a657523 C17
21533ee C17
efb6352 C12
d7494f5 C10
50eecea C11
9f35243 C10
86f16b8 C07
3a6c9c3 C07
6c7152e C06
2ab2f03 C08
ca12100 C17
0836972 C08
41b9df3 C08
391b40b C09
422cdeb C08
ca514f7 C08
39f19f3 C09
4c174ef C09
8f0737d C16
1180d9e C09
6c460f3 C08
7ea4799 C10
9928799 C11
e1af60a C07
925a3f6 C10
1235a8c C07
b416fd2 C07
1181698 C13
c666bbe C13
d5bf9a1 C13
98103f2 C13
cecd544 C07
9796ab6 C10
939d941 C12
10cddc5 C12
3ca6231 C02
211d6e0 C14
cb6b896 C14
4ad14b8 C16
0e1b19f C05
c0ce0a4 C24
1696bda C24
1a32926 C21
0465918 C21
8766922 C21
555787f C21
537a710 C21
7864b1a C21
487c26b C21
bdc2937 C25
972609f C19
3839701 C19
a18b9ab C22
f221f58 C22
bf45334 C22
11d6589 C22
618698c C22
b626dba C22
83eff92 C22
8676e5d C22
c6a83d8 C30
0d87971 C30
ce2297a C18
333a2e3 C18
7242980 C18
140a2c7 C18
855be0b C18
fd4cd40 C18
ea043a9 C18
a8dfa4f C20
f5bfe63 C20
c19c692 C20
609d45d C23
af71cdb C23
24e17c8 C29
b312f0d C29
422bfb9 C26
50e52fa C26
4c6ac72 C15
61445a3 C27
b40a375 C09
'''.strip().splitlines())
HERE = os.path.dirname(os.path.abspath(__file__))
KF = os.path.join(HERE, '..', 'known_findings.json')


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '8a472d6..HEAD'], capture_output=True, text=True).stdout
    out = []
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        h = h[:7]
        if not s.startswith('fix:'):
            continue
        if h not in PROP:
            print('no property for', l)
        out.append('fixed: property=%s %s %s' % (PROP.get(h, '?'), h, s[5:].strip()))
    d = json.load(open(KF))
    d['fixed'] = out
    open(KF, "w").write(json.dumps(d, indent=1) + "\n")


if __name__ == '__main__':
    main()
