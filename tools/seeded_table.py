#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (section 4) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# found to be missed when first planted; what was then added to the check
MISSED = {
    'py-status-fields': 'damaged frames and noise before the status comparison',
    'framer-cancel-stale': 'sessions whose clock is polled instead of driven by timer deadlines',
    'framer-hook-null': 'hooks reset to NULL with user data still given',
    'objpool-free-before-destructor': 'destructors that inspect and allocate during the callback',
    'pattern-second-bad-word': '"dense" mode with an ideal receiver as the reference',
    'framer-timer-id-zero': 'five styles of timer ids given by the driver',
    'framer-port0-crc': 'application messages on port 0',
    'framer-resync-keeps-pending': 'the "deliver:stale" oracle (aborted sends are never delivered after the resync is acknowledged)',
    'buffer-free-foreign': 'pools of 400 and of 66000 buffers',
    'source-reopen-offset': 'a source opened again without configuring it',
    'time-year': 'constants as operands of tighter operators',
    'bbuf-u16-paren': 'values and pointers given as loosely binding expressions',
    'argchk-range-code': 'a module with its own return code',
    'dbc-lt-paren': 'operands that bind less tightly than the comparison',
}
extra = os.path.join(V, 'tools', 'missed.json')
if os.path.exists(extra): MISSED.update(json.load(open(extra)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], n, m['what_it_breaks'], m['needs'], MISSED.get(n, '')))
rows.sort()
t = ['| change | caught by | breaks | needs | missed at first; added since |', '|---|---|---|---|---|']
t += ['| %s | %s | %s | %s | %s |' % (n, p, w, d, x) for p, n, w, d, x in rows]
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- SEEDED -->.*?(<!-- /SEEDED -->|\Z)', lambda _: '<!-- SEEDED -->\n' + '\n'.join(t) + '\n<!-- /SEEDED -->', s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
