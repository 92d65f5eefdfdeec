#!/usr/bin/env python3
"""genbits.py: writes contracts/thetabits.spec: what packing and unpacking 8 values of every width do.
rdv(b, p, n) is the number in the n bits from bit p of b, most significant first (contracts/thetaser.spec)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ['package theta', 'defaultprops P04', '// generated by bin/genbits.py']
for n in range(1, 64):
    o += ['func packBits%d' % n, '  mode bv', '  requires len(values) >= 8 && len(bytes) >= %d' % n]
    o += ['  requires values[%d] < %d' % (i, 2**n) for i in range(8)]
    o += ['  modifies bytes[0..%d]' % n, '  use rdvDef']
    o += ['  ensures @v%d rdv(arr(bytes), 8*off(bytes) + %d, %d) == values[%d]' % (i, i*n, n, i) for i in range(8)]
    o += ['func unpackBits%d' % n, '  mode bv', '  requires len(values) >= 8 && len(bytes) >= %d' % n, '  modifies values[0..8]', '  use rdvDef']
    o += ['  ensures @v%d values[%d] == rdv(arr(bytes), 8*off(bytes) + %d, %d)' % (i, i, i*n, n) for i in range(8)]
open(os.path.join(V, 'contracts', 'thetabits.spec'), 'w').write('\n'.join(o) + '\n')
