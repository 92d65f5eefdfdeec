#!/usr/bin/env python3
"""claim.py ID NOTE: mark a property as claimed in mkdocs.py."""
import sys
V='/verif/bin/mkdocs.py'
s=open(V).read(); i=s.index('prop("%s"'%sys.argv[1]); j=s.find('\nprop("',i+5)
if j<0: j=len(s)
b=s[i:j]; k=b.index(', claimed=False)')
import re
b=b[:k]+',\n     '+repr(sys.argv[2])+')'+b[k+len(', claimed=False)'):]
open(V,'w').write(s[:i]+b+s[j:])
