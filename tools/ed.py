#!/usr/bin/env python3
"""ed.py FILE COUNT <<< 'old\n=====\nnew': exact replacement helper"""
import sys
f,c=sys.argv[1],int(sys.argv[2]) if len(sys.argv)>2 else 1
a,b=sys.stdin.read().split("\n=====\n")
b=b[:-1] if b.endswith("\n") else b
s=open(f).read()
if s.count(a)!=c: sys.exit("found %d times in %s"%(s.count(a),f))
open(f,'w').write(s.replace(a,b))
