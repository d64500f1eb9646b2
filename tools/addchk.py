import sys
s=open(''+__import__('os').environ.get('V','/verif')+'/lib/checks.py').read()
e=sys.stdin.read().rstrip()
open(''+__import__('os').environ.get('V','/verif')+'/lib/checks.py','w').write(s.rstrip().rstrip('}').rstrip()+'\n '+e+'\n}\n')
