#!/usr/bin/env python3
"""fix.py FILE <<< python expression pairs: replaces text keeping the file's line ends. Used while writing the fix commits."""
import sys
def sub(path, pairs):
    b=open(path,'rb').read().decode()
    crlf='\r\n' in b
    t=b.replace('\r\n','\n')
    for old,new in pairs:
        assert t.count(old)==1,(path,t.count(old),old)
        t=t.replace(old,new)
    if crlf: t=t.replace('\n','\r\n')
    open(path,'wb').write(t.encode())
