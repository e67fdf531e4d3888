"""Append a property to props.py: addprop.add(id, coverage, steps-text)."""
import re
def add(pid, coverage, steps):
    s=open('/verif/props.py').read().rstrip()
    assert s.endswith('}') and '"%s"' % pid not in s
    s=s[:-1]+'    "%s": {\n        "coverage": "%s",\n        "steps": [\n%s        ],\n    },\n}\n'%(pid,coverage,''.join('            %s,\n'%x for x in steps))
    open('/verif/props.py','w').write(s)
