"""edit.py ID note [statement]: set the manifest note (and statement) of a property."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
pid, note = sys.argv[1], sys.argv[2]
p = HERE + '/checks_meta.py'
t = open(p).read()
line = ' %s: (TV, "model_checking", %s),' % (json.dumps(pid), json.dumps(note))
if ' "%s": (TV' % pid in t:
    t = re.sub(r' "%s": \(TV.*' % pid, lambda m: line, t)
else:
    t = t.replace(' "D01": (TV', line + '\n "D01": (TV')
open(p, 'w').write(t)
if len(sys.argv) > 3 and sys.argv[3]:
    p = HERE + '/mkprops.py'
    s = open(p).read()
    i = s.index('prop("%s",' % pid); j = s.index('\n', i) + 1; k = s.index('\n', j)
    s = s[:j] + ' ' + json.dumps(sys.argv[3], ensure_ascii=False) + ',' + s[k:]
    open(p, 'w').write(s)
