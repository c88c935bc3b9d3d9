"""sub.py FILE: replaces text in a file keeping its line ends; stdin: old text, a line '=====', new text"""
import sys
p = sys.argv[1]; old, new = sys.stdin.read().split('=====\n'); s = open(p, newline='').read()
crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
if s.count(old) != 1: sys.exit('%s: %d matches' % (p, s.count(old)))
s = s.replace(old, new)
if crlf: s = s.replace('\n', '\r\n')
open(p, 'w', newline='').write(s)
