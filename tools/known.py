"""Writes known_findings.json from the fix commits of /repo and the list below (run by hand, never by a check)."""
import json, subprocess, os
PROP = {
 'count the bytes a short': 'C04 C05', 'decode chunked bodies exactly': 'C04 C05', 'multipart section start': 'C06', 'multipart headers end': 'C06',
 'ignore the multipart epilogue': 'C06', 'check the multipart body start': 'C06', 'parse multipart part headers': 'C07',
 'accept quoted multipart': 'C07', 'uploads carry their headers': 'C07', 'keep text fields': 'C07', 'BytesIOProxy': 'C13',
 'malformed multipart part': 'C12', 'errors found while': 'C12', 'malformed JSON': 'C12', 'read the whole text': 'C07',
 'a CR in the request': 'C01', 'bind wildcards under': 'C01', 'route methods are case': 'C02', 'a path that looks like': 'C02',
 'the text of a following': 'C02', 'removing routes keeps': 'C11', 'a removed route is not': 'C11', 'a registration refused': 'C11',
 'a hook does not replace': 'C11', 'Route.url checks': 'C19', 'a wildcard may be named': 'C19 C01', 'float wildcards are': 'C19',
 'no 1xx response': 'C03', 'text that cannot be encoded': 'C03', 'close the body of a response': 'C03', 'the critical error page': 'C03',
 'malformed status lines': 'C03', 'malformed header names': 'C03',
}
exec(open(os.path.join(os.path.dirname(__file__), 'known_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(__file__), 'known_more.py')) else None
FINDINGS = [
 dict(id='F1', property='C19', signature='number behind a pattern wildcard',
      what="a number not written canonically in the path (a sign of zero, leading zeros), behind a wildcard with a pattern of its own that swallows the rewritten digits, e.g. /<x:int><y:int> with path 1-0 (x=1, y=0): the URL 10 reads x=10",
      example=dict(rule='/<x:int><y:int>', path='/1-0', params=dict(x=1, y=0), url='10')),
 dict(id='F2', property='C15', signature='secrets that HMAC pads to one key',
      what="two secrets that HMAC turns into the same key (one is the other padded with zero bytes, or the MD5 of one longer than 64 bytes) open each other's cookies; deriving the key differently would invalidate every cookie signed so far",
      example=dict(secret='key', other='key\x00')),
 dict(id='F3', property='C19', signature='group of an alternation',
      what="the value of a wildcard with a rex filter is the text of the group that matched; when the alternative has more text than its group, the value does not tell it and no URL can be built, e.g. /<p.rex(v([0-9])-|(x))> with path v1- (p=1)",
      example=dict(rule='/<p.rex(v([0-9])-|(x))>', path='/v1-', params=dict(p='1'))),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()[1:]
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    k = [v for p, v in PROP.items() if s[5:].startswith(p)]
    assert len(k) == 1, (s, k)
    for p in k[0].split():
        fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
