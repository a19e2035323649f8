"""sub(path, old, new): exact single replacement that keeps the file's line endings."""
def sub(p, a, b):
    s = open(p, newline='').read()
    if '\r\n' in s:
        a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
    assert s.count(a) == 1, (p, s.count(a))
    open(p, 'w', newline='').write(s.replace(a, b))
