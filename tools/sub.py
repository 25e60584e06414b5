def sub(f, a, b, n=1):
    s = open(f).read()
    assert s.count(a) >= 1, (f, a)
    open(f, 'w').write(s.replace(a, b, n))
