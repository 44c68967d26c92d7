"""edit.py FILE: replace text (old on fd from python caller) keeping the file's line endings."""
def sub(path, old, new, count=1):
    b = open(path, 'rb').read()
    nl = b'\r\n' if b.count(b'\r\n') > b.count(b'\n') // 2 else b'\n'
    o = old.encode().replace(b'\n', nl)
    n = new.encode().replace(b'\n', nl)
    assert b.count(o) == count, (path, b.count(o))
    open(path, 'wb').write(b.replace(o, n))
