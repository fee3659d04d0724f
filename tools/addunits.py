"""add(text, pid, units): append units (source text) to a property's P(...) call in units.py."""
def add(s, pid, units):
    i = s.index(f"P('{pid}'"); d = 0; q = None; j = i
    while True:
        c = s[j]
        if q: q = None if c == q else q
        elif c in '"\'': q = c
        elif c == '(': d += 1
        elif c == ')':
            d -= 1
            if not d: break
        j += 1
    return s[:j] + ''.join(',\n  ' + u for u in units) + s[j:]
