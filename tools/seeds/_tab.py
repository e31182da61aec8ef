import re
def tabedit(f, decl, idx, xor):
    """edit changing entry idx of the table declared by decl"""
    s = open("/repo/" + f, newline="").read().replace("\r\n", "\n")
    i = s.index("{", s.index(decl)); j = s.index("}", i)
    m = list(re.finditer(r"0x[0-9a-fA-F]+", s[i:j]))[idx]
    a, b = s.rindex("\n", 0, i + m.start()) + 1, s.index("\n", i + m.end())
    old = s[a:b]; v = m.group(); n = "0x" + format(int(v, 16) ^ xor, "0%dx" % (len(v) - 2))
    if v.upper()[2:] == v[2:]: n = "0x" + n[2:].upper()
    o = i + m.start() - a
    return (f, old, old[:o] + n + old[o + len(v):])
