"""Independent reading of request targets: split, decode once, resolve dots."""
import re

UNRES = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
SUB = b"!$&'()*+,;="
PCHAR = set(UNRES + SUB + b":@<>%\"{}|\\^[]`")   # (a raw space cannot be inside a request line)
HEX = b"0123456789abcdefABCDEF"
REG = set(UNRES + SUB + b"%")


def decode(p):
    out = bytearray()
    i = 0
    while i < len(p):
        c = p[i]
        if c == 0x25:
            if i + 2 >= len(p):
                break
            h = p[i + 1:i + 3]
            if h[0] in HEX and h[1] in HEX:
                v = int(h, 16)
                out.append(0x5f if v < 32 or v == 127 else v)
            i += 3
            continue
        out.append(0x5f if c < 32 or c == 127 else c)
        i += 1
    return bytes(out)


def simplify(p):
    segs = p.split(b"/")
    st = []
    for s in segs[1:] if p.startswith(b"/") else segs:
        if s in (b"", b"."):
            continue
        if s == b"..":
            if st:
                st.pop()
        else:
            st.append(s)
    out = b"/" + b"/".join(st)
    if segs[-1] in (b"", b".", b"..") and st:
        out += b"/"
    return out


def split(target):
    """-> None (not a valid target for GET) or (host or None, path, query, raw_path)"""
    host = None
    t = target
    m = re.match(rb"^https?://", t)
    if m:
        rest = t[m.end():]
        i = rest.find(b"/")
        if i < 0:
            return None
        auth, t = rest[:i], rest[i:]
        h = auth.rpartition(b"@")[2]
        m2 = re.match(rb"^([^:]*)(?::([0-9]+))?$", h)
        if not m2 or not m2.group(1) or any(c not in REG for c in m2.group(1)) or re.search(rb"%(?![0-9a-fA-F]{2})", auth):
            return None
        host = m2.group(1).lower().rstrip(b".")
    if not t.startswith(b"/"):
        return None
    t = t.split(b"#", 1)
    frag = t[1] if len(t) > 1 else b""
    t = t[0]
    path, q, query = t.partition(b"?")
    for part in (path, query, frag):
        if any(c not in PCHAR and c not in b"/?#" for c in part):
            return None
    if b"?" in path:
        return None
    return host, simplify(decode(path)), query, path + (q + query if q else b"")
