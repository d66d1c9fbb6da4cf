"""Threads the ghost clock through the extracted text: every function that
contains a tick, or calls one that takes the clock, takes it too.  Which ones
these are is what the compiler says."""
import json
import re
import subprocess

PARAM = "Tracked(vx_clk): Tracked<&mut VxClk>"
ARG = "Tracked(&mut *vx_clk)"


def mask(s):
    """the text with comments, strings and chars masked"""
    out = list(s)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^\'\\\n])\'', s, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " " if m.group()[0] == "/" else "_"
    return "".join(out)


def close(t, i):
    """the parenthesis that closes the one at i"""
    d = 0
    for j in range(i, len(t)):
        if t[j] in "([{":
            d += 1
        elif t[j] in ")]}":
            d -= 1
            if d == 0:
                return j
    raise ValueError("unbalanced")


def open_after(t, i):
    """the parenthesis of the call or signature whose name starts at i"""
    d = 0
    j = i
    while True:
        c = t[j]
        if c == "<":
            d += 1
        elif c == ">" and t[j - 1] not in "-=":
            d -= 1
        elif c == "(" and d == 0:
            return j
        j += 1


def errors(path, root):
    p = subprocess.run(["verus", "--no-verify", path, "--error-format=json"], capture_output=True, text=True, cwd=root)
    out = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                out.append(d)
    return p.returncode, out


def blocks(t):
    """the trait declarations and trait impls: (trait, is_impl, start, end)"""
    out = []
    for m in re.finditer(r"(?m)^\s*(?:pub(?:\([^)]*\))? )?(trait|impl)\b([^{;]*)\{", t):
        e = close(t, m.end() - 1)
        if m.group(1) == "trait":
            out.append((re.match(r"\s*(\w+)", m.group(2)).group(1), False, m.end(), e))
        else:
            x = re.search(r"([\w:]+)\s*(?:<[^{]*>)?\s+for\s", m.group(2))
            if x:
                out.append((x.group(1).split("::")[-1], True, m.end(), e))
    return out


def sync(t, text):
    """the methods of traits whose declaration and impls disagree: heads to give the clock to"""
    by = {}
    for tr, im, s, e in blocks(t):
        for m in re.finditer(r"\bfn\s+(\w+)", t[s:e]):
            o = open_after(t, s + m.start())
            by.setdefault((tr, m.group(1)), []).append((s + m.start(), "VxClk" in text[o:close(t, o)], im))
    out = []
    for k, v in by.items():
        if any(x[1] for x in v) and any(not x[2] for x in v):
            out += [x[0] for x in v if not x[1]]
    return out


def thread(src, path, cwd="/tmp"):
    """writes the clocked text to `path`; (ok, functions, messages)"""
    text = src
    fns = set()
    for rounds in range(16):
        with open(path, "w") as f:
            f.write(text)
        rc, errs = errors(path, cwd)
        t = mask(text)
        heads = [(m.start(), m.group(1)) for m in re.finditer(r"\bfn\s+(\w+)", t)]
        data = text.encode()
        ins = {}
        other = []

        def head_of(pos):
            h = None
            for s, n in heads:
                if s > pos:
                    break
                h = s
            return h

        def param(h):
            o = open_after(t, h)
            c = close(t, o)
            if PARAM in text[o:c]:
                return
            inner = t[o + 1:c].strip()
            ins[c] = (", " if inner and not inner.endswith(",") else "") + PARAM
            fns.add(re.match(r"fn\s+(\w+)", t[h:]).group(1))

        for e in errs:
            code = (e.get("code") or {}).get("code")
            prim = [s for s in e["spans"] if s["is_primary"]]
            for s in prim:
                pos = len(data[:s["byte_start"]].decode())
                if code == "E0425" and "vx_clk" in e["message"]:
                    param(head_of(pos))
                elif code == "E0061":
                    o = open_after(t, pos)
                    # the primary span is the callee: a path or a method name
                    end = len(data[:s["byte_end"]].decode())
                    o = open_after(t, end) if t[end - 1] not in ")" else o
                    c = close(t, o)
                    if ARG in text[o:c] and text[o:c].rstrip().rstrip(",").endswith(ARG):
                        other.append(e["rendered"])
                        continue
                    inner = t[o + 1:c].strip()
                    ins[c] = (", " if inner and not inner.endswith(",") else "") + ARG
                    h = head_of(pos)
                    param(h)
                elif code == "E0050":
                    for s2 in e["spans"]:
                        param(head_of(len(data[:s2["byte_start"]].decode())))
                elif code == "E0106":
                    # the reference that is returned comes from the other parameters
                    h = head_of(pos)
                    o = open_after(t, h)
                    c = close(t, o)
                    n = re.match(r"fn\s+\w+", t[h:]).end() + h
                    ins[n] = "<'vx_s>" if t[n] != "<" else ins.get(n, "")
                    if t[n] == "<":
                        ins[n + 1] = "'vx_s, "
                    stop = text.find(PARAM, o, c)
                    for m in re.finditer(r"&(?!')", t[o:stop]):
                        ins[o + m.end()] = "'vx_s "
                    for s2 in prim:
                        b = len(data[:s2["byte_start"]].decode())
                        ins[b + 1] = "'vx_s "
                else:
                    other.append(e.get("rendered") or e["message"])
        for h in sync(t, text):
            param(h)
        if not ins:
            return rc == 0 and not other, sorted(fns), other
        for c in sorted(ins, reverse=True):
            text = text[:c] + ins[c] + text[c:]
    return False, sorted(fns), ["no fixed point"]


if __name__ == "__main__":
    import sys
    ok, fns, other = thread(open(sys.argv[1]).read(), sys.argv[2])
    print("ok" if ok else "not ok", len(fns), " ".join(fns))
    for o in other[:int(sys.argv[3]) if len(sys.argv) > 3 else 5]:
        print(o)
