"""Independent reader of RS274 text. It knows nothing about cq-cam: lines become records of integer words.

Every line becomes one block:
  kind  "blank" | "comment" | "code"
  ok    the line is well-formed RS274 (words, no repeated letter, comments closed, numbers plain decimals)
  g, m  G and M codes times ten, in order (G61.1 -> 611)
  has   letters of the argument words
  x y z i j k f s t h   values in thousandths (0 when absent)
"""
import re

LIM = 1_000_000_000
WORD = re.compile(r"([A-Z])([+-]?(?:\d+(?:\.\d*)?|\.\d+))")
ARGS = "XYZIJKFSTHPDLQRN"


def milli(text):
    """Decimal text to integer thousandths, rounded half up in magnitude (exact for <= 3 decimals)."""
    neg = text.startswith("-")
    text = text.lstrip("+-")
    whole, _, frac = text.partition(".")
    frac = (frac + "0000")[:4]
    v = int(whole or "0") * 10000 + int(frac or "0")
    v = (v + 5) // 10
    v = min(v, LIM)
    return -v if neg else v


def read_line(line):
    b = dict(kind="code", ok=True, g=[], m=[], has=[], cmt="")
    for a in "xyzijkfsth":
        b[a] = 0
    # "\r" and other line separators inside a line would break it on a controller
    if any(ord(c) < 32 and c != "\t" for c in line) or any(c in line for c in "\x85\u2028\u2029"):
        b["ok"] = False
    s = line.strip()
    if not s:
        b["kind"] = "blank"
        return b
    # comments
    out, comments, depth, cur = "", [], 0, ""
    for c in s:
        if depth:
            if c == "(":
                b["ok"] = False
            if c == ")":
                depth = 0
                comments.append(cur)
                cur = ""
            else:
                cur += c
        elif c == "(":
            depth = 1
        elif c == ")":
            b["ok"] = False
        elif c == ";":
            break
        else:
            out += c
    if depth:
        b["ok"] = False
    b["cmt"] = " ".join(comments)
    code = re.sub(r"[ \t]", "", out).upper()
    if not code:
        b["kind"] = "comment"
        return b
    pos = 0
    for m in WORD.finditer(code):
        if m.start() != pos:
            b["ok"] = False
        pos = m.end()
        letter, num = m.groups()
        if letter in "GM":
            v = milli(num)
            if v % 100 or v < 0:
                b["ok"] = False
            b[letter.lower()].append(v // 100)
        elif letter in ARGS:
            if letter in b["has"]:
                b["ok"] = False
            b["has"].append(letter)
            if letter.lower() in b:
                b[letter.lower()] = milli(num)
        else:
            b["ok"] = False
    if pos != len(code):
        b["ok"] = False
    return b


def read(text):
    return [read_line(line) for line in text.split("\n")]


def motion(blocks, start=None):
    """Flatten blocks to moves with absolute end points; used where only the planned path is looked at.

    Returns records (g, x, y, z, i, j, f): i, j are the absolute arc centre.
    Unknown start coordinates are None.
    """
    pos = dict(x=None, y=None, z=None) if start is None else dict(start)
    out, g, f = [], None, None
    for b in blocks:
        if b["kind"] != "code":
            continue
        for v in b["g"]:
            if v in (0, 10, 20, 30):
                g = v // 10
            elif v in (280, 300):
                pos = dict(x=None, y=None, z=None)
        if "F" in b["has"]:
            f = b["f"]
        if not any(a in b["has"] for a in "XYZ"):
            continue
        new = {a: (b[a] if a.upper() in b["has"] else pos[a]) for a in "xyz"}
        mv = dict(g=g, f=f, sx=pos["x"], sy=pos["y"], sz=pos["z"], **new)
        if g in (2, 3):
            mv["i"] = (pos["x"] or 0) + b["i"]
            mv["j"] = (pos["y"] or 0) + b["j"]
        out.append(mv)
        pos = new
    return out
