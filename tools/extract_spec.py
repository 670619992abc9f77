#!/usr/bin/env python3
"""One-off: derive a first draft of spec/*.spec from the *encode* side of the message classes of the
pinned tree (the protocol DSL submodule is empty here).  The draft was then reviewed by hand and
committed; no check runs this script, so the committed spec is an independent reference."""
import re, sys, os, glob
REPO = sys.argv[1]
OUT = sys.argv[2]
MODS = [("sample", "sample-bin", "com.finproto.sample.messages", "LE"),
        ("sse", "sse-bin", "com.finproto.sse.bin.messages", "BE"),
        ("szse", "szse-bin", "com.finproto.szse.bin.messages", "BE"),
        ("bjse", "bjse-bin", "com.finproto.bjse.trade.messages", "LE"),
        ("risk", "risk-bin", "com.finproto.risk.bin.messages", "BE")]
W = {"Byte": "i8", "Short": "i16", "Int": "i32", "Long": "i64", "Float": "f32", "Double": "f64"}

def method(src, name):
    m = re.search(r"public void %s\(ByteBuf byteBuf\) \{" % name, src)
    i = m.end(); d = 1; j = i
    while d:
        c = src[j]
        if c == "'" :
            j = src.index("'", j+2 if src[j+1]=='\\' else j+1)
        elif c == "{": d += 1
        elif c == "}": d -= 1
        j += 1
    return src[i:j-1]

def split_classes(src):
    """outer class source with nested BinaryCodec classes cut out, nested list"""
    nested = []
    while True:
        m = re.search(r"public static class (\w+) implements BinaryCodec \{", src)
        if not m: break
        i = m.end(); d = 1; j = i
        while d:
            if src[j] == "{": d += 1
            elif src[j] == "}": d -= 1
            j += 1
        nested.append((m.group(1), src[m.start():j]))
        src = src[:m.start()] + src[j:]
    return src, nested

def chars(n, pad, left):
    if pad is None: return "char[%s]" % n
    p = {"' '": "sp", "'0'": "zero", "'\\0'": "nul"}[pad]
    return "char[%s,%s,%s]" % (n, p, "left" if left == "true" else "right")

def parse(cls, src, mod, qual):
    fields = re.findall(r"^\s+private (?!static|final)([\w<>]+) (\w+);", src, re.M)
    ftype = {n: t for t, n in fields}
    enc = re.sub(r"\s+", " ", method(src, "encode"))
    out = []
    pos = 0
    FS = r"writeFixedString\( ?byteBuf, this\.(\w+)(\.get\(i\))?, (\d+)(?:, ('.*?'), (true|false))?\);"
    pats = [
      ("frame_len", r"int \w+ = byteBuf\.writerIndex\(\); byteBuf\.writeInt(LE)?\(0\); int (\w+)Start = byteBuf\.writerIndex\(\); if \(this\.\w+ != null\) \{ this\.\w+\.encode\(byteBuf\); \} int \w+End = byteBuf\.writerIndex\(\); this\.(\w+) = \(int\) \(\w+End - \w+Start\); byteBuf\.setInt(?:LE)?\(\w+, this\.\w+\);"),
      ("cksum", r"ChecksumService<ByteBuf, Integer> checksumService = ChecksumServiceFactory\.getInstance\(\)\.getChecksumService\(\"(\w+)\"\); if \(checksumService != null\) \{ this\.(\w+) = \(int\) checksumService\.calc\(byteBuf\); \} byteBuf\.writeInt(?:LE)?\(this\.\w+\);"),
      ("list", r"if \(null == this\.(\w+) \|\| this\.\w+\.size\(\) == 0\) \{ byteBuf\.write(Short|Int)\(0\); \} else \{ byteBuf\.write(?:Short|Int)(LE)?\(\((?:short|int)\) this\.\w+\.size\(\)\); for \(int i = 0; i < this\.\w+\.size\(\); i\+\+\) \{ "),
      ("dyn", r"if \(StringUtil\.isNullOrEmpty\(this\.(\w+)(\.get\(i\))?\)\) \{ byteBuf\.write(Short|Int)\(0\); \} else \{ byte\[\] bytes = this\.\w+(?:\.get\(i\))?\.getBytes\(StandardCharsets\.UTF_8\); byteBuf\.write(?:Short|Int)(LE)?\(bytes\.length\); byteBuf\.writeBytes\(bytes\); \}"),
      ("poly", r"if \(null != this\.(\w+)\) \{ this\.\w+\.encode\(byteBuf\); \}"),
      ("fixed", FS),
      ("prim", r"byteBuf\.write(Byte|Short|Int|Long|Float|Double)(LE)?\(this\.(\w+)(\.get\(i\))?\);"),
      ("obj", r"this\.(\w+)(\.get\(i\))?\.encode\(byteBuf\);"),
      ("endlist", r"\} \}"),
    ]
    inlist = None
    enc = enc.strip()
    ends = set()
    def emit(t, n):
        nonlocal inlist
        if inlist: out.append(("list<%s> %s" % (inlist[0], t), inlist[1]))
        else: out.append((t, n))
    while pos < len(enc):
        if enc[pos] == " ": pos += 1; continue
        for k, p in pats:
            m = re.compile(p).match(enc, pos)
            if m: break
        else:
            raise SystemExit("cannot parse %s: ...%s" % (cls, enc[pos:pos+200]))
        pos = m.end()
        if k == "frame_len":
            ends.add("LE" if m.group(1) else "BE")
            out.append(("bodylen32", m.group(3))); out.append(("@body", m.group(2)))
        elif k == "cksum": out.append(("checksum32(%s)" % m.group(1), m.group(2)))
        elif k == "list":
            inlist = ("u16" if m.group(2) == "Short" else "u32", m.group(1)); ends.add("LE" if m.group(3) else "BE")
        elif k == "dyn": emit("str<%s>" % ("u16" if m.group(3) == "Short" else "u32"), m.group(1)); ends.add("LE" if m.group(4) else "BE")
        elif k == "poly": out.append(("@body", m.group(1)))
        elif k == "fixed": emit(chars(m.group(3), m.group(4), m.group(5)), m.group(1))
        elif k == "prim":
            emit(W[m.group(1)], m.group(3))
            if m.group(1) != "Byte": ends.add("LE" if m.group(2) else "BE")
        elif k == "obj":
            t = ftype[m.group(1)]
            t = re.sub(r"List<(\w+)>", r"\1", t)
            emit("msg " + qual.get(t, t), m.group(1))
        elif k == "endlist": inlist = None
    assert ends <= {mod[3]}, (cls, ends)
    # bodies
    sel = re.search(r"this\.(\w+) =\s+(?:\w+MessageFactory\s*\.getInstance\(\)\s*\.create|createApplExtend)\(this\.(\w+)\);", src)
    res = []
    for t, n in out:
        if t == "@body": t = "body by " + sel.group(2)
        res.append((t, n))
    assert [n for _, n in res] == [n for _, n in fields], (cls, [n for _, n in res], [n for _, n in fields])
    table = []
    if sel:
        for k, c in re.findall(r"register\((?:\(\w+\) )?(\"?\w+\"?), (\w+)::new\)", src): table.append((k, c))
        for k, c in re.findall(r"applExtendMap\.put\((\"\w+\"), (\w+)::new\)", src): table.append((k, c))
        vals = dict(re.findall(r"^\s+([A-Z_]+)\((\d+)\)[,;]", src, re.M))
        for k, c in re.findall(r"MessageType\.(\w+)\.getValue\(\),\s+(\w+)::new", src): table.append((vals[k], c))
    return res, table

for mod in MODS:
    name, d, pkg, end = mod
    lines = ["protocol %s" % name, "package %s" % pkg, "endian %s" % ("little" if end == "LE" else "big"), ""]
    for f in sorted(glob.glob("%s/%s/src/main/java/%s/*.java" % (REPO, d, pkg.replace(".", "/")))):
        cls = os.path.basename(f)[:-5]
        src, nested = split_classes(open(f).read())
        qual = {n: cls + "$" + n for n, _ in nested}
        for n, s in [(cls, src)] + [(cls + "$" + n, s) for n, s in nested]:
            fl, table = parse(n, s, mod, qual)
            kind = "frame" if any(t.startswith("bodylen") for t, _ in fl) or cls == "BjseBinary" else "message"
            lines.append("%s %s {" % (kind, n))
            for t, fn in fl: lines.append("  %s %s" % (t, fn))
            for k, c in table: lines.append("  case %s -> %s" % (k, c))
            lines.append("}")
            lines.append("")
    open("%s/%s.spec" % (OUT, name), "w").write("\n".join(lines))
