package vp;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import vp.Run.*;
import vp.Spec.*;

public final class TextChecks {
  static final class F {
    final MsgSpec s;
    final Field f;

    F(MsgSpec s, Field f) {
      this.s = s;
      this.f = f;
    }

    public String toString() {
      return s.fq() + "." + f.name;
    }
  }

  static void c07(Run run) {
    run.rule = "Phase api: random width (0 to 400, seldom to 6000 or 200000), pad character and side, random text (absent, empty, short, exact, over-long, multi-byte, bordering the pad) through the fixed-text write and read operations on random buffers. Phase field: the same through every fixed-width field of every message class (each field in turn). The bytes written, the bytes consumed and the text returned are compared with an array-based model. Distinct: field or (width, pad, side) with the bytes.";
    List<F> fs = new ArrayList<>();
    for (MsgSpec s : run.spec.all) for (Field f : s.fields) if (f.kind == Kind.CHAR) fs.add(new F(s, f));
    run.count("fixed-width fields", fs.size());
    run.minEvals = fs.size();
    run.cases("api", run.n(500_000), TextChecks::api);
    run.cases("field", run.n(400_000), fs, c -> field(c, fs.get((int) (c.index % fs.size()))));
  }

  static Field pseudo(Rng r) {
    Field f = new Field();
    f.kind = Kind.CHAR;
    f.width = r.chance(1, 4000) ? r.range(5_000, 200_000) : r.chance(1, 80) ? r.range(400, 6_000) : r.chance(1, 12) ? r.range(0, 400) : r.pick(new int[] {0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 32, 50, 64, 127, 128, 160, 255, 256});
    f.pad = r.chance(1, 4) ? (char) r.below(128) : r.pick(new Character[] {' ', '0', '\0', 'x', '*'});
    f.left = r.chance(1, 2);
    return f;
  }

  static void api(Case c) {
    Rng r = c.rng;
    Field f = pseudo(r);
    BinaryCodec k = new RawBody(0);
    boolean plain = r.chance(1, 5);
    if (plain) {
      f.pad = ' ';
      f.left = false;
    }
    Gen g = new Gen(r, false);
    String s = r.chance(1, 12) ? null : g.fixedText(f);
    byte[] want = RefCodec.fixed(s, f.width, f.pad, f.left);
    byte[] pre = Checks.junk(r);
    String kind = r.pick(Bufs.WRITE);
    ByteBuf b = Bufs.writable(kind, pre, r.range(0, pre.length), f.width, (byte) r.next(), r);
    if (plain) k.writeFixedString(b, s, f.width);
    else k.writeFixedString(b, s, f.width, f.pad, f.left);
    int n = b.writerIndex() - pre.length;
    String d = "width " + f.width + " pad " + Show.str("" + f.pad) + (f.left ? " left" : " right");
    c.check(n == f.width, () -> d + ": writing " + Show.str(s) + " appended " + n + " bytes");
    byte[] got = Bufs.slice(b, pre.length, n);
    c.check(Arrays.equals(want, got), () -> d + ": writing " + Show.str(s) + " gave " + Show.hex(got) + ", model says " + Show.hex(want));
    c.check(Arrays.equals(pre, Bufs.slice(b, 0, pre.length)), () -> d + ": earlier bytes changed");
    if (!kind.equals("exact-slice")) Bufs.free(b);
    // read: what was written, or arbitrary bytes
    byte[] raw = want;
    int z = r.below(4);
    if (z == 0) raw = new MsgChecks.Wire(c.run, r).text(f.width, (byte) f.pad);
    byte[] data = raw;
    ByteBuf in = Checks.input(c, concat(data, r.bytes(r.below(20))));
    int r0 = in.readerIndex();
    String t = plain ? k.readFixedString(in, f.width) : k.readFixedString(in, f.width, f.pad, f.left);
    int used = in.readerIndex() - r0;
    Bufs.free(in);
    c.check(used == f.width, () -> d + ": reading consumed " + used + " bytes");
    if (Gen.validUtf8(data, 0, data.length)) {
      String w = RefCodec.unfixed(data, 0, data.length, f.pad, f.left);
      c.check(w.equals(t), () -> d + ": reading " + Show.hex(data) + " gave " + Show.str(t) + ", model says " + Show.str(w));
      if (z != 0 && Gen.representable(f, s)) {
        c.check((s == null ? "" : s).equals(t), () -> d + ": " + Show.str(s) + " came back as " + Show.str(t));
        c.count("representable texts returned intact");
      }
      String tr = BinaryCodec.trimByChar(new String(data, StandardCharsets.UTF_8), f.pad, f.left);
      c.check(w.equals(tr), () -> d + ": trimming " + Show.hex(data) + " gave " + Show.str(tr));
    }
    if (f.width > 0) c.distinct(Checks.hash(d, data));
    c.sample(() -> d + ": " + Show.str(s) + " -> " + Show.hex(want, 40) + " ; read " + Show.hex(data, 40) + " -> " + Show.str(t));
  }

  static byte[] concat(byte[] a, byte[] b) {
    byte[] x = Arrays.copyOf(a, a.length + b.length);
    System.arraycopy(b, 0, x, a.length, b.length);
    return x;
  }

  static void field(Case c, F x) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = x.s;
    Field f = x.f;
    Gen g0 = new Gen(r, true);
    g0.style = r.chance(1, 2) ? 1 : 0;
    g0.listMax = Math.min(g0.listMax, 6);
    Msg m = g0.msg(s);
    Gen g = new Gen(r, false);
    int n = f.isList() ? r.range(1, 5) : 1;
    List<Object> vals = new ArrayList<>();
    for (int i = 0; i < n; i++) vals.add(r.chance(1, 12) ? (f.isList() ? "" : null) : g.fixedText(f));
    boolean sel = f == s.selector;
    m.set(f, f.isList() ? vals : vals.get(0));
    Object o = bind.toObject(m, r);
    int[] st = new int[s.fields.size()];
    byte[] ref = c.run.ref.encode(m, st);
    byte[] e = Checks.encode(c, s, o, ref.length);
    int at = st[f.index] + f.listPrefix;
    int len = n * f.width;
    c.check(e.length == ref.length, () -> x + " = " + Show.val(m.get(f)) + ": message of " + e.length + " bytes, layout says " + ref.length);
    byte[] reg = Arrays.copyOfRange(e, at, at + len), want = Arrays.copyOfRange(ref, at, at + len);
    c.check(Arrays.equals(reg, want), () -> x + " = " + Show.val(m.get(f)) + ": field bytes " + Show.hex(reg) + ", model says " + Show.hex(want));
    c.count("field regions compared");
    if (!sel) {
      byte[] raw = ref.clone();
      boolean own = r.chance(1, 2);
      if (!own)
        for (int i = 0; i < n; i++) {
          byte[] t = new MsgChecks.Wire(c.run, r).text(f.width, (byte) f.pad);
          System.arraycopy(t, 0, raw, at + i * f.width, f.width);
        }
      if (s.cksum != null && s.frame) throw new IllegalStateException();
      Object d = Checks.decodeFresh(c, s, raw);
      Object v = bind.fromVal(f, bind.getRaw(s, d, f));
      List<Object> got = new ArrayList<>();
      if (f.isList()) got.addAll(v == null ? Collections.emptyList() : (List<?>) v);
      else got.add(v);
      c.check(got.size() == n, () -> x + ": " + n + " elements came back as " + got.size());
      for (int i = 0; i < n; i++) {
        int p = at + i * f.width;
        if (!Gen.validUtf8(raw, p, f.width)) continue;
        String w = RefCodec.unfixed(raw, p, f.width, f.pad, f.left);
        String t = got.get(i) == null ? "" : (String) got.get(i);
        c.check(w.equals(t), () -> x + ": reading " + Show.hex(Arrays.copyOfRange(raw, p, p + f.width)) + " gave " + Show.str(t) + ", model says " + Show.str(w));
        if (own && Gen.representable(f, (String) vals.get(i))) {
          int fi = i;
          c.check((vals.get(i) == null ? "" : vals.get(i)).equals(t), () -> x + ": " + Show.val(vals.get(fi)) + " came back as " + Show.str(t));
        }
        c.count("texts read and compared");
      }
    }
    c.distinct(Checks.hash(x.toString(), want));
    c.sample(() -> x + " = " + Show.val(m.get(f)) + " -> " + Show.hex(want, 40));
  }

  // ---- C08

  static void c08(Run run) {
    run.rule = "A case gives one list or variable-length text field (every one of every class in turn) a size around a boundary of its prefix (0, 1, 127..256, 32766..32769, 65534, 65535, and beyond: 65536 to 196608) or a random size, with empty and duplicate elements, encodes, compares count and bytes with the model, decodes and compares number, order and value of the elements; sizes beyond the prefix must be refused with an exception. Distinct: field, size and element bytes.";
    List<F> fs = new ArrayList<>();
    for (MsgSpec s : run.spec.all) for (Field f : s.fields) if (f.isList() || f.kind == Kind.STR) fs.add(new F(s, f));
    run.count("list and variable text fields", fs.size());
    int[] in = {0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 49152, 65533, 65534, 65535};
    int[] over = {65536, 65537, 65664, 98304, 131071, 131072, 196608};
    run.minEvals = fs.size();
    run.cases("boundary", (long) fs.size() * in.length, c -> size(c, fs.get((int) (c.index % fs.size())), in[(int) (c.index / fs.size())]));
    run.cases("beyond", (long) fs.size() * over.length, c -> over(c, fs.get((int) (c.index % fs.size())), over[(int) (c.index / fs.size())]));
    int[] big = {65536, 65537, 70000, 131072, 200_000};
    List<F> wide = new ArrayList<>();
    for (F x : fs) if ((x.f.isList() ? x.f.listPrefix : x.f.prefix) == 4) wide.add(x);
    run.cases("wide", (long) wide.size() * big.length, c -> size(c, wide.get((int) (c.index % wide.size())), big[(int) (c.index / wide.size())]));
    if (run.thorough) {
      int[] huge = {1 << 20, 3_000_001};
      run.cases("huge", (long) wide.size() * huge.length, c -> size(c, wide.get((int) (c.index % wide.size())), huge[(int) (c.index / wide.size())]));
    }
    run.cases("random", run.n(60_000), fs, c -> size(c, fs.get((int) (c.index % fs.size())), c.rng.chance(1, 60) ? c.rng.below(65536) : c.rng.below(c.rng.chance(1, 8) ? 3000 : 40)));
    run.cases("all at once", run.n(3_000), TextChecks::together);
  }

  static Msg base(Case c, MsgSpec s) {
    Gen g0 = new Gen(c.rng, true);
    g0.style = 1;
    g0.listMax = 3;
    return g0.msg(s);
  }

  static Object sized(Case c, Field f, int n) {
    Rng r = c.rng;
    Gen g = new Gen(r, true);
    g.listMax = 2;
    g.strMax = 8;
    if (!f.isList()) {
      if (n == 0) return r.chance(1, 2) ? null : "";
      StringBuilder b = new StringBuilder();
      boolean multi = r.chance(1, 2);
      String unit = multi ? r.pick(new String[] {"\u4e2d", "\u00e9x", "\ud83d\ude00", " \u3000", "a\0"}) : r.pick(new String[] {"a", "0", " ", "abcdefghij", "\0"});
      int u = Gen.utf8(unit);
      int k = 0;
      if (r.chance(1, 2) && n > 3) {
        b.append("Z1 ");
        k = 3;
      }
      while (k + u <= n) {
        b.append(unit);
        k += u;
      }
      while (k < n) {
        b.append('q');
        k++;
      }
      return b.toString();
    }
    int pool = n < 50 ? Math.max(1, n) : 12;
    List<Object> p = new ArrayList<>();
    for (int i = 0; i < pool; i++) {
      Object e;
      if ((f.kind == Kind.STR || f.kind == Kind.CHAR) && r.chance(1, 4)) e = "";
      else if (f.kind == Kind.INT && r.chance(1, 6)) e = 0L;
      else e = g.element(f);
      if (e instanceof Msg && r.chance(1, 3)) ((Msg) e).one = true; // repeated: one object in several places
      p.add(e);
    }
    List<Object> l = new ArrayList<>(n);
    boolean runs = r.chance(1, 3);
    for (int i = 0; i < n; i++) l.add(i > 0 && runs && r.chance(1, 4) ? l.get(r.chance(1, 2) ? i - 1 : r.below(i)) : n == pool ? p.get(i) : p.get(r.below(pool)));
    return l;
  }

  static void size(Case c, F x, int n) {
    MsgSpec s = x.s;
    Field f = x.f;
    Bind bind = c.run.bind;
    Msg m = base(c, s);
    m.set(f, sized(c, f, n));
    Object o = bind.toObject(m, c.rng);
    int[] st = new int[s.fields.size()];
    byte[] ref = c.run.ref.encode(m, st);
    byte[] e = Checks.encode(c, s, o, ref.length);
    int pw = f.isList() ? f.listPrefix : f.prefix;
    int at = st[f.index];
    long cnt = 0;
    if (e.length >= at + pw) for (int i = 0; i < pw; i++) cnt |= (e[at + i] & 0xFFL) << (s.proto.little ? 8 * i : 8 * (pw - 1 - i));
    long fc = cnt;
    c.check(cnt == n, () -> x + ": size " + n + " is announced as " + fc + " on the wire");
    c.check(Arrays.equals(ref, e), () -> x + " of size " + n + ": " + Show.firstDiff(ref, e));
    Object d = Checks.decodeFresh(c, s, e);
    Object v = bind.fromVal(f, bind.getRaw(s, d, f));
    if (f.isList()) {
      int got = v == null ? 0 : ((List<?>) v).size();
      c.check(got == n, () -> x + ": " + n + " elements came back as " + got);
    } else {
      int got = v == null ? 0 : Gen.utf8((String) v);
      c.check(got == n, () -> x + ": " + n + " bytes of text came back as " + got);
    }
    Msg dm = bind.fromObject(d);
    for (Field q : new Field[] {s.bodylen, s.cksum}) if (q != null) dm.set(q, m.get(q));
    String df = Msg.diff(m, dm);
    c.check(df == null, () -> x + " of size " + n + ": " + df);
    c.run.count("elements or text bytes carried", n);
    c.distinct(Checks.hash(x + "#" + n, e.length > 4096 ? Arrays.copyOf(e, 4096) : e));
    c.sample(() -> x + " size " + n + " -> " + Show.hex(e, 40));
  }

  static void over(Case c, F x, int n) {
    MsgSpec s = x.s;
    Field f = x.f;
    int pw = f.isList() ? f.listPrefix : f.prefix;
    if (pw == 4) {
      // nothing to refuse at this size: it must be carried
      return;
    }
    Msg m = base(c, s);
    m.set(f, sized(c, f, n));
    Object o = c.run.bind.toObject(m, c.rng);
    ByteBuf b = fresh(c.rng);
    try {
      c.run.bind.encode(s, o, b);
      int w = b.writerIndex();
      c.fail(x + ": size " + n + " does not fit its " + pw * 8 + "-bit prefix but was encoded (" + w + " bytes): " + Show.hex(Bufs.slice(b, 0, Math.min(w, 40))));
    } catch (Viol v) {
      throw v;
    } catch (RuntimeException e) {
      c.count("over-limit sizes refused");
    } finally {
      Bufs.free(b);
    }
    if (f.isList() && f.kind == Kind.STR && f.prefix == 2) {
      List<Object> l = new ArrayList<>(Arrays.asList("a", ""));
      Field txt = new Field();
      txt.kind = Kind.STR;
      l.add(c.rng.below(3), sized(c, txt, n));
      m.set(f, l);
      Object o2 = c.run.bind.toObject(m, c.rng);
      ByteBuf b2 = fresh(c.rng);
      boolean refused = false;
      try {
        c.run.bind.encode(s, o2, b2);
      } catch (RuntimeException e) {
        refused = true;
      }
      Bufs.free(b2);
      if (!refused) c.fail(x + ": an element of " + n + " bytes does not fit its 16-bit prefix but was encoded");
      c.count("over-limit elements refused");
    }
    c.distinct(Checks.hash(x + "over" + n, new byte[0]));
  }

  static ByteBuf fresh(Rng r) {
    return r.chance(1, 2) ? Unpooled.buffer(16) : PooledByteBufAllocator.DEFAULT.directBuffer(16);
  }

  /** every list and text of one message large at the same time */
  static void together(Case c) {
    List<MsgSpec> ms = new ArrayList<>();
    for (MsgSpec s : c.run.spec.all) for (Field f : s.fields)
      if (f.isList() || f.kind == Kind.STR) {
        ms.add(s);
        break;
      }
    MsgSpec s = ms.get((int) (c.index % ms.size()));
    Msg m = base(c, s);
    int lim = c.rng.pick(new int[] {5, 40, 300, 300, 2000});
    for (Field f : s.fields) if (f.isList() || f.kind == Kind.STR) m.set(f, sized(c, f, c.rng.below(lim)));
    Object o = c.run.bind.toObject(m, c.rng);
    byte[] ref = c.run.ref.encode(m);
    byte[] e = Checks.encode(c, s, o, ref.length);
    c.check(Arrays.equals(ref, e), () -> s + ": " + Show.firstDiff(ref, e));
    Msg d = c.run.bind.fromObject(Checks.decodeFresh(c, s, e));
    for (Field q : new Field[] {s.bodylen, s.cksum}) if (q != null) d.set(q, m.get(q));
    String df = Msg.diff(m, d);
    c.check(df == null, () -> s + ": " + df);
    c.distinct(Checks.hash(s.fq(), e.length > 4096 ? Arrays.copyOf(e, 4096) : e));
  }
}
