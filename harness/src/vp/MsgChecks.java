package vp;

import io.netty.buffer.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class MsgChecks {
  static void c01(Run run) {
    run.rule = "A case builds one message (every class; every selector value of every polymorphic class in turn) from random representable field values through its setters, encodes it into a buffer of random kind behind random bytes and decodes a copy of the produced bytes, surrounded by junk, into a fresh object; getters, equals, hashCode and reader position are compared with the value model. Distinct and non-trivial: different message type or encoded bytes, with at least one byte.";
    List<T> ts = Checks.targets(run.spec);
    run.count("message types x selector values", ts.size());
    run.minEvals = ts.size();
    run.cases("roundtrip", run.n(250_000), ts, c -> roundtrip(c, ts.get((int) (c.index % ts.size()))));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> run.cases("with checksums", run.n(20_000), fs, c -> roundtrip(c, fs.get((int) (c.index % fs.size())))));
  }

  static void roundtrip(Case c, T t) {
    Bind bind = c.run.bind;
    Gen g = new Gen(c.rng, true);
    Msg m = g.msg(t.s, t.key);
    Object o = bind.toObject(m, c.rng);
    int refLen = c.run.ref.encode(m).length;
    byte[] e = Checks.encode(c, t.s, o, refLen);
    Object d = Checks.decodeFresh(c, t.s, e);
    // a frame's computed length and checksum are what encoding reported
    Msg want = m.copy();
    if (t.s.bodylen != null) want.set(t.s.bodylen, bind.fromVal(t.s.bodylen, bind.getRaw(t.s, o, t.s.bodylen)));
    if (t.s.cksum != null) want.set(t.s.cksum, bind.fromVal(t.s.cksum, bind.getRaw(t.s, o, t.s.cksum)));
    Msg got = bind.fromObject(d);
    String df = Msg.diff(want, got);
    c.check(df == null, () -> t + ": sent vs decoded differ: " + df + "\n    bytes " + Show.hex(e) + "\n    sent " + want);
    Msg sent = bind.fromObject(o);
    String ds = Msg.diff(want, sent);
    c.check(ds == null, () -> t + ": encoding changed the message: " + ds);
    if (Checks.strictSame(sent, got)) {
      c.count("compared with equals as sent");
      c.check(o.equals(d) && d.equals(o), () -> t + ": decoded message is not equal to the one sent: " + want);
      c.check(o.hashCode() == d.hashCode(), () -> t + ": equal messages with different hash codes: " + want);
    } else {
      Object n = bind.toObject(got, null);
      c.check(n.equals(d) && d.equals(n), () -> t + ": decoded message is not equal to a message with the same values: " + want);
    }
    // a second trip of the decoded message
    byte[] e2 = Checks.encode(c, t.s, d, refLen);
    c.check(Arrays.equals(e, e2), () -> t + ": re-encoding the decoded message: " + Show.firstDiff(e, e2));
    Object d2 = Checks.decodeFresh(c, t.s, e2);
    c.check(d.equals(d2), () -> t + ": second round trip differs");
    if (e.length > 0) c.distinct(Checks.hash(t.toString(), e));
    c.run.count("bytes encoded and decoded", e.length);
    c.sample(() -> m + " -> " + Show.hex(e, 60));
  }

  static void c02(Run run) {
    run.rule = "A case builds one message from arbitrary field values (including over-long text, text bordering the pad character, absent, foreign or opaque bodies), encodes it and compares the appended bytes one by one with those of an independent encoder driven by the committed layout. Distinct and non-trivial: different message type or bytes, with at least one byte.";
    run.assumptions.add("spec/*.spec states the layouts of the reference revision; it is independent data, not derived from the tree under test at run time");
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("layout", run.n(400_000), ts, c -> layout(c, ts.get((int) (c.index % ts.size()))));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> run.cases("with checksums", run.n(30_000), fs, c -> layout(c, fs.get((int) (c.index % fs.size())))));
  }

  static void layout(Case c, T t) {
    Gen g = new Gen(c.rng, false);
    g.rawBodies = true;
    g.sameParts = c.rng.chance(1, 2);
    Msg m = g.msg(t.s, t.key);
    Object o = c.run.bind.toObject(m, c.rng);
    int[] st = new int[t.s.fields.size()];
    byte[] want = c.run.ref.encode(m, st);
    byte[] got = Checks.encode(c, t.s, o, want.length);
    c.check(Arrays.equals(want, got), () -> t + ": " + Show.firstDiff(want, got) + " in field " + fieldAt(t.s, st, want, got) + "\n    of " + m);
    c.run.count("bytes compared", want.length);
    if (want.length > 0) c.distinct(Checks.hash(t.toString(), want));
    c.sample(() -> m + " -> " + Show.hex(got, 60));
  }

  static String fieldAt(MsgSpec s, int[] st, byte[] a, byte[] b) {
    int i = 0;
    while (i < a.length && i < b.length && a[i] == b[i]) i++;
    String n = "?";
    for (Field f : s.fields) if (st[f.index] <= i) n = f.name;
    return n;
  }

  /** random well-formed bytes of a layout: raw text regions, any bit patterns; lengths and checksums correct */
  static final class Wire {
    final Rng r;
    final Run run;
    boolean binaryText;
    int listMax = 5;

    Wire(Run run, Rng r) {
      this.run = run;
      this.r = r;
      binaryText = r.chance(1, 6);
      if (r.chance(1, 20)) listMax = 400;
    }

    void write(RefCodec.Out o, MsgSpec s, Object key) {
      boolean le = s.proto.little;
      int start = o.n, lenPos = -1;
      for (Field f : s.fields) {
        if (f.isList()) {
          int n = r.chance(1, 4) ? 0 : r.below(listMax + 1);
          o.num(n, f.listPrefix, le);
          int lm = listMax;
          listMax = Math.min(listMax, 5);
          for (int i = 0; i < n; i++) one(o, f, le);
          listMax = lm;
          continue;
        }
        if (f == s.selector) {
          if (key == null) key = r.pick(new ArrayList<>(s.cases.keySet()));
          if (key instanceof String) {
            byte[] b = RefCodec.fixed((String) key, f.width, f.pad, f.left);
            o.put(b, 0, b.length);
          } else o.num((Long) key, f.width, le);
          continue;
        }
        switch (f.kind) {
          case BODYLEN: lenPos = o.n; o.num(0, 4, le); break;
          case BODY: {
            int b0 = o.n;
            write(o, s.proto.msgs.get(s.cases.get(key)), null);
            if (lenPos >= 0) {
              int e = o.n;
              o.n = lenPos;
              o.num(e - b0, 4, le);
              o.n = e;
            }
            break;
          }
          case CKSUM:
            o.num(run.ref.registered.contains(f.algo) ? RefCodec.ALGOS.get(f.algo).applyAsInt(Arrays.copyOfRange(o.b, start, o.n)) : r.next(), 4, le);
            break;
          default: one(o, f, le);
        }
      }
    }

    void one(RefCodec.Out o, Field f, boolean le) {
      switch (f.kind) {
        case INT: o.num(r.chance(1, 2) ? r.next() : Gen.B[r.below(Gen.B.length)], f.width, le); break;
        case F32: o.num(Float.floatToRawIntBits(new Gen(r, true).f32()), 4, le); break;
        case F64: o.num(Double.doubleToRawLongBits(new Gen(r, true).f64()), 8, le); break;
        case CHAR: {
          byte[] b = text(f.width, (byte) f.pad);
          o.put(b, 0, b.length);
          break;
        }
        case STR: {
          int n = r.chance(1, 3) ? 0 : r.chance(1, 40) ? r.below(3000) : r.below(30);
          byte[] b = text(n, (byte) ' ');
          o.num(b.length, f.prefix, le);
          o.put(b, 0, b.length);
          break;
        }
        case MSG: write(o, f.owner.proto.msgs.get(f.msg), null); break;
        default: throw new IllegalStateException();
      }
    }

    /** exactly n bytes */
    byte[] text(int n, byte pad) {
      if (binaryText && r.chance(1, 3)) return r.bytes(n);
      byte[] b;
      int k = r.below(6);
      if (k == 0) {
        b = new byte[n];
        Arrays.fill(b, pad);
        return b;
      }
      if (k == 1) {
        b = new byte[n];
        for (int i = 0; i < n; i++) b[i] = r.chance(1, 2) ? pad : (byte) (0x20 + r.below(0x5f));
        return b;
      }
      byte[] t = new Gen(r, true).text(n).getBytes(java.nio.charset.StandardCharsets.UTF_8);
      b = new byte[n];
      Arrays.fill(b, k == 2 ? (byte) 0x20 : k == 3 ? (byte) 0x30 : pad);
      int off = k == 4 ? n - t.length : k == 5 ? (n - t.length) / 2 : 0;
      System.arraycopy(t, 0, b, off, t.length);
      return b;
    }
  }

  /** equality that leaves the value of malformed text open */
  static String diff(Msg a, Msg b, boolean validText) {
    if (validText) return Msg.diff(a, b);
    for (Field f : a.spec.fields) {
      Object x = a.v[f.index], y = b.v[f.index];
      if (f.isList()) {
        List<?> p = x == null ? Collections.emptyList() : (List<?>) x, q = y == null ? Collections.emptyList() : (List<?>) y;
        if (p.size() != q.size()) return f + ": size " + p.size() + " vs " + q.size();
        for (int i = 0; i < p.size(); i++) {
          String d = lenient(f, p.get(i), q.get(i));
          if (d != null) return f + "[" + i + "]: " + d;
        }
      } else {
        String d = lenient(f, x, y);
        if (d != null) return f + ": " + d;
      }
    }
    return null;
  }

  private static String lenient(Field f, Object x, Object y) {
    if (x instanceof Msg && y instanceof Msg) return ((Msg) x).spec != ((Msg) y).spec ? "type" : diff((Msg) x, (Msg) y, false);
    if (f.kind == Kind.CHAR || f.kind == Kind.STR) {
      String s = x == null ? "" : (String) x, t = y == null ? "" : (String) y;
      return s.indexOf('\ufffd') >= 0 || s.equals(t) ? null : Show.str(s) + " vs " + Show.str(t);
    }
    return Objects.equals(x, y) ? null : Show.val(x) + " vs " + Show.val(y);
  }

  static void c03(Run run) {
    run.rule = "A case writes random well-formed bytes of one message type straight from the layout (any bit pattern in numbers, raw text regions with pad characters anywhere, multi-byte and sometimes malformed text), decodes them with the repository and with an independent decoder, compares every field and the bytes consumed, then re-encodes. Distinct and non-trivial: different message type or bytes, with at least one byte.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("wire", run.n(400_000), ts, c -> wire(c, ts.get((int) (c.index % ts.size()))));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> run.cases("with checksums", run.n(30_000), fs, c -> wire(c, fs.get((int) (c.index % fs.size())))));
  }

  static void wire(Case c, T t) {
    RefCodec.Out out = new RefCodec.Out();
    new Wire(c.run, c.rng).write(out, t.s, t.key);
    byte[] w = Arrays.copyOf(out.b, out.n);
    RefCodec.In in = new RefCodec.In(w, 0, w.length);
    Msg want = c.run.ref.decode(t.s, in);
    if (in.pos != w.length) throw new IllegalStateException("reference decoder left bytes");
    Object d = Checks.decodeFresh(c, t.s, w);
    Msg got = c.run.bind.fromObject(d);
    String df = diff(want, got, in.validText);
    c.check(df == null, () -> t + ": layout value vs decoded: " + df + "\n    bytes " + Show.hex(w));
    if (in.validText) {
      byte[] e = Checks.encode(c, t.s, d, w.length);
      c.check(Arrays.equals(w, e), () -> t + ": re-encoding: " + Show.firstDiff(w, e) + "\n    bytes " + Show.hex(w));
      c.count("re-encoded byte for byte");
    } else c.count("with malformed text");
    if (w.length > 0) c.distinct(Checks.hash(t.toString(), w));
    c.run.count("bytes decoded", w.length);
    c.sample(() -> Show.hex(w, 60) + " -> " + got);
  }
}
