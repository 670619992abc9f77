package vp;

import io.netty.buffer.*;
import java.lang.management.ManagementFactory;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class HostileChecks {
  /** null: decoded; otherwise the exception */
  static RuntimeException tryDecode(Case c, MsgSpec s, Object o, ByteBuf b) {
    try {
      c.run.bind.decode(s, o, b);
      return null;
    } catch (RuntimeException e) {
      return e;
    }
  }

  static void c10(Run run) {
    run.rule = "Phase prefix: a valid encoding of one message is cut at every length (sampled above 160 bytes) and decoded from a buffer of random kind whose memory behind the writer index holds the true continuation, zeros or junk; it must throw. Phase inflated: a count or length prefix is raised so that the elements cannot be there; it must throw. Phase poison: the same readable bytes (valid, cut, or corrupted) are decoded twice with different memory around them; outcome, value and consumption must agree and the reader may not pass the writer. Distinct: type and readable bytes.";
    List<T> ts = new ArrayList<>();
    for (T t : Checks.targets(run.spec)) if (!t.s.fields.isEmpty()) ts.add(t);
    run.minEvals = ts.size();
    run.cases("prefix", run.n(14_000), ts, c -> prefix(c, ts.get((int) (c.index % ts.size()))));
    List<T> pre = new ArrayList<>();
    for (T t : ts) if (hasPrefix(t.s, t.key)) pre.add(t);
    run.cases("inflated", run.n(60_000), pre, c -> inflated(c, pre.get((int) (c.index % pre.size()))));
    run.cases("poison", run.n(100_000), ts, c -> poison(c, ts.get((int) (c.index % ts.size()))));
  }

  static boolean hasPrefix(MsgSpec s, Object key) {
    for (Field f : s.fields) {
      if (f.isList() || f.kind == Kind.STR) return true;
      if (f.kind == Kind.MSG && hasPrefix(s.proto.msgs.get(f.msg), null)) return true;
      if (f.kind == Kind.BODY && key != null && hasPrefix(s.proto.msgs.get(s.cases.get(key)), null)) return true;
    }
    return false;
  }

  static Msg valid(Case c, T t) {
    Gen g = new Gen(c.rng, true);
    g.listMax = Math.min(g.listMax, 6);
    g.strMax = Math.min(g.strMax, 40);
    if (c.rng.chance(1, 2)) g.style = 2;
    return g.msg(t.s, t.key);
  }

  static void rejected(Case c, T t, ByteBuf b, int w, Object o, String what) {
    RuntimeException x = tryDecode(c, t.s, o, b);
    c.check(b.readerIndex() <= w && b.writerIndex() == w, () -> t + ": " + what + ": reader at " + b.readerIndex() + ", writer at " + b.writerIndex() + " (was " + w + ")");
    c.check(x != null, () -> t + ": " + what + ": decoded without complaint to " + o);
    c.count("rejected with " + x.getClass().getSimpleName());
  }

  static void prefix(Case c, T t) {
    Rng r = c.rng;
    byte[] e = c.run.ref.encode(valid(c, t));
    int n = e.length;
    int k = 0, step = 0;
    while (k < n) {
      byte[] cut = Arrays.copyOf(e, k);
      byte[] post;
      int how = r.below(4);
      if (how < 2) post = Arrays.copyOfRange(e, k, n);
      else if (how == 2) post = new byte[n - k + 40];
      else post = r.bytes(n - k + r.below(40));
      byte[] pre = r.chance(1, 2) ? new byte[0] : r.bytes(r.below(20));
      ByteBuf b = Bufs.readable(r.pick(Bufs.READ), pre, cut, post, r);
      int w = b.writerIndex(), kk = k;
      rejected(c, t, b, w, c.run.bind.make(t.s), "the first " + kk + " of " + n + " bytes " + Show.hex(e, 120));
      Bufs.free(b);
      c.distinct(Checks.hash(t.toString(), cut));
      k += n <= 160 || n - k < 12 ? 1 : 1 + r.below(n / 80);
      step++;
    }
    c.run.count("strict prefixes decoded", step);
    c.sample(() -> t + ": " + n + " bytes " + Show.hex(e, 60));
  }

  static void inflated(Case c, T t) {
    Rng r = c.rng;
    List<int[]> ps = new ArrayList<>();
    byte[] e = c.run.ref.encode(valid(c, t), ps);
    if (ps.isEmpty()) return;
    int[] p = r.pick(ps);
    boolean le = t.s.proto.little;
    // sometimes more bytes follow, but still too few
    byte[] data = r.chance(1, 2) ? e : TextChecks.concat(e, r.bytes(r.below(60)));
    long room = data.length - p[0] - p[1];
    long min = room / p[2] + 1;
    long max = p[1] == 2 ? 0xFFFFL : 0xFFFFFFFFL;
    if (min > max) return;
    long v;
    switch (r.below(6)) {
      case 0: v = min; break;
      case 1: v = max; break;
      case 2: v = max / 2 + 1; break;
      case 3: v = max / 2; break;
      case 4: v = Math.min(max, min + r.below(300)); break;
      default: v = min + Long.remainderUnsigned(r.next(), max - min + 1);
    }
    if (v < min) v = min;
    for (int i = 0; i < p[1]; i++) data[p[0] + i] = (byte) (v >>> (le ? 8 * i : 8 * (p[1] - 1 - i)));
    // behind the writer there is plenty
    byte[] post = r.bytes(r.chance(1, 20) ? 70_000 : r.below(400));
    ByteBuf b = Bufs.readable(r.pick(Bufs.READ), r.bytes(r.below(10)), data, post, r);
    long fv = v;
    rejected(c, t, b, b.writerIndex(), c.run.bind.make(t.s), "prefix at byte " + p[0] + " raised to " + fv + " (room for " + (min - 1) + ") in " + Show.hex(data, 120));
    Bufs.free(b);
    c.distinct(Checks.hash(t.toString(), data));
    c.sample(() -> t + ": prefix at " + p[0] + " := " + fv + " in " + Show.hex(data, 60));
  }

  static void poison(Case c, T t) {
    Rng r = c.rng;
    byte[] e = r.chance(1, 2) ? c.run.ref.encode(valid(c, t)) : wire(c, t);
    int k = r.below(5);
    if (k == 0 && e.length > 0) e = Arrays.copyOf(e, r.below(e.length));
    else if (k < 3) e = mutate(c, t, e);
    else if (k == 3) e = TextChecks.concat(e, r.bytes(r.below(60)));
    byte[] data = e;
    String k1 = r.pick(Bufs.READ), k2 = r.chance(1, 2) ? k1 : r.pick(Bufs.READ);
    int z = r.below(3) == 0 ? r.below(3000) : r.below(80);
    byte[] q1 = new byte[z], q2 = r.bytes(r.chance(1, 4) ? 0 : r.below(200));
    Arrays.fill(q1, (byte) r.next());
    ByteBuf a = Bufs.readable(k1, r.bytes(r.below(30)), data, q1, r), b = Bufs.readable(k2, Checks.junk(r), data, q2, r);
    int ra = a.readerIndex(), rb = b.readerIndex();
    Object x = c.run.bind.make(t.s), y = c.run.bind.make(t.s);
    RuntimeException ex = tryDecode(c, t.s, x, a), ey = tryDecode(c, t.s, y, b);
    c.check(a.readerIndex() <= a.writerIndex() && b.readerIndex() <= b.writerIndex(), () -> t + ": decoding moved the reader past the writer: " + Show.hex(data));
    c.check((ex == null) == (ey == null), () -> t + ": the same readable bytes are " + (ex == null ? "accepted" : "rejected: " + ex) + " in a " + k1 + " buffer and " + (ey == null ? "accepted" : "rejected: " + ey)
        + " in a " + k2 + " buffer with other memory around them: " + Show.hex(data));
    if (ex == null) {
      int ua = a.readerIndex() - ra, ub = b.readerIndex() - rb;
      c.check(ua == ub, () -> t + ": consumption depends on surrounding memory: " + ua + " vs " + ub);
      c.check(x.equals(y), () -> t + ": the decoded value depends on surrounding memory:\n    " + x + "\n    " + y + "\n    " + Show.hex(data));
      c.count("accepted under both poisons");
    } else c.count("rejected under both poisons");
    Bufs.free(a);
    Bufs.free(b);
    c.distinct(Checks.hash(t.toString(), data));
  }

  static byte[] wire(Case c, T t) {
    RefCodec.Out out = new RefCodec.Out();
    MsgChecks.Wire w = new MsgChecks.Wire(c.run, c.rng);
    w.listMax = Math.min(w.listMax, 6);
    w.write(out, t.s, t.key);
    return Arrays.copyOf(out.b, out.n);
  }

  static final int[] NASTY = {0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x20, 0x30, 0xc3, 0xf0};

  static byte[] mutate(Case c, T t, byte[] e) {
    Rng r = c.rng;
    e = e.clone();
    for (int q = r.range(1, 5); q > 0; q--) {
      if (e.length == 0) return r.bytes(r.below(20));
      int i = r.below(e.length);
      switch (r.below(8)) {
        case 0: e[i] ^= 1 << r.below(8); break;
        case 1: e[i] = (byte) NASTY[r.below(NASTY.length)]; break;
        case 2: for (int j = i; j < Math.min(e.length, i + r.pick(new int[] {2, 4, 8})); j++) e[j] = (byte) 0xff; break;
        case 3: for (int j = i; j < Math.min(e.length, i + 4); j++) e[j] = (byte) (j == i ? (r.chance(1, 2) ? 0x7f : 0x80) : r.chance(1, 2) ? 0xff : 0); break;
        case 4: e = Arrays.copyOf(e, i); break;
        case 5: {
          int n = r.below(Math.min(64, e.length - i) + 1);
          byte[] x = new byte[e.length + n];
          System.arraycopy(e, 0, x, 0, i + n);
          System.arraycopy(e, i, x, i + n, e.length - i);
          e = x;
          break;
        }
        case 6: {
          int n = r.below(Math.min(16, e.length - i) + 1);
          byte[] x = new byte[e.length - n];
          System.arraycopy(e, 0, x, 0, i);
          System.arraycopy(e, i + n, x, i, e.length - i - n);
          e = x;
          break;
        }
        default: e[i] = (byte) r.next();
      }
    }
    return e;
  }

  static final com.sun.management.ThreadMXBean MX = (com.sun.management.ThreadMXBean) ManagementFactory.getThreadMXBean();
  static final long MEM_CONST = 8L << 20, MEM_MUL = 4096;
  static final long STEP_CONST = 100_000, STEP_MUL = 400;

  static void c11(Run run) {
    run.rule = "A case decodes hostile bytes (random; corrupted, spliced, truncated or count-tampered encodings; long runs; up to 1 MiB) into one message type from a buffer of random kind while monitors watch: anything thrown that is not an ordinary runtime exception, bytes allocated by the thread (bound " + MEM_CONST + " + " + MEM_MUL + " per input byte), source lines executed (bound " + STEP_CONST + " + " + STEP_MUL + " per input byte); an accepted message is compared, hashed, printed and, if its text is valid, encoded. Distinct: type and bytes.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    if (!MX.isThreadAllocatedMemorySupported()) throw new IllegalStateException("no allocation counter");
    MX.setThreadAllocatedMemoryEnabled(true);
    // loads classes and warms lazily built tables outside the measurement
    run.cases("warm-up", ts.size() * 2L, c -> hostile(c, ts.get((int) (c.index % ts.size())), wire(c, ts.get((int) (c.index % ts.size()))), false));
    run.cases("tampered", run.n(400_000), ts, c -> {
      T t = ts.get((int) (c.index % ts.size()));
      byte[] e = c.rng.chance(1, 2) ? wire(c, t) : c.run.ref.encode(valid(c, t));
      hostile(c, t, c.rng.chance(1, 30) ? e : mutate(c, t, e), true);
    });
    run.cases("counts", run.n(120_000), ts, c -> {
      T t = ts.get((int) (c.index % ts.size()));
      List<int[]> ps = new ArrayList<>();
      byte[] e = c.run.ref.encode(valid(c, t), ps);
      if (!ps.isEmpty()) {
        for (int q = c.rng.range(1, 2); q > 0; q--) {
          int[] p = c.rng.pick(ps);
          int k = c.rng.below(5);
          long v = k == 0 ? -1L : k == 1 ? 0x7fffffff7fffL : k == 2 ? 0x80008000L << 16 | 0x8000 : k == 3 ? c.rng.next() : c.rng.below(1 << 28);
          if (p[1] == 4 && k == 2) v = 0x80000000L;
          if (p[1] == 4 && k == 1) v = 0x7fffffffL;
          for (int i = 0; i < p[1]; i++) e[p[0] + i] = (byte) (v >>> (t.s.proto.little ? 8 * i : 8 * (p[1] - 1 - i)));
        }
        if (c.rng.chance(1, 6)) e = TextChecks.concat(e, c.rng.bytes(c.rng.below(c.rng.chance(1, 20) ? 300_000 : 2000)));
      }
      hostile(c, t, e, true);
    });
    run.cases("random", run.n(250_000), ts, c -> {
      T t = ts.get((int) (c.index % ts.size()));
      int n = c.rng.chance(1, 200) ? c.rng.below(1 << 20) : c.rng.chance(1, 10) ? c.rng.below(5000) : c.rng.below(400);
      byte[] e = c.rng.bytes(n);
      if (c.rng.chance(1, 3)) Arrays.fill(e, (byte) NASTY[c.rng.below(NASTY.length)]);
      if (t.key != null && c.rng.chance(5, 6)) key(t, e);
      hostile(c, t, e, true);
    });
    List<TextChecks.F> fs = new ArrayList<>();
    for (MsgSpec s : run.spec.all) for (Field f : s.fields) if (f.isList() || f.kind == Kind.STR) fs.add(new TextChecks.F(s, f));
    run.cases("large", (long) fs.size() * (run.thorough ? 6 : 1), c -> large(c, fs.get((int) (c.index % fs.size())), 0));
  }

  /** a well-formed message with the largest list or text its prefix allows is accepted and can be used on a thread with a small stack */
  static void large(Case c, TextChecks.F x, int size) {
    MsgSpec s = x.s;
    int pw = x.f.isList() ? x.f.listPrefix : x.f.prefix;
    int n = size > 0 ? size : pw == 1 ? 255 : pw == 2 ? 65535 - c.rng.below(3) : x.f.isList() ? 66_000 + c.rng.below(30_000) : 200_000 + c.rng.below(100_000);
    Msg m = TextChecks.base(c, s);
    m.set(x.f, TextChecks.sized(c, x.f, n));
    byte[] e = c.run.ref.encode(m);
    Throwable[] bad = new Throwable[1];
    String[] at = {"decoding"};
    Probe.VThread me = Probe.me();
    Probe.VThread t = new Probe.VThread(() -> {
      try {
        Bind bind = c.run.bind;
        Probe.limit(STEP_CONST + STEP_MUL * e.length * 4);
        Object o = bind.make(s), p = bind.make(s);
        bind.decode(s, o, Unpooled.wrappedBuffer(e));
        bind.decode(s, p, Unpooled.wrappedBuffer(e));
        at[0] = "comparing";
        boolean eq = o.equals(p);
        at[0] = "hashing";
        boolean h = o.hashCode() == p.hashCode();
        at[0] = "printing";
        o.toString();
        at[0] = "encoding";
        byte[] again = Checks.plain(c.run, s, o);
        at[0] = "using";
        if (!eq || !h) throw new Viol(x + " with " + n + ": two messages decoded from the same bytes differ", null);
        if (!Arrays.equals(again, e)) throw new Viol(x + " with " + n + ": re-encoding: " + Show.firstDiff(e, again), null);
      } catch (Throwable z) {
        bad[0] = z;
      }
    }, "large", 512 << 10);
    t.start();
    try {
      t.join();
    } catch (InterruptedException z) {
      throw new RuntimeException(z);
    }
    if (me != null) me.total += t.steps + t.total;
    if (bad[0] instanceof Viol) throw (Viol) bad[0];
    if (bad[0] != null) c.fail(x + " with " + n + " elements or bytes: " + at[0] + " failed with " + Run.brief(bad[0]));
    c.count("large messages used on a small stack");
    c.distinct(Checks.hash(x + "#" + n, Arrays.copyOf(e, Math.min(e.length, 4096))));
  }

  /** plants the selector so that the body is reached */
  static void key(T t, byte[] e) {
    int at = 0;
    for (Field f : t.s.fields) {
      if (f == t.s.selector) {
        byte[] k;
        if (t.key instanceof String) k = RefCodec.fixed((String) t.key, f.width, f.pad, f.left);
        else {
          RefCodec.Out o = new RefCodec.Out();
          o.num((Long) t.key, f.width, t.s.proto.little);
          k = Arrays.copyOf(o.b, o.n);
        }
        if (at + k.length <= e.length) System.arraycopy(k, 0, e, at, k.length);
        return;
      }
      if (f.isList() || f.kind == Kind.STR || f.kind == Kind.MSG) return;
      at += f.kind == Kind.BODYLEN ? 4 : RefCodec.least(f);
    }
  }

  static void hostile(Case c, T t, byte[] e, boolean measure) {
    Rng r = c.rng;
    ByteBuf b = Bufs.readable(r.pick(Bufs.READ), r.bytes(r.below(8)), e, r.bytes(r.chance(1, 3) ? 0 : r.below(500)), r);
    Object o = c.run.bind.make(t.s);
    Probe.limit(STEP_CONST + STEP_MUL * e.length);
    long m0 = MX.getThreadAllocatedBytes(Thread.currentThread().getId());
    RuntimeException x = null;
    try {
      c.run.bind.decode(t.s, o, b);
    } catch (RuntimeException ex) {
      x = ex;
    } catch (Throwable ex) {
      c.fail(t + ": decoding " + e.length + " hostile bytes " + Show.hex(e, 200) + " threw " + Run.brief(ex));
    }
    long used = MX.getThreadAllocatedBytes(Thread.currentThread().getId()) - m0;
    if (measure)
      c.check(used <= MEM_CONST + MEM_MUL * e.length, () -> t + ": decoding " + e.length + " bytes allocated " + used + " bytes: " + Show.hex(e, 200));
    RuntimeException fx = x;
    if (x == null) {
      Probe.limit(10 * STEP_CONST + 20 * STEP_MUL * e.length);
      try {
        Object p = c.run.bind.make(t.s);
        o.equals(p);
        c.check(o.equals(o), () -> t + ": an accepted message is not equal to itself: " + Show.hex(e, 200));
        o.hashCode();
        String s = o.toString();
        boolean clean = s.indexOf('\ufffd') < 0;
        c.count("accepted");
        if (clean) {
          ByteBuf out = Unpooled.buffer(e.length + 16);
          c.run.bind.encode(t.s, o, out);
          c.count("accepted and re-encoded");
        }
      } catch (Viol v) {
        throw v;
      } catch (Throwable ex) {
        c.fail(t + ": message accepted from " + Show.hex(e, 200) + " cannot be used: " + Run.brief(ex));
      }
    } else c.count("rejected with " + fx.getClass().getSimpleName());
    Bufs.free(b);
    c.distinct(Checks.hash(t.toString(), e));
    c.sample(() -> t + " " + Show.hex(e, 60) + " -> " + (fx == null ? "accepted " + o : fx.toString()) + ", " + used + " bytes allocated");
  }
}
