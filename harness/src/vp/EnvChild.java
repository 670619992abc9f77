package vp;

import com.finproto.bitmap.BitMap;
import com.finproto.codec.*;
import io.netty.buffer.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.atomic.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

/** One process of C22: EnvChild HOME CLASSES SEED N ORDER THREADS SHOW OUT [TIMES]. Runs numbered operations and writes what each one gave. */
public final class EnvChild {
  public static void main(String[] a) throws Exception {
    if (System.getProperty("vp.loader") != null) Thread.currentThread().setContextClassLoader(null);
    Path home = Paths.get(a[0]), classes = Paths.get(a[1]);
    long seed = Long.parseLong(a[2]);
    int n = Integer.parseInt(a[3]);
    String order = a[4];
    int threads = Integer.parseInt(a[5]), show = Integer.parseInt(a[6]);
    Spec spec = Spec.load(home.resolve("spec"));
    Dict.load(classes.resolve("vp-dict.txt"));
    Bind bind = new Bind(spec, EnvChild.class.getClassLoader());
    Run run = new Run("C22", "quick", seed, spec, bind);
    List<T> ts = Checks.targets(spec);
    List<Integer> seq = new ArrayList<>();
    for (int i = 0; i < n; i++) seq.add(i);
    switch (order) {
      case "reverse": Collections.reverse(seq); break;
      case "shuffle": Collections.shuffle(seq, new Random(seed * 31 + 7)); break;
      case "half": seq.removeIf(i -> (Rng.mix(i + 99) & 1) == 0); Collections.shuffle(seq, new Random(seed)); break;
      case "grouped": seq.sort(Comparator.comparingInt((Integer i) -> -(i % ts.size())).thenComparingInt(i -> -i)); break;
      case "twice": {
        List<Integer> t = new ArrayList<>(seq);
        Collections.reverse(t);
        seq.addAll(t);
        break;
      }
      default:
    }
    if (a.length > 8) prelude(run, ts, Integer.parseInt(a[8]));
    long[][] out = new long[n][2];
    AtomicInteger next = new AtomicInteger();
    AtomicReference<Throwable> bad = new AtomicReference<>();
    StringBuffer shown = new StringBuffer();
    List<Thread> th = new ArrayList<>();
    for (int k = 0; k < threads; k++) {
      Thread t = new Probe.VThread(() -> {
        try {
          for (;;) {
            int at = next.getAndIncrement();
            if (at >= seq.size()) return;
            int i = seq.get(at);
            StringBuilder v = new StringBuilder(), p = new StringBuilder();
            op(new Case(run, "env", i), ts, v, p);
            if (v.length() == 0) continue;
            long hv = hash(v), hp = hash(p);
            if (out[i][0] != 0 && (out[i][0] != hv || out[i][1] != hp)) hv = hash("differs within one process " + i);
            out[i][0] = hv;
            out[i][1] = hp;
            if (i == show) shown.append(v).append("\nprinted ").append(p).append('\n');
          }
        } catch (Throwable e) {
          bad.compareAndSet(null, e);
        }
      }, "env-" + k);
      th.add(t);
      t.start();
    }
    for (Thread t : th) t.join();
    if (bad.get() != null) {
      bad.get().printStackTrace();
      Runtime.getRuntime().halt(3);
    }
    try (DataOutputStream d = new DataOutputStream(new BufferedOutputStream(Files.newOutputStream(Paths.get(a[7]))))) {
      for (long[] x : out) {
        d.writeLong(x[0]);
        d.writeLong(x[1]);
      }
      d.write(Probe.cov);
    }
    if (show >= 0) Files.write(Paths.get(a[7] + ".txt"), shown.toString().getBytes(StandardCharsets.UTF_8));
    Runtime.getRuntime().halt(0);
  }

  /** a long past: every message type encoded, decoded, compared and printed many times, with rejected inputs and unknown selectors among them */
  static void prelude(Run run, List<T> ts, int times) throws InterruptedException {
    AtomicInteger next = new AtomicInteger();
    List<Thread> th = new ArrayList<>();
    for (int k = 0; k < 4; k++) {
      Thread t = new Thread(() -> {
        for (;;) {
          int i = next.getAndIncrement();
          if (i >= ts.size()) return;
          try {
            past(run, ts.get(i), times, i);
          } catch (RuntimeException | Error e) {
            if (!Run.fromSut(e) && !(e instanceof LinkageError)) throw e;
            // whatever is wrong here shows in the results
          }
        }
      });
      th.add(t);
      t.start();
    }
    for (Thread t : th) t.join();
    ChecksumService<ByteBuf, Integer>[] cs = SumChecks.fresh();
    ByteBuf z = Unpooled.wrappedBuffer(new byte[9]);
    BitMap[] bm = new BitMap[4];
    for (int i = 0; i < 4; i++) bm[i] = BitChecks.make(BitChecks.SIZES[i]);
    for (int i = 0; i < times * 4; i++) {
      cs[i & 3].calc(z);
      bm[i & 3].set(i % BitChecks.SIZES[i & 3]);
      bm[i & 3].clear(i % BitChecks.SIZES[i & 3]);
    }
  }

  private static void past(Run run, T t, int times, int salt) {
    Rng r = Rng.of(run.seed, "past", salt);
    Bind bind = run.bind;
    int k = 8;
    Object[] os = new Object[k], ds = new Object[k];
    byte[][] es = new byte[k][];
    for (int i = 0; i < k; i++) {
      Gen g = new Gen(r, true);
      g.listMax = 3;
      g.strMax = 20;
      Msg m = g.msg(t.s, t.key);
      os[i] = bind.toObject(m, r);
      es[i] = run.ref.encode(m);
      ds[i] = bind.make(t.s);
    }
    ByteBuf b = Unpooled.buffer(256), w = Unpooled.buffer(256);
    for (int n = 0; n < times; n++) {
      int i = n % k;
      w.clear();
      bind.encode(t.s, os[i], w);
      b.clear();
      boolean cut = n % 9 == 0 && es[i].length > 0;
      b.writeBytes(es[i], 0, cut ? es[i].length - 1 : es[i].length);
      Object d = n % 3 == 0 ? bind.make(t.s) : ds[i];
      try {
        bind.decode(t.s, d, b);
      } catch (RuntimeException e) {
        if (!cut) throw e;
      }
      if (n % 4 == 0) {
        d.equals(os[i]);
        os[i].hashCode();
        os[i].toString();
      }
      if (n % 16 == 0 && t.s.selector != null) {
        b.clear();
        b.writeBytes(r.bytes(80));
        try {
          bind.decode(t.s, bind.make(t.s), b);
        } catch (RuntimeException e) {
          // unknown selectors are rejected
        }
      }
    }
  }

  static long hash(CharSequence s) {
    long h = 0xcbf29ce484222325L;
    for (int i = 0; i < s.length(); i++) h = (h ^ s.charAt(i)) * 0x100000001b3L;
    h = Rng.mix(h);
    return h == 0 ? 1 : h;
  }

  static boolean floats(MsgSpec s, Set<MsgSpec> seen) {
    if (!seen.add(s)) return false;
    for (Field f : s.fields) {
      if (f.kind == Kind.F32 || f.kind == Kind.F64) return true;
      if (f.kind == Kind.MSG && floats(s.proto.msgs.get(f.msg), seen)) return true;
    }
    if (s.body != null) for (String c : s.cases.values()) if (floats(s.proto.msgs.get(c), seen)) return true;
    return false;
  }

  static String hex(byte[] b) {
    StringBuilder s = new StringBuilder();
    for (byte x : b) s.append(Character.forDigit(x >> 4 & 15, 16)).append(Character.forDigit(x & 15, 16));
    return s.toString();
  }

  static void full(StringBuilder b, Object x) {
    if (x instanceof Msg) {
      Msg m = (Msg) x;
      b.append(m.spec.name).append('{');
      for (Field f : m.spec.fields) {
        b.append(f.name).append('=');
        full(b, m.v[f.index]);
        b.append(';');
      }
      b.append('}');
    } else if (x instanceof List) {
      b.append('[');
      for (Object e : (List<?>) x) {
        full(b, e);
        b.append(',');
      }
      b.append(']');
    } else if (x instanceof Float) b.append("f").append(Float.floatToRawIntBits((Float) x));
    else if (x instanceof Double) b.append("d").append(Double.doubleToRawLongBits((Double) x));
    else if (x instanceof RawBody) b.append("raw").append(hex(((RawBody) x).data));
    else if (x instanceof Long || x == null || x instanceof String) b.append(x);
    else b.append(x.getClass().getName());
  }

  static void op(Case c, List<T> ts, StringBuilder v, StringBuilder p) {
    Rng r = c.rng;
    int i = (int) c.index;
    T t = ts.get(i % ts.size());
    int k = r.below(12);
    v.append(t).append(' ');
    try {
      if (k < 6) message(c, t, v, p);
      else if (k < 10) bytes(c, t, v, p);
      else if (k < 11) sums(c, v);
      else bits(c, v);
    } catch (RuntimeException | Error e) {
      if (!Run.fromSut(e) && !(e instanceof LinkageError)) throw e;
      if (lacking(e)) {
        // code that needs a later JDK than this process runs on: no result to compare
        v.setLength(0);
        p.setLength(0);
        return;
      }
      v.append(" threw ").append(e.getClass().getName());
    }
  }

  /** the code calls something this (older) JDK does not have */
  static boolean lacking(Throwable e) {
    String ver = System.getProperty("java.specification.version");
    if (!ver.equals("1.8") && !ver.equals("11")) return false;
    for (Throwable x = e; x != null; x = x.getCause())
      if (x instanceof LinkageError && LACKING.matcher(x.toString()).find()) return true;
    return false;
  }

  static final java.util.regex.Pattern LACKING =
      java.util.regex.Pattern.compile("(NoSuchMethodError|NoSuchFieldError|NoClassDefFoundError|IncompatibleClassChangeError)\\W[^\n]*?(java[./]|Could not initialize class)");

  static void message(Case c, T t, StringBuilder v, StringBuilder p) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    Gen g = new Gen(r, r.chance(1, 2));
    g.listMax = Math.min(g.listMax, 20);
    g.strMax = Math.min(g.strMax, 300);
    g.rawBodies = true;
    Msg m = g.msg(t.s, t.key);
    v.append("of ");
    full(v, m);
    Object o = bind.toObject(m, r), q = bind.toObject(m, r);
    v.append(" equal ").append(o.equals(q)).append(o.hashCode() == q.hashCode());
    byte[] e = Checks.plain(c.run, t.s, o);
    v.append(" bytes ").append(hex(e));
    if (!floats(t.s, new HashSet<>())) p.append(o);
    else o.toString();
    v.append(" after ");
    full(v, bind.fromObject(o));
    decode(c, t, e, v, p);
  }

  static void bytes(Case c, T t, StringBuilder v, StringBuilder p) {
    byte[] e = c.rng.chance(1, 2) ? HostileChecks.wire(c, t) : c.run.ref.encode(HostileChecks.valid(c, t));
    if (c.rng.chance(1, 2)) e = HostileChecks.mutate(c, t, e);
    v.append(" bytes ").append(hex(e));
    decode(c, t, e, v, p);
  }

  static void decode(Case c, T t, byte[] e, StringBuilder v, StringBuilder p) {
    Object d = c.run.bind.make(t.s);
    ByteBuf b = Unpooled.wrappedBuffer(e);
    v.append(" decoding ");
    try {
      c.run.bind.decode(t.s, d, b);
    } catch (RuntimeException x) {
      v.append("is rejected");
      return;
    }
    v.append("takes ").append(b.readerIndex()).append(" and gives ");
    full(v, c.run.bind.fromObject(d));
    if (!floats(t.s, new HashSet<>())) p.append(d);
    v.append(" again ").append(hex(Checks.plain(c.run, t.s, d)));
  }

  static void sums(Case c, StringBuilder v) {
    byte[] b = SumChecks.content(c.rng, c.rng.below(2000));
    v.append("checksums of ").append(hex(b));
    for (ChecksumService<ByteBuf, Integer> s : SumChecks.fresh()) v.append(' ').append(s.algorithm()).append(' ').append(s.calc(Unpooled.wrappedBuffer(b)));
    for (String n : SumChecks.N) v.append(' ').append(ChecksumServiceFactory.getInstance().getChecksumService(n) != null);
    for (String n : new String[] {"crc32", "CRC32 ", "ssE_bin", "CRC\u017f16", "cr\u0131c16"}) v.append(' ').append(ChecksumServiceFactory.getInstance().getChecksumService(n) != null);
  }

  static void bits(Case c, StringBuilder v) {
    int n = c.rng.pick(BitChecks.SIZES);
    BitMap m = BitChecks.make(n), q = BitChecks.make(n);
    v.append(n).append("-bit map");
    for (int i = 0; i < 40; i++) {
      int pos = c.rng.below(n);
      if (c.rng.chance(2, 3)) m.set(pos);
      else m.clear(pos);
    }
    ByteBuf b = Unpooled.buffer();
    m.write(b);
    v.append(" written ").append(hex(Bufs.slice(b, 0, b.writerIndex())));
    b.writeZero(20);
    q.read(b);
    v.append(" took ").append(b.readerIndex()).append(" states ");
    for (int i = 0; i < n; i++) v.append(m.get(i) ? 1 : 0).append(q.get(i) ? 1 : 0);
  }
}
