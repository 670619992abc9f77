package vp;

import com.finproto.codec.*;
import io.netty.buffer.*;
import java.lang.management.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

/** One process of C24: LeakChild HOME CLASSES SEED PART PARTS OPS SECONDS OUT. */
public final class LeakChild {
  static final StringBuilder report = new StringBuilder();
  static long ops, windows, refused, gcs;
  static final PooledByteBufAllocator pool = new PooledByteBufAllocator(true, 1, 1, 8192, 3, 0, 0, false);
  static final MemoryMXBean heap = ManagementFactory.getMemoryMXBean();
  static BufferPoolMXBean direct;

  interface Op {
    void run(Rng r, long i) throws Exception;
  }

  public static void main(String[] a) throws Exception {
    Path home = Paths.get(a[0]), classes = Paths.get(a[1]);
    long seed = Long.parseLong(a[2]);
    int part = Integer.parseInt(a[3]), parts = Integer.parseInt(a[4]), n = Integer.parseInt(a[5]);
    long end = System.nanoTime() + Long.parseLong(a[6]) * 1_000_000_000L;
    for (BufferPoolMXBean b : ManagementFactory.getPlatformMXBeans(BufferPoolMXBean.class)) if (b.getName().equals("direct")) direct = b;
    Spec spec = Spec.load(home.resolve("spec"));
    Bind bind = new Bind(spec, LeakChild.class.getClassLoader());
    Run run = new Run("C24", "quick", seed, spec, bind);
    List<T> ts = Checks.targets(spec);
    List<Reg> regs = Reg.all(bind);
    Thread t = new Thread(null, () -> {
      int skipped = 0;
      for (int i = part; i < ts.size() + regs.size() + 3; i += parts) {
        if (System.nanoTime() > end) {
          skipped++;
          continue;
        }
        int k = i - ts.size();
        if (k < 0) {
          T x = ts.get(i);
          measure(x.toString(), n, Rng.of(seed, "leak", i), message(run, x));
        } else if (k < regs.size()) measure("registry of " + regs.get(k), n, Rng.of(seed, "leak", i), registry(regs.get(k)));
        else if (k == regs.size()) measure("checksum services", n, Rng.of(seed, "leak", i), sums());
        else if (k == regs.size() + 1) measure("short-lived threads", 200, Rng.of(seed, "leak", i), threads(run, ts));
        else measure("bitmaps", n, Rng.of(seed, "leak", i), bitmaps());
      }
      if (skipped > 0) report.append("skipped ").append(skipped).append(" subjects not measured for lack of time\n");
    }, "leak", 16 << 20);
    t.start();
    t.join();
    report.append("ops ").append(ops).append(" operations\nwindows ").append(windows).append(" windows measured\nrefused ").append(refused).append(" operations refused\n");
    Files.write(Paths.get(a[7]), report.toString().getBytes(StandardCharsets.UTF_8));
    Runtime.getRuntime().halt(0);
  }

  static long used() {
    System.gc();
    gcs++;
    return heap.getHeapMemoryUsage().getUsed();
  }

  /** heap in use, direct memory, buffers of the pool not returned */
  static long[] now() {
    long a = 0;
    PooledByteBufAllocatorMetric m = pool.metric();
    for (PoolArenaMetric x : m.heapArenas()) a += x.numActiveAllocations();
    for (PoolArenaMetric x : m.directArenas()) a += x.numActiveAllocations();
    return new long[] {used(), direct.getMemoryUsed(), a};
  }

  static final String[] WHAT = {"heap in use after a full collection", "direct memory", "buffers not returned to their allocator"};

  /** windows of n operations until the growth stops; a leak if it does not within 40 of them and 150 000 operations (or memory runs out) */
  static void measure(String what, int n, Rng r, Op op) {
    report.append("subject 0 ").append(what).append('\n');
    long[] atLeast = {8L * n, 4L * n, Math.max(1, n / 400)};
    List<long[]> h = new ArrayList<>();
    long i = 0;
    int most = Math.max(40, 150_000 / n);
    try {
      while (true) {
        for (int k = 0; k < n; k++, i++)
          try {
            op.run(r, i);
          } catch (Viol v) {
            throw v;
          } catch (Exception e) {
            refused++;
          }
        ops += n;
        windows++;
        h.add(now());
        int s = h.size();
        if (s < 5) continue;
        int leak = -1;
        for (int q = 0; q < 3 && leak < 0; q++) {
          // does it still grow: over the later half in all, and not just once
          int from = s <= 10 ? s - 4 : s / 2;
          long all = h.get(s - 1)[q] - h.get(from)[q];
          int up = 0;
          for (int z = from + 1; z < s; z++) if (h.get(z)[q] > h.get(z - 1)[q]) up++;
          if (all >= atLeast[q] * (s - 1 - from) && up * 2 > s - 1 - from) leak = q;
        }
        if (leak < 0) return;
        if (s >= most) {
          int q = leak, from = s / 2;
          report.append("BAD ").append(what).append(": ").append(WHAT[q]).append(" grew from ").append(h.get(0)[q]).append(" after ").append(n).append(" operations over ").append(h.get(from)[q]).append(" after ")
              .append((from + 1L) * n).append(" to ").append(h.get(s - 1)[q]).append(" after ").append((long) s * n).append(" operations, ")
              .append(String.format(Locale.ROOT, "%.1f", (double) (h.get(s - 1)[q] - h.get(from)[q]) / ((double) (s - 1 - from) * n))).append(" per operation\n");
          return;
        }
      }
    } catch (OutOfMemoryError e) {
      report.append("BAD ").append(what).append(": out of memory after ").append(i).append(" operations: ").append(e.getMessage()).append('\n');
    }
  }

  static Op message(Run run, T t) {
    Bind bind = run.bind;
    MsgSpec s = t.s;
    return (r, i) -> {
      Gen g = new Gen(r, true);
      g.listMax = 3;
      g.strMax = 24;
      Msg m = g.msg(s, t.key);
      Object o = bind.toObject(m, r);
      byte[] e = run.ref.encode(m);
      int k = (int) (i % 8);
      ByteBuf b = k == 0 ? pool.directBuffer(16) : k == 1 ? pool.heapBuffer(16) : k == 2 ? pool.compositeBuffer() : k == 3 ? UnpooledByteBufAllocator.DEFAULT.directBuffer(16) : Unpooled.buffer(16);
      try {
        bind.encode(s, o, b);
        Object d = bind.make(s);
        bind.decode(s, d, b);
        d.hashCode();
        d.equals(o);
        d.toString();
      } finally {
        b.release();
      }
      if (e.length > 0) {
        b = (i & 8) == 0 ? pool.directBuffer(e.length) : pool.heapBuffer(e.length);
        try {
          byte[] x = e;
          if ((i & 16) == 0) x = Arrays.copyOf(e, r.below(e.length));
          else x[r.below(e.length)] = (byte) r.next();
          b.writeBytes(x);
          bind.decode(s, bind.make(s), b);
        } catch (RuntimeException x) {
          refused++;
        } finally {
          b.release();
        }
        int room = r.below(e.length);
        b = (i & 8) == 0 ? pool.directBuffer(room, room) : pool.heapBuffer(room, room);
        try {
          bind.encode(s, o, b);
        } catch (RuntimeException x) {
          refused++;
        } finally {
          b.release();
        }
      }
      if (s.body != null && (i & 7) == 5) {
        // no body, or one that refuses
        bind.setRaw(s, o, s.body, (i & 8) == 0 ? null : new GrindChild.Refusing());
        b = pool.directBuffer(64);
        try {
          bind.encode(s, o, b);
        } finally {
          b.release();
        }
      }
    };
  }

  static Op registry(Reg g) {
    return (r, i) -> {
      Object k = g.s.selector.kind == Kind.INT ? (Object) Gen.narrow(40_000_000L + i, g.s.selector.width) : "k" + i;
      if (g.s.cases.containsKey(k)) return;
      int how = (int) (i % 4);
      if (how == 0) {
        try {
          g.create(k);
        } catch (IllegalArgumentException e) {
          refused++;
        }
        return;
      }
      byte[] weight = new byte[64];
      g.register(how == 1 ? RegChecks.App0.class : how == 2 ? RegChecks.App1.class : RegChecks.App2.class, k, () -> new RawBody(weight));
      if (how == 2) {
        byte[] more = new byte[64];
        g.register(RegChecks.App3.class, k, () -> new RawBody(more));
      }
      g.create(k);
      g.remove(k);
      if (how == 3) g.remove(k);
    };
  }

  static Op sums() {
    ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
    return (r, i) -> {
      String n = "svc" + i;
      if (i % 3 == 0) {
        f.getChecksumService(n);
        return;
      }
      f.registry(new RegChecks.Sum0(n));
      if (i % 3 == 2) f.registry(new RegChecks.Sum0(n));
      f.getChecksumService(n);
      f.removeChecksumService(n);
      byte[] d = r.bytes(r.below(40));
      ByteBuf b = (i & 1) == 0 ? pool.directBuffer(64) : pool.heapBuffer(64);
      b.writeBytes(d);
      for (ChecksumService<ByteBuf, Integer> s : SumChecks.fresh()) s.verify(b, s.calc(b));
      b.release();
    };
  }

  static Op threads(Run run, List<T> ts) {
    return (r, i) -> {
      T t = ts.get((int) (i % ts.size()));
      Op op = message(run, t);
      Rng q = r.fork();
      Thread x = new Thread(() -> {
        try {
          op.run(q, i);
        } catch (Exception e) {
          // refused
        }
      });
      x.start();
      x.join();
    };
  }

  static Op bitmaps() {
    return (r, i) -> {
      int n = BitChecks.SIZES[(int) (i & 3)];
      com.finproto.bitmap.BitMap m = BitChecks.make(n), x = BitChecks.make(n);
      for (int k = r.below(10); k > 0; k--) m.set(r.below(n));
      ByteBuf b = (i & 4) == 0 ? pool.directBuffer(16) : pool.heapBuffer(16);
      try {
        m.write(b);
        x.read(b);
      } finally {
        b.release();
      }
    };
  }
}
