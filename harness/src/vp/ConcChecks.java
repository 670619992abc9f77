package vp;

import com.finproto.codec.*;
import io.netty.buffer.*;
import java.net.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.function.Supplier;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class ConcChecks {
  static volatile int spin;

  interface Body {
    void run(int thread, Rng r) throws Exception;
  }

  /** runs body on n threads released together, each with its own schedule perturbation; rethrows the first failure */
  static void together(Case c, int n, Body body) {
    together(c, n, c.rng.below(4), body);
  }

  static void together(Case c, int n, int style, Body body) {
    CyclicBarrier bar = new CyclicBarrier(n);
    AtomicReference<Throwable> bad = new AtomicReference<>();
    Probe.VThread[] ts = new Probe.VThread[n];
    // threads of any state: with a pending interrupt, or without a context class loader
    int odd = c.rng.chance(1, 3) ? c.rng.range(1, (1 << n) - 1) : 0;
    for (int i = 0; i < n; i++) {
      int id = i;
      Rng r = c.rng.fork();
      ts[i] = new Probe.VThread(() -> {
        try {
          bar.await();
          if ((odd >> id & 1) != 0) Thread.currentThread().interrupt();
          body.run(id, r);
        } catch (Throwable t) {
          bad.compareAndSet(null, t);
        }
      }, "vp-" + i);
      if ((odd >> i & 1) != 0 && r.chance(1, 2)) ts[i].setContextClassLoader(null);
      ts[i].s = r.next();
      if (style == 8) ts[i].initPause = 2000;
      ts[i].yieldOneIn = style == 0 ? 0 : style == 9 ? 300 + r.below(1000) : style == 8 ? 2 : style == 1 ? 2 + r.below(3) : style == 2 ? 10 + r.below(40) : r.pick(new int[] {0, 2, 15, 120});
    }
    for (Thread t : ts) t.start();
    long last = -1, since = System.nanoTime();
    for (;;) {
      boolean alive = false;
      long steps = 0;
      for (Probe.VThread t : ts) {
        try {
          t.join(alive ? 1 : 200);
        } catch (InterruptedException e) {
          throw new RuntimeException(e);
        }
        alive |= t.isAlive();
        steps += t.steps;
      }
      if (!alive) break;
      if (steps != last) {
        last = steps;
        since = System.nanoTime();
      } else if (System.nanoTime() - since > 90_000_000_000L) {
        StringBuilder b = new StringBuilder("threads make no progress (no source line executed for 90 s):");
        for (Thread t : ts) {
          b.append("\n  ").append(t.getName()).append(' ').append(t.getState());
          for (StackTraceElement e : t.getStackTrace()) b.append("\n    at ").append(e);
        }
        c.run.hung = true;
        c.fail(b.toString());
      }
    }
    long y = 0, s = 0;
    for (Probe.VThread t : ts) {
      y += t.yields;
      s += t.steps;
    }
    c.run.count("injected yields", y);
    if (odd != 0) c.run.count("threads run with a pending interrupt", Integer.bitCount(odd));
    c.run.count("source lines executed by concurrent threads", s);
    Throwable t = bad.get();
    if (t instanceof Viol) throw (Viol) t;
    if (t instanceof Error) throw (Error) t;
    if (t instanceof RuntimeException) throw (RuntimeException) t;
    if (t != null) throw new RuntimeException(t);
  }

  // ---- C17

  static final class Job {
    MsgSpec s;
    Msg m;
    byte[] bytes;
    String shown;
    Msg decoded;
  }

  static void c17(Run run) {
    run.rule = "Phase separate: 8 threads released together encode, decode, compare, hash and print their own random messages (1 to 8 message types per round, so that types are shared by threads) in their own buffers, with random yields injected at the repository's source lines; every result is compared with the single-threaded model. Phase first use: the repository's classes are loaded afresh by a new class loader and the very first uses happen on 8 threads at once. Distinct: rounds by their messages.";
    run.minEvals = 20;
    List<T> ts = Checks.targets(run.spec);
    run.casesSeq("separate", run.n(360), c -> separate(c, ts, run.bind, run.ref));
    ChecksumServiceFactory.getInstance().registry(new SseBinChecksumService());
    ChecksumServiceFactory.getInstance().registry(new SzseBinChecksumService());
    RefCodec all = new RefCodec();
    all.registered.add("SSE_BIN");
    all.registered.add("SZSE_BIN");
    run.casesSeq("separate+checksums", run.n(130), c -> separate(c, framesOnly(ts), run.bind, all));
    run.casesSeq("first use", run.n(60), c -> firstUse(c, ts));
    // every pair of classes that hold a registry, first used at the same moment
    List<MsgSpec> reg = new ArrayList<>();
    for (MsgSpec q : run.spec.all) if (q.selector != null) reg.add(q);
    List<MsgSpec[]> pairs = new ArrayList<>();
    for (MsgSpec a : reg) for (MsgSpec b : reg) if (a.proto == b.proto && reg.indexOf(a) < reg.indexOf(b)) pairs.add(new MsgSpec[] {a, b});
    run.count("pairs of registries", pairs.size());
    run.casesSeq("initialisers", pairs.size() * (run.thorough ? 20L : 3), c -> initialisers(c, ts, pairs.get((int) (c.index % pairs.size()))));
    run.casesSeq("services", run.n(30), ConcChecks::services);
    run.casesSeq("tight", run.n(60), c -> tight(c, ts, all));
    // the classes as compiled, without probes
    Set<String> hot;
    Bind plain;
    try {
      hot = Dict.hot(Main.classes.resolve("vp-hot.txt"));
      plain = new Bind(run.spec, new Fresh(new URL[] {Main.classes.resolveSibling("c").toUri().toURL()}, ConcChecks.class.getClassLoader()));
    } catch (java.io.IOException e) {
      throw new IllegalStateException(e);
    }
    run.casesSeq("contention", ts.size() * (run.thorough ? 4L : 1), c -> {
      T t = ts.get((int) (c.index % ts.size()));
      boolean h = !Collections.disjoint(Checks.classes(run.spec, t), hot);
      contention(c, t, plain, h);
    });
  }

  /** all threads on one message type, as fast as they can, in classes without probes */
  static void contention(Case c, T t, Bind bind, boolean hot) {
    Rng r = c.rng;
    int n = 8, reps = hot ? 60_000 : 6_000;
    bindDeep(bind, t.s);
    Bind.Cls k = bind.of(t.s);
    Object[] objs = new Object[n], want = new Object[n];
    ByteBuf[] bytes = new ByteBuf[n];
    long h = 0;
    for (int i = 0; i < n; i++) {
      Gen g = new Gen(r.fork(), true);
      g.listMax = 2;
      g.strMax = 12;
      Msg m = g.msg(t.s, t.key);
      objs[i] = bind.toObject(m, r);
      byte[] e = c.run.ref.encode(m);
      bytes[i] = Unpooled.wrappedBuffer(e);
      want[i] = bind.make(t.s);
      bind.decode(t.s, want[i], Unpooled.wrappedBuffer(e));
      h = h * 31 + Checks.hash(t.toString(), e);
    }
    long end = System.nanoTime() + (hot ? 1_500_000_000L : 300_000_000L) * (c.run.thorough ? 4 : 1);
    LongAdder done = new LongAdder();
    together(c, n, 0, (id, q) -> {
      ByteBuf b = Unpooled.buffer(bytes[id].writerIndex() + 16);
      Object o = objs[id], w = want[id];
      int hash = w.hashCode();
      for (int i = 0; i < reps; i++) {
        if ((i & 255) == 0 && System.nanoTime() > end) break;
        b.clear();
        bind.encode(t.s, o, b);
        if (!b.equals(bytes[id])) c.fail(t + ": concurrent encoding " + i + " differs from the sequential one: " + Show.firstDiff(Bufs.slice(bytes[id], 0, bytes[id].writerIndex()), Bufs.slice(b, 0, b.writerIndex())));
        Object d = bind.make(t.s);
        bind.decode(t.s, d, b);
        if (b.isReadable() || !d.equals(w)) c.fail(t + ": concurrent decoding " + i + " differs from the sequential one: " + Msg.diff(bind.fromObject(w), bind.fromObject(d)) + ", " + b.readableBytes() + " bytes left");
        if ((i & 31) == 0 && d.hashCode() != hash) c.fail(t + ": concurrent hashing " + i + " differs from the sequential one");
        if ((i & 255) == 0 && !d.toString().equals(w.toString())) c.fail(t + ": concurrent printing " + i + " differs from the sequential one");
        done.increment();
      }
    });
    c.run.count("contended encode/decode pairs", done.sum());
    c.run.count(hot ? "targets driven hard" : "targets driven", 1);
    c.distinct(h);
  }

  /** threads that do nothing but encode, compare, decode, compare, many times over */
  static void tight(Case c, List<T> ts, RefCodec ref) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    int n = 8, reps = c.run.replayPhase != null ? 400 : 1500;
    T shared = r.pick(ts);
    MsgSpec[] specs = new MsgSpec[n];
    Object[] objs = new Object[n], want = new Object[n];
    byte[][] bytes = new byte[n][];
    long h = 0;
    boolean wide = r.chance(1, 2);
    for (int i = 0; i < n; i++) {
      T t = c.index % 2 == 0 ? shared : r.pick(ts);
      Gen g = new Gen(r.fork(), true);
      g.listMax = Math.min(g.listMax, 4);
      g.strMax = Math.min(g.strMax, 60);
      g.wideText = wide;
      g.style = 2;
      Msg m = g.msg(t.s, t.key);
      specs[i] = t.s;
      objs[i] = bind.toObject(m, r);
      bytes[i] = ref.encode(m);
      want[i] = bind.make(t.s);
      bind.decode(t.s, want[i], Unpooled.wrappedBuffer(bytes[i]));
      String df = Msg.diff(ref.decode(t.s, bytes[i]), bind.fromObject(want[i]));
      c.check(df == null, () -> t + ": decoded alone: " + df);
      h = h * 31 + Checks.hash(t.s.fq(), bytes[i]);
    }
    together(c, n, r.chance(2, 3) ? 0 : 9, (id, q) -> {
      ByteBuf b = Unpooled.buffer(bytes[id].length + 8), e = Unpooled.wrappedBuffer(bytes[id]);
      BinaryCodec o = (BinaryCodec) objs[id];
      for (int k = 0; k < reps; k++) {
        b.clear();
        o.encode(b);
        if (!b.equals(e)) {
          byte[] got = Bufs.slice(b, 0, b.writerIndex());
          c.fail(specs[id] + ": concurrent encoding differs from the sequential one: " + Show.firstDiff(bytes[id], got));
        }
        BinaryCodec d = (BinaryCodec) bind.make(specs[id]);
        d.decode(b);
        if (b.isReadable() || !d.equals(want[id])) {
          String df = Msg.diff(bind.fromObject(want[id]), bind.fromObject(d));
          c.fail(specs[id] + ": concurrent decoding differs from the sequential one: " + df + ", " + b.readableBytes() + " bytes left");
        }
        Probe.limit(Long.MAX_VALUE);
      }
      c.run.count("tight encode/decode pairs", reps);
    });
    c.distinct(h);
  }

  static List<T> framesOnly(List<T> ts) {
    List<T> l = new ArrayList<>();
    for (T t : ts) if (t.s.frame) l.add(t);
    return l;
  }

  static Job job(Case c, Rng r, T t, RefCodec ref) {
    Gen g = new Gen(r, true);
    g.listMax = Math.min(g.listMax, 20);
    g.strMax = Math.min(g.strMax, 300);
    Job j = new Job();
    j.s = t.s;
    j.m = g.msg(t.s, t.key);
    j.bytes = ref.encode(j.m);
    j.decoded = ref.decode(t.s, j.bytes);
    return j;
  }

  static void work(Case c, Bind bind, Job j, Rng r, boolean deep) {
    Object o = bind.toObject(j.m, r);
    ByteBuf b = r.chance(1, 2) ? Unpooled.buffer(16) : PooledByteBufAllocator.DEFAULT.directBuffer(16);
    bind.encode(j.s, o, b);
    byte[] e = Bufs.slice(b, 0, b.writerIndex());
    c.check(Arrays.equals(e, j.bytes), () -> j.s + ": concurrent encoding differs from the sequential one: " + Show.firstDiff(j.bytes, e) + "\n    " + j.m);
    Object d = bind.make(j.s);
    bind.decode(j.s, d, b);
    int left = b.readableBytes();
    c.check(left == 0, () -> j.s + ": concurrent decoding left " + left + " bytes");
    Msg got = bind.fromObject(d);
    String df = Msg.diff(j.decoded, got);
    c.check(df == null, () -> j.s + ": concurrent decoding differs from the sequential one: " + df + "\n    " + Show.hex(j.bytes));
    b.release();
    if (deep) {
      Object x = bind.toObject(got, r);
      c.check(d.equals(x) && x.hashCode() == d.hashCode(), () -> j.s + ": concurrent equals/hashCode wrong for " + got);
      String p = d.toString(), q = x.toString();
      c.check(p.equals(q), () -> j.s + ": concurrent printing differs: " + p + " / " + q);
    }
    c.run.count("messages encoded and decoded concurrently", 1);
  }

  static void separate(Case c, List<T> ts, Bind bind, RefCodec ref) {
    Rng r = c.rng;
    int kinds = r.pick(new int[] {1, 1, 2, 4, 8});
    T[] use = new T[kinds];
    use[0] = ts.get((int) (c.index % ts.size()));
    for (int i = 1; i < kinds; i++) use[i] = r.chance(1, 2) && use[0].s.body != null ? same(ts, use[0], r) : r.pick(ts);
    int n = 8, per = 6, reps = c.run.replayPhase != null ? 3 : r.chance(1, 4) ? 12 : 4;
    Job[][] jobs = new Job[n][per];
    long h = 0;
    for (int i = 0; i < n; i++)
      for (int k = 0; k < per; k++) {
        jobs[i][k] = job(c, r.fork(), use[(i + k) % kinds], ref);
        h = h * 31 + Checks.hash(jobs[i][k].s.fq(), jobs[i][k].bytes);
      }
    together(c, n, (id, q) -> {
      for (int rep = 0; rep < reps; rep++) for (Job j : jobs[id]) work(c, bind, j, q, rep == 0);
    });
    c.distinct(h);
    c.sample(() -> n + " threads over " + Arrays.toString(use));
  }

  static T same(List<T> ts, T a, Rng r) {
    for (;;) {
      T t = r.pick(ts);
      if (t.s == a.s) return t;
    }
  }

  static final class Fresh extends URLClassLoader {
    Fresh(URL[] u, ClassLoader p) {
      super(u, p);
    }

    @Override
    protected Class<?> loadClass(String n, boolean resolve) throws ClassNotFoundException {
      if (!n.startsWith("com.finproto.")) return super.loadClass(n, resolve);
      synchronized (getClassLoadingLock(n)) {
        Class<?> c = findLoadedClass(n);
        if (c == null) c = findClass(n);
        if (resolve) resolveClass(c);
        return c;
      }
    }

    static {
      registerAsParallelCapable();
    }
  }

  static void firstUse(Case c, List<T> ts) throws Exception {
    URL at = BinaryCodec.class.getProtectionDomain().getCodeSource().getLocation();
    Fresh fl = new Fresh(new URL[] {at}, ConcChecks.class.getClassLoader());
    Bind bind = new Bind(c.run.spec, fl);
    RefCodec ref = new RefCodec();
    Rng r = c.rng;
    List<T> frames = framesOnly(ts);
    int n = 8;
    Job[][] jobs = new Job[n][];
    int how = r.below(4);
    T one = r.pick(ts);
    Proto pr = r.pick(new ArrayList<>(c.run.spec.protos.values()));
    long h = 0;
    for (int i = 0; i < n; i++) {
      jobs[i] = new Job[4];
      for (int k = 0; k < 4; k++) {
        T t;
        if (how == 0) t = one;
        else if (how == 1) {
          do t = r.pick(ts);
          while (t.s.proto != pr);
        } else if (how == 2) t = r.pick(frames);
        else t = r.pick(ts);
        jobs[i][k] = job(c, r.fork(), t, ref);
        h = h * 31 + Checks.hash(t.toString(), jobs[i][k].bytes);
      }
    }
    for (Job[] js : jobs) for (Job j : js) bindDeep(bind, j.s);
    together(c, n, (id, q) -> {
      for (Job j : jobs[id]) {
        if (how != 0 || id % 2 == 0) work(c, bind, j, q, true);
        else decodeFirst(c, bind, j);
      }
    });
    fl.close();
    c.count("fresh class loaders");
    c.distinct(h);
  }

  static void initialisers(Case c, List<T> ts, MsgSpec[] pair) throws Exception {
    URL at = BinaryCodec.class.getProtectionDomain().getCodeSource().getLocation();
    Fresh fl = new Fresh(new URL[] {at}, ConcChecks.class.getClassLoader());
    Bind bind = new Bind(c.run.spec, fl);
    RefCodec ref = new RefCodec();
    Rng r = c.rng;
    Job[] jobs = new Job[4];
    for (int i = 0; i < jobs.length; i++) {
      MsgSpec s = pair[i % 2], other = pair[1 - i % 2];
      // on its own, without the other class as its part
      List<T> l = new ArrayList<>();
      for (T t : ts) if (t.s == s && !(t.key != null && other == s.proto.msgs.get(s.cases.get(t.key)))) l.add(t);
      jobs[i] = job(c, r.fork(), r.pick(l), ref);
    }
    for (Job j : jobs) bindDeep(bind, j.s);
    boolean encode = r.chance(1, 4);
    together(c, jobs.length, r.chance(2, 3) ? 8 : 0, (id, q) -> {
      if (encode) work(c, bind, jobs[id], q, true);
      else decodeFirst(c, bind, jobs[id]);
    });
    fl.close();
    c.count("pairs of registries first used together");
    c.distinct(Rng.mix(pair[0].hashCode() * 31L + pair[1].hashCode() * 7L + c.index));
  }

  static void bindDeep(Bind b, MsgSpec s) {
    b.of(s);
    for (Field f : s.fields) if (f.kind == Kind.MSG) bindDeep(b, s.proto.msgs.get(f.msg));
    for (String k : s.cases.values()) b.of(s.proto.msgs.get(k));
  }

  static void decodeFirst(Case c, Bind bind, Job j) {
    Object d = bind.make(j.s);
    bind.decode(j.s, d, Unpooled.wrappedBuffer(j.bytes));
    String df = Msg.diff(j.decoded, bind.fromObject(d));
    c.check(df == null, () -> j.s + ": concurrent first decoding: " + df);
    c.run.count("messages decoded concurrently on first use", 1);
  }

  /** checksum services shared by threads, each with its own data */
  static void services(Case c) {
    ChecksumService<ByteBuf, Integer>[] sv = SumChecks.fresh();
    together(c, 8, (id, r) -> {
      for (int k = 0; k < 60; k++) {
        byte[] d = SumChecks.content(r, r.below(400));
        ByteBuf b = Unpooled.wrappedBuffer(d);
        int[] want = {RefSum.crc16(d), RefSum.crc32(d), RefSum.sum8(d), RefSum.sum8(d)};
        for (int i = 0; i < 4; i++) {
          int got = sv[i].calc(b), fi = i;
          c.check(got == want[i], () -> SumChecks.N[fi] + " computed concurrently: " + got + ", alone " + want[fi]);
        }
        c.run.count("checksums computed concurrently", 4);
      }
    });
    c.distinct(c.index);
  }

  // ---- C25

  static void c25(Run run) {
    run.rule = "A case has 40 random messages of one type (all types in turn) or of random types, each shared by 8 threads that read it at the same time, in the same order, meeting at each message: its getters, hash code, equality with a copy of its own in both directions, printed form, its encoding (types without computed fields), and for frames the encoding of one frame per thread around the one shared body; every result is compared with the one obtained alone from an equal message. Every second case uses the classes as compiled, without probes; checksum services are registered in the second half. Distinct: the encoded contents.";
    run.minEvals = 20;
    List<T> ts = Checks.targets(run.spec);
    Bind plain;
    try {
      plain = new Bind(run.spec, new Fresh(new URL[] {Main.classes.resolveSibling("c").toUri().toURL()}, ConcChecks.class.getClassLoader()));
    } catch (java.io.IOException e) {
      throw new IllegalStateException(e);
    }
    for (MsgSpec s : run.spec.all) {
      bindDeep(plain, s);
      bindDeep(run.bind, s);
    }
    run.casesSeq("shared", (run.thorough ? 24L : 2L) * ts.size(), c -> shared(c, ts, plain, run.ref));
    // the same objects again and again
    run.casesSeq("long", (run.thorough ? 10L : 1L) * ts.size(), c -> grip(c, ts.get((int) (c.index % ts.size())), c.index % 3 == 0 ? run.bind : plain, run.ref));
    ChecksumServiceFactory.getInstance().registry(new SseBinChecksumService());
    ChecksumServiceFactory.getInstance().registry(new SzseBinChecksumService());
    RefCodec all = new RefCodec();
    all.registered.add("SSE_BIN");
    all.registered.add("SZSE_BIN");
    List<T> fs = framesOnly(ts);
    run.casesSeq("shared+checksums", (run.thorough ? 20L : 2L) * fs.size(), c -> shared(c, fs, run.bind, all));
  }

  /** something several threads read, with what reading it yields */
  static final class Common {
    T t;
    Msg m;
    Object o;
    Object[] twins, frames;
    byte[] bytes;
    int hash;
    String text;
    boolean plainEncode;
  }

  static Common common(Case c, T t, Bind bind, RefCodec ref, int n) {
    Rng r = c.rng;
    Common x = new Common();
    Gen g = new Gen(r.fork(), true);
    g.listMax = Math.min(g.listMax, 8);
    g.strMax = Math.min(g.strMax, 60);
    x.t = t;
    x.m = g.msg(t.s, t.key);
    x.plainEncode = t.s.bodylen == null && t.s.cksum == null;
    Object shape = bind.toObject(x.m, null);
    x.hash = shape.hashCode();
    x.text = shape.toString();
    x.twins = new Object[n];
    for (int i = 0; i < n; i++) x.twins[i] = bind.toObject(x.m, null);
    x.o = bind.toObject(x.m, r);
    if (!x.plainEncode) {
      // frames of their own around one body
      x.frames = new Object[n];
      Object body = bind.getRaw(t.s, x.o, t.s.body);
      for (int i = 0; i < n; i++) {
        x.frames[i] = bind.toObject(x.m, null);
        bind.setRaw(t.s, x.frames[i], t.s.body, body);
      }
      Msg w = x.m.copy();
      x.bytes = ref.encode(w);
    } else x.bytes = ref.encode(x.m);
    return x;
  }

  static void read(Case c, Bind bind, Common x, int id, int op, ByteBuf b) {
    T t = x.t;
    switch (op) {
      case 0: {
        int h = x.o.hashCode();
        if (h != x.hash) c.fail(t + ": hash code " + h + " when read by several threads, " + x.hash + " alone: " + x.text);
        break;
      }
      case 1: {
        String s = x.o.toString();
        if (!s.equals(x.text)) c.fail(t + ": printed by several threads as " + s + ", alone as " + x.text);
        break;
      }
      case 2: {
        if (!x.o.equals(x.twins[id]) || !x.twins[id].equals(x.o)) c.fail(t + ": not equal to an equal message when read by several threads: " + x.text);
        break;
      }
      case 3: {
        // each at a place of its own
        int off = id * 9;
        b.setIndex(off, off);
        bind.encode(t.s, x.plainEncode ? x.o : x.frames[id], b);
        if (b.writerIndex() - off != x.bytes.length || !b.equals(Unpooled.wrappedBuffer(x.bytes)))
          c.fail(t + (x.plainEncode ? "" : " around a shared body") + ": encoded by several threads: " + Show.firstDiff(x.bytes, Bufs.slice(b, off, Math.max(0, b.writerIndex() - off))));
        break;
      }
      default: {
        Msg got = bind.fromObject(x.o);
        String df = Msg.diff(x.m, got);
        if (df != null) c.fail(t + ": read by several threads: " + df);
      }
    }
  }

  static void shared(Case c, List<T> ts, Bind plain, RefCodec ref) {
    Rng r = c.rng;
    Bind bind = c.index % 2 == 0 ? c.run.bind : plain;
    int n = 8, k = 40;
    boolean mixed = r.chance(1, 4);
    Common[] xs = new Common[k];
    long h = 0;
    for (int i = 0; i < k; i++) {
      xs[i] = common(c, mixed ? r.pick(ts) : ts.get((int) (c.index / 2 % ts.size())), bind, ref, n);
      h = h * 31 + Checks.hash(xs[i].t.toString(), xs[i].bytes);
    }
    java.util.concurrent.atomic.AtomicIntegerArray at = new java.util.concurrent.atomic.AtomicIntegerArray(k);
    int way = r.below(4);
    int first = r.below(5);
    together(c, n, bind == plain || r.chance(1, 2) ? 0 : r.below(4), (id, q) -> {
      ByteBuf b = Unpooled.buffer(256);
      for (int i = 0; i < k; i++) {
        at.incrementAndGet(i);
        for (int spin = 0; spin < 4000 && at.get(i) < n; spin++);
        int z = way == 0 ? q.below(5) : way == 1 ? id : first;
        for (int op = 0; op < 10; op++) read(c, bind, xs[i], id, way == 3 ? first : (z + op) % 5, b);
        Probe.limit(Long.MAX_VALUE);
      }
    });
    c.run.count("messages read by eight threads", k);
    c.run.count("readings", 10L * n * k);
    c.distinct(h);
    c.sample(() -> n + " threads read " + xs[0].text);
  }

  /** the same two messages read many times over */
  static void grip(Case c, T t, Bind bind, RefCodec ref) {
    Rng r = c.rng;
    int n = 8, reps = 3000;
    Common a = common(c, t, bind, ref, n), d = common(c, t, bind, ref, n);
    int only = r.below(8);
    LongAdder done = new LongAdder();
    long end = System.nanoTime() + (c.run.thorough ? 600_000_000L : 120_000_000L);
    together(c, n, 0, (id, q) -> {
      ByteBuf b = Unpooled.buffer(256);
      for (int i = 0; i < reps; i++) {
        if ((i & 63) == 0) {
          if (System.nanoTime() > end) break;
          Probe.limit(Long.MAX_VALUE);
        }
        read(c, bind, q.chance(1, 2) ? a : d, id, only < 5 ? only : q.below(5), b);
        done.increment();
      }
    });
    c.run.count("readings of the same two messages", done.sum());
    c.distinct(Checks.hash(t.toString() + c.index, a.bytes));
  }

  // ---- C18

  /** one keyed registry as the history sees it */
  interface Kv {
    /** registers value id under key; the result is part of the history (null: none) */
    Boolean put(Object key, int id);

    Boolean remove(Object key);

    /** id of the value found, 0: unknown */
    int get(Object key);

    boolean exclusive();

    default void clear() {}

    Object freshKey(long i);

    void forget(Object key);
  }

  static final class SumKv implements Kv {
    static final class Svc implements ChecksumService<ByteBuf, Integer> {
      final String n;
      final int id;

      Svc(String n, int id) {
        this.n = n;
        this.id = id;
      }

      @Override
      public Integer calc(ByteBuf b) {
        return id;
      }

      @Override
      public String algorithm() {
        return n;
      }
    }

    final ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();

    @Override
    public Boolean put(Object k, int id) {
      return f.registry(new Svc((String) k, id));
    }

    @Override
    public Boolean remove(Object k) {
      f.removeChecksumService((String) k);
      return null;
    }

    @Override
    public int get(Object k) {
      ChecksumService<ByteBuf, Integer> s = f.getChecksumService((String) k);
      return s == null ? 0 : s instanceof Svc && ((Svc) s).n.equals(k) ? ((Svc) s).id : -1;
    }

    @Override
    public boolean exclusive() {
      return true;
    }

    @Override
    public void clear() {
      f.clearAllChecksumService();
    }

    @Override
    public Object freshKey(long i) {
      return "X" + i;
    }

    @Override
    public void forget(Object k) {
      f.removeChecksumService((String) k);
    }

    public String toString() {
      return "checksum services";
    }
  }

  public static class Tag extends RawBody {
    final int id;

    Tag(int id) {
      super(0);
      this.id = id;
    }
  }

  static final class FacKv implements Kv {
    final Reg g;

    FacKv(Reg g) {
      this.g = g;
    }

    @Override
    public Boolean put(Object k, int id) {
      g.register(RegChecks.APPS[id & 3], k, () -> new Tag(id));
      return null;
    }

    @Override
    public Boolean remove(Object k) {
      return g.remove(k);
    }

    @Override
    public int get(Object k) {
      try {
        Object o = g.create(k);
        return o instanceof Tag ? ((Tag) o).id : -1;
      } catch (IllegalArgumentException e) {
        return 0;
      }
    }

    @Override
    public boolean exclusive() {
      return false;
    }

    @Override
    public Object freshKey(long i) {
      if (g.s.selector.kind == Kind.CHAR) return "x" + Long.toString(i, 36);
      if (g.s.selector.width == 2) return Gen.narrow(1000 + i % 30_000, 2);
      // injective, and far from every built-in number
      return (i & 1) == 0 ? 10_000_000L + i : 0x40000000L | ((i * 0x9E3779B1L) & 0x3fffffffL);
    }

    @Override
    public void forget(Object k) {
      g.remove(k);
    }

    public String toString() {
      return g.toString();
    }
  }

  static final class Op {
    int thread, kind, id; // kind 0 put 1 remove 2 get 3 clear
    Object key;
    Object res;
    long t0, t1;

    public String toString() {
      return "[t" + thread + " " + t0 + ".." + t1 + " " + new String[] {"register " + id, "remove", "lookup", "clear"}[kind] + " -> " + res + "]";
    }
  }

  static void c18(Run run) throws Exception {
    run.rule = "Phase history: on every registry, 3 to 6 threads run short random histories of register/remove/lookup (and clear) on one or two keys with injected yields; call and return times are recorded at the API and each key's history is searched for a legal sequential order. Phase fresh: one thread runs numbered registrations and removals of a key while 2 to 7 threads look it up; every lookup must return the state after an operation between the last one complete before it began and the last one begun before it returned, and never go back. Phase winner: 8 threads register one free algorithm name at once. Phase growth: two threads add and remove thousands of keys of their own while others look up, encode and decode with entries nobody removes; nothing may be missed, lost or left. Phase crossed: for every pair of registries, suppliers that look up in the other one run at once; both must return. Phase sequential: the checksum registry against a map model. Distinct: observed histories (operations, results and overlap order).";
    List<Kv> kvs = new ArrayList<>();
    SumKv sums = new SumKv();
    kvs.add(sums);
    List<Reg> regs = Reg.all(run.bind);
    for (Reg g : regs) kvs.add(new FacKv(g));
    run.count("registries", kvs.size());
    run.minEvals = kvs.size();
    run.casesSeq("sequential", run.n(1_500), c -> sequential(c, sums));
    restore();
    run.casesSeq("winner", run.n(2_000), c -> winner(c, sums));
    // the checksum registry gets as many rounds as all factories together
    run.casesSeq("history", run.n(6_000), c -> history(c, c.index % 4 == 0 ? sums : kvs.get((int) (c.index % kvs.size()))));
    restore();
    run.casesSeq("fresh", kvs.size() * (run.thorough ? 150L : 14L), c -> fresh(c, kvs.get((int) (c.index % kvs.size()))));
    restore();
    List<Reg[]> pairs = new ArrayList<>();
    for (int i = 0; i < regs.size(); i++) for (int k = 0; k < i; k++) pairs.add(new Reg[] {regs.get(i), regs.get(k)});
    run.casesSeq("crossed", (run.thorough ? 10L : 1) * pairs.size(), c -> crossed(c, pairs.get((int) (c.index % pairs.size()))));
    run.casesSeq("growth", kvs.size() * (run.thorough ? 14L : 2L), c -> growth(c, kvs.get((int) (c.index % kvs.size()))));
  }

  /** two registries whose suppliers use the other one, both at once: no lookup may wait for the other for ever */
  static void crossed(Case c, Reg[] pair) {
    Rng r = c.rng;
    Reg a = pair[0], b = pair[1];
    Object ka = new FacKv(a).freshKey(7_000 + c.index), kb = new FacKv(b).freshKey(7_001 + c.index);
    Object ba = r.pick(new ArrayList<>(a.s.cases.keySet())), bb = r.pick(new ArrayList<>(b.s.cases.keySet()));
    CountDownLatch both = new CountDownLatch(2);
    AtomicReference<Throwable> bad = new AtomicReference<>();
    a.register(RegChecks.App1.class, ka, () -> {
      met(both);
      b.create(bb);
      return new RegChecks.App1();
    });
    b.register(RegChecks.App2.class, kb, () -> {
      met(both);
      a.create(ba);
      return new RegChecks.App2();
    });
    Thread[] ts = new Thread[2];
    for (int i = 0; i < 2; i++) {
      int id = i;
      ts[i] = new Thread(() -> {
        try {
          Object o = id == 0 ? a.create(ka) : b.create(kb);
          if (o.getClass() != (id == 0 ? RegChecks.App1.class : RegChecks.App2.class)) throw new IllegalStateException("created " + o);
        } catch (Throwable t) {
          bad.compareAndSet(null, t);
        }
      }, "vp-crossed-" + i);
      ts[i].setDaemon(true);
      ts[i].start();
    }
    long until = System.nanoTime() + 40_000_000_000L;
    for (Thread t : ts)
      try {
        t.join(Math.max(1, (until - System.nanoTime()) / 1_000_000));
      } catch (InterruptedException e) {
        throw new RuntimeException(e);
      }
    if (ts[0].isAlive() || ts[1].isAlive()) {
      StringBuilder m = new StringBuilder(a + " and " + b + ": creations whose suppliers use the other registry do not return:");
      for (Thread t : ts) {
        m.append("\n  ").append(t.getName()).append(' ').append(t.getState());
        for (StackTraceElement e : t.getStackTrace()) m.append("\n    at ").append(e);
      }
      c.run.hung = true;
      c.fail(m.toString());
    }
    a.remove(ka);
    b.remove(kb);
    Throwable t = bad.get();
    c.check(t == null, () -> a + " and " + b + ": creation whose supplier uses the other registry: " + Run.brief(t));
    c.count("pairs of registries used by each other's suppliers");
    c.distinct(Rng.mix(a.hashCode() * 31L + b.hashCode() + c.index));
  }

  private static void met(CountDownLatch l) {
    l.countDown();
    try {
      l.await(30, TimeUnit.MILLISECONDS);
    } catch (InterruptedException e) {
      Thread.currentThread().interrupt();
    }
  }

  static void restore() {
    ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
    f.clearAllChecksumService();
    f.registry(new Crc16ChecksumService());
    f.registry(new Crc32ChecksumService());
  }

  static void sequential(Case c, SumKv kv) {
    Rng r = c.rng;
    Map<Object, Integer> m = new HashMap<>();
    ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
    f.clearAllChecksumService();
    String[] keys = {"A", "B", "CRC32", "SSE_BIN", "AaAa", "BBBB", ""};
    StringBuilder log = new StringBuilder();
    for (int i = 1, n = r.range(5, 30); i <= n; i++) {
      String k = r.pick(keys);
      int op = r.below(10);
      if (op < 4) {
        boolean want = !m.containsKey(k);
        boolean got = kv.put(k, i);
        m.putIfAbsent(k, i);
        log.append("register ").append(k).append('#').append(i).append(' ');
        c.check(want == got, () -> "after " + log + ": registration reported " + got);
      } else if (op < 6) {
        kv.remove(k);
        m.remove(k);
        log.append("remove ").append(k).append(' ');
      } else if (op == 6) {
        kv.clear();
        m.clear();
        log.append("clear ");
      }
      for (String q : keys) {
        int got = kv.get(q), want = m.getOrDefault(q, 0);
        c.check(got == want, () -> "after " + log + ": service of " + q + " is #" + got + ", expected #" + want);
      }
      c.count("sequential states compared");
    }
    c.distinct(Rng.mix(log.toString().hashCode()));
  }

  static void winner(Case c, SumKv kv) {
    Object k = "W" + c.index;
    int n = 8;
    Boolean[] won = new Boolean[n];
    int[] seen = new int[n];
    together(c, n, (id, r) -> {
      won[id] = kv.put(k, id + 1);
      seen[id] = kv.get(k);
    });
    int winners = 0, who = 0;
    for (int i = 0; i < n; i++) if (won[i]) {
      winners++;
      who = i + 1;
    }
    int fw = winners, fwho = who, now = kv.get(k);
    c.check(winners == 1, () -> fw + " of " + n + " concurrent registrations of one algorithm name succeeded");
    c.check(now == who, () -> "registration #" + fwho + " succeeded but #" + now + " is found");
    for (int i = 0; i < n; i++) {
      int s = seen[i];
      c.check(s == fwho, () -> "a lookup after a completed registration found #" + s + ", the winner is #" + fwho);
    }
    kv.forget(k);
    c.distinct(Rng.mix(c.index * 8 + who));
    c.sample(() -> "winner of " + n + ": #" + fwho);
  }

  static void history(Case c, Kv kv) {
    Rng r = c.rng;
    int n = r.range(3, 6), per = r.range(2, n <= 4 ? 5 : 3), nk = r.range(1, 2);
    Object[] keys = new Object[nk];
    for (int i = 0; i < nk; i++) keys[i] = kv.freshKey(r.below(1000) * 2L + (nk == 2 && i == 1 ? 1 : 0));
    if (nk == 2 && keys[0].equals(keys[1])) nk = 1;
    boolean clears = kv instanceof SumKv && r.chance(1, 5);
    if (clears) restore();
    List<Op> all = Collections.synchronizedList(new ArrayList<>());
    int fnk = nk;
    for (int i = 0; i < nk; i++) kv.forget(keys[i]);
    int mode = r.below(3);
    together(c, n, (id, q) -> {
      List<Op> mine = new ArrayList<>();
      for (int k = 0; k < per; k++) {
        Op o = new Op();
        o.thread = id;
        o.key = keys[q.below(fnk)];
        int z = q.below(10);
        o.kind = mode == 0 ? (z < 5 ? 0 : z < 6 ? 1 : 2) : mode == 1 ? (z < 3 ? 0 : z < 6 ? 1 : 2) : (z < 4 ? 0 : z < 8 ? 1 : 2);
        if (clears && z == 9) o.kind = 3;
        o.id = (id + 1) * 100 + k + 1;
        o.t0 = System.nanoTime();
        switch (o.kind) {
          case 0: o.res = kv.put(o.key, o.id); break;
          case 1: o.res = kv.remove(o.key); break;
          case 2: o.res = kv.get(o.key); break;
          default: kv.clear();
        }
        o.t1 = System.nanoTime();
        mine.add(o);
      }
      all.addAll(mine);
    });
    // quiescent reads are part of the history
    for (int i = 0; i < nk; i++) {
      Op o = new Op();
      o.thread = 99;
      o.kind = 2;
      o.key = keys[i];
      o.t0 = System.nanoTime();
      o.res = kv.get(keys[i]);
      o.t1 = System.nanoTime();
      all.add(o);
    }
    long h = kv.hashCode();
    for (int i = 0; i < nk; i++) {
      List<Op> h1 = new ArrayList<>();
      for (Op o : all) if (o.kind == 3 || o.key.equals(keys[i])) h1.add(o);
      h1.sort(Comparator.comparingLong(o -> o.t0));
      boolean ok = linearizable(h1, kv.exclusive());
      Object key = keys[i];
      c.check(ok, () -> kv + ": the history of key " + key + " has no legal order: " + h1);
      c.run.count("operations in checked histories", h1.size());
      int over = 0;
      for (int a = 0; a < h1.size(); a++) for (int b = a + 1; b < h1.size(); b++) if (h1.get(b).t0 <= h1.get(a).t1) over++;
      c.run.count("overlapping pairs of operations on one key", over);
      for (Op o : h1) h = h * 31 + o.kind * 7 + o.thread * 1000 + String.valueOf(o.res).hashCode();
      if (over > 0) c.distinct(Rng.mix(h + over * 977L));
      if (c.index % 50 == i) c.sample(() -> kv + " key " + key + ": " + h1);
    }
    // class-to-type lookup agrees with the registry at rest
    if (kv instanceof FacKv && ((FacKv) kv).g.getType != null) {
      Reg g = ((FacKv) kv).g;
      for (int i = 0; i < nk; i++) {
        int id = kv.get(keys[i]);
        for (int a = 0; a < 4; a++) {
          Object t = g.typeOf(RegChecks.APPS[a]);
          Object key = keys[i];
          int fa = a;
          if (id == 0) c.check(!key.equals(t), () -> kv + ": key " + key + " is not registered at rest, but class " + RegChecks.APPS[fa].getSimpleName() + " still maps to it: " + all);
          else if (nk == 1 && (id & 3) == a) c.check(key.equals(t), () -> kv + ": key " + key + " is registered at rest for " + RegChecks.APPS[fa].getSimpleName() + ", but the class maps to " + t + ": " + all);
        }
      }
      c.count("class lookups at rest");
    }
    for (int i = 0; i < nk; i++) kv.forget(keys[i]);
    if (clears) restore();
  }

  /** search for a legal order of one key's operations (Wing and Gong), memoised on (done, state) */
  static boolean linearizable(List<Op> ops, boolean exclusive) {
    if (ops.size() > 60) throw new IllegalStateException("history too long");
    return search(ops, 0L, 0, exclusive, new HashSet<>());
  }

  private static boolean search(List<Op> ops, long done, int state, boolean ex, Set<Long> seen) {
    int n = ops.size();
    if (done == (1L << n) - 1) return true;
    if (!seen.add(done * 1009L + state * 0x9E3779B97F4A7C15L)) return false;
    long minRet = Long.MAX_VALUE;
    for (int i = 0; i < n; i++) if ((done >> i & 1) == 0) minRet = Math.min(minRet, ops.get(i).t1);
    for (int i = 0; i < n; i++) {
      if ((done >> i & 1) != 0) continue;
      Op o = ops.get(i);
      if (o.t0 > minRet) continue;
      int next;
      switch (o.kind) {
        case 0:
          if (ex) {
            if ((Boolean) o.res != (state == 0)) continue;
            next = state == 0 ? o.id : state;
          } else next = o.id;
          break;
        case 1:
          if (o.res != null && (Boolean) o.res != (state != 0)) continue;
          next = 0;
          break;
        case 2:
          if ((Integer) o.res != state) continue;
          next = state;
          break;
        default: next = 0;
      }
      if (search(ops, done | 1L << i, next, ex, seen)) return true;
    }
    return false;
  }

  /** one writer, numbered operations: a lookup returns the state after an operation between the last one known complete when it began and the last one begun when it returned */
  static void fresh(Case c, Kv kv) {
    int readers = c.rng.range(2, 7), ops = 3_000;
    boolean ex = kv.exclusive();
    Object k = kv.freshKey(c.index * 2), other = kv.freshKey(c.index * 2 + 1);
    if (k.equals(other)) other = kv.freshKey(c.index * 2 + 3);
    kv.forget(k);
    kv.forget(other);
    Object fother = other;
    long salt = c.rng.next();
    int puts = c.rng.pick(new Integer[] {16, 12, 8});
    boolean[] put = new boolean[ops + 1];
    for (int i = 1; i <= ops; i++) put[i] = ex ? (i & 1) == 1 : (Rng.mix(salt + i) & 15) < puts;
    AtomicInteger begun = new AtomicInteger(), floor = new AtomicInteger();
    boolean quiet = c.rng.chance(2, 3);
    int pause = c.rng.pick(new Integer[] {10, 100, 600});
    AtomicLong reads = new AtomicLong(), windows = new AtomicLong(), seen = new AtomicLong();
    together(c, readers + 1, (id, r) -> {
      if (quiet) Probe.me().yieldOneIn = 0;
      if (id == 0) {
        try {
          for (int i = 1; i <= ops; i++) {
            begun.set(i);
            if (put[i]) {
              Boolean ok = kv.put(k, i);
              if (ok != null) c.check(ok, () -> kv + ": registering the free key " + k + " was refused");
            } else kv.remove(k);
            int fi = i;
            floor.accumulateAndGet(fi, Math::max);
            for (int z = r.below(pause); z > 0; z--) spin = z;
          }
        } finally {
          begun.set(Integer.MAX_VALUE);
        }
        return;
      }
      long n = 0, w = 0, found = 0;
      int stray = r.pick(new Integer[] {0, 3, 20});
      while (begun.get() != Integer.MAX_VALUE || n % 4 != 0) {
        if (stray > 0 && n % stray == 0) {
          int got = kv.get(fother);
          c.check(got == 0, () -> kv + ": " + fother + " was never registered but is found: " + got);
        }
        int lo = floor.get(), v = kv.get(k), hi = Math.min(ops, begun.get());
        n++;
        if (hi > lo) w++;
        boolean ok;
        if (v == 0) {
          ok = lo == 0;
          for (int j = Math.max(1, lo); !ok && j <= hi; j++) ok = !put[j];
        } else ok = v >= lo && v <= hi && put[v];
        c.check(ok, () -> kv + ": key " + k + ": a lookup found " + (v == 0 ? "nothing" : "registration " + v) + ", but operation " + lo + " (" + (lo == 0 ? "none" : put[lo] ? "registration" : "removal") + ") had completed before it began and " + hi + " was the last begun when it returned");
        if (v > 0) {
          found++;
          floor.accumulateAndGet(v, Math::max);
        }
      }
      reads.addAndGet(n);
      windows.addAndGet(w);
      seen.addAndGet(found);
    });
    kv.forget(k);
    c.run.count("lookups racing numbered operations", reads.get());
    c.run.count("lookups that overlapped an operation", windows.get());
    c.distinct(Rng.mix(windows.get() * 31 + seen.get() + (c.index << 40)));
    c.sample(() -> kv + ": " + ops + " numbered operations, " + readers + " readers, " + reads.get() + " lookups, " + windows.get() + " overlapping");
  }

  static void growth(Case c, Kv kv) {
    Bind bind = c.run.bind;
    int writers = 2, readers = 5;
    Reg g = kv instanceof FacKv ? ((FacKv) kv).g : null;
    int keys = g != null && g.s.selector.width == 2 && g.s.selector.kind == Kind.INT ? 12_000 : 20_000;
    int cycles = 3;
    AtomicInteger running = new AtomicInteger(writers);
    // frames or messages that use entries nobody removes
    List<Job> jobs = new ArrayList<>();
    RefCodec ref = new RefCodec();
    MsgSpec s = g != null ? g.s : c.run.spec.protos.get("sample").frame;
    for (Object k : s.cases.keySet()) {
      Gen gen = new Gen(c.rng, true);
      gen.listMax = 2;
      gen.strMax = 10;
      Job j = new Job();
      j.s = s;
      j.m = gen.msg(s, k);
      j.bytes = ref.encode(j.m);
      j.decoded = ref.decode(s, j.bytes);
      jobs.add(j);
    }
    ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
    Object crc32 = f.getChecksumService("CRC32"), crc16 = f.getChecksumService("CRC16");
    if (crc32 == null || crc16 == null) throw new Viol("the built-in checksum services are gone", null);
    together(c, writers + readers, (id, r) -> {
      Probe.VThread me = Probe.me();
      if (id < writers) {
        me.yieldOneIn = 0;
        try {
          for (int z = 0; z < cycles; z++) {
            for (int i = 0; i < keys; i++) {
              Object k = kv.freshKey((long) i * writers + id);
              Boolean ok = kv.put(k, id * 1_000_000 + i + 1);
              if (ok != null) c.check(ok, () -> kv + ": registering the free key " + k + " was refused");
            }
            for (int i = 0; i < keys; i++) {
              Object k = kv.freshKey((long) i * writers + id);
              int got = kv.get(k), want = id * 1_000_000 + i + 1;
              c.check(got == want, () -> kv + ": the completed registration of " + k + " is lost: found " + got);
            }
            for (int i = 0; i < keys; i++) {
              Object k = kv.freshKey((long) i * writers + id);
              Boolean ok = kv.remove(k);
              if (ok != null) c.check(ok, () -> kv + ": removing the registered key " + k + " found nothing");
            }
            for (int i = 0; i < keys; i += 7) {
              Object k = kv.freshKey((long) i * writers + id);
              int got = kv.get(k);
              c.check(got == 0, () -> kv + ": " + k + " is still registered after its removal: " + got);
            }
            c.run.count("keys added and removed", keys);
          }
        } finally {
          running.decrementAndGet();
        }
        return;
      }
      long ops = 0;
      if (r.chance(1, 2)) me.yieldOneIn = 0;
      while (running.get() > 0) {
        Job j = jobs.get(r.below(jobs.size()));
        if (g != null) {
          Object key = j.m.get(s.selector);
          Object o;
          try {
            o = g.create(key);
          } catch (RuntimeException e) {
            throw new Viol(kv + ": the entry " + Show.val(key) + " nobody removes was missed by a factory lookup: " + e, null);
          }
          c.check(o.getClass() == g.builtinClass(bind, key), () -> kv + ": the entry " + key + " created " + o);
          if (g.getType != null) {
            Object t = g.typeOf(g.builtinClass(bind, key));
            c.check(key.equals(t), () -> kv + ": the class entry of " + key + " was missed: " + t);
          }
        } else {
          c.check(f.getChecksumService("CRC32") == crc32 && f.getChecksumService("CRC16") == crc16, () -> kv + ": a service nobody removes was missed by a lookup");
        }
        if (ops % 3 == 0)
          try {
            work(c, bind, j, r, false);
          } catch (IllegalArgumentException e) {
            throw new Viol(kv + ": the entry " + Show.val(j.m.get(s.selector)) + " nobody removes was missed by decode: " + e, null);
          }
        ops++;
      }
      c.run.count("lookups during growth", ops);
    });
    c.distinct(Rng.mix(c.index + 31));
    c.sample(() -> kv + ": " + keys + " keys per writer, " + cycles + " cycles");
  }
}
