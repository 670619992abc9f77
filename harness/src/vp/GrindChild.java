package vp;

import com.finproto.bitmap.BitMap;
import com.finproto.codec.*;
import io.netty.buffer.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

/** One process of C22 that repeats the same operations very often: GrindChild HOME CLASSES SEED PART PARTS REPS SECONDS OUT. Writes what changed. */
public final class GrindChild {
  static long done, rejected;
  static final List<String> bad = new ArrayList<>();

  public static void main(String[] a) throws Exception {
    Path home = Paths.get(a[0]), classes = Paths.get(a[1]);
    long seed = Long.parseLong(a[2]);
    int part = Integer.parseInt(a[3]), parts = Integer.parseInt(a[4]), reps = Integer.parseInt(a[5]);
    long end = System.nanoTime() + Long.parseLong(a[6]) * 1_000_000_000L;
    Spec spec = Spec.load(home.resolve("spec"));
    Dict.load(classes.resolve("vp-dict.txt"));
    Set<String> hot = Dict.hot(classes.resolve("vp-hot.txt"));
    Bind bind = new Bind(spec, GrindChild.class.getClassLoader());
    Run run = new Run("C22", "quick", seed, spec, bind);
    List<T> ts = Checks.targets(spec);
    List<Grind> gs = new ArrayList<>();
    for (int i = part; i < ts.size(); i += parts) gs.add(new Grind(run, ts.get(i), i, !Collections.disjoint(Checks.classes(spec, ts.get(i)), hot)));
    List<Reg> regs = Reg.all(bind);
    Thread t = new Thread(null, () -> {
      int skipped = 0;
      for (Grind g : gs) {
        if (System.nanoTime() > end) skipped++;
        else attempt(g.t.toString(), () -> g.fail(run));
        if (System.nanoTime() > end) skipped++;
        else attempt(g.t.toString(), () -> g.repeat(g.hot ? reps * 6 : reps, end));
      }
      for (int i = part; i < regs.size(); i += parts) {
        Reg g = regs.get(i);
        attempt(g.toString(), () -> registry(bind, g, reps * 2));
      }
      if (part % 4 == 0) attempt("checksums", () -> sums(Rng.of(seed, "sums", part), reps));
      if (part % 4 == 1) attempt("bitmaps", () -> bits(Rng.of(seed, "bits", part), reps));
      // once more, after everything
      for (Grind g : gs) attempt(g.t + " at the end", () -> g.good("at the end"));
      if (skipped > 0) bad.add("!skipped " + skipped);
    }, "grind", 16 << 20);
    t.start();
    t.join();
    StringBuilder s = new StringBuilder("done " + done + " " + rejected + "\n");
    for (String b : bad) s.append(b.replace('\n', ' ')).append('\n');
    Files.write(Paths.get(a[7]), s.toString().getBytes(StandardCharsets.UTF_8));
    Runtime.getRuntime().halt(0);
  }

  static void attempt(String what, Runnable r) {
    try {
      r.run();
    } catch (Viol v) {
      bad.add(v.getMessage());
    } catch (RuntimeException | Error e) {
      if (!Run.fromSut(e) && !(e instanceof LinkageError)) throw e;
      bad.add(what + " after " + done + " operations: " + Run.brief(e));
    }
  }

  static void check(boolean ok, java.util.function.Supplier<String> m) {
    if (!ok) throw new Viol(m.get(), null);
  }

  static final class Refusing extends RawBody {
    Refusing() {
      super(0);
    }

    @Override
    public void encode(ByteBuf b) {
      b.writeByte(7);
      throw new UnsupportedOperationException("this body refuses");
    }
  }

  static final class Grind {
    final T t;
    final boolean hot;
    final Bind bind;
    final int k = 12;
    final Object[] o = new Object[k], want = new Object[k];
    final ByteBuf[] e = new ByteBuf[k];
    final byte[][] bytes = new byte[k][];
    final int[] hash = new int[k];
    final String[] shown = new String[k];
    final ByteBuf b = Unpooled.buffer(4096);
    final Rng r;

    Grind(Run run, T t, int i, boolean hot) {
      this.t = t;
      this.hot = hot;
      bind = run.bind;
      r = Rng.of(run.seed, "grind", i);
      for (int j = 0; j < k; j++) {
        Gen g = new Gen(r, true);
        g.listMax = j < 2 ? 12 : 2;
        g.strMax = j < 2 ? 200 : 12;
        Msg m = g.msg(t.s, t.key);
        o[j] = bind.toObject(m, r);
        bytes[j] = run.ref.encode(m);
        e[j] = Unpooled.wrappedBuffer(bytes[j]);
        want[j] = bind.make(t.s);
        bind.decode(t.s, want[j], Unpooled.wrappedBuffer(bytes[j]));
        hash[j] = want[j].hashCode();
        shown[j] = want[j].toString();
      }
    }

    void one(int j, Object d, String when) {
      b.clear();
      bind.encode(t.s, o[j], b);
      check(b.equals(e[j]), () -> t + " " + when + ": encoding gives something else than before: " + Show.firstDiff(bytes[j], Bufs.slice(b, 0, b.writerIndex())));
      bind.decode(t.s, d, b);
      check(!b.isReadable(), () -> t + " " + when + ": decoding takes " + b.readerIndex() + " of " + bytes[j].length + " bytes");
      check(d.equals(want[j]), () -> t + " " + when + ": decoding gives something else than before: " + Msg.diff(bind.fromObject(want[j]), bind.fromObject(d)));
      done++;
    }

    void good(String when) {
      for (int j = 0; j < k; j++) {
        Object d = bind.make(t.s);
        one(j, d, when);
        int fj = j;
        check(d.hashCode() == hash[fj], () -> t + " " + when + ": another hash code than before");
        check(d.toString().equals(shown[fj]), () -> t + " " + when + ": prints differently than before: " + d + " / " + shown[fj]);
      }
    }

    /** hundreds of failures of one kind in a row, then valid messages again */
    void fail(Run run) {
      MsgSpec s = t.s;
      Case c = new Case(run, "grind", 0);
      List<Runnable> kinds = new ArrayList<>();
      int most = 0;
      for (byte[] x : bytes) most = Math.max(most, x.length);
      if (most > 0) {
        kinds.add(() -> {
          byte[] x = r.pick(bytes);
          bind.decode(s, bind.make(s), Unpooled.wrappedBuffer(x, 0, r.below(x.length + 1)));
        });
        kinds.add(() -> {
          byte[] x = bytes[0];
          bind.decode(s, bind.make(s), Unpooled.wrappedBuffer(x, 0, Math.max(0, x.length - 1)));
        });
        byte[] zero = new byte[0];
        kinds.add(() -> bind.decode(s, want(), Unpooled.wrappedBuffer(zero)));
        kinds.add(() -> bind.decode(s, bind.make(s), Unpooled.wrappedBuffer(r.bytes(r.below(200)))));
      }
      if (s.selector != null)
        kinds.add(() -> {
          byte[] x = r.pick(bytes).clone();
          Object key = s.selector.kind == Kind.INT ? (Object) Gen.narrow(r.next() | 0x4000, s.selector.width) : "~" + r.below(10);
          if (s.cases.containsKey(key)) return;
          HostileChecks.key(new T(s, key), x);
          bind.decode(s, bind.make(s), Unpooled.wrappedBuffer(x));
        });
      for (Field f : s.fields) {
        Object v = null;
        if (f.kind == Kind.MSG && !f.isList()) v = null;
        else if (f.isList() && f.listPrefix == 2) v = Collections.nCopies(65536, f.kind == Kind.MSG ? bind.make(s.proto.msgs.get(f.msg)) : bind.toVal(single(f), element(f), null));
        else if (f.kind == Kind.STR && f.prefix == 2 && !f.isList()) v = String.join("", Collections.nCopies(65536, "x"));
        else if (f == s.body) v = new Refusing();
        else continue;
        Object fv = v;
        kinds.add(() -> {
          Object x = bind.make(s);
          for (Field q : s.fields) bind.setRaw(s, x, q, q == f ? fv : bind.getRaw(s, o[0], q));
          b.clear();
          bind.encode(s, x, b);
        });
        if (f == s.body)
          kinds.add(() -> {
            // a body that runs out of room
            ByteBuf small = Unpooled.wrappedBuffer(new byte[bytes[0].length]).clear();
            ByteBuf lim = bytes[0].length > 0 ? small.slice(0, r.below(bytes[0].length)).clear() : small;
            bind.encode(s, o[0], lim);
          });
      }
      for (int round = 0; round < 2; round++)
        for (int q = 0; q < kinds.size(); q++) {
          int times = round == 0 ? 300 : 70;
          for (int i = 0; i < times; i++)
            try {
              kinds.get(q).run();
            } catch (RuntimeException x) {
              if (!Run.fromSut(x) && !netty(x)) throw x;
              rejected++;
            }
          good("after " + times + " failures of kind " + q + " in a row");
        }
      done += kinds.size();
    }

    static boolean netty(Throwable x) {
      return x.getStackTrace().length > 0 && (x.getStackTrace()[0].getClassName().startsWith("io.netty") || x.getStackTrace()[0].getClassName().startsWith("java."))
          || x.getStackTrace().length == 0 || x instanceof UnsupportedOperationException;
    }

    private Object want() {
      return bind.make(t.s);
    }

    private Field single(Field f) {
      Field x = new Field();
      x.kind = f.kind;
      x.width = f.width;
      x.prefix = f.prefix;
      x.pad = f.pad;
      x.left = f.left;
      return x;
    }

    private Object element(Field f) {
      switch (f.kind) {
        case F32: return 1f;
        case F64: return 1d;
        case CHAR: case STR: return "x";
        default: return 1L;
      }
    }

    void repeat(int reps, long end) {
      Object used = bind.make(t.s);
      for (int i = 0; i < reps; i++) {
        int j = 2 + i % (k - 2), fi = i;
        if (i % 9 == 0) j = i / 9 % k;
        Object d = (i & 1) == 0 ? bind.make(t.s) : used;
        one(j, d, "the " + fi + "th time");
        if ((i & 7) == 0) {
          int fj = j;
          check(d.hashCode() == hash[fj], () -> t + " the " + fi + "th time: another hash code than before");
        }
        if ((i & 15) == 0) {
          int fj = j;
          check(d.toString().equals(shown[fj]), () -> t + " the " + fi + "th time: prints differently than before");
        }
        if ((i & 1023) == 0 && System.nanoTime() > end) return;
      }
    }
  }

  static void registry(Bind bind, Reg g, int reps) {
    List<Object> ks = new ArrayList<>(g.s.cases.keySet());
    Object no = g.s.selector.kind == Kind.INT ? (Object) (long) 31_313 : "~!~";
    Object app = g.s.selector.kind == Kind.INT ? (Object) (long) 31_312 : "~?~";
    for (int i = 0; i < reps; i++) {
      int fi = i;
      Object k = ks.get(i % ks.size());
      Object o = g.create(k);
      check(o.getClass() == g.builtinClass(bind, k), () -> g + " the " + fi + "th time: " + k + " creates " + o);
      done++;
    }
    for (int i = 0; i < reps / 4; i++) {
      int fi = i;
      try {
        Object o = g.create(no);
        check(false, () -> g + " the " + fi + "th time: unknown selector creates " + o);
      } catch (IllegalArgumentException e) {
        rejected++;
      }
    }
    for (Object k : ks) check(g.create(k).getClass() == g.builtinClass(bind, k), () -> g + " after many unknown selectors: " + k + " creates something else");
    for (int i = 0; i < reps / 8; i++) {
      int fi = i;
      g.register(RegChecks.App0.class, app, RegChecks.App0::new);
      if (i % 16 == 0) check(g.create(app).getClass() == RegChecks.App0.class, () -> g + " the " + fi + "th registration is not found");
      check(g.remove(app), () -> g + " the " + fi + "th removal reports nothing removed");
      if (i % 16 == 1)
        try {
          g.create(app);
          check(false, () -> g + " the " + fi + "th removal did not remove");
        } catch (IllegalArgumentException e) {
          rejected++;
        }
      done++;
    }
    for (int i = 0; i < 5000; i++) {
      long v = 9_000_000L + i;
      Object k = g.s.selector.kind == Kind.INT ? (Object) Gen.narrow(g.s.selector.width == 2 ? 20_000 + i : v, g.s.selector.width) : "k" + v;
      if (!g.s.cases.containsKey(k)) g.register(RegChecks.App1.class, k, RegChecks.App1::new);
    }
    for (Object k : ks) check(g.create(k).getClass() == g.builtinClass(bind, k), () -> g + " after many registrations: " + k + " creates something else");
    int found = 0;
    for (int i = 0; i < 5000; i++) {
      long v = 9_000_000L + i;
      Object k = g.s.selector.kind == Kind.INT ? (Object) Gen.narrow(g.s.selector.width == 2 ? 20_000 + i : v, g.s.selector.width) : "k" + v;
      if (g.s.cases.containsKey(k)) continue;
      check(g.create(k).getClass() == RegChecks.App1.class, () -> g + ": selector " + k + ", one of 5000 registered, is not found");
      check(g.remove(k), () -> g + ": selector " + k + ", one of 5000 registered, cannot be removed");
      found++;
    }
    done += found;
    for (Object k : ks) check(g.create(k).getClass() == g.builtinClass(bind, k), () -> g + " after many registrations and removals: " + k + " creates something else");
  }

  static void sums(Rng r, int reps) {
    ChecksumServiceFactory f = ChecksumServiceFactory.getInstance();
    ChecksumService<ByteBuf, Integer>[] cs = SumChecks.fresh();
    byte[][] d = new byte[8][];
    int[][] want = new int[8][];
    for (int i = 0; i < 8; i++) {
      d[i] = SumChecks.content(r, i == 0 ? 0 : r.below(60));
      want[i] = new int[] {RefSum.crc16(d[i]), RefSum.crc32(d[i]), RefSum.sum8(d[i]), RefSum.sum8(d[i])};
    }
    for (int i = 0; i < reps * 4; i++) {
      int k = i & 3, j = i / 4 % 8, fi = i;
      int got = cs[k].calc(Unpooled.wrappedBuffer(d[j]));
      check(got == want[j][k], () -> cs[k].algorithm() + " the " + fi + "th time: " + got + " instead of " + want[j][k]);
      String n = (i & 1) == 0 ? "CRC16" : "CRC32";
      check(f.getChecksumService(n) != null, () -> n + " is not found the " + fi + "th time");
      done++;
    }
    for (int i = 0; i < reps; i++) {
      int fi = i;
      boolean first = f.registry(new RegChecks.Sum0("VP-A")), second = f.registry(new RegChecks.Sum0("VP-A"));
      check(first && !second, () -> "the " + fi + "th registration of a service reports " + first + ", " + second);
      check(f.getChecksumService("VP-A") != null, () -> "the " + fi + "th service registered is not found");
      f.removeChecksumService("VP-A");
      check(f.getChecksumService("VP-A") == null, () -> "the " + fi + "th removal did not remove the service");
      done++;
    }
    for (int i = 0; i < 5000; i++) f.registry(new RegChecks.Sum0("VP-" + i));
    for (int i = 0; i < 5000; i++) {
      int fi = i;
      ChecksumService<?, ?> s = f.getChecksumService("VP-" + i);
      check(s != null && s.algorithm().equals("VP-" + fi), () -> "service VP-" + fi + " of 5000 registered is " + s);
      f.removeChecksumService("VP-" + i);
    }
    check(f.getChecksumService("CRC16") != null && f.getChecksumService("CRC32") != null, () -> "built-in services are gone after many registrations");
  }

  static void bits(Rng r, int reps) {
    for (int n : BitChecks.SIZES) {
      BitMap m = BitChecks.make(n);
      boolean[] model = new boolean[n];
      ByteBuf b = Unpooled.buffer();
      for (int i = 0; i < reps * 2; i++) {
        int p = r.below(n), fi = i;
        boolean on = r.chance(1, 2);
        if (on) m.set(p);
        else m.clear(p);
        model[p] = on;
        int q = r.below(n);
        check(m.get(q) == model[q], () -> n + "-bit map: bit " + q + " is wrong after " + fi + " operations");
        if (i % 64 == 0) {
          b.clear();
          m.write(b);
        }
        done++;
      }
    }
  }
}
