package vp;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.*;
import java.util.*;
import vp.Run.*;
import vp.Spec.*;

public final class RegChecks {
  /** application-defined message types, one class per tag so that class-to-type lookup can tell them apart */
  public static class App0 extends RawBody {
    public App0() {
      super(2);
    }
  }

  public static class App1 extends RawBody {
    public App1() {
      super(0);
    }
  }

  public static class App2 extends RawBody {
    public App2() {
      super(5);
    }
  }

  public static class App3 extends RawBody {
    public App3() {
      super(1);
    }
  }

  static final Class<?>[] APPS = {App0.class, App1.class, App2.class, App3.class};

  static BinaryCodec app(int i) {
    return i == 0 ? new App0() : i == 1 ? new App1() : i == 2 ? new App2() : new App3();
  }

  static void c13(Run run) throws Exception {
    run.rule = "Phase sweep: for every registry, every selector of a broad range (all 65536 of 16-bit ones, all three-character digit strings and their variants, -70000..70000 and random 32-bit ones) is given to the factory and to decode; the class, freshness and independence of the result, or the rejection, is compared with the protocol's assignment. Phase history: random register/remove/create/decode/class-lookup histories over all registries against a map model. Distinct: registry with selector, or history.";
    Bind bind = run.bind;
    List<Reg> regs = Reg.all(bind);
    run.count("registries with a public factory", regs.size());
    List<MsgSpec> poly = new ArrayList<>();
    for (MsgSpec s : run.spec.all) if (s.body != null) poly.add(s);
    run.minEvals = poly.size();
    Map<MsgSpec, Reg> of = new HashMap<>();
    for (Reg g : regs) of.put(g.s, g);
    for (MsgSpec s : poly) if (s.frame && !of.containsKey(s)) throw new IllegalStateException("no factory found for " + s);
    int chunks = 16;
    run.cases("sweep", poly.size() * (long) chunks, c -> {
      MsgSpec s = poly.get((int) (c.index / chunks));
      Reg g = of.get(s);
      int part = (int) (c.index % chunks);
      for (Object k : selectors(run, c, s, part, chunks)) one(c, s, g, k);
      if (g != null && part == 0) nulls(c, g);
    });
    for (Reg g : regs)
      if (g.typeEnum != null || g.getType != null) run.casesSeq("types", 1, c -> types(c, g));
    run.casesSeq("history", run.n(4_000), c -> history(c, regs));
    run.casesSeq("busy suppliers", run.n(600), c -> busy(c, regs.get((int) (c.index % regs.size())), regs));
    run.casesSeq("many", run.thorough ? 4L * regs.size() : regs.size(), c -> many(c, regs.get((int) (c.index % regs.size()))));
    // what nobody but the registry refers to stays registered
    run.casesSeq("collected", run.thorough ? 6 : 2, c -> collected(c, regs));
    // the built-in assignment is as before
    run.casesSeq("after", regs.size(), c -> {
      Reg g = regs.get((int) c.index);
      for (Object k : g.s.cases.keySet()) one(c, g.s, g, k);
    });
  }

  static final Class<?>[] SUMS = {Sum0.class, Sum1.class};

  public static class Sum0 implements com.finproto.codec.ChecksumService<ByteBuf, Integer> {
    final String name;

    Sum0(String name) {
      this.name = name;
    }

    public Integer calc(ByteBuf b) {
      return 1;
    }

    public String algorithm() {
      return name;
    }
  }

  public static class Sum1 extends Sum0 {
    Sum1(String name) {
      super(new String(name));
    }
  }

  static void collected(Case c, List<Reg> regs) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    Map<Reg, Set<Object>> keys = new LinkedHashMap<>();
    for (Reg g : regs) {
      Set<Object> ks = new LinkedHashSet<>();
      while (ks.size() < 40) {
        Object k;
        if (g.s.selector.kind == Kind.INT) k = Gen.narrow(r.chance(1, 2) ? 1000 + r.below(31000) : r.next(), g.s.selector.width);
        else k = "a" + (char) ('a' + ks.size() % 26) + (char) ('A' + ks.size() / 26);
        if (!g.s.cases.containsKey(k)) ks.add(k);
      }
      int i = 0;
      for (Object k : ks) {
        int tag = i++ % 4;
        String hold = "held only by the supplier " + k;
        g.register(APPS[tag], k instanceof String ? new String((String) k) : k, () -> {
          if (hold.isEmpty()) throw new IllegalStateException();
          return app(tag);
        });
      }
      keys.put(g, ks);
    }
    com.finproto.codec.ChecksumServiceFactory f = com.finproto.codec.ChecksumServiceFactory.getInstance();
    for (int i = 0; i < 20; i++) f.registry(i % 2 == 0 ? new Sum0("VP-GC-" + i) : new Sum1("VP-GC-" + i));
    try {
      for (int k = 0; k < 3; k++) {
        System.gc();
        System.runFinalization();
        byte[][] fill = new byte[64][];
        for (int i = 0; i < fill.length; i++) fill[i] = new byte[1 << 20];
      }
      for (Reg g : regs) {
        int i = 0;
        for (Object k : keys.get(g)) {
          int tag = i++ % 4;
          Object o = null;
          try {
            o = g.create(k);
          } catch (RuntimeException e) {
            c.fail(g + ": selector " + Show.val(k) + " was registered, is forgotten after a garbage collection: " + e);
          }
          Object fo = o;
          c.check(o != null && o.getClass() == APPS[tag], () -> g + ": selector " + Show.val(k) + " creates " + fo + " after a garbage collection");
          c.count("registrations found after garbage collection");
        }
        for (Object k : g.s.cases.keySet()) one(c, g.s, g, k);
        if (g.getType != null) {
          for (Object k : keys.get(g)) g.remove(k);
          for (Object k : g.s.cases.keySet()) c.check(k.equals(g.typeOf(g.builtinClass(bind, k))), () -> g + ": type of " + g.builtinClass(bind, k) + " is " + g.typeOf(g.builtinClass(bind, k)) + " after a garbage collection");
        }
      }
      for (int i = 0; i < 20; i++) {
        int fi = i;
        Object s = f.getChecksumService("VP-GC-" + i);
        c.check(s != null && s.getClass() == SUMS[i % 2], () -> "checksum service VP-GC-" + fi + " was registered, is " + s + " after a garbage collection");
        c.check(!f.registry(new Sum0("VP-GC-" + fi)), () -> "the name VP-GC-" + fi + " is free again after a garbage collection");
      }
      for (String n : new String[] {"CRC16", "CRC32"}) c.check(f.getChecksumService(n) != null, () -> n + " is gone after a garbage collection");
    } finally {
      for (Reg g : regs) {
        for (Object k : keys.get(g)) g.remove(k);
        for (Object k : g.s.cases.keySet()) g.register(g.builtinClass(bind, k), k, g.builtin(bind, k));
      }
      for (int i = 0; i < 20; i++) f.removeChecksumService("VP-GC-" + i);
    }
    c.distinct(c.index + 77);
  }

  /** a registry holds any number of selectors: none is lost, and removing them leaves the others */
  static void many(Case c, Reg g) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    boolean num = g.s.selector.kind == Kind.INT;
    int n = r.pick(new int[] {3_000, 12_000, 20_000});
    List<Object> ks = new ArrayList<>();
    Set<Object> seen = new HashSet<>(g.s.cases.keySet());
    int pat = r.below(3);
    for (int i = 0; ks.size() < n; i++) {
      Object k;
      if (!num) k = Integer.toString(i + 1000, 36) + (pat == 0 ? "" : pat == 1 ? "Aa" : "-" + i % 7);
      else if (g.s.selector.width == 2) k = (long) (short) (pat == 0 ? i : pat == 1 ? i * 3 + 1 : i * 40503);
      else k = Gen.narrow(pat == 0 ? i : pat == 1 ? (long) i << 12 : i * 0x9E3779B1L, 4);
      if (seen.add(k)) ks.add(k);
      else if (i > 200_000) break;
    }
    String w = g + " with " + ks.size() + " registered selectors: ";
    try {
      for (int i = 0; i < ks.size(); i++) {
        int tag = i % 4;
        g.register(APPS[tag], ks.get(i), () -> app(tag));
        if (i % 512 == 0) for (Object k : g.s.cases.keySet()) g.create(k);
      }
      for (int pass = 0; pass < 2; pass++) {
        for (Object k : g.s.cases.keySet()) one(c, g.s, g, k);
        for (int i = 0; i < ks.size(); i++) {
          Object k = ks.get(i), o = null;
          boolean gone = pass == 1 && i % 3 != 0;
          try {
            o = g.create(k);
          } catch (IllegalArgumentException e) {
            if (!gone) c.fail(w + Show.val(k) + " is unknown");
          }
          Object fo = o;
          if (gone) c.check(o == null, () -> w + Show.val(k) + " was removed, creates " + fo);
          else c.check(o != null && o.getClass() == APPS[i % 4], () -> w + Show.val(k) + " creates " + fo);
          c.count("selectors of full registries looked up");
        }
        if (pass == 0)
          for (int i = 0; i < ks.size(); i++)
            if (i % 3 != 0) {
              Object k = ks.get(i);
              c.check(g.remove(k), () -> w + "removing " + Show.val(k) + " reported nothing");
            }
      }
      if (g.getType != null) for (Object k : g.s.cases.keySet()) c.check(k.equals(g.typeOf(g.builtinClass(bind, k))), () -> w + "type of " + g.builtinClass(bind, k) + " is " + g.typeOf(g.builtinClass(bind, k)));
    } finally {
      for (Object k : ks) g.remove(k);
      for (Object k : g.s.cases.keySet()) {
        g.remove(k);
        g.register(g.builtinClass(bind, k), k, g.builtin(bind, k));
      }
    }
    c.distinct(Rng.mix(w.hashCode() * 31L + pat));
  }

  /** suppliers that use the registry themselves, or fail */
  static void busy(Case c, Reg g, List<Reg> regs) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    boolean num = g.s.selector.kind == Kind.INT;
    Object k1 = num ? (Object) Gen.narrow(20_000 + r.below(9000), g.s.selector.width) : "z1", k2 = num ? (Object) Gen.narrow(30_000 + r.below(2000), g.s.selector.width) : "z2";
    Object bk = r.pick(new ArrayList<>(g.s.cases.keySet()));
    Reg h = r.pick(regs);
    Object hk = r.pick(new ArrayList<>(h.s.cases.keySet()));
    int act = r.below(8);
    boolean by = r.chance(1, 2);
    String w = g + ": supplier of " + Show.val(k1) + (act == 0 ? " that registers another selector" : act == 1 ? " that registers and removes another selector" : act == 2 ? " that creates a built-in message" : act == 3 ? " that asks " + h : act == 4 ? " that decodes a message" : act == 5 ? " that throws" : act == 6 ? " that registers its own selector anew" : " that removes its own selector");
    boolean[] ran = new boolean[1];
    try {
      g.register(App1.class, k1, () -> {
        ran[0] = true;
        switch (act) {
          case 0: g.register(App2.class, k2, App2::new); break;
          case 1: {
            g.register(App2.class, k2, App2::new);
            c.check(g.remove(k2), () -> w + ": remove reported nothing");
            break;
          }
          case 2: one(c, g.s, g, bk); break;
          case 3: one(c, h.s, h, hk); break;
          case 4: {
            Msg m = new Gen(r, true).msg(g.s, bk);
            Checks.decodeFresh(c, g.s, c.run.ref.encode(m));
            break;
          }
          case 5: throw new UnsupportedOperationException("vp");
          case 6: g.register(App2.class, k1, App2::new); break;
          default: c.check(g.remove(k1), () -> w + ": remove reported nothing");
        }
        return new App1();
      });
      Object o = null;
      RuntimeException x = null;
      try {
        if (by) o = g.create(k1);
        else {
          Gen gen = new Gen(r, true);
          gen.style = 1;
          Msg f = gen.msg(g.s);
          f.set(g.s.selector, k1);
          f.set(g.s.body, new RawBody(0));
          Object d = bind.make(g.s);
          bind.decode(g.s, d, Unpooled.wrappedBuffer(c.run.ref.encode(f)));
          o = bind.getRaw(g.s, d, g.s.body);
        }
      } catch (Viol v) {
        throw v;
      } catch (RuntimeException e) {
        x = e;
      }
      Object fo = o;
      RuntimeException fx = x;
      c.check(ran[0], () -> w + " was not called: " + fx);
      if (act == 5) c.check(x != null, () -> w + ": gave " + fo);
      else c.check(x == null && o != null && o.getClass() == App1.class, () -> w + ": gave " + (fx == null ? fo : Run.brief(fx)));
      // and the registry is as it says
      Object now = null, next = null;
      try {
        now = g.create(k2);
      } catch (IllegalArgumentException e) {
        // not registered
      }
      Object fn = now;
      c.check(act == 0 ? now instanceof App2 : now == null, () -> w + ": afterwards " + Show.val(k2) + " creates " + fn);
      boolean failed = false;
      try {
        next = act == 5 ? null : g.create(k1);
      } catch (IllegalArgumentException e) {
        failed = true;
      }
      Object fnx = next;
      boolean ff = failed;
      if (act == 7) c.check(ff, () -> w + ": afterwards it still creates " + fnx);
      else if (act == 6) c.check(fnx instanceof App2, () -> w + ": afterwards it creates " + fnx);
      else if (act != 5) c.check(fnx instanceof App1, () -> w + ": afterwards it creates " + fnx);
      one(c, g.s, g, bk);
      c.count("suppliers that use the registry or fail");
    } finally {
      g.remove(k1);
      g.remove(k2);
    }
    c.distinct(Rng.mix(w.hashCode() * 31L + (by ? 1 : 0)));
  }

  /** strings with the same hash code */
  static void twins(String t, List<Object> out) {
    for (int i = 0; i + 1 < t.length(); i++)
      for (int d : new int[] {1, -1, 2}) {
        char a = (char) (t.charAt(i) + d), b = (char) (t.charAt(i + 1) - 31 * d);
        if (a < 0x20 || a > 0x7e || b < 0x20 || b > 0x7e) continue;
        out.add(t.substring(0, i) + a + b + t.substring(i + 2));
      }
  }

  static List<Object> selectors(Run run, Case c, MsgSpec s, int part, int chunks) {
    List<Object> l = new ArrayList<>();
    Rng r = c.rng;
    if (s.selector.kind == Kind.INT) {
      if (s.selector.width == 2) for (long v = -32768 + part; v < 32768; v += chunks) l.add(v);
      else {
        for (long v = -70000 + part; v < 70000; v += chunks) l.add(v);
        for (int i = 0; i < 3000; i++) l.add(Gen.narrow(r.next() >>> r.below(64), 4));
        for (long v : Gen.B) l.add(Gen.narrow(v, 4));
        for (Object k : s.cases.keySet()) {
          long b = (Long) k;
          for (int i = 0; i < 32; i++) {
            l.add(Gen.narrow(b ^ (1L << i), 4));
            l.add(Gen.narrow(b + (1L << i), 4));
            l.add(Gen.narrow(b * (i + 2), 4));
            l.add(Gen.narrow(b + 16 * i, 4));
          }
          for (int i = 0; i < 4; i++) l.add((long) Integer.rotateLeft((int) b, 8 * i));
          l.add((long) Integer.reverseBytes((int) b));
          // every combination of twelve neighbouring bits above a known selector
          if (r.chance(1, 2)) {
            int at = r.pick(new int[] {20, 20, 20, 19, 18, 17, 16, 8});
            for (long hi = 1; hi < 4096; hi++) l.add(Gen.narrow(r.chance(1, 2) ? b ^ hi << at : b + (hi << at), 4));
          }
          l.add(-b);
          l.add(~b);
          l.add(b / 10);
          l.add(b % 1000);
          l.add(b % 100000);
        }
      }
    } else {
      for (int v = part; v < 1000; v += chunks) l.add(String.format("%03d", v));
      for (Object k : s.cases.keySet()) {
        String t = (String) k;
        for (String x : new String[] {t + " ", " " + t, t + "0", "0" + t, t.substring(1), t.substring(0, t.length() - 1), t.replaceFirst("^0+", ""), t.replace('0', 'O'), t + "\0", ""}) l.add(x);
        twins(t, l);
        for (char z : new char[] {'\u0660', '\u06f0', '\u0966', '\uff10'}) {
          char[] q = t.toCharArray();
          for (int i = 0; i < q.length; i++) if (q[i] >= '0' && q[i] <= '9') q[i] += z - '0';
          l.add(new String(q));
          l.add(new String(q, 0, 1) + t.substring(1));
        }
        for (String x : new String[] {"+" + t, "-" + t, t + "\n", "\ufeff" + t, t + t, "0x" + t, t + ".0", t.replaceFirst("^0", "+"), t.replaceFirst("^0", " ")}) l.add(x);
        l.add(t.toLowerCase(java.util.Locale.ROOT));
        l.add(new StringBuilder(t).reverse().toString());
      }
      Gen g = new Gen(r, false);
      for (int i = 0; i < 60; i++) l.add(g.fixedText(s.selector));
      for (MsgSpec q : s.proto.msgs.values()) for (Object k : q.cases.keySet()) if (k instanceof String) l.add(k);
    }
    if (part == 0) l.addAll(s.cases.keySet());
    return l;
  }

  static void nulls(Case c, Reg g) {
    try {
      Object o = g.create(null);
      c.fail(g + ": create(null) gave " + o);
    } catch (RuntimeException e) {
      c.count("absent selectors rejected");
    }
  }

  static void one(Case c, MsgSpec s, Reg g, Object k) {
    Bind bind = c.run.bind;
    String want = s.cases.get(k);
    if (g != null) {
      if (want == null) {
        Object o = null;
        try {
          o = g.create(k);
          c.fail(g + ": unknown selector " + Show.val(k) + " created " + o);
        } catch (Viol v) {
          throw v;
        } catch (IllegalArgumentException e) {
          c.count("unknown selectors rejected");
        } catch (RuntimeException e) {
          c.fail(g + ": unknown selector " + Show.val(k) + " rejected with " + Run.brief(e));
        }
      } else {
        Object a = g.create(k), b = g.create(k);
        Class<?> t = bind.of(s.proto.msgs.get(want)).type;
        c.check(a.getClass() == t && b.getClass() == t, () -> g + ": selector " + Show.val(k) + " created " + a.getClass().getName() + ", the protocol assigns " + want);
        c.check(a != b, () -> g + ": selector " + Show.val(k) + " created the same object twice");
        c.check(a.equals(bind.make(s.proto.msgs.get(want))), () -> g + ": selector " + Show.val(k) + " created an object that is not new: " + a);
        c.count("known selectors created");
      }
    }
    // through decode
    if (s.selector.kind == Kind.CHAR && k instanceof String && Gen.utf8((String) k) > s.selector.width) return;
    Gen gen = new Gen(c.rng, true);
    gen.style = 1;
    Object eff = k;
    if (k instanceof String) eff = Gen.trim(s.selector, (String) k);
    String target = s.cases.get(eff);
    Msg m = gen.msg(s, target == null ? null : eff);
    m.set(s.selector, k);
    byte[] e = c.run.ref.encode(m);
    ByteBuf buf = Unpooled.wrappedBuffer(e);
    Object o = bind.make(s);
    if (target == null) {
      try {
        bind.decode(s, o, buf);
        c.fail(s + ": decoding unknown selector " + Show.val(k) + " gave " + o);
      } catch (Viol v) {
        throw v;
      } catch (IllegalArgumentException x) {
        c.count("unknown selectors rejected by decode");
      } catch (RuntimeException x) {
        c.fail(s + ": decoding unknown selector " + Show.val(k) + " failed with " + Run.brief(x));
      }
    } else {
      bind.decode(s, o, buf);
      Object body = bind.getRaw(s, o, s.body);
      Class<?> t = bind.of(s.proto.msgs.get(target)).type;
      c.check(body != null && body.getClass() == t, () -> s + ": selector " + Show.val(k) + " decoded as " + (body == null ? null : body.getClass().getName()) + ", the protocol assigns " + target);
      buf.readerIndex(0);
      Object o2 = bind.make(s);
      bind.decode(s, o2, buf);
      Object b2 = bind.getRaw(s, o2, s.body);
      c.check(b2 != body, () -> s + ": two decodes share one body object");
      buf.readerIndex(0);
      bind.decode(s, o2, buf);
      Object b3 = bind.getRaw(s, o2, s.body);
      c.check(b3 != b2 && b3 != body, () -> s + ": selector " + Show.val(k) + " decoded again into one object yields the body object handed out before");
      c.check(b3 != null && b3.getClass() == t, () -> s + ": selector " + Show.val(k) + " decoded into a used object as " + (b3 == null ? null : b3.getClass()));
      c.count("known selectors decoded");
    }
    c.distinct(Rng.mix(s.hashCode() * 31L + String.valueOf(k).hashCode()));
    if (target != null) c.sample(() -> s + " selector " + Show.val(k) + " -> " + target);
  }

  static void types(Case c, Reg g) {
    Bind bind = c.run.bind;
    if (g.getType != null) {
      for (MsgSpec q : c.run.spec.all) {
        Object want = null;
        for (Map.Entry<Object, String> e : g.s.cases.entrySet()) if (g.s.proto == q.proto && e.getValue().equals(q.name)) want = e.getKey();
        Object got = g.typeOf(bind.of(q).type), w = want;
        c.check(Objects.equals(want, got), () -> g + ": message type of " + q + " is " + got + ", the protocol assigns " + w);
        c.count("classes looked up");
      }
    }
    if (g.typeEnum != null) {
      for (int v = -3000; v < 3000; v++) type(c, g, v);
      for (long v : Gen.B) type(c, g, (int) v);
    }
    c.distinct(g.s.hashCode());
  }

  private static void type(Case c, Reg g, int v) {
    try {
      Object t = Reg.call(g.fromValue, null, v);
      c.check(g.s.cases.containsKey((long) v), () -> g + ": message type constant " + t + " for unknown value " + v);
      int back;
      try {
        back = (Integer) t.getClass().getMethod("getValue").invoke(t);
      } catch (ReflectiveOperationException e) {
        throw new RuntimeException(e);
      }
      c.check(back == v, () -> g + ": constant for " + v + " has value " + back);
    } catch (IllegalArgumentException e) {
      c.check(!g.s.cases.containsKey((long) v), () -> g + ": no message type constant for " + v);
    }
    c.count("type constants looked up");
  }

  // ---- histories

  static final class Model {
    /** key -> app tag (Integer) or message name (String) */
    final Map<Object, Object> map = new HashMap<>();
    /** class -> keys it may be reported under; last registration first */
    final Map<Class<?>, Object> certain = new HashMap<>();
    final Map<Class<?>, Set<Object>> possible = new HashMap<>();

    void register(Class<?> cl, Object k) {
      // another class that was registered under k: whether it still maps to k is left open
      for (Map.Entry<Class<?>, Object> e : new ArrayList<>(certain.entrySet())) if (e.getValue().equals(k) && e.getKey() != cl) certain.remove(e.getKey());
      certain.put(cl, k);
      possible.computeIfAbsent(cl, x -> new HashSet<>()).add(k);
    }

    void remove(Object k) {
      for (Set<Object> p : possible.values()) p.remove(k);
      certain.values().removeIf(k::equals);
    }
  }

  static void history(Case c, List<Reg> regs) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    // two or three registries at once: one must not affect another
    List<Reg> use = new ArrayList<>();
    use.add(regs.get((int) (c.index % regs.size())));
    while (use.size() < 3) use.add(r.pick(regs));
    Map<Reg, Model> models = new LinkedHashMap<>();
    Map<Reg, List<Object>> keys = new HashMap<>();
    for (Reg g : use) {
      if (models.containsKey(g)) continue;
      Model m = new Model();
      m.map.putAll(g.s.cases);
      for (Object k : g.s.cases.keySet()) m.register(g.builtinClass(bind, k), k);
      models.put(g, m);
      List<Object> ks = new ArrayList<>();
      List<Object> bk = new ArrayList<>(g.s.cases.keySet());
      for (int i = 0; i < 3; i++) ks.add(r.pick(bk));
      for (int i = 0; i < 3; i++) {
        Object k;
        if (g.s.selector.kind == Kind.INT) k = Gen.narrow(r.chance(1, 2) ? r.next() : r.range(-5, 300), g.s.selector.width);
        else {
          String t = Gen.trim(g.s.selector, Gen.cut(new Gen(r, true).text(g.s.selector.width), g.s.selector.width));
          k = t;
        }
        ks.add(k);
      }
      keys.put(g, ks);
    }
    List<Reg> gs = new ArrayList<>(models.keySet());
    StringBuilder log = new StringBuilder();
    int steps = r.range(6, 30);
    try {
      for (int i = 0; i < steps; i++) {
        Reg g = r.pick(gs);
        Model m = models.get(g);
        Object k = r.pick(keys.get(g));
        int op = r.below(10);
        String at = g.s.name + "(" + Show.val(k) + ")";
        if (op < 3) {
          int tag = r.below(4);
          boolean builtin = r.chance(1, 4);
          if (builtin) {
            // a built-in class under this selector
            Object bk = r.pick(new ArrayList<>(g.s.cases.keySet()));
            g.register(g.builtinClass(bind, bk), k, g.builtin(bind, bk));
            m.map.put(k, g.s.cases.get(bk));
            m.register(g.builtinClass(bind, bk), k);
            log.append("register ").append(at).append("=").append(g.s.cases.get(bk)).append("; ");
          } else {
            g.register(APPS[tag], k, () -> app(tag));
            m.map.put(k, tag);
            m.register(APPS[tag], k);
            log.append("register ").append(at).append("=App").append(tag).append("; ");
          }
        } else if (op < 5) {
          boolean had = m.map.remove(k) != null;
          m.remove(k);
          boolean got = g.remove(k);
          log.append("remove ").append(at).append("; ");
          c.check(got == had, () -> "after " + log + " remove reported " + got);
        } else probe(c, g, m, k, op, log, models);
        // everything else is as the model says
        Reg g2 = r.pick(gs);
        probe(c, g2, models.get(g2), r.pick(keys.get(g2)), 5 + r.below(5), log, models);
        c.count("history steps");
      }
    } finally {
      for (Reg g : gs) {
        for (Object k : keys.get(g)) if (!g.s.cases.containsKey(k)) g.remove(k);
        for (Object k : keys.get(g)) if (g.s.cases.containsKey(k)) g.remove(k);
        for (Object k : g.s.cases.keySet()) g.register(g.builtinClass(bind, k), k, g.builtin(bind, k));
      }
    }
    c.distinct(Rng.mix(log.toString().hashCode()));
    c.sample(log::toString);
  }

  static void probe(Case c, Reg g, Model m, Object k, int op, StringBuilder log, Map<Reg, Model> models) {
    Bind bind = c.run.bind;
    Object want = m.map.get(k);
    String at = g.s.name + "(" + Show.val(k) + ")";
    if (op == 9 && g.getType != null) {
      for (Map.Entry<Class<?>, Set<Object>> e : m.possible.entrySet()) {
        Object got = g.typeOf(e.getKey());
        Object sure = m.certain.get(e.getKey());
        if (sure != null) c.check(sure.equals(got), () -> "after " + log + " the type of " + e.getKey().getSimpleName() + " is " + got + ", expected " + sure);
        else c.check(got == null || e.getValue().contains(got), () -> "after " + log + " the type of " + e.getKey().getSimpleName() + " is still " + got);
      }
      return;
    }
    if (op < 7) {
      Object o = null;
      RuntimeException x = null;
      try {
        o = g.create(k);
      } catch (RuntimeException e) {
        x = e;
      }
      Object fo = o;
      RuntimeException fx = x;
      if (want == null) c.check(x instanceof IllegalArgumentException, () -> "after " + log + at + " should be unknown, but create gave " + (fx == null ? fo : fx));
      else {
        c.check(x == null, () -> "after " + log + at + " is registered, but create failed: " + Run.brief(fx));
        c.check(is(bind, g, o, want), () -> "after " + log + at + " should create " + want + " but created " + fo);
        c.check(g.create(k) != fo, () -> "after " + log + at + ": one object created twice");
      }
      return;
    }
    // decode
    Msg f = new Msg(g.s);
    Gen gen = new Gen(c.rng, true);
    gen.style = 1;
    Msg base = gen.msg(g.s);
    System.arraycopy(base.v, 0, f.v, 0, f.v.length);
    f.set(g.s.selector, k);
    if (want instanceof Integer) {
      RawBody rb = (RawBody) app((Integer) want);
      rb.data = c.rng.bytes(rb.data.length);
      f.set(g.s.body, rb);
    } else if (want != null) {
      MsgSpec ws = g.s.proto.msgs.get((String) want);
      Object key = null;
      if (ws.body != null) {
        // its own extension, of a type the history has not touched
        List<Object> ok = new ArrayList<>(ws.cases.keySet());
        for (Map.Entry<Reg, Model> o : models.entrySet()) if (o.getKey().s == ws) ok.removeIf(q -> !ws.cases.get(q).equals(o.getValue().map.get(q)));
        if (ok.isEmpty()) return;
        key = c.rng.pick(ok);
      }
      f.set(g.s.body, gen.msg(ws, key));
    }
    byte[] e = c.run.ref.encode(f);
    Object o = bind.make(g.s);
    RuntimeException x = null;
    ByteBuf b = Unpooled.wrappedBuffer(e);
    try {
      bind.decode(g.s, o, b);
    } catch (RuntimeException ex) {
      x = ex;
    }
    RuntimeException fx = x;
    if (want == null) c.check(x instanceof IllegalArgumentException, () -> "after " + log + at + " should be unknown, but decode gave " + (fx == null ? o : fx));
    else {
      c.check(x == null, () -> "after " + log + at + " is registered, but decode failed: " + Run.brief(fx));
      Object body = bind.getRaw(g.s, o, g.s.body);
      c.check(is(bind, g, body, want), () -> "after " + log + at + " should decode as " + want + " but decoded " + body);
      if (want instanceof Integer) c.check(((RawBody) f.get(g.s.body)).equals(body), () -> "after " + log + at + ": body bytes differ");
      c.check(b.readableBytes() == 0, () -> "after " + log + at + ": decode left bytes");
    }
  }

  private static boolean is(Bind bind, Reg g, Object o, Object want) {
    if (o == null) return false;
    if (want instanceof Integer) return o.getClass() == APPS[(Integer) want];
    return o.getClass() == bind.of(g.s.proto.msgs.get((String) want)).type;
  }
}
