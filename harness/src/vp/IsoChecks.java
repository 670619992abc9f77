package vp;

import io.netty.buffer.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

/** C23: separate messages stay separate. */
public final class IsoChecks {
  static void c23(Run run) {
    run.rule = "A case decodes two to five messages (some from the same bytes, some blank, some into used objects, some from one shared buffer) and builds new ones, then changes one of them step by step (setters on it and in place on its parts at any depth, list elements replaced, added and removed through the lists it returns, decodes of valid and damaged bytes into it, encodes); after every step all others must read as before, the changed one as the model says, a new object must be like a new object, and fresh decodes of the same bytes must give what they gave; at the end hash codes, printed forms, equality and encodings too. Distinct: type, kinds of steps and bytes.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("apart", run.n(110_000), ts, c -> apart(c, ts.get((int) (c.index % ts.size())), ts));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> run.cases("with checksums", run.n(8_000), fs, c -> apart(c, fs.get((int) (c.index % fs.size())), fs)));
    // the same in classes loaded afresh: what can go wrong once only
    run.cases("fresh classes", ts.size() * (run.thorough ? 60L : 5), c -> {
      T t = ts.get((int) (c.index % ts.size()));
      try (ConcChecks.Fresh fl = new ConcChecks.Fresh(new java.net.URL[] {Main.classes.resolveSibling("c").toUri().toURL()}, IsoChecks.class.getClassLoader())) {
        Run in = new Run(run.id, "quick", run.seed, run.spec, new Bind(run.spec, fl));
        List<T> one = Collections.singletonList(t);
        for (int k = 0; k < 10; k++) {
          Case d = new Case(in, c.phase, c.index * 10 + k);
          apart(d, t, one);
        }
      } catch (java.io.IOException e) {
        throw new IllegalStateException(e);
      }
      c.distinct(Rng.mix(c.index + 1234567));
      c.count("fresh class loaders");
    });
  }

  static final class One {
    MsgSpec s;
    Object o;
    Msg now;
    byte[] from;
    int hash;
    String shown;
    byte[] enc;
    /** its lists were set on another message as well */
    boolean common;
  }

  /** a message whose optional contents are missing or all zero, wholly or in its parts */
  static void blank(Msg m, Rng r) {
    boolean list = r.chance(1, 2);
    for (Field f : m.spec.fields) {
      Object v = m.get(f);
      if (f == m.spec.selector) continue;
      if (f.isList()) {
        if (list) m.set(f, null);
        else if (v != null) for (Object x : (List<?>) v) if (x instanceof Msg) blank((Msg) x, r);
      } else if (v instanceof Msg) blank((Msg) v, r);
      else if (v instanceof Long) m.set(f, 0L);
      else if (v instanceof Float) m.set(f, 0f);
      else if (v instanceof Double) m.set(f, 0d);
      else if (v instanceof String) m.set(f, null);
    }
  }

  static void apart(Case c, T t, List<T> ts) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    int n = r.range(2, 5);
    List<One> all = new ArrayList<>();
    byte[] same = null;
    ByteBuf shared = null;
    if (r.chance(1, 3)) shared = Unpooled.buffer(64);
    boolean twins = r.chance(2, 3), blanks = r.chance(1, c.phase.equals("apart") ? 4 : 2);
    for (int i = 0; i < n; i++) {
      One x = new One();
      x.s = s;
      Gen g = new Gen(r, true);
      g.listMax = 5;
      g.strMax = 30;
      Msg m = g.msg(s, r.chance(3, 4) ? t.key : null);
      if (blanks && r.chance(3, 4)) blank(m, r);
      if (r.chance(1, 8)) {
        // another message of the same protocol, which may contain the same kinds of parts
        T q = r.pick(ts);
        if (q.s.proto == s.proto) {
          x.s = q.s;
          m = new Gen(r, true).msg(q.s, q.key);
        }
      }
      x.from = c.run.ref.encode(m);
      if (x.s == s) {
        if (twins && same != null && r.chance(2, 3)) x.from = same;
        same = x.from;
      }
      x.o = bind.make(x.s);
      if (r.chance(1, 5)) {
        ByteBuf b = Checks.input(c, r.chance(1, 2) ? x.from : c.run.ref.encode(new Gen(r, true).msg(x.s)));
        bind.decode(x.s, x.o, b);
        Bufs.free(b);
      }
      if (shared != null) {
        shared.writeBytes(x.from);
        bind.decode(x.s, x.o, shared);
      } else {
        ByteBuf b = Checks.input(c, x.from);
        bind.decode(x.s, x.o, b);
        Bufs.free(b);
      }
      note(c, x);
      String df = Msg.diff(c.run.ref.decode(x.s, x.from), x.now);
      c.check(df == null, () -> x.s + ": decoded " + df + "\n    bytes " + Show.hex(x.from));
      all.add(x);
    }
    // built by the application, and untouched
    if (same != null) {
      One built = new One();
      built.s = s;
      built.o = bind.toObject(c.run.ref.decode(s, same), r);
      note(c, built);
      all.add(built);
    }
    if (same != null && r.chance(1, 3)) {
      // two messages that were given the same list objects
      One p = null;
      for (int i = 0; i < 2; i++) {
        One x = new One();
        x.s = s;
        x.common = true;
        x.o = bind.toObject(c.run.ref.decode(s, same), r);
        if (p != null) for (Field f : s.fields) if (f.isList()) bind.setRaw(s, x.o, f, bind.getRaw(s, p.o, f));
        note(c, x);
        all.add(x);
        p = x;
      }
      c.count("pairs of messages given the same lists");
    }
    One raw = new One();
    raw.s = s;
    raw.o = bind.make(s);
    note(c, raw);
    Msg virgin = raw.now.copy();
    all.add(raw);
    StringBuilder log = new StringBuilder();
    byte[] first = all.get(0).from;
    for (int k = r.range(1, 6); k > 0; k--) {
      One x = r.pick(all);
      int xi = all.indexOf(x);
      log.append('#').append(xi).append(' ');
      Msg want = step(c, x, log);
      log.append("; ");
      String w = t + " after " + log;
      if (want != null) {
        Msg got = bind.fromObject(x.o);
        String df = Msg.diff(want, got);
        c.check(df == null, () -> w + "the changed message itself: " + df);
      }
      for (One y : all) {
        if (y == x) continue;
        Msg got = bind.fromObject(y.o);
        c.check(Checks.strictSame(y.now, got), () -> w + "message #" + all.indexOf(y) + " changed as well: " + Msg.diff(y.now, got));
        c.count("bystanders compared");
      }
      Object fresh = bind.make(s);
      Msg fm = bind.fromObject(fresh);
      c.check(Checks.strictSame(virgin, fm), () -> w + "a new object differs from earlier new ones: " + Msg.diff(virgin, fm));
      if (r.chance(1, 2)) {
        One y = r.pick(all);
        if (y.from != null) {
          Object z = Checks.decodeFresh(c, y.s, y.from);
          String df = Msg.diff(c.run.ref.decode(y.s, y.from), bind.fromObject(z));
          c.check(df == null, () -> w + "a fresh decode of #" + all.indexOf(y) + " differs: " + df + "\n    bytes " + Show.hex(y.from));
          c.count("fresh decodes compared");
        }
      }
      note(c, x);
      c.count("changes");
    }
    String w = t + " after " + log;
    for (One y : all) {
      c.check(y.o.hashCode() == y.hash && y.o.toString().equals(y.shown), () -> w + "message #" + all.indexOf(y) + " hashes or prints differently: " + y.o + " / " + y.shown);
      if (y.enc != null) {
        byte[] e = Checks.plain(c.run, y.s, y.o);
        c.check(Arrays.equals(e, y.enc), () -> w + "message #" + all.indexOf(y) + " encodes differently: " + Show.firstDiff(y.enc, e));
      }
    }
    c.distinct(Checks.hash(t + log.toString(), first));
    c.sample(() -> w);
  }

  static void note(Case c, One x) {
    Bind bind = c.run.bind;
    x.enc = null;
    try {
      // of a copy: encoding a frame writes its length and checksum back
      x.enc = Checks.plain(c.run, x.s, bind.toObject(bind.fromObject(x.o), null));
    } catch (RuntimeException e) {
      // absent parts
    }
    x.now = bind.fromObject(x.o);
    x.hash = x.o.hashCode();
    x.shown = x.o.toString();
  }

  /** one change of x; returns what x must read as afterwards, or null if that is not determined */
  static Msg step(Case c, One x, StringBuilder log) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    int op = r.below(12);
    if (op < 8 && !x.s.fields.isEmpty()) {
      // down to a part
      Msg want = x.now.copy(), at = want;
      Object o = x.o;
      while (!x.common && r.chance(3, 5)) {
        List<Field> nf = new ArrayList<>();
        for (Field f : at.spec.fields) if (at.get(f) instanceof Msg || f.isList() && at.get(f) != null && f.kind == Kind.MSG && !((List<?>) at.get(f)).isEmpty()) nf.add(f);
        if (nf.isEmpty()) break;
        Field f = r.pick(nf);
        Object p = bind.getRaw(at.spec, o, f);
        if (f.isList()) {
          List<?> l = (List<?>) at.get(f);
          int i = r.below(l.size());
          if (l.get(i) == null) break;
          log.append(f.name).append('[').append(i).append("].");
          at = (Msg) l.get(i);
          o = ((List<?>) p).get(i);
        } else {
          log.append(f.name).append('.');
          at = (Msg) at.get(f);
          o = p;
        }
      }
      if (at.spec.fields.isEmpty()) return want;
      Field f = r.pick(at.spec.fields);
      if (r.chance(1, 3)) for (Field q : at.spec.fields) if (q.isList() && r.chance(1, 2)) f = q;
      Gen g = new Gen(r, false);
      g.listMax = 4;
      g.strMax = 20;
      Object v = at.spec.body == f ? g.msg(at.spec).get(f) : g.value(f);
      Object l = f.isList() ? bind.getRaw(at.spec, o, f) : null;
      if (l != null && !x.common && r.chance(2, 3)) {
        // through the list the message returns
        @SuppressWarnings("unchecked") List<Object> real = (List<Object>) l;
        @SuppressWarnings("unchecked") List<Object> model = (List<Object>) at.get(f);
        List<Object> e = g.list(f, 1);
        Object ev = ((List<?>) bind.toVal(f, e, r)).get(0);
        int k = r.below(4), i = model.isEmpty() ? 0 : r.below(model.size());
        log.append(f.name).append(k == 0 ? " add" : k == 1 ? " replace" : k == 2 ? " remove" : " clear");
        try {
          if (k == 0) {
            real.add(ev);
            model.add(e.get(0));
          } else if (k == 1 && !model.isEmpty()) {
            real.set(i, ev);
            model.set(i, e.get(0));
          } else if (k == 2 && !model.isEmpty()) {
            real.remove(i);
            model.remove(i);
          } else if (k == 3) {
            real.clear();
            model.clear();
          }
          c.count("changes through a returned list");
        } catch (UnsupportedOperationException u) {
          c.count("returned lists that refuse the change");
        }
        return want;
      }
      at.set(f, v);
      bind.setRaw(at.spec, o, f, bind.toVal(f, v, r));
      log.append("set ").append(f.name);
      c.count("setter calls");
      return want;
    }
    if (op < 10) {
      Gen g = new Gen(r, true);
      g.listMax = 5;
      Msg m = g.msg(x.s);
      byte[] e = c.run.ref.encode(m);
      boolean damage = r.chance(1, 3) && e.length > 0;
      if (damage) {
        if (r.chance(1, 2)) e = Arrays.copyOf(e, r.below(e.length));
        else e[r.below(e.length)] = (byte) r.next();
      }
      ByteBuf b = Checks.input(c, e);
      x.from = null;
      try {
        bind.decode(x.s, x.o, b);
        if (!damage) x.from = e;
      } catch (RuntimeException ex) {
        log.append("failed ");
      }
      Bufs.free(b);
      log.append("decode");
      return damage ? null : c.run.ref.decode(x.s, e);
    }
    try {
      Checks.plain(c.run, x.s, x.o);
      log.append("encode");
    } catch (RuntimeException e) {
      log.append("failed encode");
    }
    return null;
  }
}
