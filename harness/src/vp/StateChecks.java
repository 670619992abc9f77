package vp;

import io.netty.buffer.*;
import java.util.*;
import java.util.regex.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class StateChecks {
  // ---- C09

  static void c09(Run run) {
    run.rule = "A case dirties one object of a class with a random history (setters with any values, earlier decodes of other messages of the same class with any selector, failed decodes of truncated or corrupted bytes, contents that differ from the final ones in a few small things), then decodes a valid message into it and compares getters, equals, hashCode, toString and re-encoding with a fresh object that decoded the same bytes. Distinct: type, history kind and final bytes, with a non-empty message.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("reuse", run.n(250_000), ts, c -> reuse(c, ts.get((int) (c.index % ts.size()))));
  }

  static void dirty(Case c, MsgSpec s, Object o, StringBuilder log) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      int k = r.below(6);
      if (k < 2) {
        Gen g = new Gen(r, false);
        g.nulls = true;
        g.rawBodies = true;
        if (r.chance(1, 2)) g.style = 2;
        Msg m = g.msg(s);
        for (Field f : s.fields) if (r.chance(4, 5)) bind.setRaw(s, o, f, bind.toVal(f, m.v[f.index], r));
        log.append("set,");
        c.count("dirtied by setters");
      } else {
        Gen g = new Gen(r, true);
        if (r.chance(1, 2)) g.style = 2;
        byte[] e = c.run.ref.encode(g.msg(s));
        if (k >= 4 && e.length > 0) {
          if (r.chance(1, 2)) e = Arrays.copyOf(e, r.below(e.length));
          else for (int q = r.range(1, 4); q > 0; q--) e[r.below(e.length)] = (byte) r.next();
        }
        ByteBuf b = Checks.input(c, e);
        try {
          bind.decode(s, o, b);
          log.append("decode,");
          c.count("dirtied by a decode");
        } catch (RuntimeException x) {
          log.append("failed decode,");
          c.count("dirtied by a failed decode");
        }
        Bufs.free(b);
      }
    }
  }

  /** gives o the contents of m but for a few small changes */
  static void almost(Case c, Msg m, Object o, StringBuilder log) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = m.spec;
    Msg q = m.copy();
    int n = s.fields.isEmpty() ? 0 : r.chance(1, 4) ? s.fields.size() : r.range(1, 3);
    for (int i = 0; i < n; i++) {
      Field f = r.pick(s.fields);
      if (f == s.selector && r.chance(3, 4)) continue;
      Object y = near(c, f, q.get(f));
      if (y != NONE) q.set(f, y);
    }
    boolean done = false;
    if (r.chance(1, 2)) {
      byte[] e = null;
      try {
        e = c.run.ref.encode(q);
      } catch (RuntimeException x) {
        // an absent mandatory part
      }
      if (e != null) {
        ByteBuf b = Checks.input(c, e);
        try {
          bind.decode(s, o, b);
          done = true;
        } catch (RuntimeException x) {
          // a selector that does not match
        }
        Bufs.free(b);
      }
    }
    if (!done) for (Field f : s.fields) bind.setRaw(s, o, f, bind.toVal(f, q.v[f.index], r));
    log.append(done ? "decode of almost the same," : "set to almost the same,");
    c.count("dirtied with almost the same contents");
  }

  static void reuse(Case c, T t) {
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    Object o = bind.make(s);
    StringBuilder log = new StringBuilder();
    if (c.rng.chance(5, 6)) dirty(c, s, o, log);
    Gen g = new Gen(c.rng, true);
    if (c.rng.chance(1, 4)) g.style = 1;
    Msg m = g.msg(s, t.key);
    boolean nearly = c.rng.chance(1, 3);
    if (nearly) almost(c, m, o, log);
    // sometimes parts of the old contents come back
    if (!nearly && c.rng.chance(1, 4)) {
      try {
        Msg old = bind.fromObject(o);
        for (Field f : s.fields)
          if (f.kind == Kind.INT && f != s.selector && !f.isList() && c.rng.chance(1, 2)) m.v[f.index] = old.v[f.index];
      } catch (RuntimeException x) {
        // partially decoded nested parts
      }
    }
    byte[] e = c.run.ref.encode(m);
    Object fresh = Checks.decodeFresh(c, s, e);
    Object d = o;
    ByteBuf b = Checks.input(c, e);
    int r0 = b.readerIndex();
    bind.decode(s, d, b);
    int used = b.readerIndex() - r0;
    Bufs.free(b);
    String h = t + " after " + log;
    c.check(used == e.length, () -> h + ": decoding into the used object consumed " + used + " of " + e.length + " bytes");
    Msg x = bind.fromObject(fresh), y = bind.fromObject(d);
    String df = Msg.diff(x, y);
    c.check(df == null, () -> h + ": fresh vs reused: " + df + "\n    bytes " + Show.hex(e));
    c.check(fresh.equals(d) && d.equals(fresh), () -> h + ": reused object is not equal to a fresh one\n    fresh  " + fresh + "\n    reused " + d);
    c.check(fresh.hashCode() == d.hashCode(), () -> h + ": hash codes differ");
    c.check(fresh.toString().equals(d.toString()), () -> h + ": printed forms differ\n    fresh  " + fresh + "\n    reused " + d);
    byte[] p = Checks.encode(c, s, d, e.length);
    c.check(Arrays.equals(e, p), () -> h + ": re-encoding the reused object: " + Show.firstDiff(e, p));
    if (e.length > 0) c.distinct(Checks.hash(h, e));
    c.sample(() -> h + " then " + Show.hex(e, 40));
  }

  // ---- C14

  static void c14(Run run) {
    run.rule = "A case builds equal copies of one message independently (fresh strings, boxes and lists) and near-copies differing in exactly one field, nested field or list element (values chosen to collide in hash codes or low bits), and checks equals against model equality in both directions, reflexivity, null and foreign objects, and hashCode for returning, stability and agreement. Distinct: type, value and changed field.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    // one message of every type is kept throughout, hashed and compared again and again by all threads
    Map<T, Object[]> kept = new HashMap<>();
    for (T t : ts) {
      Gen g = new Gen(Rng.of(run.seed, "kept", kept.size()), true);
      g.style = 2;
      Msg m = g.msg(t.s, t.key);
      Object o = run.bind.toObject(m, g.r), o2 = run.bind.toObject(m, g.r);
      kept.put(t, new Object[] {o, o2, o.hashCode()});
    }
    run.cases("equality", run.n(200_000), ts, c -> {
      T t = ts.get((int) (c.index % ts.size()));
      equality(c, t);
      Object[] k = kept.get(t);
      int h = k[0].hashCode();
      c.check(h == (Integer) k[2], () -> t + ": the hash code of an unchanged message was " + k[2] + ", later " + h + ": " + k[0]);
      c.check(k[0].equals(k[1]) && k[1].equals(k[0]), () -> t + ": two unchanged messages were equal and are not any more: " + k[0]);
      c.count("unchanged messages hashed and compared again");
    });
    // default and same-content objects of different classes
    run.cases("types", run.spec.all.size(), c -> {
      MsgSpec s = run.spec.all.get((int) c.index);
      Object a = run.bind.make(s);
      a.hashCode();
      for (MsgSpec q : run.spec.all) {
        Object b = run.bind.make(q);
        boolean same = s == q;
        c.check(a.equals(b) == same, () -> "new " + s + (same ? " is not equal to another new one" : " equals a new " + q));
        c.count("pairs of types");
      }
      c.distinct(s.hashCode() * 31L);
    });
    // every single field of every class
    List<TextChecks.F> fs = new ArrayList<>();
    for (MsgSpec s : run.spec.all) for (Field f : s.fields) fs.add(new TextChecks.F(s, f));
    run.count("fields", fs.size());
    run.cases("each field", (long) fs.size() * (run.thorough ? 200 : 25), fs, c -> {
      TextChecks.F x = fs.get((int) (c.index % fs.size()));
      Gen g = gen(c);
      Msg m = g.msg(x.s);
      oneField(c, m, x.f);
    });
    // every position of long lists
    List<TextChecks.F> ls = new ArrayList<>();
    for (TextChecks.F x : fs) if (x.f.isList()) ls.add(x);
    run.cases("long lists", (long) ls.size() * (run.thorough ? 20 : 2), c -> {
      TextChecks.F x = ls.get((int) (c.index % ls.size()));
      Gen g = gen(c);
      g.listMax = 3;
      for (int n : Gen.sizes(x.s, x.f.kind == Kind.MSG ? 1100 : 5000)) {
        List<Object> l = g.list(x.f, n);
        int i = c.rng.chance(1, 2) ? n - 1 : c.rng.below(n);
        Object y = other(c, elem(x.f), l.get(i));
        if (y == NONE || y == null) continue;
        List<Object> l2 = new ArrayList<>(l);
        l2.set(i, y);
        Msg m = new Msg(x.s);
        Object a = run.bind.make(x.s), b = run.bind.make(x.s), d = run.bind.make(x.s);
        run.bind.setRaw(x.s, a, x.f, run.bind.toVal(x.f, l, c.rng));
        run.bind.setRaw(x.s, b, x.f, run.bind.toVal(x.f, l2, c.rng));
        run.bind.setRaw(x.s, d, x.f, run.bind.toVal(x.f, l, c.rng));
        eq(c, a, b, false, () -> x.s + "." + x.f + ": lists of " + n + " that differ at " + i);
        eq(c, a, d, true, () -> x.s + "." + x.f + ": equal lists of " + n);
        c.check(a.hashCode() == d.hashCode(), () -> x.s + "." + x.f + ": equal lists of " + n + ", hash codes differ");
        c.distinct(Rng.mix(x.f.hashCode() * 31L + n * 7L + i));
        c.count("pairs of long lists");
      }
    });
  }

  /** x changed so that its hash code grows by d, or NONE */
  static Object shifted(Field f, Object x, int d) {
    if (f.isList() || x == null) return NONE;
    switch (f.kind) {
      case INT: case BODYLEN: case CKSUM: {
        long v = (Long) x;
        if (f.width == 8) return v >= 0 && v < 1000 ? NONE : (v >>> 32) == 0 ? (Object) (v + d & 0xFFFFFFFFL) : (Object) ((v & ~0xFFFFFFFFL) | ((((v >>> 32) ^ v) + d ^ (v >>> 32)) & 0xFFFFFFFFL));
        long y = v + d;
        return Gen.narrow(y, f.width) == y ? (Object) y : NONE;
      }
      case CHAR: case STR: {
        String s = (String) x;
        if (s.isEmpty()) return NONE;
        int ch = s.charAt(s.length() - 1) + d;
        return ch > 0x20 && ch < 0x7f && s.charAt(s.length() - 1) < 0x7f ? (Object) (s.substring(0, s.length() - 1) + (char) ch) : NONE;
      }
      default: return NONE;
    }
  }

  /** m with two neighbouring fields changed so that a hash of the form 31 * a + b stays the same; null if there are none */
  static Field[] pair(Case c, Msg m, Msg out) {
    List<Field> fs = m.spec.fields;
    if (fs.size() < 2) return null;
    for (int k = 0; k < 8; k++) {
      int i = c.rng.below(fs.size() - 1);
      int d = c.rng.chance(1, 2) ? 1 : -1;
      Field p = fs.get(i), q = fs.get(i + 1);
      if (p == m.spec.selector || q == m.spec.selector || p == m.spec.body || q == m.spec.body) continue;
      Object a = shifted(p, m.get(p), d), b = shifted(q, m.get(q), -31 * d);
      if (a == NONE || b == NONE || a.equals(m.get(p)) || b.equals(m.get(q))) continue;
      out.set(p, a);
      out.set(q, b);
      return new Field[] {p, q};
    }
    return null;
  }

  static Gen gen(Case c) {
    Gen g = new Gen(c.rng, false);
    g.nulls = true;
    g.rawBodies = true;
    g.listMax = Math.min(g.listMax, 12);
    g.strMax = Math.min(g.strMax, 60);
    return g;
  }

  static void eq(Case c, Object a, Object b, boolean want, java.util.function.Supplier<String> what) {
    boolean x = a.equals(b), y = b.equals(a);
    c.check(x == want && y == want, () -> what.get() + ": equals gives " + x + " / " + y + " (other direction), expected " + want + "\n    a " + a + "\n    b " + b);
    c.count(want ? "equal pairs" : "unequal pairs");
  }

  static void equality(Case c, T t) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    Msg m = gen(c).msg(s, t.key);
    if (r.chance(1, 8)) Checks.rig(c, s, m);
    Object a = bind.toObject(m, r), b = bind.toObject(m, r), d = bind.toObject(m.copy(), r);
    if (r.chance(1, 12)) provoke(c, s, a);
    int h = a.hashCode();
    eq(c, a, a, true, () -> t + ": not reflexive");
    eq(c, a, b, true, () -> t + ": same values");
    eq(c, b, d, true, () -> t + ": same values");
    eq(c, a, d, true, () -> t + ": not transitive");
    c.check(!a.equals(null), () -> t + ": equals null");
    c.check(!a.equals("x") && !a.equals(new Object()) && !a.equals(m), () -> t + ": equals a foreign object");
    c.check(b.hashCode() == h && d.hashCode() == h, () -> t + ": equal messages with hash codes " + h + ", " + b.hashCode() + ", " + d.hashCode() + ": " + m);
    c.check(a.hashCode() == h && a.hashCode() == h, () -> t + ": hash code not stable");
    String df = Msg.diff(m, bind.fromObject(a));
    c.check(df == null, () -> t + ": comparing changed the message: " + df);
    // equality and hash follow the values through setters
    if (!s.fields.isEmpty()) {
      Field f = s.fields.get(r.below(s.fields.size()));
      oneField(c, m, f);
      Object y = other(c, f, m.get(f));
      if (y != NONE) {
        Msg m2 = m.copy();
        m2.set(f, y);
        bind.setRaw(s, a, f, bind.toVal(f, y, r));
        eq(c, a, b, false, () -> t + ": after changing " + f + " from " + Show.val(m.get(f)) + " to " + Show.val(y));
        Object a2 = bind.toObject(m2, r);
        eq(c, a, a2, true, () -> t + ": after setting " + f);
        c.check(a.hashCode() == a2.hashCode(), () -> t + ": hash code does not follow " + f);
        bind.setRaw(s, a, f, bind.toVal(f, m.get(f), r));
        eq(c, a, b, true, () -> t + ": after restoring " + f);
        c.check(a.hashCode() == h, () -> t + ": hash code not restored");
      }
      // two fields of one kind exchanged
      List<Field> same = new ArrayList<>();
      for (Field q : s.fields)
        if (q != f && q.kind == f.kind && q.width == f.width && q.listPrefix == f.listPrefix && f.kind != Kind.MSG && f.kind != Kind.BODY && q.prefix == f.prefix) same.add(q);
      if (!same.isEmpty()) {
        Field q = r.pick(same);
        if (!ambiguous(f, m.get(f), m.get(q))) {
          Msg m2 = m.copy();
          m2.set(f, m.get(q));
          m2.set(q, m.get(f));
          eq(c, b, bind.toObject(m2, r), false, () -> t + ": " + f + " and " + q + " exchanged");
        }
      }
    }
    Msg m3 = m.copy();
    Field[] pq = pair(c, m, m3);
    if (pq != null) {
      Object a3 = bind.toObject(m3, r);
      if (a3.hashCode() == h) c.count("unequal messages with one hash code");
      eq(c, b, a3, false, () -> t + ": " + pq[0] + " and " + pq[1] + " changed together");
    }
    c.distinct(Rng.mix(t.hashCode() ^ m.toString().hashCode()));
    c.sample(() -> m.toString());
  }

  static final Object NONE = new Object();

  /** equal, or different in a way that the property leaves open (absent/empty, signed zero) */
  static boolean ambiguous(Field f, Object x, Object y) {
    if (f.isList() || f.kind == Kind.CHAR || f.kind == Kind.STR) {
      boolean ex = x == null || x.equals("") || x.equals(Collections.emptyList());
      boolean ey = y == null || y.equals("") || y.equals(Collections.emptyList());
      if (ex && ey) return true;
      if (ex != ey) return false;
    }
    if (f.isList()) {
      List<?> p = (List<?>) x, q = (List<?>) y;
      if (p.size() != q.size()) return false;
      for (int i = 0; i < p.size(); i++) {
        Field e = elem(f);
        if (!ambiguous(e, p.get(i), q.get(i))) return false;
      }
      return true;
    }
    if (x instanceof Float && y instanceof Float) return ((Float) x).floatValue() == (Float) y || x.equals(y) || (((Float) x).isNaN() && ((Float) y).isNaN());
    if (x instanceof Double && y instanceof Double) return ((Double) x).doubleValue() == (Double) y || x.equals(y) || (((Double) x).isNaN() && ((Double) y).isNaN());
    if (x instanceof Msg && y instanceof Msg) {
      Msg a = (Msg) x, b = (Msg) y;
      if (a.spec != b.spec) return false;
      for (Field g : a.spec.fields) if (!ambiguous(g, a.get(g), b.get(g))) return false;
      return true;
    }
    return Objects.equals(x, y);
  }

  static Field elem(Field f) {
    Field e = new Field();
    e.kind = f.kind;
    e.name = f.name;
    e.width = f.width;
    e.pad = f.pad;
    e.left = f.left;
    e.prefix = f.prefix;
    e.msg = f.msg;
    e.owner = f.owner;
    return e;
  }

  /** a clearly different value, close to x */
  static Object other(Case c, Field f, Object x) {
    Rng r = c.rng;
    for (int tries = 0; tries < 12; tries++) {
      Object y = near(c, f, x);
      if (y != NONE && !ambiguous(f, x, y)) return y;
    }
    return NONE;
  }

  static String collide(Rng r, String s) {
    // same String.hashCode, same length, different text
    for (int i = 0; i + 1 < s.length(); i++) {
      char a = s.charAt(i), b = s.charAt(i + 1);
      if (a > 0x21 && a < 0x7d && b >= 0x20 + 31 && b < 0x7e) return s.substring(0, i) + (char) (a + 1) + (char) (b - 31) + s.substring(i + 2);
      if (a > 0x21 && a < 0x7d && b >= 0x21 && b < 0x7e - 31) return s.substring(0, i) + (char) (a - 1) + (char) (b + 31) + s.substring(i + 2);
    }
    return s + "x";
  }

  static Object near(Case c, Field f, Object x) {
    Rng r = c.rng;
    Gen g = gen(c);
    if (f.isList()) {
      if (x == null || ((List<?>) x).isEmpty()) return g.list(f, r.range(1, 3));
      List<Object> l = new ArrayList<>((List<?>) x);
      int i = r.chance(1, 2) ? l.size() - 1 : r.below(l.size());
      switch (r.below(7)) {
        case 0: l.remove(i); return l;
        case 1: l.add(l.get(i)); return l;
        case 2: Collections.swap(l, i, r.below(l.size())); return l;
        case 3: return r.chance(1, 2) ? null : new ArrayList<>();
        default: {
          Object y = other(c, elem(f), l.get(i));
          if (y == NONE || y == null) return NONE;
          l.set(i, y);
          return l;
        }
      }
    }
    switch (f.kind) {
      case INT: case BODYLEN: case CKSUM: {
        long v = (Long) x;
        int k = r.below(7);
        long y;
        if (k == 0) y = v ^ (1L << r.below(8 * f.width));
        else if (k == 1) y = v + 1;
        else if (k == 2) y = ~v;
        else if (k == 3) y = -v;
        else if (k == 4 && f.width == 8) y = v ^ (0x0000000100000001L << r.below(31)); // same Long.hashCode
        else if (k == 5) y = v ^ (1L << (8 * f.width - 1));
        else y = g.num(f.width);
        return Gen.narrow(y, f.width);
      }
      case F32: return r.chance(1, 2) ? g.f32() : Float.intBitsToFloat(Float.floatToIntBits((Float) x) ^ 1);
      case F64: return r.chance(1, 2) ? g.f64() : Double.longBitsToDouble(Double.doubleToLongBits((Double) x) ^ (r.chance(1, 2) ? 1 : 0x0000000100000001L));
      case CHAR: case STR: {
        String s = (String) x;
        if (s == null || s.isEmpty()) return r.chance(1, 2) ? "Aa" : r.chance(1, 2) ? " " : "0";
        switch (r.below(8)) {
          case 0: return null;
          case 1: return "";
          case 2: return collide(r, s);
          case 3: return s + f.pad;
          case 4: return f.pad + s;
          case 5:
            if (r.chance(1, 2)) {
              int i = r.below(s.length());
              char ch = s.charAt(i);
              return s.substring(0, i) + (Character.isUpperCase(ch) ? Character.toLowerCase(ch) : Character.toUpperCase(ch)) + s.substring(i + 1);
            }
            return s.equals(s.toUpperCase(Locale.ROOT)) ? s.toLowerCase(Locale.ROOT) : s.toUpperCase(Locale.ROOT);
          case 6: return s.substring(0, s.length() - 1);
          default: return g.fixedTextOr(f);
        }
      }
      case MSG: {
        if (x == null) return g.msg(g.specOf(f));
        if (r.chance(1, 8)) return null;
        return changed(c, (Msg) x);
      }
      case BODY: {
        if (x == null) return new RawBody(r.bytes(3));
        int k = r.below(6);
        if (k == 0) return null;
        if (k == 1) return new RawBody(r.bytes(5));
        if (x instanceof Msg) {
          if (k == 2) {
            MsgSpec q = r.pick(new ArrayList<>(f.owner.proto.msgs.values()));
            if (q != ((Msg) x).spec && !q.frame) return g.msg(q);
          }
          return changed(c, (Msg) x);
        }
        return new RawBody(r.bytes(4));
      }
      default: return NONE;
    }
  }

  static Object changed(Case c, Msg x) {
    if (x.spec.fields.isEmpty()) return NONE;
    Field q = c.rng.pick(x.spec.fields);
    Object y = other(c, q, x.get(q));
    if (y == NONE) return NONE;
    Msg m = x.copy();
    m.set(q, y);
    return m;
  }

  static void oneField(Case c, Msg m, Field f) {
    Bind bind = c.run.bind;
    for (int k = 0; k < 3; k++) {
      Object y = other(c, f, m.get(f));
      if (y == NONE) return;
      Msg m2 = m.copy();
      m2.set(f, y);
      Object a = bind.toObject(m, c.rng), b = bind.toObject(m2, c.rng);
      Object yy = y;
      eq(c, a, b, false, () -> m.spec + "." + f + ": " + Show.val(m.get(f)) + " vs " + Show.val(yy));
      a.hashCode();
      b.hashCode();
      c.distinct(Rng.mix(f.hashCode() ^ m.toString().hashCode() * 31L));
    }
  }

  // ---- C15

  static void c15(Run run) {
    run.rule = "A case runs a random history of setter calls (including on nested parts in place), encodes into random buffers, successful decodes, failing encodes (no room, a body that throws), sharing of its parts with other messages, replacement of parts by equal ones, and read-only calls (equals, hashCode, toString) on one object against a map model; after every step all getters must equal the model and encoding must give the bytes of the model's current values, twice. Distinct: type and history with the final bytes.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("history", run.n(130_000), ts, c -> history(c, ts.get((int) (c.index % ts.size()))));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> {
      run.cases("with checksums", run.n(15_000), fs, c -> history(c, fs.get((int) (c.index % fs.size()))));
      run.cases("many times", ts.size() * (run.thorough ? 20L : 2), ts, c -> manyTimes(c, ts.get((int) (c.index % ts.size()))));
    });
  }

  static void history(Case c, T t) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    Gen g = new Gen(r, false);
    g.rawBodies = true;
    g.listMax = Math.min(g.listMax, 40);
    Msg m = g.msg(s, t.key);
    if (r.chance(1, 16)) Checks.rig(c, s, m);
    Object o = bind.toObject(m, r);
    StringBuilder log = new StringBuilder();
    int steps = r.range(3, 12);
    long h = t.hashCode();
    byte[] last = null;
    for (int k = 0; k < steps; k++) {
      int op = r.below(14);
      if (op == 11) {
        if (!failing(c, t, m, o, r, log.toString())) continue;
        log.append("failed encode, ");
        // the computed fields may have been updated before the failure or not
        RefCodec.adopt(m, bind.fromObject(o));
      } else if (op == 12) {
        if (!share(c, t, m, o, r)) continue;
        log.append("share parts, ");
        // the other message may have encoded a frame in this one
        if (s.body != null && m.get(s.body) instanceof Msg) {
          Object b = bind.fromObject(o).get(s.body);
          if (b instanceof Msg) RefCodec.adopt((Msg) m.get(s.body), (Msg) b);
        }
      } else if (op == 13) {
        // parts that were in the message before, changed after they have been replaced
        List<Field> pf = new ArrayList<>();
        for (Field f : s.fields) if ((f.kind == Kind.MSG || f.kind == Kind.BODY) && m.get(f) != null && (f.isList() || m.get(f) instanceof Msg)) pf.add(f);
        if (pf.isEmpty()) continue;
        Field f = r.pick(pf);
        Object old = bind.getRaw(s, o, f);
        bind.setRaw(s, o, f, bind.toVal(f, m.get(f), r));
        spoil(c, f, m.get(f), old, r);
        log.append("replace ").append(f.name).append(" by its equal, ");
        c.count("parts replaced by equal ones");
      } else if (op == 10) {
        // two fields changed together so that a hash over the message stays the same
        Msg m2 = m.copy();
        Field[] pq = pair(c, m, m2);
        if (pq == null) continue;
        int before = o.hashCode();
        for (Field f : pq) {
          m.set(f, m2.get(f));
          bind.setRaw(s, o, f, bind.toVal(f, m2.get(f), r));
          log.append("set ").append(f.name).append(", ");
        }
        if (o.hashCode() == before) c.count("changes that keep the hash code");
      } else if (op < 5 && !s.fields.isEmpty()) {
        Field f = r.pick(s.fields);
        int how = r.below(6);
        Object v;
        if (f == s.body) {
          Msg q = new Gen(r, false).msg(s);
          v = r.chance(1, 8) ? null : r.chance(1, 6) ? new RawBody(r.bytes(r.below(30))) : q.get(f);
        } else if (how == 0 && f.isList()) v = r.chance(1, 2) ? null : new ArrayList<>();
        else if (how == 1 && !f.isList() && (f.kind == Kind.CHAR || f.kind == Kind.STR)) v = r.chance(1, 2) ? null : "";
        else if (how == 2) {
          v = other(c, f, m.get(f));
          if (v == NONE || (f.kind == Kind.MSG && (v == null || hasNull(v)))) continue;
          if (f.isList() && hasNull(v)) continue;
        } else v = g.value(f);
        if (f.kind == Kind.MSG && !f.isList() && v == null) continue;
        m.set(f, v);
        bind.setRaw(s, o, f, bind.toVal(f, v, r));
        log.append("set ").append(f.name).append(", ");
      } else if (op < 6) {
        // change a nested part in place
        List<Field> nf = new ArrayList<>();
        for (Field f : s.fields) {
          if ((f.kind == Kind.MSG || f.kind == Kind.BODY) && !f.isList() && m.get(f) instanceof Msg) nf.add(f);
          if (f.kind == Kind.MSG && f.isList() && m.get(f) != null && !((List<?>) m.get(f)).isEmpty()) nf.add(f);
        }
        if (nf.isEmpty()) continue;
        Field f = r.pick(nf);
        Msg part;
        Object po = bind.getRaw(s, o, f);
        if (f.isList()) {
          List<?> l = (List<?>) m.get(f);
          int i = r.below(l.size());
          part = (Msg) l.get(i);
          po = ((List<?>) po).get(i);
          // duplicate elements may be one object in the model only
          part = part.copy();
          List<Object> nl = new ArrayList<>(l);
          nl.set(i, part);
          m.set(f, nl);
        } else {
          part = ((Msg) m.get(f)).copy();
          m.set(f, part);
        }
        if (part.spec.fields.isEmpty()) continue;
        Field q = r.pick(part.spec.fields);
        if (q.kind == Kind.MSG && !q.isList() || q.kind == Kind.BODY) continue;
        Object v = g.value(q);
        part.set(q, v);
        bind.setRaw(part.spec, po, q, bind.toVal(q, v, r));
        log.append("set ").append(f.name).append('.').append(q.name).append(", ");
        c.count("nested parts changed in place");
      } else if (op < 7) {
        Gen g2 = new Gen(r, true);
        Msg n = g2.msg(s, r.chance(1, 2) ? t.key : null);
        byte[] e = c.run.ref.encode(n);
        ByteBuf b = Checks.input(c, e);
        bind.decode(s, o, b);
        Bufs.free(b);
        m = n;
        if (s.bodylen != null || s.cksum != null) {
          Msg w = c.run.ref.decode(s, e);
          if (s.bodylen != null) m.set(s.bodylen, w.get(s.bodylen));
          if (s.cksum != null) m.set(s.cksum, w.get(s.cksum));
        }
        log.append("decode, ");
      } else if (op < 8) {
        o.hashCode();
        o.toString();
        o.equals(bind.make(s));
        log.append("inspect, ");
      } else {
        byte[] want = c.run.ref.encode(m);
        byte[] e = Checks.encode(c, s, o, want.length);
        Msg fm = m;
        c.check(Arrays.equals(want, e), () -> t + " after [" + log + "]: encoding does not match the current values: " + Show.firstDiff(want, e) + "\n    values " + fm);
        update(c.run, m, want);
        if (r.chance(1, 2)) {
          byte[] e2 = Checks.encode(c, s, o, want.length);
          byte[] want2 = c.run.ref.encode(m);
          c.check(Arrays.equals(want2, e2), () -> t + " after [" + log + "]: encoding again gives other bytes: " + Show.firstDiff(want2, e2));
        }
        last = want;
        log.append("encode, ");
        c.count("encodes compared with the model");
      }
      Msg now = bind.fromObject(o);
      Msg fm = m;
      String df = strictDiff(fm, now, log.toString().endsWith("decode, "));
      c.check(df == null, () -> t + " after [" + log + "]: " + df);
      if (log.toString().endsWith("decode, ")) m = now; // which of absent and empty is the library's choice
      c.count("states compared");
    }
    byte[] want = c.run.ref.encode(m);
    byte[] e = Checks.encode(c, s, o, want.length);
    c.check(Arrays.equals(want, e), () -> t + " after [" + log + "]: final encoding: " + Show.firstDiff(want, e));
    c.distinct(Checks.hash(t + log.toString(), want));
    c.sample(() -> t + ": " + log);
  }

  /** nothing wears out: thousands of encodes, prints, comparisons and decodes of the same objects */
  static void manyTimes(Case c, T t) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    Gen g = new Gen(r, true);
    g.listMax = Math.min(4, g.listMax);
    g.strMax = Math.min(40, g.strMax);
    Msg m = g.msg(s, t.key);
    byte[] e = c.run.ref.encode(m);
    c.run.ref.settle(m);
    Object o = bind.toObject(m, r), d = bind.make(s), q = bind.toObject(m, r);
    int h = o.hashCode();
    String p = o.toString();
    ByteBuf b = Unpooled.buffer(Math.max(1, e.length)), in = Unpooled.wrappedBuffer(e);
    int n = c.run.thorough ? 70_000 : 3_000;
    for (int i = 0; i < n; i++) {
      int fi = i;
      b.clear();
      bind.encode(s, o, b);
      c.check(b.readableBytes() == e.length && ByteBufUtil.equals(b, in.duplicate().readerIndex(0)), () -> t + ": encode " + fi + " of one object: " + Show.firstDiff(e, Bufs.slice(b, 0, b.writerIndex())));
      in.readerIndex(0);
      bind.decode(s, d, in);
      c.check(in.readerIndex() == e.length, () -> t + ": decode " + fi + " into one object consumed " + in.readerIndex() + " of " + e.length + " bytes");
      if (i % 16 == 0) {
        c.check(o.hashCode() == h && o.equals(q) && q.equals(o) && o.toString().equals(p), () -> t + ": after " + fi + " encodes the object is another: " + o + " / " + p);
        String df = Msg.diff(m, bind.fromObject(d));
        c.check(df == null, () -> t + ": decode " + fi + " into one object: " + df);
      }
      if ((i & 63) == 0) Probe.limit(c.run.stepLimit);
    }
    c.run.count("repeated encodes and decodes of one object", n);
    if (e.length > 0) c.distinct(Checks.hash("many " + t, e));
  }

  /** an encode that cannot succeed: no room, a body that throws, a list that does not fit its prefix */
  static boolean failing(Case c, T t, Msg m, Object o, Rng r, String log) {
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    int n = c.run.ref.encode(m).length;
    Field bf = s.body;
    boolean thrower = bf != null && r.chance(1, 2);
    Object keep = null;
    ByteBuf b;
    if (thrower) {
      keep = bind.getRaw(s, o, bf);
      byte[] part = r.bytes(r.below(20));
      bind.setRaw(s, o, bf, new RawBody(part) {
        @Override
        public void encode(ByteBuf x) {
          x.writeBytes(data);
          throw new UnsupportedOperationException("vp");
        }
      });
      b = io.netty.buffer.Unpooled.buffer();
    } else {
      if (n == 0) return false;
      int room = r.below(n);
      b = io.netty.buffer.Unpooled.buffer(room, room);
    }
    boolean threw = false;
    try {
      bind.encode(s, o, b);
    } catch (RuntimeException e) {
      threw = true;
    }
    boolean z = threw;
    c.check(z, () -> t + " after [" + log + "]: an encode " + (thrower ? "whose body throws" : "without room") + " returned normally");
    if (thrower) {
      bind.setRaw(s, o, bf, keep);
    }
    b.release();
    c.count("failed encodes");
    return true;
  }

  /** the parts of the message are used in another message as well, which is encoded, printed and given other parts */
  static boolean share(Case c, T t, Msg m, Object o, Rng r) {
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    List<Field> pf = new ArrayList<>();
    for (Field f : s.fields) if (f.kind == Kind.MSG || f.kind == Kind.BODY || f.isList()) pf.add(f);
    if (pf.isEmpty()) return false;
    Object other = bind.toObject(new Gen(r, false).msg(s), r);
    for (Field f : pf) bind.setRaw(s, other, f, bind.getRaw(s, o, f));
    Msg om = bind.fromObject(other);
    byte[] want = c.run.ref.encode(om);
    byte[] e = Checks.encode(c, s, other, want.length);
    c.check(Arrays.equals(want, e), () -> t + ": a message that shares its parts with another encodes differently: " + Show.firstDiff(want, e));
    other.hashCode();
    other.toString();
    other.equals(o);
    for (Field f : pf) {
      Object v = new Gen(r, false).msg(s).get(f);
      bind.setRaw(s, other, f, bind.toVal(f, v, r));
    }
    Msg on = bind.fromObject(other);
    byte[] want2 = c.run.ref.encode(on);
    byte[] e2 = Checks.encode(c, s, other, want2.length);
    c.check(Arrays.equals(want2, e2), () -> t + ": after its shared parts were replaced, a message encodes differently: " + Show.firstDiff(want2, e2));
    c.count("parts shared with another message");
    return true;
  }

  /** changes a part that no longer belongs to the message */
  static void spoil(Case c, Field f, Object v, Object part, Rng r) {
    Bind bind = c.run.bind;
    if (part instanceof List) {
      List<?> l = (List<?>) part;
      if (v instanceof List && f.kind == Kind.MSG)
        for (int i = 0; i < l.size() && i < 3; i++) {
          Object q = ((List<?>) v).get(i);
          if (q instanceof Msg) spoil(c, f, q, l.get(i), r);
        }
      try {
        if (!l.isEmpty()) l.remove(r.below(l.size()));
      } catch (UnsupportedOperationException e) {
        // a list that cannot be changed
      }
    } else if (v instanceof Msg && part != null) {
      MsgSpec s = ((Msg) v).spec;
      for (Field q : s.fields) {
        if (q.kind == Kind.MSG || q.kind == Kind.BODY) continue;
        bind.setRaw(s, part, q, bind.toVal(q, new Gen(r, false).value(q), r));
      }
    }
  }

  /** what encoding writes back into a frame: its computed length and checksum */
  static void update(Run run, Msg m, byte[] e) {
    run.ref.settle(m);
  }

  static boolean hasNull(Object v) {
    if (v == null) return true;
    if (v instanceof List) {
      for (Object x : (List<?>) v) if (hasNull(x)) return true;
      return false;
    }
    if (v instanceof Msg) {
      Msg m = (Msg) v;
      for (Field f : m.spec.fields)
        if (f.kind == Kind.MSG && (!f.isList() && m.get(f) == null || hasNull(m.get(f) == null ? "" : m.get(f)))) return true;
    }
    return false;
  }

  static String strictDiff(Msg want, Msg got, boolean lenient) {
    String d = Msg.diff(want, got);
    if (d != null) return d;
    if (!lenient && !Checks.strictSame(want, got)) return "a getter returns empty where absent was set, or the reverse\n    set " + want + "\n    got " + got;
    return null;
  }

  // ---- C16

  static void c16(Run run) {
    run.rule = "A case fills a message with random values (absent parts, large lists, any characters), prints it, changes fields, prints again, and looks for the type name and, for every field, its name followed by its current value, recursively for nested messages and list elements. Distinct: type and printed text.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("print", run.n(250_000), ts, c -> print(c, ts.get((int) (c.index % ts.size()))));
    // long lists and texts are shown to the end
    List<TextChecks.F> fs = new ArrayList<>();
    for (MsgSpec s : run.spec.all) for (Field f : s.fields) if (f.isList() || f.kind == Kind.CHAR || f.kind == Kind.STR) fs.add(new TextChecks.F(s, f));
    run.count("list and text fields", fs.size());
    run.cases("long", (long) fs.size() * (run.thorough ? 6 : 1), c -> {
      TextChecks.F x = fs.get((int) (c.index % fs.size()));
      Gen g = gen(c);
      for (int n : Gen.sizes(x.s, run.thorough ? 65535 : x.f.isList() && x.f.kind == Kind.MSG ? 5000 : 30000)) {
        Object v;
        if (x.f.isList()) v = g.list(x.f, n);
        else {
          StringBuilder b = new StringBuilder();
          while (b.length() < n) b.append((char) ('a' + c.rng.below(26)));
          v = b.toString();
        }
        Object o = run.bind.make(x.s);
        run.bind.setRaw(x.s, o, x.f, run.bind.toVal(x.f, v, c.rng));
        shown(c, o, o.toString(), x.s + " with " + n + " in " + x.f.name);
        c.distinct(Rng.mix(x.f.hashCode() * 31L + n));
        c.count("long lists and texts shown");
      }
    });
  }

  /** an application-defined part that cannot be compared, hashed or printed */
  static final class Angry extends RawBody {
    Angry() {
      super(1);
    }

    @Override
    public boolean equals(Object o) {
      throw new UnsupportedOperationException("vp equals");
    }

    @Override
    public int hashCode() {
      throw new UnsupportedOperationException("vp hashCode");
    }

    @Override
    public String toString() {
      throw new UnsupportedOperationException("vp toString");
    }
  }

  /** comparing, hashing or printing a message fails because a part of it fails; that must not matter afterwards */
  static void provoke(Case c, MsgSpec s, Object o) {
    if (s.body == null) return;
    Rng r = c.rng;
    Bind bind = c.run.bind;
    Object keep = bind.getRaw(s, o, s.body), other = bind.make(s);
    bind.setRaw(s, o, s.body, new Angry());
    bind.setRaw(s, other, s.body, new Angry());
    for (int k = r.range(1, 12); k > 0; k--)
      try {
        int z = r.below(4);
        if (z == 0) o.hashCode();
        else if (z == 1) o.equals(other);
        else if (z == 2) other.equals(o);
        else o.toString();
      } catch (UnsupportedOperationException e) {
        c.count("operations that failed in an application-defined part");
      }
    bind.setRaw(s, o, s.body, keep);
  }

  static void print(Case c, T t) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    MsgSpec s = t.s;
    Gen g = new Gen(r, false);
    g.nulls = true;
    g.rawBodies = true;
    g.sameParts = r.chance(1, 2);
    Msg m = g.msg(s, t.key);
    boolean rigged = r.chance(1, 10) && Checks.rig(c, s, m);
    Object o = !rigged && r.chance(1, 3) ? bind.make(s) : bind.toObject(m, r);
    if (r.chance(1, 6)) {
      o = bind.make(s);
      Object o2 = o;
      String p = o2.toString();
      shown(c, o2, p, t + " (new)");
    }
    if (r.chance(1, 12)) provoke(c, s, o);
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
      String p = o.toString();
      shown(c, o, p, t.toString());
      c.distinct(Rng.mix(p.hashCode() * 31L + t.hashCode()));
      c.sample(() -> p);
      if (s.fields.isEmpty()) break;
      if (r.chance(1, 3)) {
        // two fields changed so that the hash code stays the same, in the message or one of its parts
        Object at = o;
        for (int d = 0; d < 2; d++) {
          MsgSpec q = bind.specOf(at);
          Object in = null;
          for (Field f : q.fields) {
            Object v = bind.getRaw(q, at, f);
            if (v instanceof List && !((List<?>) v).isEmpty()) v = ((List<?>) v).get(r.below(((List<?>) v).size()));
            if (v != null && bind.spec.byClass.containsKey(v.getClass().getName()) && (in == null || r.chance(1, 2))) in = v;
          }
          if (in == null || r.chance(1, 2)) break;
          at = in;
        }
        MsgSpec q = bind.specOf(at);
        Msg now = bind.fromObject(at), out = bind.fromObject(at);
        Field[] two = pair(c, now, out);
        if (two != null) {
          int before = o.hashCode();
          for (Field f : two) bind.setRaw(q, at, f, bind.toVal(f, out.get(f), r));
          c.count(o.hashCode() == before ? "changes that keep the hash code" : "changes meant to keep the hash code");
          Object o2 = o;
          String p2 = o.toString();
          shown(c, o2, p2, t + " after " + two[0] + " and " + two[1] + " of " + q + " changed");
        }
      }
      for (int z = r.range(1, 3); z > 0; z--) {
        Field f = r.pick(s.fields);
        Object v = f == s.body ? (r.chance(1, 4) ? null : new Gen(r, false).msg(s).get(f)) : g.value(f);
        bind.setRaw(s, o, f, bind.toVal(f, v, r));
      }
      if (r.chance(1, 4)) {
        byte[] e = c.run.ref.encode(new Gen(r, true).msg(s, t.key));
        ByteBuf b = Checks.input(c, e);
        bind.decode(s, o, b);
        Bufs.free(b);
      }
    }
  }

  /** the shown value ends here: 5 is not shown by 57 */
  static boolean ends(String p, int i) {
    return i >= p.length() || !Character.isLetterOrDigit(p.charAt(i)) && p.charAt(i) != '.';
  }

  private static final String BETWEEN = " \t\r\n,;:=[](){}'\"|<>";

  /** only punctuation between i and j */
  static boolean gap(String p, int i, int j) {
    for (int k = i; k < j; k++) if (BETWEEN.indexOf(p.charAt(k)) < 0) return false;
    return true;
  }

  /** name stands as a word in p before end */
  static boolean word(String p, String name, int end) {
    for (int i = p.indexOf(name); i >= 0 && i < end; i = p.indexOf(name, i + 1)) {
      int j = i + name.length();
      if ((i == 0 || !Character.isJavaIdentifierPart(p.charAt(i - 1))) && (j == p.length() || !Character.isJavaIdentifierPart(p.charAt(j)))) return true;
    }
    return false;
  }

  private static final Pattern ABSENT = Pattern.compile("\\s*[=:]?\\s*(null\\b|none\\b|absent\\b|\\[\\s*\\]|\\{\\s*\\}|''|\"\"|<|-(?![\\d.])|[,;\\])}]|$).*", Pattern.DOTALL | Pattern.CASE_INSENSITIVE);

  /** the list is shown from j on */
  static boolean list(String p, int j, List<String> parts) {
    if (parts.isEmpty()) {
      while (j < p.length() && (p.charAt(j) == '=' || p.charAt(j) == ':' || p.charAt(j) == ' ')) j++;
      int open = j < p.length() ? "[({".indexOf(p.charAt(j)) : -1;
      if (open >= 0) {
        do j++;
        while (j < p.length() && p.charAt(j) == ' ');
        return j < p.length() && p.charAt(j) == "])}".charAt(open);
      }
      return true;
    }
    int pos = j, open = -1;
    for (int i = 0; i < parts.size(); i++) {
      String q = parts.get(i);
      int z = pos;
      while (z <= p.length() && z <= pos + 8 && !(p.startsWith(q, z) && ends(p, z + q.length()) && gap(p, pos, z))) z++;
      if (z > p.length() || z > pos + 8) return false;
      if (i == 0) for (int k = pos; k < z; k++) if ("[({".indexOf(p.charAt(k)) >= 0) open = "[({".indexOf(p.charAt(k));
      pos = z + q.length();
    }
    if (open < 0) return true;
    for (int k = pos; k < p.length() && k < pos + 3 + 2 * parts.size() && gap(p, pos, k); k++) if (p.charAt(k) == "])}".charAt(open)) return true;
    return false;
  }

  /** p must name o's type and show each of its fields */
  static void shown(Case c, Object o, String p, String what) {
    MsgSpec s = c.run.bind.specOf(o);
    c.check(p != null, () -> what + ": no printed form");
    int eq = p.indexOf('=');
    c.check(word(p, s.simple(), eq < 0 ? p.length() : eq), () -> what + ": printed form does not name " + s.simple() + ": " + p);
    for (Field f : s.fields) {
      Object v = c.run.bind.getRaw(s, o, f);
      List<String> parts = new ArrayList<>();
      if (v instanceof List) for (Object x : (List<?>) v) parts.add(String.valueOf(x));
      else parts.add(String.valueOf(v));
      boolean ok = false;
      int from = 0;
      while (!ok) {
        int i = p.indexOf(f.name, from);
        if (i < 0) break;
        from = i + 1;
        if (i > 0 && Character.isJavaIdentifierPart(p.charAt(i - 1))) continue;
        int j = i + f.name.length();
        if (j < p.length() && Character.isJavaIdentifierPart(p.charAt(j))) continue;
        if (v == null) ok = ABSENT.matcher(p).region(j, p.length()).matches();
        else if (v instanceof List) {
          // the usual form, or any other that shows the elements in order
          String q = parts.toString();
          for (int at = j + 1; at <= j + 3 && !ok; at++) ok = p.startsWith(q, at) && gap(p, j, at);
          if (!ok) ok = list(p, j, parts);
        }
        else {
          String q = parts.get(0);
          for (int at = j + 1; at <= j + 4 && at <= p.length() && !ok; at++) ok = p.startsWith(q, at) && ends(p, at + q.length()) && gap(p, j, at);
        }
      }
      boolean fok = ok;
      c.check(fok, () -> what + ": field " + f.name + " = " + Show.str(String.valueOf(v)) + " is not shown in: " + p);
      c.count("fields found");
      if (v != null && c.run.bind.spec.byClass.containsKey(v.getClass().getName())) shown(c, v, v.toString(), what);
      if (v instanceof List) for (Object x : (List<?>) v) if (x != null && c.run.bind.spec.byClass.containsKey(x.getClass().getName())) {
        shown(c, x, x.toString(), what);
        if (c.rng.chance(1, 2)) break;
      }
    }
  }
}
