package vp;

import java.util.*;
import vp.Spec.*;

/** A message value, independent of the repository's classes. Values: Long, Float, Double, String, List, Msg, RawBody, null. */
public final class Msg {
  public final MsgSpec spec;
  public final Object[] v;
  /** every occurrence is one and the same object */
  public boolean one;

  public Msg(MsgSpec spec) {
    this.spec = spec;
    this.v = new Object[spec.fields.size()];
    for (Field f : spec.fields) {
      if (f.isList()) continue;
      switch (f.kind) {
        case INT: case BODYLEN: case CKSUM: v[f.index] = 0L; break;
        case F32: v[f.index] = 0f; break;
        case F64: v[f.index] = 0d; break;
        default:
      }
    }
  }

  public Object get(Field f) {
    return v[f.index];
  }

  public void set(Field f, Object o) {
    v[f.index] = o;
  }

  public Msg copy() {
    Msg m = new Msg(spec);
    for (int i = 0; i < v.length; i++) m.v[i] = copyVal(v[i]);
    return m;
  }

  private static Object copyVal(Object o) {
    if (o instanceof Msg) return ((Msg) o).copy();
    if (o instanceof List) {
      List<Object> r = new ArrayList<>();
      for (Object x : (List<?>) o) r.add(copyVal(x));
      return r;
    }
    return o;
  }

  /** null when equal up to absent==empty text/lists; otherwise a description of the first difference. */
  public static String diff(Msg a, Msg b) {
    if (a == null || b == null) return a == b ? null : "one side absent";
    if (a.spec != b.spec) return "type " + a.spec + " vs " + b.spec;
    for (Field f : a.spec.fields) {
      String d = diffVal(f, a.v[f.index], b.v[f.index], f.isList());
      if (d != null) return a.spec.name + "." + f.name + ": " + d;
    }
    return null;
  }

  private static String diffVal(Field f, Object x, Object y, boolean list) {
    if (list) {
      List<?> p = x == null ? Collections.emptyList() : (List<?>) x;
      List<?> q = y == null ? Collections.emptyList() : (List<?>) y;
      if (p.size() != q.size()) return "size " + p.size() + " vs " + q.size();
      for (int i = 0; i < p.size(); i++) {
        String d = diffVal(f, p.get(i), q.get(i), false);
        if (d != null) return "[" + i + "] " + d;
      }
      return null;
    }
    if (f.kind == Kind.CHAR || f.kind == Kind.STR) {
      String s = x == null ? "" : (String) x, t = y == null ? "" : (String) y;
      return s.equals(t) ? null : Show.str(s) + " vs " + Show.str(t);
    }
    if (x instanceof Msg && y instanceof Msg) return diff((Msg) x, (Msg) y);
    return Objects.equals(x, y) ? null : Show.val(x) + " vs " + Show.val(y);
  }

  public String toString() {
    return Show.msg(this);
  }
}
