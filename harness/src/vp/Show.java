package vp;

import java.util.*;
import vp.Spec.*;

public final class Show {
  public static String str(String s) {
    if (s == null) return "null";
    StringBuilder b = new StringBuilder("\"");
    int n = Math.min(s.length(), 60);
    for (int i = 0; i < n; i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 0x20 || c > 0x7e) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    if (n < s.length()) b.append("...(").append(s.length()).append(" chars)");
    return b.append('"').toString();
  }

  public static String val(Object o) {
    if (o instanceof String) return str((String) o);
    if (o instanceof Msg) return msg((Msg) o);
    if (o instanceof List) {
      List<?> l = (List<?>) o;
      StringBuilder b = new StringBuilder("[");
      for (int i = 0; i < Math.min(l.size(), 8); i++) b.append(i > 0 ? ", " : "").append(val(l.get(i)));
      if (l.size() > 8) b.append(", ...(").append(l.size()).append(" elements)");
      return b.append("]").toString();
    }
    return String.valueOf(o);
  }

  public static String msg(Msg m) {
    StringBuilder b = new StringBuilder(m.spec.fq()).append("{");
    for (Field f : m.spec.fields) b.append(f.index > 0 ? ", " : "").append(f.name).append('=').append(val(m.v[f.index]));
    return b.append("}").toString();
  }

  public static String hex(byte[] b) {
    return hex(b, 200);
  }

  public static String hex(byte[] b, int max) {
    StringBuilder s = new StringBuilder();
    for (int i = 0; i < Math.min(b.length, max); i++) s.append(String.format("%02x", b[i]));
    if (b.length > max) s.append("...(").append(b.length).append(" bytes)");
    return s.toString();
  }

  public static String firstDiff(byte[] a, byte[] b) {
    int i = 0;
    while (i < a.length && i < b.length && a[i] == b[i]) i++;
    return "lengths " + a.length + "/" + b.length + ", first difference at byte " + i + ": expected "
        + hex(Arrays.copyOfRange(a, i, Math.min(a.length, i + 24))) + " got " + hex(Arrays.copyOfRange(b, i, Math.min(b.length, i + 24)));
  }
}
