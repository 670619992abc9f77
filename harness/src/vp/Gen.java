package vp;

import java.nio.ByteBuffer;
import java.nio.charset.*;
import java.util.*;
import vp.Spec.*;

/** Value generators. */
public final class Gen {
  public static boolean validUtf8(byte[] b, int off, int n) {
    try {
      StandardCharsets.UTF_8.newDecoder().onMalformedInput(CodingErrorAction.REPORT)
          .onUnmappableCharacter(CodingErrorAction.REPORT).decode(ByteBuffer.wrap(b, off, n));
      return true;
    } catch (CharacterCodingException e) {
      return false;
    }
  }

  /** no unpaired surrogates */
  public static boolean cleanText(String s) {
    byte[] b = s.getBytes(StandardCharsets.UTF_8);
    return new String(b, StandardCharsets.UTF_8).equals(s);
  }

  public static int utf8(String s) {
    return s.getBytes(StandardCharsets.UTF_8).length;
  }

  /** whether a field's text comes back unchanged from the wire */
  public static boolean representable(Field f, String s) {
    if (s == null || s.isEmpty()) return true;
    if (f.kind == Kind.STR) return utf8(s) <= (f.prefix == 2 ? 65535 : Integer.MAX_VALUE);
    return utf8(s) <= f.width && (f.left ? s.charAt(0) : s.charAt(s.length() - 1)) != f.pad;
  }

  public final Rng r;
  /** canonical: only representable values, so that the message round-trips */
  public final boolean canonical;
  /** allow null for list elements / nested / absent bodies (setters, equality, printing) */
  public boolean nulls;
  public boolean rawBodies;
  /** some list elements are one and the same object */
  public boolean sameParts;
  /** mostly characters beyond the basic plane */
  public boolean wideText;
  public int listMax = 6;
  public int strMax = 40;
  /** 0 mixed, 1 all defaults, 2 all non-default, 3 boundary heavy, 4 repeated values */
  public int style;
  private final List<String> usedStr = new ArrayList<>();
  private final List<Long> usedInt = new ArrayList<>();
  private Dict dict = Dict.EMPTY;
  /** mostly values that occur in the code of the class being filled */
  private final boolean fromCode;
  /** most lists, or most texts, are absent or empty */
  private final boolean fewLists, fewTexts;
  /** absent things are: anything, null, empty */
  private final int absent;

  public Gen(Rng r, boolean canonical) {
    this.r = r;
    this.canonical = canonical;
    int k = r.below(20);
    style = k < 10 ? 0 : k < 11 ? 1 : k < 15 ? 2 : k < 17 ? 3 : 4;
    fromCode = r.chance(1, 12);
    int sp = r.below(16);
    fewLists = sp == 0 || sp == 1;
    fewTexts = sp == 1 || sp == 2;
    absent = fewLists ? r.below(4) : 0;
    int q = r.below(40);
    if (q == 0) listMax = 300;
    else if (q < 4) listMax = 40;
    int z = r.below(40);
    if (z == 0) strMax = 40000;
    else if (z < 5) strMax = 400;
  }

  static final String[] NASTY = {
    "\u3000", "\u00a0", "\ufeff", "\t", "\n", "\r", "\0", "\u2003", "\u0085", " ", "0", "00", "null", "\u00e9", "\u4e2d\u6587", "\ud83d\ude00", "\u007f",
    "Aa", "BB", "AaBB", "BBAa", "-1", "+5", "1.50", "0.0", "%s", "\"", "'", "\\", "=", ", ", "[", "]", "\u0130", "\u00df",
    "\r\n", "a\r\nb", "a\nb", "e\u0301", "A\u030a", "\u212b", "\u1100\u1161", "\uff21", "\u200b", "\u200f", "\u202e", "\u0001", "\u001b[0m", "\ufffd", "\u0660\u0661", "\ufb01",
    "1e3", "0x1F", "NaN", "true", "$1", "{}", "<a>", "&amp;", "\\n", "%20", "/", "../", ";", "|", "\"\"", "//"
  };

  static final int[] CP = {0x20, 0x30, 0x00, 0x41, 0x61, 0x39, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x3000, 0x4e2d, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xa0, 0x2028, 0x301, 0x200b, 0x212b, 0xfffd, 0xd7ff, 0xe000};

  private int cp() {
    int k = r.below(10);
    if (k < 5) return 0x21 + r.below(0x5e);
    if (k < 6) return '0' + r.below(10);
    if (k < 9) return CP[r.below(CP.length)];
    int c = r.below(0x110000);
    return c >= 0xd800 && c < 0xe000 ? 0x4e00 : c;
  }

  private String ascii(int n) {
    StringBuilder b = new StringBuilder();
    boolean dig = r.chance(1, 2);
    for (int i = 0; i < n; i++) b.append((char) (dig ? '0' + r.below(10) : 0x20 + r.below(0x5f)));
    return b.toString();
  }

  /** arbitrary text whose UTF-8 form has at most max bytes, often exactly max */
  public String text(int max) {
    if (max <= 0) return "";
    if (wideText && r.chance(2, 3)) {
      StringBuilder b = new StringBuilder();
      for (int n = 0; n + 4 <= max && n < 60; n += 4) b.appendCodePoint(0x10000 + r.below(0x100000));
      if (b.length() > 0) return b.toString();
    }
    int k = r.below(16);
    if (fromCode && r.chance(1, 2)) {
      if (!dict.strs.isEmpty() && k < 8) k = 9;
      else if (!dict.ints.isEmpty()) {
        long n = r.pick(dict.ints) + r.range(-1, 1);
        if (n > 0 && n < Math.min(max, 70000) && r.chance(1, 2)) max = (int) n;
        else if (r.chance(1, 3)) return cut(Long.toString(n), max);
      }
    }
    String s;
    if (k == 0) return "";
    else if (k < 3) s = ascii(r.range(1, Math.min(max, 12)));
    else if (k < 6) s = ascii(max);
    else if (k < 7) s = r.chance(1, 6) ? "\r\n" : r.pick(NASTY);
    else if (k < 8) s = (r.chance(1, 6) ? "\r\n" : r.pick(NASTY)) + ascii(r.range(0, Math.min(max, 8))) + r.pick(NASTY);
    else if (k < 9 && !usedStr.isEmpty()) s = r.pick(usedStr);
    else if (k < 10 && !dict.strs.isEmpty()) s = r.pick(dict.strs);
    else if (k < 11 && !Dict.all.strs.isEmpty()) s = r.pick(Dict.all.strs);
    else if (k < 12) s = ascii(r.range(1, max)) + (r.chance(1, 2) ? " " : "0");
    else {
      StringBuilder b = new StringBuilder();
      int n = 0, want = r.chance(1, 2) ? max : r.range(1, max);
      while (n < want) {
        int c = cp();
        int w = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        if (n + w > want) {
          c = 'x';
          w = 1;
        }
        b.appendCodePoint(c);
        n += w;
      }
      s = b.toString();
    }
    return cut(s, max);
  }

  static String cut(String s, int max) {
    int n = 0, i = 0;
    while (i < s.length()) {
      int c = s.codePointAt(i);
      int w = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
      if (n + w > max) break;
      n += w;
      i += Character.charCount(c);
    }
    return s.substring(0, i);
  }

  public String fixedText(Field f) {
    String s;
    if (canonical) s = text(f.width);
    else {
      int k = r.below(8);
      if (k == 0) s = text(f.width + r.range(1, 20));
      else if (k == 1) {
        StringBuilder b = new StringBuilder();
        for (int i = r.range(0, f.width + 2); i > 0; i--) b.append(f.pad);
        s = b.toString();
        if (r.chance(1, 2)) s = cut(f.left ? s + "7" : "7" + s, f.width);
      } else s = text(f.width);
    }
    if (r.chance(1, 12)) {
      // text bordering the pad character on the side where padding does not go
      s = f.left ? s + f.pad : f.pad + s;
      if (canonical || r.chance(1, 2)) s = cut(s, f.width);
    }
    if (canonical) s = trim(f, s);
    return s;
  }

  public String fixedTextOr(Field f) {
    return f.kind == Kind.CHAR ? fixedText(f) : text(strMax);
  }

  public static String trim(Field f, String s) {
    int a = 0, e = s.length();
    if (f.left) while (a < e && s.charAt(a) == f.pad) a++;
    else while (e > a && s.charAt(e - 1) == f.pad) e--;
    return s.substring(a, e);
  }

  static final long[] B = {0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535, 65536, Integer.MAX_VALUE, Integer.MIN_VALUE,
    0x80000000L, 0xFFFFFFFFL, 0x100000000L, Long.MAX_VALUE, Long.MIN_VALUE, 0x0102030405060708L, 0xF1F2F3F4F5F6F7F8L, 0x7F, 0x80, 10, 100, 1000, 9999, 100000000L,
    0x00FF00FF00FF00FFL, 0xFF00FF00FF00FF00L, -2, 0x8000000080000000L, 0x0000000180000000L};

  public static long narrow(long v, int w) {
    return w == 8 ? v : v << (64 - 8 * w) >> (64 - 8 * w);
  }

  public long num(int w) {
    int k = r.below(20);
    if (fromCode && k < 16) k = 8;
    if (style == 3 && k >= 8) k = r.below(8);
    if (style == 4 && !usedInt.isEmpty() && r.chance(1, 2)) return narrow(r.pick(usedInt), w);
    long v;
    if (k < 6) v = B[r.below(B.length)];
    else if (k < 8) {
      int bits = 8 * w;
      long p = 1L << r.below(bits);
      v = r.chance(1, 3) ? p - 1 : r.chance(1, 2) ? p : -p;
    } else if (k < 10 && !dict.ints.isEmpty()) v = r.pick(dict.ints) + (r.chance(1, 3) ? r.range(-1, 1) : 0);
    else if (k < 11 && !Dict.all.ints.isEmpty()) v = r.pick(Dict.all.ints);
    else if (k < 14) v = r.range(-3, 300);
    else v = r.next() >>> r.below(64);
    v = narrow(v, w);
    if (usedInt.size() < 50) usedInt.add(v);
    return v;
  }

  public float f32() {
    if (!dict.dbls.isEmpty() && r.chance(1, 6)) return (float) (r.pick(dict.dbls) * (r.chance(1, 3) ? 1 + r.range(-2, 2) : 1));
    switch (r.below(12)) {
      case 0: return 0f;
      case 1: return -0f;
      case 2: return Float.NaN;
      case 3: return Float.POSITIVE_INFINITY;
      case 4: return Float.NEGATIVE_INFINITY;
      case 5: return Float.MIN_VALUE;
      case 6: return Float.MAX_VALUE;
      case 7: return Float.intBitsToFloat(0x7fc00000 | r.below(0x400000) | (r.chance(1, 2) ? 0x80000000 : 0));
      case 8: return r.range(-100, 100) / 4f;
      default: {
        int b = (int) r.next();
        if ((b & 0x7f800000) == 0x7f800000 && (b & 0x7fffff) != 0) b |= 0x400000;
        return Float.intBitsToFloat(b);
      }
    }
  }

  public double f64() {
    if (!dict.dbls.isEmpty() && r.chance(1, 6)) return r.pick(dict.dbls) * (r.chance(1, 3) ? 1 + r.range(-2, 2) : 1);
    switch (r.below(12)) {
      case 0: return 0d;
      case 1: return -0d;
      case 2: return Double.NaN;
      case 3: return Double.POSITIVE_INFINITY;
      case 4: return Double.NEGATIVE_INFINITY;
      case 5: return Double.MIN_VALUE;
      case 6: return Double.MAX_VALUE;
      case 7: return Double.longBitsToDouble(0x7ff8000000000000L | (r.next() >>> 13));
      case 8: return r.range(-100, 100) / 4d;
      case 9: return 16777217d;
      default: {
        long b = r.next();
        if ((b & 0x7ff0000000000000L) == 0x7ff0000000000000L && (b & 0xfffffffffffffL) != 0) b |= 0x8000000000000L;
        return Double.longBitsToDouble(b);
      }
    }
  }

  /** list sizes and text lengths worth trying for a class: round numbers and the constants its code mentions, and one more */
  public static List<Integer> sizes(MsgSpec s, int max) {
    TreeSet<Integer> t = new TreeSet<>(Arrays.asList(1, 2, 3, 7, 16, 17, 33, 65, 101, 129, 257, 1001, 4097, 20000));
    for (Dict d : new Dict[] {Dict.of(s.className()), Dict.of("com.finproto.codec.BinaryCodec")})
      for (long v : d.ints)
        if (v > 1 && v <= 65534) {
          t.add((int) v);
          t.add((int) v + 1);
        }
    List<Integer> l = new ArrayList<>();
    for (int n : t) if (n <= max) l.add(n);
    return l;
  }

  public int listSize() {
    int k = r.below(12);
    if (fromCode && !dict.ints.isEmpty() && r.chance(1, 3)) {
      long n = r.pick(dict.ints) + r.range(0, 1);
      if (n > 0 && n <= Math.max(listMax, 64)) return (int) n;
    }
    if (k < 2) return 0;
    if (k < 4) return 1;
    if (k < 6) return 2;
    if (k < 11) return r.range(0, Math.min(6, listMax));
    return r.range(0, listMax);
  }

  public Msg msg(MsgSpec s) {
    return msg(s, null);
  }

  /** key: selector value to use (null: pick one) */
  public Msg msg(MsgSpec s, Object key) {
    Msg m = new Msg(s);
    Dict saved = dict;
    dict = Dict.of(s.className());
    for (Field f : s.fields) m.v[f.index] = value(f);
    if (s.body != null) setBody(m, key);
    dict = saved;
    return m;
  }

  public void setBody(Msg m, Object key) {
    MsgSpec s = m.spec;
    if (key == null) key = new ArrayList<>(s.cases.keySet()).get(r.below(s.cases.size()));
    m.v[s.selector.index] = key;
    m.v[s.body.index] = msg(s.proto.msgs.get(s.cases.get(key)));
    if (!canonical && rawBodies) {
      int k = r.below(10);
      if (k == 0) m.v[s.body.index] = null;
      else if (k < 3) m.v[s.body.index] = new RawBody(r.bytes(r.chance(1, 8) ? r.below(70000) : r.below(40)));
      else if (k < 4) {
        MsgSpec o = s.proto.msgs.get(r.pick(new ArrayList<>(s.cases.values())));
        m.v[s.body.index] = s.frame && r.chance(1, 4) ? msg(s) : msg(o);
      }
      if (k > 6) m.v[s.selector.index] = value(s.selector);
    }
  }

  public Object value(Field f) {
    if (f.isList()) {
      if (style == 1 || r.chance(1, 10) || fewLists && style != 2 && r.chance(7, 8)) return absent == 1 || absent != 2 && r.chance(1, 2) ? null : new ArrayList<>();
      int n = listSize();
      if (style == 2 && n == 0) n = 1;
      return list(f, n);
    }
    if (style == 1 && f.kind != Kind.MSG && f.kind != Kind.BODY) {
      switch (f.kind) {
        case F32: return 0f;
        case F64: return 0d;
        case CHAR: case STR: return r.chance(1, 2) ? null : "";
        default: return 0L;
      }
    }
    if ((f.kind == Kind.CHAR || f.kind == Kind.STR) && style != 2 && (fewTexts ? r.chance(3, 4) : r.chance(1, 10))) return null;
    if (nulls && f.kind == Kind.MSG && r.chance(1, 6)) return null;
    return element(f);
  }

  public List<Object> list(Field f, int n) {
    List<Object> l = new ArrayList<>(n);
    for (int i = 0; i < n; i++) {
      if (i > 0 && r.chance(1, 8)) {
        Object p = l.get(r.below(i));
        if (sameParts && p instanceof Msg && r.chance(2, 3)) ((Msg) p).one = true;
        l.add(p instanceof Msg && !((Msg) p).one ? ((Msg) p).copy() : p);
      } else l.add(element(f));
    }
    return l;
  }

  public Object element(Field f) {
    switch (f.kind) {
      case INT: case BODYLEN: case CKSUM: return num(f.width);
      case F32: return f32();
      case F64: return f64();
      case CHAR: return remember(fixedText(f));
      case STR: return remember(text(r.chance(1, 3) ? strMax : Math.min(strMax, 12)));
      case MSG: {
        int lm = listMax;
        listMax = Math.min(lm, 6);
        Msg m = msg(specOf(f));
        listMax = lm;
        return m;
      }
      default: return null;
    }
  }

  private String remember(String s) {
    if (s.length() < 64 && usedStr.size() < 30) usedStr.add(s);
    return s;
  }

  MsgSpec specOf(Field f) {
    return f.owner.proto.msgs.get(f.msg);
  }
}
