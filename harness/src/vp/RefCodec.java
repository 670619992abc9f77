package vp;

import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.*;
import vp.Spec.*;

/** Independent encoder/decoder driven by the committed layouts; shares no code with the repository. */
public final class RefCodec {
  public static final class Reject extends RuntimeException {
    public Reject(String m) {
      super(m, null, false, false);
    }
  }

  static final class Out {
    byte[] b = new byte[256];
    int n;
    /** when set: {position, width, least bytes per element} of every count or length prefix written */
    List<int[]> prefixes;

    void put(int x) {
      if (n == b.length) b = Arrays.copyOf(b, n * 2);
      b[n++] = (byte) x;
    }

    void put(byte[] x, int off, int len) {
      if (n + len > b.length) b = Arrays.copyOf(b, Math.max(b.length * 2, n + len));
      System.arraycopy(x, off, b, n, len);
      n += len;
    }

    void num(long x, int w, boolean little) {
      for (int i = 0; i < w; i++) put((int) (x >>> (little ? 8 * i : 8 * (w - 1 - i))));
    }
  }

  /** Checksums in force: algorithm name to function over the frame's bytes (absent: not registered). */
  public static final Map<String, ToIntFunction<byte[]>> ALGOS = new HashMap<>();

  static {
    ALGOS.put("CRC32", RefSum::crc32);
    ALGOS.put("CRC16", RefSum::crc16);
    ALGOS.put("SSE_BIN", RefSum::sum8);
    ALGOS.put("SZSE_BIN", RefSum::sum8);
  }

  public final Set<String> registered = Collections.synchronizedSet(new HashSet<>(Arrays.asList("CRC16", "CRC32")));

  public byte[] encode(Msg m) {
    Out o = new Out();
    encode(m, o, null);
    return Arrays.copyOf(o.b, o.n);
  }

  public byte[] encode(Msg m, List<int[]> prefixes) {
    Out o = new Out();
    o.prefixes = prefixes;
    encode(m, o, null);
    return Arrays.copyOf(o.b, o.n);
  }

  /** fewest bytes one value of the field can take */
  static int least(Field f) {
    switch (f.kind) {
      case INT: case CHAR: return f.width;
      case F32: return 4;
      case F64: return 8;
      case STR: return f.prefix;
      case MSG: {
        int n = 0;
        for (Field q : f.owner.proto.msgs.get(f.msg).fields) n += q.isList() ? q.listPrefix : least(q);
        return n;
      }
      default: return 0;
    }
  }

  /** also records the byte offset at which each top-level field starts */
  public byte[] encode(Msg m, int[] starts) {
    Out o = new Out();
    encode(m, o, starts);
    return Arrays.copyOf(o.b, o.n);
  }

  /** what encoding writes back into a frame, and frames in it: computed lengths and checksums */
  public void settle(Msg m) {
    MsgSpec s = m.spec;
    if (s.body == null) return;
    Object b = m.get(s.body);
    if (b instanceof Msg) settle((Msg) b);
    if (s.bodylen == null && s.cksum == null) return;
    byte[] e = encode(m);
    if (s.bodylen != null) m.set(s.bodylen, (long) (b instanceof Msg ? encode((Msg) b).length : b instanceof RawBody ? ((RawBody) b).data.length : 0));
    if (s.cksum != null && registered.contains(s.cksum.algo)) m.set(s.cksum, (long) ALGOS.get(s.cksum.algo).applyAsInt(Arrays.copyOf(e, e.length - 4)));
  }

  /** takes the computed fields of frames over from another value */
  public static void adopt(Msg m, Msg from) {
    MsgSpec s = m.spec;
    if (from == null || from.spec != s || s.body == null) return;
    if (s.bodylen != null) m.set(s.bodylen, from.get(s.bodylen));
    if (s.cksum != null) m.set(s.cksum, from.get(s.cksum));
    if (m.get(s.body) instanceof Msg && from.get(s.body) instanceof Msg) adopt((Msg) m.get(s.body), (Msg) from.get(s.body));
  }

  private void encode(Msg m, Out o, int[] starts) {
    boolean le = m.spec.proto.little;
    int frameStart = o.n, lenPos = -1;
    for (Field f : m.spec.fields) {
      if (starts != null) starts[f.index] = o.n;
      Object x = m.v[f.index];
      if (f.isList()) {
        List<?> l = x == null ? Collections.emptyList() : (List<?>) x;
        if (o.prefixes != null) o.prefixes.add(new int[] {o.n, f.listPrefix, least(f)});
        o.num(l.size(), f.listPrefix, le);
        for (Object e : l) one(f, e, o, le);
        continue;
      }
      switch (f.kind) {
        case BODYLEN: lenPos = o.n; o.num(0, 4, le); break;
        case BODY: {
          int s = o.n;
          if (x instanceof Msg) encode((Msg) x, o, null);
          else if (x instanceof RawBody) o.put(((RawBody) x).data, 0, ((RawBody) x).data.length);
          if (lenPos >= 0) {
            int e = o.n;
            o.n = lenPos;
            o.num(e - s, 4, le);
            o.n = e;
          }
          break;
        }
        case CKSUM: {
          long c = (Long) x;
          if (registered.contains(f.algo)) c = ALGOS.get(f.algo).applyAsInt(Arrays.copyOfRange(o.b, frameStart, o.n));
          o.num(c, 4, le);
          break;
        }
        default: one(f, x, o, le);
      }
    }
  }

  private void one(Field f, Object x, Out o, boolean le) {
    switch (f.kind) {
      case INT: o.num((Long) x, f.width, le); break;
      case F32: o.num(Float.floatToRawIntBits((Float) x), 4, le); break;
      case F64: o.num(Double.doubleToRawLongBits((Double) x), 8, le); break;
      case CHAR: { byte[] b = fixed((String) x, f.width, f.pad, f.left); o.put(b, 0, b.length); break; }
      case STR: {
        byte[] b = x == null ? new byte[0] : ((String) x).getBytes(StandardCharsets.UTF_8);
        if (o.prefixes != null) o.prefixes.add(new int[] {o.n, f.prefix, 1});
        o.num(b.length, f.prefix, le);
        o.put(b, 0, b.length);
        break;
      }
      case MSG: encode((Msg) x, o, null); break;
      default: throw new IllegalStateException();
    }
  }

  public static byte[] fixed(String s, int n, char pad, boolean left) {
    byte[] r = new byte[n];
    byte[] b = s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8);
    int k = Math.min(n, b.length);
    Arrays.fill(r, (byte) pad);
    System.arraycopy(b, 0, r, left ? n - k : 0, k);
    return r;
  }

  public static String unfixed(byte[] b, int off, int n, char pad, boolean left) {
    String s = new String(b, off, n, StandardCharsets.UTF_8);
    int i = 0, e = s.length();
    if (left) while (i < e && s.charAt(i) == pad) i++;
    else while (e > i && s.charAt(e - 1) == pad) e--;
    return s.substring(i, e);
  }

  public static final class In {
    public final byte[] b;
    public int pos;
    public final int end;
    /** selector value to constructor of a custom body, consulted before the spec's cases */
    public boolean validText = true;

    public In(byte[] b, int pos, int end) {
      this.b = b;
      this.pos = pos;
      this.end = end;
    }

    int take(long n) {
      if (n < 0 || n > end - pos) throw new Reject("needs " + n + " bytes at " + pos + ", has " + (end - pos));
      int p = pos;
      pos += (int) n;
      return p;
    }

    long num(int w, boolean le, boolean signed) {
      int p = take(w);
      long r = 0;
      for (int i = 0; i < w; i++) r |= (b[p + i] & 0xFFL) << (le ? 8 * i : 8 * (w - 1 - i));
      if (signed && w < 8) r = r << (64 - 8 * w) >> (64 - 8 * w);
      return r;
    }
  }

  public Msg decode(MsgSpec s, byte[] b) {
    return decode(s, new In(b, 0, b.length));
  }

  public Msg decode(MsgSpec s, In in) {
    Msg m = new Msg(s);
    boolean le = s.proto.little;
    for (Field f : s.fields) {
      if (f.isList()) {
        long n = in.num(f.listPrefix, le, false);
        List<Object> l = new ArrayList<>();
        for (long i = 0; i < n; i++) l.add(oneIn(s, f, in, le));
        m.v[f.index] = l;
        continue;
      }
      switch (f.kind) {
        case BODYLEN: case CKSUM: m.v[f.index] = in.num(4, le, true); break;
        case BODY: {
          Object sel = m.v[s.selector.index];
          String t = s.cases.get(sel);
          if (t == null) throw new Reject("unknown selector " + sel);
          m.v[f.index] = decode(s.proto.msgs.get(t), in);
          break;
        }
        default: m.v[f.index] = oneIn(s, f, in, le);
      }
    }
    return m;
  }

  private Object oneIn(MsgSpec s, Field f, In in, boolean le) {
    switch (f.kind) {
      case INT: return in.num(f.width, le, true);
      case F32: return Float.intBitsToFloat((int) in.num(4, le, true));
      case F64: return Double.longBitsToDouble(in.num(8, le, true));
      case CHAR: {
        int p = in.take(f.width);
        in.validText &= Gen.validUtf8(in.b, p, f.width);
        return unfixed(in.b, p, f.width, f.pad, f.left);
      }
      case STR: {
        long n = in.num(f.prefix, le, false);
        int p = in.take(n);
        in.validText &= Gen.validUtf8(in.b, p, (int) n);
        return new String(in.b, p, (int) n, StandardCharsets.UTF_8);
      }
      case MSG: return decode(s.proto.msgs.get(f.msg), in);
      default: throw new IllegalStateException();
    }
  }
}
