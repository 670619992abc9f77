package vp;

import io.netty.buffer.*;
import java.util.*;
import vp.Run.*;
import vp.Spec.*;

public final class Checks {
  /** a message type, and for polymorphic ones the selector value to use */
  public static final class T {
    public final MsgSpec s;
    public final Object key;

    T(MsgSpec s, Object key) {
      this.s = s;
      this.key = key;
    }

    public String toString() {
      return s.fq() + (key == null ? "" : "/" + key);
    }
  }

  public static List<T> targets(Spec spec) {
    List<T> l = new ArrayList<>();
    for (MsgSpec s : spec.all)
      if (s.body == null) l.add(new T(s, null));
      else for (Object k : s.cases.keySet()) l.add(new T(s, k));
    return l;
  }

  /** the repository classes that exercising a target involves */
  static Set<String> classes(Spec spec, Object target) {
    Set<String> out = new HashSet<>();
    if (target instanceof T) add(out, ((T) target).s, ((T) target).key);
    else if (target instanceof MsgSpec) add(out, (MsgSpec) target, null);
    else if (target instanceof Field) add(out, ((Field) target).owner, null);
    else add(out, ((TextChecks.F) target).s, null);
    return out;
  }

  private static void add(Set<String> out, MsgSpec s, Object key) {
    out.add(s.className());
    for (Field f : s.fields) {
      if (f.kind == Kind.MSG) add(out, s.proto.msgs.get(f.msg), null);
    }
    if (s.body != null)
      for (Map.Entry<Object, String> e : s.cases.entrySet())
        if (key == null || key.equals(e.getKey())) add(out, s.proto.msgs.get(e.getValue()), null);
  }

  static boolean concurrent(String id) {
    return id.equals("C17") || id.equals("C18") || id.equals("C25");
  }

  static void run(Run r) throws Exception {
    switch (r.id) {
      case "C01": MsgChecks.c01(r); break;
      case "C02": MsgChecks.c02(r); break;
      case "C03": MsgChecks.c03(r); break;
      case "C04": FrameChecks.c04(r); break;
      case "C05": FrameChecks.c05(r); break;
      case "C06": FrameChecks.c06(r); break;
      case "C07": TextChecks.c07(r); break;
      case "C08": TextChecks.c08(r); break;
      case "C09": StateChecks.c09(r); break;
      case "C10": HostileChecks.c10(r); break;
      case "C11": HostileChecks.c11(r); break;
      case "C12": BufChecks.c12(r); break;
      case "C13": RegChecks.c13(r); break;
      case "C14": StateChecks.c14(r); break;
      case "C15": StateChecks.c15(r); break;
      case "C16": StateChecks.c16(r); break;
      case "C17": ConcChecks.c17(r); break;
      case "C18": ConcChecks.c18(r); break;
      case "C19": SumChecks.c19(r); break;
      case "C20": BitChecks.c20(r); break;
      case "C21": BitChecks.c21(r); break;
      case "C22": EnvChecks.c22(r); break;
      case "C23": IsoChecks.c23(r); break;
      case "C24": LeakChecks.c24(r); break;
      case "C25": ConcChecks.c25(r); break;
      default: throw new IllegalArgumentException(r.id);
    }
  }

  // ---- helpers

  /** the frames among the targets */
  static List<T> frameTargets(Spec spec) {
    List<T> l = targets(spec);
    l.removeIf(t -> !t.s.frame);
    return l;
  }

  /** runs phases with the exchanges' checksum services registered, as applications do */
  static void withSums(Run run, Runnable phases) {
    com.finproto.codec.ChecksumServiceFactory f = com.finproto.codec.ChecksumServiceFactory.getInstance();
    f.registry(new com.finproto.codec.SseBinChecksumService());
    f.registry(new com.finproto.codec.SzseBinChecksumService());
    run.ref.registered.add("SSE_BIN");
    run.ref.registered.add("SZSE_BIN");
    try {
      phases.run();
    } finally {
      f.removeChecksumService("SSE_BIN");
      f.removeChecksumService("SZSE_BIN");
      run.ref.registered.remove("SSE_BIN");
      run.ref.registered.remove("SZSE_BIN");
    }
  }

  static final int[] HASHES = {Integer.MIN_VALUE, 0, -1, Integer.MAX_VALUE, Integer.MIN_VALUE + 1, 1};

  /** changes one field so that the message, where its hash code is made in the usual way, has a particular hash code */
  static boolean rig(Case c, MsgSpec s, Msg m) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    List<Field> l = new ArrayList<>();
    for (Field f : s.fields) {
      if (f.isList() || f == s.selector || f == s.bodylen || f == s.cksum) continue;
      if (f.kind == Kind.INT && f.width >= 4 || f.kind == Kind.CHAR && f.width >= 9 || f.kind == Kind.STR) l.add(f);
    }
    if (l.isEmpty()) return false;
    Field f = r.pick(l);
    Object old = m.get(f);
    boolean num = f.kind == Kind.INT;
    int target = r.pick(HASHES);
    Msg t = m.copy();
    t.set(f, num ? (Object) 0L : "A");
    int h0 = usual(bind, s, bind.toObject(t, r));
    t.set(f, num ? (Object) 1L : "B");
    int w = usual(bind, s, bind.toObject(t, r)) - h0;
    if ((w & 1) == 0) return false;
    int inv = w;
    for (int i = 0; i < 5; i++) inv *= 2 - w * inv;
    int need = (target - h0) * inv + (num ? 0 : 'A');
    if (num) m.set(f, f.width == 4 ? (long) need : need & 0xFFFFFFFFL);
    else m.set(f, texted(need));
    if (usual(bind, s, bind.toObject(m, r)) == target) {
      c.count("messages made to have the hash code " + target);
      return true;
    }
    m.set(f, old);
    return false;
  }

  /** the hash code as Objects.hash makes it of the fields in order */
  private static int usual(Bind bind, MsgSpec s, Object o) {
    Object[] v = new Object[s.fields.size()];
    for (Field f : s.fields) v[f.index] = bind.getRaw(s, o, f);
    return Arrays.hashCode(v);
  }

  /** printable text with the hash code h */
  static String texted(int h) {
    int base = 0;
    for (int i = 0; i < 7; i++) base = base * 31 + '@';
    long d = (h - base) & 0xFFFFFFFFL;
    char[] x = new char[7];
    for (int i = 6; i >= 0; i--) {
      x[i] = (char) ('@' + d % 31);
      d /= 31;
    }
    return new String(x);
  }

  static long hash(String salt, byte[] b) {
    long h = salt.hashCode() * 0x9E3779B97F4A7C15L;
    for (byte x : b) h = (h ^ x) * 0x100000001b3L;
    return Rng.mix(h);
  }

  static byte[] junk(Rng r) {
    if (r.chance(1, 1500)) {
      // positions beyond 64 KiB and 1 MiB
      byte[] b = new byte[r.chance(1, 20) ? (1 << 20) + r.below(5000) : 65_000 + r.below(70_000)];
      Arrays.fill(b, (byte) r.next());
      return b;
    }
    int k = r.below(6);
    byte[] b = new byte[k < 2 ? 0 : k < 5 ? 1 + r.below(12) : 1 + r.below(300)];
    if (b.length > 0) {
      if (r.chance(1, 2)) b = r.bytes(b.length);
      else Arrays.fill(b, (byte) r.pick(new int[] {0, 0xff, 0x20, 0x30, 1, 0x41}));
    }
    return b;
  }

  /** encodes o into a fresh buffer of a random kind behind random content; returns what was appended */
  static byte[] encode(Case c, MsgSpec s, Object o, int refLen) {
    Rng r = c.rng;
    byte[] pre = junk(r);
    String kind = r.pick(Bufs.WRITE);
    if (refLen > 300_000 && kind.endsWith("composite")) kind = "direct-min"; // growing composites takes quadratic time
    int ri = r.chance(1, 2) ? 0 : r.range(0, pre.length);
    ByteBuf b = Bufs.writable(kind, pre, ri, refLen, (byte) r.next(), r);
    try {
      c.run.bind.encode(s, o, b);
      int n = b.writerIndex() - pre.length;
      c.check(n >= 0, () -> "encoding moved the writer back");
      return Bufs.slice(b, pre.length, n);
    } finally {
      if (!kind.equals("exact-slice")) Bufs.free(b);
    }
  }

  static byte[] plain(Run run, MsgSpec s, Object o) {
    ByteBuf b = Unpooled.buffer(64);
    run.bind.encode(s, o, b);
    return Bufs.slice(b, 0, b.writerIndex());
  }

  static ByteBuf input(Case c, byte[] data) {
    Rng r = c.rng;
    return Bufs.readable(r.pick(Bufs.READ), junk(r), data, junk(r), r);
  }

  static Object decodeFresh(Case c, MsgSpec s, byte[] data) {
    ByteBuf b = input(c, data);
    int r0 = b.readerIndex();
    Object o = c.run.bind.make(s);
    c.run.bind.decode(s, o, b);
    int used = b.readerIndex() - r0;
    Bufs.free(b);
    c.check(used == data.length, () -> s + ": decoding consumed " + used + " bytes of a message of " + data.length + " bytes: " + Show.hex(data));
    return o;
  }

  /** same null/empty status everywhere as well as same values */
  static boolean strictSame(Msg a, Msg b) {
    for (Field f : a.spec.fields) if (!strictVal(a.v[f.index], b.v[f.index])) return false;
    return true;
  }

  private static boolean strictVal(Object x, Object y) {
    if (x == null || y == null) return x == y;
    if (x instanceof Msg) return y instanceof Msg && ((Msg) x).spec == ((Msg) y).spec && strictSame((Msg) x, (Msg) y);
    if (x instanceof List) {
      List<?> p = (List<?>) x, q = (List<?>) y;
      if (p.size() != q.size()) return false;
      for (int i = 0; i < p.size(); i++) if (!strictVal(p.get(i), q.get(i))) return false;
      return true;
    }
    return x.equals(y);
  }
}
