package vp;

import com.finproto.codec.*;
import io.netty.buffer.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class FrameChecks {
  static List<T> frames(Spec spec) {
    List<T> l = new ArrayList<>();
    for (Proto p : spec.protos.values()) {
      MsgSpec f = p.frame;
      for (Object k : f.cases.keySet()) l.add(new T(f, k));
    }
    return l;
  }

  /** an application body that writes in an unusual but legitimate way */
  static final class OddBody extends RawBody {
    final int how;

    OddBody(byte[] d, int how) {
      super(d);
      this.how = how;
    }

    @Override
    public void encode(ByteBuf b) {
      switch (how) {
        case 0: for (byte x : data) b.writeByte(x); break;
        case 1: b.ensureWritable(data.length + 100); b.writeBytes(data); break;
        case 2: {
          int w = b.writerIndex();
          b.writeZero(data.length);
          b.setBytes(w, data);
          break;
        }
        case 3: b.writeBytes(Unpooled.wrappedBuffer(data)); break;
        default: {
          int w = b.writerIndex();
          b.writeBytes(data);
          b.writeLong(-1);
          b.writerIndex(w + data.length);
        }
      }
    }
  }

  /** an application body that, while it is being encoded, encodes and decodes other messages in a buffer of its own */
  static final class BusyBody extends RawBody {
    final Run run;
    final long seed;

    BusyBody(Run run, byte[] d, long seed) {
      super(d);
      this.run = run;
      this.seed = seed;
    }

    @Override
    public void encode(ByteBuf b) {
      Rng r = Rng.of(seed, "busy", data.length);
      int k = r.below(data.length + 1);
      b.writeBytes(data, 0, k);
      work(r);
      b.writeBytes(data, k, data.length - k);
      if (r.chance(1, 2)) work(r);
    }

    private void work(Rng r) {
      Gen g = new Gen(r, true);
      g.listMax = Math.min(5, g.listMax);
      g.strMax = Math.min(100, g.strMax);
      Msg m = g.msg(r.pick(run.spec.all));
      Object o = run.bind.toObject(m, r);
      ByteBuf t = Unpooled.buffer();
      run.bind.encode(m.spec, o, t);
      Object d = run.bind.make(m.spec);
      run.bind.decode(m.spec, d, t);
      d.toString();
      d.hashCode();
    }
  }

  /** an application body that carries a frame between bytes of its own */
  public static final class WrapBody extends RawBody {
    final Run run;
    final MsgSpec s;
    Object frame;
    byte[] head, tail;

    WrapBody(Run run, MsgSpec s) {
      super(0);
      this.run = run;
      this.s = s;
    }

    static WrapBody of(Run run, Msg m, Rng r) {
      WrapBody w = new WrapBody(run, m.spec);
      w.tail = r.bytes(r.below(30));
      w.head = new byte[] {(byte) w.tail.length, (byte) r.next(), (byte) r.next()};
      w.frame = run.bind.toObject(m, r);
      w.settle(run.ref.encode(m));
      return w;
    }

    private void settle(byte[] f) {
      data = Arrays.copyOf(head, head.length + f.length + tail.length);
      System.arraycopy(f, 0, data, head.length, f.length);
      System.arraycopy(tail, 0, data, head.length + f.length, tail.length);
    }

    @Override
    public void encode(ByteBuf b) {
      b.writeBytes(head);
      run.bind.encode(s, frame, b);
      b.writeBytes(tail);
    }

    @Override
    public void decode(ByteBuf b) {
      head = new byte[3];
      b.readBytes(head);
      frame = run.bind.make(s);
      run.bind.decode(s, frame, b);
      tail = new byte[head[0]];
      b.readBytes(tail);
      settle(run.ref.encode(run.bind.fromObject(frame)));
    }
  }

  static void setBody(Case c, Gen g, Msg m, int k) {
    Rng r = c.rng;
    MsgSpec s = m.spec;
    switch (k) {
      case 0: m.set(s.body, null); c.count("bodies: absent"); break;
      case 1: m.set(s.body, new RawBody(0)); c.count("bodies: empty"); break;
      case 2: m.set(s.body, new RawBody(r.bytes(r.chance(1, 10) ? r.below(200_000) : r.below(600)))); c.count("bodies: opaque"); break;
      case 3: m.set(s.body, new OddBody(r.bytes(r.below(300)), r.below(5))); c.count("bodies: opaque, unusual writer"); break;
      case 4: {
        int n = r.pick(new int[] {127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1 << 20});
        m.set(s.body, new RawBody(r.bytes(n)));
        c.count("bodies: boundary size");
        break;
      }
      case 5: {
        MsgSpec o = r.pick(c.run.spec.all);
        while (o.frame) o = r.pick(c.run.spec.all);
        m.set(s.body, g.msg(o));
        c.count("bodies: any message of any protocol");
        break;
      }
      case 6: {
        m.set(s.body, nested(c, g, r.range(1, 3)));
        c.count("bodies: frames in frames");
        break;
      }
      case 7: {
        m.set(s.body, new BusyBody(c.run, r.bytes(r.below(300)), r.next()));
        c.count("bodies: encode other messages meanwhile");
        break;
      }
      default: c.count("bodies: built-in"); break;
    }
  }

  /** a frame, with frames in it */
  static Msg nested(Case c, Gen g, int depth) {
    List<MsgSpec> l = new ArrayList<>();
    for (Proto p : c.run.spec.protos.values()) l.add(p.frame);
    Msg f = g.msg(c.rng.pick(l));
    if (depth > 1 && c.rng.chance(1, 2)) f.set(f.spec.body, nested(c, g, depth - 1));
    return f;
  }

  /** bodies beyond 16 MiB */
  static void giant(Case c, MsgSpec s, int n) {
    Bind bind = c.run.bind;
    Msg m = new Gen(c.rng, true).msg(s);
    m.set(s.body, new RawBody(new byte[n]));
    ByteBuf b = Unpooled.directBuffer(n + 64);
    try {
      Object o = bind.toObject(m, c.rng);
      bind.encode(s, o, b);
      int head = 0;
      for (Field f : s.fields) {
        if (f == s.body) break;
        if (f == s.bodylen) {
          int at = head;
          int wire = s.proto.little ? b.getIntLE(at) : b.getInt(at);
          c.check(wire == n, () -> s + ": length field says " + wire + ", the body has " + n + " bytes");
        }
        head += f.kind == Kind.BODYLEN ? 4 : f.width;
      }
      Object v = bind.fromVal(s.bodylen, bind.getRaw(s, o, s.bodylen));
      c.check(v.equals((long) n), () -> s + ": getter says " + v + ", the body has " + n + " bytes");
      c.check(b.writerIndex() >= n + head, () -> s + ": frame of " + b.writerIndex() + " bytes for a body of " + n);
      c.count("bodies: beyond 16 MiB");
      c.distinct(s.hashCode() * 31L + n);
    } finally {
      b.release();
    }
  }

  static void c04(Run run) {
    run.rule = "A case encodes a frame of one of the five frame types (each selector in turn) with a random body (built-in, absent, empty, opaque up to 1 MiB, unusually written) and garbage in the length and checksum fields, into a random buffer at a random offset, and compares the length field on the wire and through the getter with the number of bytes the frame grew by minus header and checksum, and with the reference body length. Distinct: frame type and bytes.";
    List<T> fs = frames(run.spec);
    run.minEvals = fs.size();
    List<MsgSpec> big = new ArrayList<>();
    for (Proto p : run.spec.protos.values()) if (p.frame.bodylen != null) big.add(p.frame);
    int[] sizes = {(1 << 24) + 7, (1 << 25) - 1, (1 << 26) + 3};
    run.casesSeq("giant", (long) big.size() * (run.thorough ? 3 : 1), c -> giant(c, big.get((int) (c.index % big.size())), sizes[(int) (c.index / big.size())]));
    run.cases("length", run.n(150_000), fs, c -> {
      T t = fs.get((int) (c.index % fs.size()));
      MsgSpec s = t.s;
      Gen g = new Gen(c.rng, false);
      Msg m = g.msg(s, t.key);
      setBody(c, g, m, c.rng.below(24));
      if (c.rng.chance(1, 4)) m.set(s.selector, g.value(s.selector));
      Object o = c.run.bind.toObject(m, c.rng);
      int rounds = 1 + c.rng.below(3);
      for (int k = 0; k < rounds; k++) {
        byte[] bodyRef = bodyBytes(c.run, m);
        int[] st = new int[s.fields.size()];
        byte[] want = c.run.ref.encode(m, st);
        byte[] e = Checks.encode(c, s, o, want.length + 128);
        int bodyAt = st[s.body.index];
        int tail = want.length - bodyAt - bodyRef.length;
        Msg after = c.run.bind.fromObject(o);
        if (s.bodylen != null) {
          long wire = lenAt(s, e, st[s.bodylen.index]);
          int grew = e.length - bodyAt - tail;
          c.check(wire == grew && wire == bodyRef.length, () -> t + ": length field says " + wire + ", the body occupies " + grew + " bytes (reference " + bodyRef.length + ")\n    " + Show.hex(e));
          c.check(after.get(s.bodylen).equals(wire), () -> t + ": getter reports " + after.get(s.bodylen) + ", wire says " + wire);
          c.count("computed length fields compared");
        } else {
          for (Field f : s.fields) {
            if (f == s.body) continue;
            int end = f.index + 1 < s.fields.size() ? st[f.index + 1] : want.length;
            c.check(e.length == want.length && Arrays.equals(Arrays.copyOfRange(e, st[f.index], end), Arrays.copyOfRange(want, st[f.index], end)),
                () -> t + "." + f + ": not carried verbatim: " + Show.firstDiff(want, e));
            c.check(after.get(f).equals(m.get(f)), () -> t + "." + f + ": encoding changed the application's value " + m.get(f) + " to " + after.get(f));
          }
          c.count("verbatim headers compared");
        }
        c.distinct(Checks.hash(s.fq(), e));
        c.sample(() -> s.fq() + " body " + bodyRef.length + " bytes -> " + Show.hex(e, 40));
        // change the body of the same frame object and encode again
        Gen g2 = new Gen(c.rng, false);
        if (s.bodylen != null && c.rng.chance(1, 2)) {
          c.run.bind.setRaw(s, o, s.bodylen, c.run.bind.toVal(s.bodylen, g2.num(4), null));
        }
        int how = c.rng.below(5);
        if (how > 2 && inPlace(c, g2, m, o)) {
          c.count("bodies: changed in place");
        } else if (how > 0) {
          Msg m2 = g2.msg(s, t.key);
          m.set(s.body, m2.get(s.body));
          setBody(c, g2, m, c.rng.below(10));
          c.run.bind.setRaw(s, o, s.body, c.run.bind.toVal(s.body, m.get(s.body), c.rng));
        } else c.count("bodies: the same again");
        if (s.cksum != null) m.set(s.cksum, c.run.bind.fromVal(s.cksum, c.run.bind.getRaw(s, o, s.cksum)));
      }
    });
  }

  /** changes the contents of o's body object, and m accordingly */
  static boolean inPlace(Case c, Gen g, Msg m, Object o) {
    MsgSpec s = m.spec;
    Bind bind = c.run.bind;
    Object body = m.get(s.body);
    if (body instanceof RawBody) {
      ((RawBody) body).data = c.rng.bytes(c.rng.below(c.rng.chance(1, 20) ? 70_000 : 200));
      return true;
    }
    if (!(body instanceof Msg)) return false;
    Msg q = (Msg) body;
    Object raw = bind.getRaw(s, o, s.body);
    if (q.spec.fields.isEmpty()) return false;
    for (int i = c.rng.range(1, 4); i > 0; i--) {
      Field f = c.rng.pick(q.spec.fields);
      if (f == q.spec.body || f == q.spec.selector) continue;
      Object v = g.value(f);
      q.set(f, v);
      bind.setRaw(q.spec, raw, f, bind.toVal(f, v, c.rng));
    }
    return true;
  }

  static Set<String> set(String... x) {
    return new HashSet<>(Arrays.asList(x));
  }

  static byte[] bodyBytes(Run run, Msg m) {
    Object b = m.get(m.spec.body);
    if (b instanceof Msg) return run.ref.encode((Msg) b);
    if (b instanceof RawBody) return ((RawBody) b).data;
    return new byte[0];
  }

  static long lenAt(MsgSpec s, byte[] e, int at) {
    if (at + 4 > e.length) return Long.MIN_VALUE;
    long v = 0;
    for (int i = 0; i < 4; i++) v |= (e[at + i] & 0xFFL) << (s.proto.little ? 8 * i : 24 - 8 * i);
    return (int) v;
  }

  // ---- C05

  /** a service with a chosen name whose result is a strong function of the readable bytes */
  static final class Recorder implements ChecksumService<ByteBuf, Integer> {
    final String name;
    final int salt;
    final ThreadLocal<List<byte[]>> seen = ThreadLocal.withInitial(ArrayList::new);

    Recorder(String name, int salt) {
      this.name = name;
      this.salt = salt;
    }

    static int f(byte[] b, int salt) {
      long h = salt;
      for (byte x : b) h = (h ^ (x & 0xff)) * 0x100000001b3L + 0x9E37;
      return (int) (Rng.mix(h ^ b.length));
    }

    @Override
    public Integer calc(ByteBuf b) {
      byte[] x = Bufs.slice(b, b.readerIndex(), b.readableBytes());
      seen.get().add(x);
      return f(x, salt);
    }

    @Override
    public String algorithm() {
      return name;
    }
  }

  static void c05(Run run) {
    run.rule = "Phases register a checksum service under each frame's algorithm name (the built-in ones, a recording service whose result depends on every byte it is shown, none). A case encodes a random frame behind random bytes with a random reader index and compares the last four bytes and the getter with the service's function of exactly the frame's header and body. Distinct: phase, frame type and bytes.";
    List<T> fs = new ArrayList<>();
    for (T t : frames(run.spec)) if (t.s.cksum != null) fs.add(t);
    run.minEvals = fs.size();
    ChecksumServiceFactory fac = ChecksumServiceFactory.getInstance();
    String[] algos = {"CRC32", "SSE_BIN", "SZSE_BIN"};
    phase(run, "default", fs, 12_000, null, set("CRC32"));
    fac.registry(new SseBinChecksumService());
    fac.registry(new SzseBinChecksumService());
    phase(run, "built-in", fs, 16_000, null, set(algos));
    for (String a : algos) fac.removeChecksumService(a);
    phase(run, "none", fs, 8_000, null, set());
    Map<String, Recorder> rec = new HashMap<>();
    for (int i = 0; i < 3; i++) {
      Recorder x = new Recorder(algos[i], 0x1234567 * (i + 1));
      rec.put(algos[i], x);
      if (!fac.registry(x)) run.violation("recorder", 0, "registering a service under the free name " + algos[i] + " was refused");
    }
    phase(run, "recorder", fs, 20_000, rec, set(algos));
    fac.removeChecksumService("SSE_BIN");
    rec.remove("SSE_BIN");
    phase(run, "partly", fs, 6_000, rec, set("CRC32", "SZSE_BIN"));
  }

  private static void phase(Run run, String name, List<T> fs, int n, Map<String, Recorder> rec, Set<String> reg) {
    run.cases(name, run.n(3 * n), fs, c -> {
      T t = fs.get((int) (c.index % fs.size()));
      MsgSpec s = t.s;
      Gen g = new Gen(c.rng, false);
      Msg m = g.msg(s, t.key);
      setBody(c, g, m, c.rng.below(24));
      if (c.rng.chance(1, 4)) m.set(s.selector, g.value(s.selector));
      Object o = c.run.bind.toObject(m, c.rng);
      int rounds = 1 + c.rng.below(3);
      for (int k = 0; k < rounds; k++) {
        int refLen = c.run.ref.encode(m).length;
        if (rec != null) for (Recorder x : rec.values()) x.seen.get().clear();
        byte[] e = Checks.encode(c, s, o, refLen + 128);
        c.check(e.length == refLen, () -> t + ": frame of " + e.length + " bytes, layout says " + refLen);
        byte[] covered = Arrays.copyOf(e, e.length - 4);
        long wire = lenAt(s, e, e.length - 4);
        long getter = (Long) c.run.bind.fromVal(s.cksum, c.run.bind.getRaw(s, o, s.cksum));
        long want;
        if (!reg.contains(s.cksum.algo)) want = (Long) m.get(s.cksum);
        else if (rec != null && rec.containsKey(s.cksum.algo)) want = Recorder.f(covered, rec.get(s.cksum.algo).salt);
        else want = RefCodec.ALGOS.get(s.cksum.algo).applyAsInt(covered);
        c.check(wire == want, () -> {
          String seen = "";
          if (rec != null && rec.containsKey(s.cksum.algo)) {
            seen = "; the service was shown:";
            for (byte[] x : rec.get(s.cksum.algo).seen.get()) seen += " [" + x.length + " bytes] " + Show.hex(x, 60);
          }
          return t + " (" + name + "): checksum field " + wire + ", " + s.cksum.algo + " over the frame is " + want + "\n    frame " + Show.hex(e) + seen;
        });
        c.check(getter == wire, () -> t + ": getter reports checksum " + getter + ", wire says " + wire);
        Object inner = m.get(s.body);
        if (inner instanceof Msg && ((Msg) inner).spec.cksum != null) {
          // the frame in the frame has its own
          MsgSpec q = ((Msg) inner).spec;
          int in = c.run.ref.encode((Msg) inner).length;
          byte[] ib = Arrays.copyOfRange(covered, covered.length - in, covered.length - 4);
          long iw = lenAt(q, covered, covered.length - 4);
          long iwant = (Long) ((Msg) inner).get(q.cksum);
          if (reg.contains(q.cksum.algo)) iwant = rec != null && rec.containsKey(q.cksum.algo) ? Recorder.f(ib, rec.get(q.cksum.algo).salt) : RefCodec.ALGOS.get(q.cksum.algo).applyAsInt(ib);
          long iwf = iwant;
          c.check(iw == iwf, () -> t + " (" + name + "): a " + q + " as its body: checksum field " + iw + ", expected " + iwf + "\n    " + Show.hex(e));
          c.count("checksums of frames in frames");
        }
        c.count("checksums compared for " + s.fq());
        c.distinct(Checks.hash(name + s.fq(), e));
        c.sample(() -> s.fq() + " checksum " + wire + " over " + covered.length + " bytes");
        if (c.rng.chance(1, 2)) {
          long x = g.num(4);
          m.set(s.cksum, x);
          c.run.bind.setRaw(s, o, s.cksum, c.run.bind.toVal(s.cksum, x, null));
        } else m.set(s.cksum, wire);
        Msg m2 = new Gen(c.rng, false).msg(s, t.key);
        m.set(s.body, m2.get(s.body));
        c.run.bind.setRaw(s, o, s.body, c.run.bind.toVal(s.body, m.get(s.body), c.rng));
      }
    });
  }

  // ---- C06

  static void c06(Run run) {
    run.rule = "A case runs a producer and a consumer of one protocol over one living buffer: random interleaving of encoding the next frame, decoding the next frame, discarding consumed bytes, moving to another buffer, growing, and clearing when empty, behind and before foreign bytes. Every decoded frame is compared with the one sent, the reader must stop at its boundary, the bytes must be those of the layout, and all decoded frames are compared again at the end. Distinct: the byte stream of the case.";
    run.minEvals = 100;
    List<MsgSpec> frames = new ArrayList<>();
    for (Proto p : run.spec.protos.values()) frames.add(p.frame);
    run.cases("stream", run.n(25_000), frames, c -> stream(c, frames.get((int) (c.index % frames.size()))));
    // with checksum services for every frame format
    ChecksumServiceFactory.getInstance().registry(new SseBinChecksumService());
    ChecksumServiceFactory.getInstance().registry(new SzseBinChecksumService());
    run.ref.registered.add("SSE_BIN");
    run.ref.registered.add("SZSE_BIN");
    // further selectors for built-in messages, such as an application may register: nothing in a frame may be taken for padding
    List<Reg> regs = new ArrayList<>();
    try {
      for (Reg g : Reg.all(run.bind)) if (frames.contains(g.s)) regs.add(g);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
    Map<MsgSpec, Map<Object, String>> alias = new HashMap<>();
    for (Reg g : regs) {
      Map<Object, String> a = new LinkedHashMap<>();
      List<Object> bk = new ArrayList<>(g.s.cases.keySet());
      int i = 0;
      if (g.s.selector.kind == Kind.INT) {
        // frames in frames
        Object tk = Gen.narrow(0x7a7a, g.s.selector.width);
        a.put(tk, g.s.name);
        g.register(run.bind.of(g.s).type, tk, () -> (com.finproto.codec.BinaryCodec) run.bind.make(g.s));
        // frames between other bytes
        Object wk = Gen.narrow(0x7b7b, g.s.selector.width);
        a.put(wk, "");
        g.register(WrapBody.class, wk, () -> new WrapBody(run, g.s));
        for (long v : ALIASES) {
          Object k = Gen.narrow(v, g.s.selector.width);
          if (!g.s.cases.containsKey(k) && !a.containsKey(k)) {
            Object b = bk.get(i++ % bk.size());
            a.put(k, g.s.cases.get(b));
            g.register(g.builtinClass(run.bind, b), k, g.builtin(run.bind, b));
          }
        }
      }
      alias.put(g.s, a);
      run.count("selectors registered by the application", a.size());
    }
    run.cases("stream+aliases", run.n(15_000), frames, c -> {
      MsgSpec s = frames.get((int) (c.index % frames.size()));
      stream(c, s, alias.getOrDefault(s, Collections.emptyMap()));
    });
    for (Reg g : regs) {
      for (Object k : alias.get(g.s).keySet()) g.remove(k);
      for (Object k : g.s.cases.keySet()) g.register(g.builtinClass(run.bind, k), k, g.builtin(run.bind, k));
    }
    run.cases("portions", run.n(20_000), frames, c -> portions(c, frames.get((int) (c.index % frames.size()))));
    run.cases("long", (long) frames.size() * (run.thorough ? 20 : 2), c -> marathon(c, frames.get((int) (c.index % frames.size()))));
    run.cases("stream+checksums", run.n(25_000), frames, c -> stream(c, frames.get((int) (c.index % frames.size()))));
  }

  /** a stream that arrives in portions: frames are decoded while any part of the next, or any other bytes, are behind them */
  static void portions(Case c, MsgSpec s) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    int n = r.range(2, 6);
    Msg[] ms = new Msg[n];
    int[] end = new int[n];
    byte[] all = new byte[0];
    for (int i = 0; i < n; i++) {
      Gen g = new Gen(r, true);
      g.listMax = Math.min(6, g.listMax);
      g.strMax = Math.min(80, g.strMax);
      ms[i] = g.msg(s);
      byte[] e = c.run.ref.encode(ms[i]);
      c.run.ref.settle(ms[i]);
      all = TextChecks.concat(all, e);
      end[i] = all.length;
    }
    byte[] tail = new byte[r.below(10)];
    Arrays.fill(tail, (byte) r.pick(new int[] {0, 0, 0xff, 0x20, 0x30, r.below(256)}));
    byte[] stream = TextChecks.concat(all, tail);
    ByteBuf b = fresh(r, 64);
    Object reuse = r.chance(1, 3) ? bind.make(s) : null;
    int in = 0, next = 0, done = 0;
    while (next < n) {
      // mostly up to a few bytes beyond the end of a frame
      int to = r.chance(2, 3) ? Math.min(stream.length, end[next] + r.below(r.chance(1, 2) ? 5 : 40)) : Math.min(stream.length, in + 1 + r.below(200));
      if (to > in) {
        b.writeBytes(stream, in, to - in);
        in = to;
      }
      while (next < n && in >= end[next] && !r.chance(1, 4)) {
        Object o = reuse != null ? reuse : bind.make(s);
        int r0 = b.readerIndex(), len = end[next] - done, left = b.readableBytes() - len, fn = next;
        bind.decode(s, o, b);
        int used = b.readerIndex() - r0;
        c.check(used == len, () -> s + ": decoding frame " + fn + " with " + left + " bytes behind it consumed " + used + " bytes, the frame has " + len);
        String df = Msg.diff(ms[next], bind.fromObject(o));
        c.check(df == null, () -> s + ": frame " + fn + " decoded with " + left + " bytes behind it: " + df);
        done = end[next++];
        c.run.count("frames decoded with part of the next behind them", 1);
        if (r.chance(1, 5)) b.discardReadBytes();
      }
    }
    b.release();
    c.distinct(Checks.hash(s.fq(), stream));
  }

  /** one long stream in one buffer: many frames sent, then received, far beyond 1 MiB */
  static void marathon(Case c, MsgSpec s) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    ByteBuf b = c.index % 2 == 0 ? Unpooled.buffer(1024) : PooledByteBufAllocator.DEFAULT.directBuffer(1024);
    int total = c.run.replayPhase != null ? 30_000 : 30_000;
    Object out = r.chance(1, 2) ? bind.make(s) : null, in = r.chance(1, 2) ? bind.make(s) : null;
    Msg[] ms = new Msg[60];
    byte[][] bytes = new byte[ms.length][];
    Object[] os = new Object[ms.length];
    for (int i = 0; i < ms.length; i++) {
      Gen g = new Gen(r, true);
      g.listMax = Math.min(4, g.listMax);
      g.strMax = Math.min(60, g.strMax);
      ms[i] = g.msg(s);
      bytes[i] = c.run.ref.encode(ms[i]);
      os[i] = bind.toObject(ms[i], r);
      for (Field f : new Field[] {s.bodylen, s.cksum}) if (f != null) ms[i].v[f.index] = null;
    }
    int[] sent = new int[total];
    int at = 0, next = 0;
    for (int i = 0; i < total || next < i; ) {
      boolean send = i < total && (b.writerIndex() < (3 << 19) || next >= i || r.chance(1, 2));
      if (send) {
        int k = sent[i] = r.below(ms.length);
        Object o = os[k];
        if (out != null) {
          o = out;
          for (Field f : s.fields) if (ms[k].v[f.index] != null || f == s.body) bind.setRaw(s, o, f, bind.getRaw(s, os[k], f));
        }
        int w = b.writerIndex();
        bind.encode(s, o, b);
        int fi = i, n = b.writerIndex() - w;
        c.check(n == bytes[k].length, () -> s + ": frame " + fi + " of a long stream took " + n + " bytes, layout says " + bytes[k].length);
        i++;
      } else {
        int k = sent[next];
        byte[] got = Bufs.slice(b, b.readerIndex(), bytes[k].length);
        int fn = next, r0 = b.readerIndex();
        c.check(Arrays.equals(got, bytes[k]), () -> s + ": frame " + fn + " of a long stream: " + Show.firstDiff(bytes[k], got));
        Object d = in != null ? in : bind.make(s);
        bind.decode(s, d, b);
        int used = b.readerIndex() - r0;
        c.check(used == bytes[k].length, () -> s + ": decoding frame " + fn + " at " + r0 + " of a long stream moved the reader by " + used + ", the frame has " + bytes[k].length + " bytes");
        if (next % 16 == 0 || next < 64) {
          Msg m = bind.fromObject(d), want = ms[k].copy();
          for (Field f : new Field[] {s.bodylen, s.cksum}) if (f != null) want.v[f.index] = m.v[f.index];
          String df = Msg.diff(want, m);
          c.check(df == null, () -> s + ": frame " + fn + " of a long stream: " + df);
        } else c.check(bind.getRaw(s, d, s.body).equals(bind.getRaw(s, os[k], s.body)) || Msg.diff((Msg) ms[k].get(s.body), (Msg) bind.fromVal(s.body, bind.getRaw(s, d, s.body))) == null,
            () -> s + ": frame " + fn + " of a long stream has another body");
        next++;
        if (b.readerIndex() > (1 << 20) + 5000 && r.chance(1, 3000)) b.discardReadBytes();
      }
      if ((i & 63) == 0) Probe.limit(c.run.stepLimit);
    }
    c.check(!b.isReadable(), () -> s + ": bytes left at the end of the stream");
    b.release();
    c.run.count("frames in long streams", total);
    c.distinct(s.hashCode() * 31L + c.index);
  }

  static ByteBuf fresh(Rng r, int cap) {
    switch (r.below(6)) {
      case 0: return Unpooled.buffer(cap);
      case 1: return Unpooled.directBuffer(cap);
      case 2: return PooledByteBufAllocator.DEFAULT.heapBuffer(cap);
      case 3: return PooledByteBufAllocator.DEFAULT.directBuffer(cap);
      case 4: return Unpooled.buffer(1);
      default: return Unpooled.compositeBuffer(8);
    }
  }

  static final long[] ALIASES = {0, -1, 1, 2, 0x20202020L, 0x30303030L, 0x2020, 0x3030, Integer.MIN_VALUE, Integer.MAX_VALUE, 0x0a0d0a0dL, 0x0000ffffL, 0xffff0000L, 0x8000, 0x7fff, 256, 0x01000000L, 0x7e7e7e7eL};

  static void stream(Case c, MsgSpec s) {
    stream(c, s, Collections.emptyMap());
  }

  static void stream(Case c, MsgSpec s, Map<Object, String> alias) {
    Rng r = c.rng;
    Bind bind = c.run.bind;
    ByteBuf b = fresh(r, 256);
    byte[] pre = Checks.junk(r);
    b.writeBytes(pre);
    b.readerIndex(pre.length);
    int want = r.range(2, 14);
    Deque<Msg> sent = new ArrayDeque<>();
    Deque<byte[]> sentBytes = new ArrayDeque<>();
    List<Object> got = new ArrayList<>();
    List<Object> expect = new ArrayList<>();
    Object reuseOut = r.chance(1, 3) ? bind.make(s) : null;
    Object reuseIn = r.chance(1, 3) ? bind.make(s) : null;
    boolean fixedType = r.chance(1, 4);
    Object key = fixedType ? new ArrayList<>(s.cases.keySet()).get(r.below(s.cases.size())) : null;
    StringBuilder log = new StringBuilder();
    int encoded = 0;
    long h = s.hashCode();
    while (encoded < want || !sent.isEmpty()) {
      int k = r.below(12);
      if (k < 5 && encoded < want) {
        Gen g = new Gen(r, true);
        Msg m = g.msg(s, key);
        if (!alias.isEmpty() && r.chance(2, 3)) {
          Object k2 = r.pick(new ArrayList<>(alias.keySet()));
          m.set(s.selector, k2);
          if (alias.get(k2).isEmpty()) {
            m.set(s.body, WrapBody.of(c.run, g.msg(s), r));
            c.run.count("frames between other bytes in frames", 1);
          } else {
            Msg body = g.msg(s.proto.msgs.get(alias.get(k2)));
            for (Msg q = body; q.spec == s && r.chance(1, 2); q = (Msg) q.get(s.body)) {
              q.set(s.selector, k2);
              q.set(s.body, g.msg(s));
              c.run.count("frames in frames in frames", 1);
            }
            m.set(s.body, body);
          }
          c.run.count("frames under selectors registered by the application", 1);
        }
        Object o;
        if (reuseOut != null) {
          o = reuseOut;
          for (Field f : s.fields) bind.setRaw(s, o, f, bind.toVal(f, m.v[f.index], r));
        } else o = bind.toObject(m, r);
        byte[] ref = c.run.ref.encode(m);
        int w0 = b.writerIndex(), r0 = b.readerIndex();
        bind.encode(s, o, b);
        int w1 = b.writerIndex();
        c.check(w1 - w0 == ref.length && b.readerIndex() == r0, () -> s + ": frame " + log + " appended " + (w1 - w0) + " bytes, layout says " + ref.length);
        byte[] app = Bufs.slice(b, w0, ref.length);
        c.check(Arrays.equals(app, ref), () -> s + " after [" + log + "]: " + Show.firstDiff(ref, app));
        for (Field f : new Field[] {s.bodylen, s.cksum})
          if (f != null) m.set(f, bind.fromVal(f, bind.getRaw(s, o, f)));
        if (m.get(s.body) instanceof Msg) c.run.ref.settle((Msg) m.get(s.body));
        sent.add(m);
        sentBytes.add(ref);
        encoded++;
        log.append("E");
        h = h * 31 + Checks.hash("", ref);
        c.run.count("frames encoded", 1);
      } else if (k < 9 && !sent.isEmpty()) {
        Msg m = sent.poll();
        byte[] ref = sentBytes.poll();
        Object o = reuseIn != null ? reuseIn : bind.make(s);
        int r0 = b.readerIndex();
        bind.decode(s, o, b);
        int used = b.readerIndex() - r0;
        log.append("D");
        c.check(used == ref.length, () -> s + " after [" + log + "]: decode consumed " + used + " bytes of a frame of " + ref.length + ": " + Show.hex(ref));
        Msg d = bind.fromObject(o);
        String df = Msg.diff(m, d);
        c.check(df == null, () -> s + " after [" + log + "]: sent vs received: " + df + "\n    " + Show.hex(ref));
        if (reuseIn == null) {
          got.add(o);
          expect.add(d);
        } else {
          Object body = bind.getRaw(s, o, s.body);
          got.add(body);
          expect.add(d.get(s.body));
        }
        c.run.count("frames decoded", 1);
      } else if (k == 9) {
        if (r.chance(1, 2)) b.discardReadBytes();
        else b.discardSomeReadBytes();
        log.append("x");
        c.run.count("discards", 1);
      } else if (k == 10) {
        ByteBuf n = fresh(r, 64);
        byte[] p = Checks.junk(r);
        n.writeBytes(p);
        n.readerIndex(p.length);
        n.writeBytes(b);
        // scribble over the old buffer: decoded messages must not notice
        for (int i = 0; i < b.capacity(); i++) b.setByte(i, 0xEE);
        b.release();
        b = n;
        log.append("m");
        c.run.count("moves", 1);
      } else if (k == 11) {
        if (sent.isEmpty() && r.chance(1, 2)) {
          b.clear();
          log.append("c");
          c.run.count("buffer reuses", 1);
        } else {
          b.capacity(b.capacity() + r.below(200));
          log.append("g");
        }
      }
    }
    for (int i = 0; i < got.size(); i++) {
      if (!(expect.get(i) instanceof Msg)) continue;
      Msg now = bind.fromObject(got.get(i)), then = (Msg) expect.get(i);
      String df = Msg.diff(then, now);
      int fi = i;
      c.check(df == null, () -> s + " [" + log + "]: message " + fi + " changed after it was decoded: " + df);
    }
    b.release();
    c.distinct(h);
    c.sample(() -> s.fq() + " " + log);
  }
}
