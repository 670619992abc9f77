package vp;

import io.netty.buffer.*;
import java.util.*;
import vp.Checks.T;
import vp.Run.*;
import vp.Spec.*;

public final class BufChecks {
  static void c12(Run run) {
    run.rule = "A case encodes one message into every kind of writable buffer and decodes it from every kind of readable buffer, each with guard bytes before and behind, random indices and marks, and compares results across kinds; content outside the appended bytes, indices, marks and reference counts must be unchanged, and the decoded object must not change when the buffer's memory is overwritten and released. Distinct: type and bytes.";
    List<T> ts = Checks.targets(run.spec);
    run.minEvals = ts.size();
    run.cases("buffers", run.n(40_000), ts, c -> one(c, ts.get((int) (c.index % ts.size()))));
    List<T> fs = Checks.frameTargets(run.spec);
    Checks.withSums(run, () -> run.cases("with checksums", run.n(6_000), fs, c -> one(c, fs.get((int) (c.index % fs.size())))));
    List<T> sums = new ArrayList<>(fs);
    sums.removeIf(t -> t.s.cksum == null || t.s.cksum.algo == null);
    run.casesSeq("checksum services", run.n(6_000), c -> services(c, sums.get((int) (c.index % sums.size()))));
  }

  /** the reference value, computed by a service that consumes, marks or moves what it was given, or fails */
  static final class Busy implements com.finproto.codec.ChecksumService<ByteBuf, Integer> {
    final String n;
    final Rng r;
    boolean fail;

    Busy(String n, Rng r) {
      this.n = n;
      this.r = r;
    }

    @Override
    public Integer calc(ByteBuf b) {
      byte[] d = new byte[b.readableBytes()];
      b.getBytes(b.readerIndex(), d);
      switch (r.below(5)) {
        case 0: b.skipBytes(r.range(0, d.length)); break;
        case 1: while (b.isReadable()) b.readByte(); break;
        case 2: {
          b.markReaderIndex();
          b.markWriterIndex();
          b.skipBytes(d.length);
          b.resetReaderIndex();
          break;
        }
        case 3: b.readerIndex(b.writerIndex()); b.markReaderIndex(); break;
        default:
      }
      if (fail) throw new IllegalStateException("no checksum");
      return RefCodec.ALGOS.get(n).applyAsInt(d);
    }

    @Override
    public String algorithm() {
      return n;
    }
  }

  static void services(Case c, T t) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    com.finproto.codec.ChecksumServiceFactory f = com.finproto.codec.ChecksumServiceFactory.getInstance();
    String n = s.cksum.algo;
    Busy busy = new Busy(n, r);
    boolean was = f.getChecksumService(n) != null;
    Object old = f.getChecksumService(n);
    f.removeChecksumService(n);
    f.registry(busy);
    boolean had = c.run.ref.registered.contains(n);
    c.run.ref.registered.add(n);
    try {
      for (int k = 0; k < 3; k++) {
        busy.fail = k == 1;
        Msg m = new Gen(r, true).msg(s, t.key);
        byte[] want = c.run.ref.encode(m);
        byte[] pre = Checks.junk(r);
        int ri = r.range(0, pre.length);
        String kind = r.pick(Bufs.WRITE);
        ByteBuf b = Bufs.writable(kind, pre, ri, want.length, (byte) 0x5a, r);
        int mr = r.range(0, ri), mw = r.range(ri, pre.length);
        b.readerIndex(mr);
        b.markReaderIndex();
        b.readerIndex(ri);
        b.writerIndex(mw);
        b.markWriterIndex();
        b.writerIndex(pre.length);
        int refs = b.refCnt();
        Object o = bind.toObject(m, r);
        String w = t + " into " + kind + " with a checksum service that " + (busy.fail ? "fails" : "moves the buffer it is given");
        RuntimeException x = null;
        try {
          bind.encode(s, o, b);
        } catch (RuntimeException e) {
          x = e;
        }
        RuntimeException fx = x;
        if (!busy.fail) {
          c.check(x == null, () -> w + ": " + Run.brief(fx));
          byte[] got = Bufs.slice(b, pre.length, b.writerIndex() - pre.length);
          c.check(Arrays.equals(want, got), () -> w + ": " + Show.firstDiff(want, got));
        }
        c.check(b.refCnt() == refs, () -> w + ": reference count " + refs + " became " + b.refCnt());
        c.check(b.readerIndex() == ri, () -> w + ": reader moved from " + ri + " to " + b.readerIndex());
        c.check(b.writerIndex() >= pre.length, () -> w + ": writer moved back from " + pre.length + " to " + b.writerIndex());
        c.check(Arrays.equals(pre, Bufs.slice(b, 0, pre.length)), () -> w + ": bytes before the writer changed");
        int w1 = b.writerIndex();
        b.resetReaderIndex();
        c.check(b.readerIndex() == mr, () -> w + ": reader mark moved from " + mr + " to " + b.readerIndex());
        b.readerIndex(0);
        b.resetWriterIndex();
        c.check(b.writerIndex() == mw, () -> w + ": writer mark moved from " + mw + " to " + b.writerIndex());
        b.writerIndex(w1);
        if (!kind.equals("exact-slice") && !kind.equals("unreleasable")) b.release();
        c.count(busy.fail ? "encodes with a failing checksum service" : "encodes with a checksum service that moves its buffer");
        c.distinct(Checks.hash(w, want));
      }
    } finally {
      f.removeChecksumService(n);
      if (was) f.registry((com.finproto.codec.ChecksumService<?, ?>) old);
      if (!had) c.run.ref.registered.remove(n);
    }
  }

  static void one(Case c, T t) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    Gen g = new Gen(r, true);
    Msg m = g.msg(s, t.key);
    byte[] e = Checks.plain(c.run, s, bind.toObject(m, r));
    // what is encoded need not be representable: over-long text, bodies of any kind
    Msg em = m;
    if (r.chance(1, 2)) {
      Gen g2 = new Gen(r, false);
      g2.rawBodies = true;
      em = g2.msg(s, t.key);
    }
    encodes(c, t, em);
    decodes(c, t, e);
    if (e.length > 0 && r.chance(1, 2)) damaged(c, t, e);
    if (e.length > 0 && r.chance(1, 2)) noRoom(c, t, em);
    if (e.length > 0) c.distinct(Checks.hash(t.toString(), e));
    c.sample(() -> t + " " + Show.hex(e, 60));
  }

  static void encodes(Case c, T t, Msg m) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    byte[] e = Checks.plain(c.run, s, bind.toObject(m, r));
    Object shared = bind.toObject(m, r);
    for (String kind : Bufs.WRITE) {
      byte[] pre = Checks.junk(r);
      byte fill = (byte) r.next();
      int ri = r.range(0, pre.length);
      ByteBuf b = Bufs.writable(kind, pre, ri, e.length, fill, r);
      int mr = r.range(0, ri), mw = r.range(ri, pre.length);
      b.readerIndex(mr);
      b.markReaderIndex();
      b.readerIndex(ri);
      b.writerIndex(mw);
      b.markWriterIndex();
      b.writerIndex(pre.length);
      int cap = b.capacity(), refs = b.refCnt();
      String w = t + " into " + kind + " at " + pre.length;
      try {
        bind.encode(s, shared, b);
      } catch (RuntimeException x) {
        c.fail(w + " (" + e.length + " bytes needed): " + Run.brief(x));
      }
      c.check(b.refCnt() == refs, () -> w + ": reference count " + refs + " became " + b.refCnt());
      c.check(b.writerIndex() == pre.length + e.length, () -> w + ": appended " + (b.writerIndex() - pre.length) + " bytes, elsewhere " + e.length);
      byte[] got = Bufs.slice(b, pre.length, e.length);
      c.check(Arrays.equals(got, e), () -> w + ": " + Show.firstDiff(e, got));
      c.check(b.readerIndex() == ri, () -> w + ": reader moved from " + ri + " to " + b.readerIndex());
      byte[] front = Bufs.slice(b, 0, pre.length);
      c.check(Arrays.equals(front, pre), () -> w + ": bytes before the writer changed: " + Show.firstDiff(pre, front));
      c.check(b.capacity() >= cap, () -> w + ": the capacity shrank from " + cap + " to " + b.capacity());
      if (cap > b.writerIndex()) {
        byte[] behind = Bufs.slice(b, b.writerIndex(), cap - b.writerIndex());
        for (int i = 0; i < behind.length; i++)
          if (behind[i] != fill) {
            int fi = i + b.writerIndex();
            c.fail(w + ": byte " + fi + " behind the new writer index " + b.writerIndex() + " changed");
          }
      }
      int w1 = b.writerIndex();
      b.resetReaderIndex();
      c.check(b.readerIndex() == mr, () -> w + ": reader mark moved from " + mr + " to " + b.readerIndex());
      b.readerIndex(0);
      b.resetWriterIndex();
      c.check(b.writerIndex() == mw, () -> w + ": writer mark moved from " + mw + " to " + b.writerIndex());
      b.writerIndex(w1);
      if (!kind.equals("exact-slice") && !kind.equals("unreleasable")) b.release();
      c.count("encodes into " + kind);
    }
  }

  static void decodes(Case c, T t, byte[] e) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    Msg first = null;
    for (String kind : Bufs.READ) {
      byte[] pre = Checks.junk(r), post = Checks.junk(r);
      ByteBuf b = Bufs.readable(kind, pre, e, post, r);
      int r0 = b.readerIndex(), w0 = b.writerIndex(), cap = b.capacity(), refs = b.refCnt();
      int mr = r.range(0, r0);
      b.readerIndex(mr);
      b.markReaderIndex();
      b.readerIndex(r0);
      b.markWriterIndex();
      byte[] before = Bufs.image(b);
      String w = t + " from " + kind + " at " + r0;
      Object o = bind.make(s);
      try {
        bind.decode(s, o, b);
      } catch (RuntimeException x) {
        c.fail(w + ": " + Show.hex(e) + ": " + Run.brief(x));
      }
      c.check(b.refCnt() == refs, () -> w + ": reference count " + refs + " became " + b.refCnt());
      c.check(b.readerIndex() == r0 + e.length && b.writerIndex() == w0, () -> w + ": reader at " + b.readerIndex() + " writer at " + b.writerIndex() + ", expected " + (r0 + e.length) + " and " + w0);
      byte[] after = Bufs.image(b);
      c.check(b.capacity() == cap && Arrays.equals(before, after), () -> w + ": decoding changed the buffer: " + Show.firstDiff(before, after));
      b.resetReaderIndex();
      c.check(b.readerIndex() == mr, () -> w + ": reader mark moved from " + mr + " to " + b.readerIndex());
      b.resetWriterIndex();
      c.check(b.writerIndex() == w0, () -> w + ": writer mark moved");
      Msg v = bind.fromObject(o);
      if (first == null) first = v;
      else {
        String df = Msg.diff(first, v);
        c.check(df == null, () -> w + ": value differs from the one decoded from a " + Bufs.READ[0] + " buffer: " + df);
      }
      int hash = o.hashCode();
      if (!b.isReadOnly()) for (int i = 0; i < cap; i++) b.setByte(i, 0xA5);
      if (refs > 0) b.release();
      String df = Msg.diff(v, bind.fromObject(o));
      c.check(df == null && o.hashCode() == hash, () -> w + ": the decoded message changed when the buffer was overwritten and released: " + df);
      c.count("decodes from " + kind);
    }
  }

  /** bytes of any kind are accepted or rejected, and consumed and understood, alike on every kind of buffer */
  static void damaged(Case c, T t, byte[] e) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    byte[] d = e.clone();
    if (r.chance(1, 3)) d = Arrays.copyOf(d, r.below(d.length));
    else for (int q = r.range(1, 4); q > 0; q--) d[r.below(d.length)] = (byte) r.next();
    Msg first = null;
    int used = 0;
    boolean any = false;
    for (String kind : Bufs.READ) {
      byte[] pre = Checks.junk(r), post = Checks.junk(r);
      ByteBuf b = Bufs.readable(kind, pre, d, post, r);
      int r0 = b.readerIndex(), w0 = b.writerIndex(), refs = b.refCnt();
      byte[] before = Bufs.image(b);
      Object o = bind.make(s);
      RuntimeException x = null;
      try {
        bind.decode(s, o, b);
      } catch (RuntimeException ex) {
        x = ex;
      }
      String w = t + " from " + kind + ", damaged bytes " + Show.hex(d);
      RuntimeException dx = x;
      c.check(b.refCnt() == refs, () -> w + ": reference count " + refs + " became " + b.refCnt() + (dx == null ? "" : " in a rejected decode"));
      byte[] after = Bufs.image(b);
      c.check(Arrays.equals(before, after), () -> w + ": decoding changed the buffer: " + Show.firstDiff(before, after));
      c.check(b.writerIndex() == w0 && b.readerIndex() >= r0 && b.readerIndex() <= w0, () -> w + ": indices " + b.readerIndex() + ", " + b.writerIndex());
      Msg v = x == null ? bind.fromObject(o) : null;
      int n = x == null ? b.readerIndex() - r0 : 0;
      if (!any) {
        first = v;
        used = n;
        any = true;
      } else {
        Msg f = first;
        int u = used;
        RuntimeException fx = x;
        c.check((f == null) == (v == null), () -> w + ": " + (v == null ? "rejected with " + Run.brief(fx) : "accepted") + ", unlike a " + Bufs.READ[0] + " buffer");
        if (v != null) {
          String df = Msg.diff(f, v);
          c.check(df == null && n == u, () -> w + ": consumed " + n + " bytes against " + u + ", value differs from that of a " + Bufs.READ[0] + " buffer: " + df);
        }
      }
      Bufs.free(b);
    }
    c.count(first == null ? "damaged inputs rejected on every kind" : "damaged inputs accepted alike on every kind");
  }

  /** an encode that fails for lack of room leaves what lay before the writer, the reader and the reference count alone */
  static void noRoom(Case c, T t, Msg m) {
    Rng r = c.rng;
    MsgSpec s = t.s;
    Bind bind = c.run.bind;
    byte[] e = Checks.plain(c.run, s, bind.toObject(m, r));
    if (e.length == 0) return;
    byte[] pre = Checks.junk(r);
    int room = r.below(e.length);
    ByteBuf b;
    switch (r.below(3)) {
      case 0: b = Unpooled.buffer(pre.length + room, pre.length + room); break;
      case 1: b = PooledByteBufAllocator.DEFAULT.directBuffer(pre.length + room, pre.length + room); break;
      default: b = PooledByteBufAllocator.DEFAULT.heapBuffer(pre.length, pre.length + room);
    }
    b.writeBytes(pre);
    int ri = r.range(0, pre.length);
    b.readerIndex(ri);
    int refs = b.refCnt();
    String w = t + " with room for " + room + " of " + e.length + " bytes";
    Object o = bind.toObject(m, r);
    RuntimeException x = null;
    try {
      bind.encode(s, o, b);
    } catch (RuntimeException ex) {
      x = ex;
    }
    c.check(b.refCnt() == refs, () -> w + ": reference count " + refs + " became " + b.refCnt() + " in a failed encode");
    c.check(x != null, () -> w + ": nothing failed, writer at " + b.writerIndex());
    c.check(b.readerIndex() == ri && b.writerIndex() >= pre.length && b.writerIndex() <= pre.length + room, () -> w + ": indices " + b.readerIndex() + ", " + b.writerIndex() + " after a failed encode, from " + ri + ", " + pre.length);
    byte[] front = Bufs.slice(b, 0, pre.length);
    c.check(Arrays.equals(front, pre), () -> w + ": bytes before the writer changed: " + Show.firstDiff(pre, front));
    byte[] again = Checks.plain(c.run, s, o);
    c.check(Arrays.equals(again, e), () -> w + ": encodes differently after the failed encode: " + Show.firstDiff(e, again));
    b.release();
    c.count("encodes that failed for lack of room");
  }
}
