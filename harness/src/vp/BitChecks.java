package vp;

import com.finproto.bitmap.*;
import io.netty.buffer.*;
import java.util.*;
import vp.Run.*;

public final class BitChecks {
  static BitMap make(int bits) {
    return bits == 8 ? new ByteBitMap() : bits == 16 ? new ShortBitMap() : bits == 32 ? new IntBitMap() : new LongBitMap();
  }

  static final int[] SIZES = {8, 16, 32, 64};

  static void expect(Case c, BitMap b, BitSet m, int n, java.util.function.Supplier<String> what) {
    for (int i = 0; i < n; i++) {
      int fi = i;
      boolean x = b.get(i);
      c.check(x == m.get(i), () -> n + "-bit map " + what.get() + ": position " + fi + " reads " + x);
    }
  }

  static void c20(Run run) {
    run.rule = "Phase pairs enumerates, per size, every ordered pair of positions and every pair of operations on them; phase history runs random set/clear/get histories on one or more bitmaps at once against a BitSet model, reading all positions after each step; phase sparse reads single positions at random between the operations. Distinct: size with history.";
    run.minEvals = 4;
    run.cases("size", 4, c -> {
      int n = SIZES[(int) c.index];
      c.check(make(n).bitCount() == n, () -> n + "-bit map reports " + make(n).bitCount() + " positions");
      expect(c, make(n), new BitSet(), n, () -> "when new");
      c.distinct(n);
    });
    run.cases("pairs", 64L * 64 * 4, c -> {
      int n = SIZES[(int) (c.index % 4)];
      int p = (int) (c.index / 4 % 64), q = (int) (c.index / 256);
      if (p >= n || q >= n) return;
      for (int ops = 0; ops < 16; ops++) {
        BitMap b = make(n);
        BitSet m = new BitSet();
        if ((ops & 8) != 0) for (int i = 0; i < n; i++) {
          b.set(i);
          m.set(i);
        }
        StringBuilder log = new StringBuilder((ops & 8) != 0 ? "all set, " : "new, ");
        for (int k = 0; k < 3; k++) {
          int pos = k == 1 ? q : p;
          boolean set = (ops >> k & 1) != 0;
          if (set) b.set(pos);
          else b.clear(pos);
          m.set(pos, set);
          log.append(set ? "set " : "clear ").append(pos).append(", ");
          expect(c, b, m, n, () -> "after " + log);
          c.count("states read");
        }
      }
      c.distinct(Rng.mix(c.index + 77));
      c.sample(() -> n + "-bit: operations on positions " + p + " and " + q);
    });
    run.cases("history", run.n(20_000), c -> {
      Rng r = c.rng;
      int k = r.range(1, 3);
      int[] n = new int[k];
      BitMap[] b = new BitMap[k];
      BitSet[] m = new BitSet[k];
      for (int i = 0; i < k; i++) {
        n[i] = SIZES[r.below(4)];
        b[i] = make(n[i]);
        m[i] = new BitSet();
      }
      StringBuilder log = new StringBuilder();
      long h = 0;
      for (int s = r.range(1, 60); s > 0; s--) {
        int i = r.below(k), p = r.below(n[i]);
        int op = r.below(5);
        if (op < 2) {
          b[i].set(p);
          m[i].set(p);
        } else if (op < 4) {
          b[i].clear(p);
          m[i].clear(p);
        }
        log.append(i).append(op < 2 ? "+" : op < 4 ? "-" : "?").append(p).append(' ');
        h = h * 131 + op * 64 + p + i * 1000;
        for (int j = 0; j < k; j++) {
          int fj = j;
          expect(c, b[j], m[j], n[j], () -> "(#" + fj + ") after " + log);
          expect(c, b[j], m[j], n[j], () -> "(#" + fj + ", read again) after " + log);
        }
        c.count("states read");
      }
      c.distinct(Rng.mix(h));
      c.sample(log::toString);
    });
    // single reads between the operations, each position read on its own, several times or not at all
    run.cases("sparse", run.n(200_000), c -> {
      Rng r = c.rng;
      int n = SIZES[r.below(4)];
      BitMap b = make(n);
      BitSet m = new BitSet();
      int[] few = new int[r.range(1, 3)];
      for (int i = 0; i < few.length; i++) few[i] = r.below(n);
      StringBuilder log = new StringBuilder(n + ": ");
      for (int s = r.range(2, 30); s > 0; s--) {
        int p = r.chance(1, 12) ? r.below(n) : few[r.below(few.length)], op = r.below(4);
        log.append(op == 0 ? "+" : op == 1 ? "-" : "?").append(p).append(' ');
        if (op == 0) {
          b.set(p);
          m.set(p);
        } else if (op == 1) {
          b.clear(p);
          m.clear(p);
        } else {
          boolean x = b.get(p);
          c.check(x == m.get(p), () -> "history " + log + ": reads " + x);
          c.count("single reads");
        }
      }
      expect(c, b, m, n, () -> "after " + log);
      c.distinct(Rng.mix(log.toString().hashCode() + 13L));
      c.sample(log::toString);
    });
  }

  // ---- C21

  /** the positions that hold after a map with only p set is written and read back */
  static BitSet image(int n, int p) {
    BitMap a = make(n), b = make(n);
    a.set(p);
    ByteBuf buf = Unpooled.buffer(32);
    a.write(buf);
    b.read(buf);
    return bits(b, n);
  }

  static BitSet bits(BitMap b, int n) {
    BitSet s = new BitSet();
    for (int i = 0; i < n; i++) if (b.get(i)) s.set(i);
    return s;
  }

  static void c21(Run run) {
    run.rule = "Phase single writes and reads back every map with one position set (exhaustive): identity, or the exact deviation of that position listed in known_findings.txt. Phase state writes random states (all 256 and all 65536 for the small sizes) from and into buffers of every kind, into new and used maps: the result must be the union of the single-position results, the same number of bytes appended and consumed, nothing else changed. Phase row writes several maps behind one another and reads them back in order. Distinct: size with state.";
    run.minEvals = 4;
    boolean[][] listed = new boolean[65][64];
    BitSet[][] img = new BitSet[65][64];
    run.casesSeq("single", 120, c -> {
      int i = (int) c.index;
      int n = i < 8 ? 8 : i < 24 ? 16 : i < 56 ? 32 : 64;
      int p = i - (n == 8 ? 0 : n == 16 ? 8 : n == 32 ? 24 : 56);
      BitSet got = image(n, p), want = new BitSet();
      want.set(p);
      if (!got.equals(want)) {
        c.run.known(c, n + "-bit:" + p + "->" + got.toString().replace(" ", ""), () -> n + "-bit map with only position " + p + " set reads back as " + got);
        listed[n][p] = true;
      } else c.count("positions that survive alone");
      img[n][p] = got;
      c.distinct(Rng.mix(n * 100L + p));
      c.sample(() -> n + "-bit: " + p + " -> " + got);
    });
    if (!run.violations.isEmpty() || run.replayPhase != null) fill(img);
    boolean[] anyListed = new boolean[65];
    for (int n : SIZES) for (int p = 0; p < n; p++) anyListed[n] |= listed[n][p];
    long[] width = new long[65];
    Arrays.fill(width, -1);
    for (int n : SIZES) {
      ByteBuf b = Unpooled.buffer(32);
      make(n).write(b);
      width[n] = b.writerIndex();
      run.count("bytes written by a new " + n + "-bit map", width[n]);
    }
    run.cases("state8", 256, c -> state(c, 8, c.index, img, width));
    // maps written behind one another into one buffer are read back one after the other as each alone
    run.cases("row", run.n(40_000), c -> row(c, width));
    run.cases("state16", 65_536, c -> state(c, 16, c.index, img, width));
    run.cases("state", run.n(100_000), c -> {
      int n = c.rng.chance(1, 2) ? 32 : 64;
      long v = c.rng.next();
      int k = c.rng.below(6);
      if (k == 0) v = -1;
      else if (k == 1) v = 0;
      else if (k == 2) v = 1L << c.rng.below(64) | 1L << c.rng.below(64);
      else if (k == 3) v &= c.rng.next() & c.rng.next();
      state(c, n, v, img, width);
    });
  }

  static void fill(BitSet[][] img) {
    for (int n : SIZES) for (int p = 0; p < n; p++) if (img[n][p] == null) img[n][p] = image(n, p);
  }

  static void row(Case c, long[] width) {
    Rng r = c.rng;
    int k = r.range(2, 6), same = r.chance(1, 2) ? r.pick(new Integer[] {8, 16, 32, 64}) : 0;
    ByteBuf b = r.chance(1, 2) ? Unpooled.buffer(4) : PooledByteBufAllocator.DEFAULT.directBuffer(4);
    int[] ns = new int[k];
    BitSet[] want = new BitSet[k];
    StringBuilder log = new StringBuilder();
    for (int i = 0; i < k; i++) {
      int n = ns[i] = same != 0 ? same : SIZES[r.below(4)];
      long v = r.next();
      int how = r.below(6);
      if (how < 2) v = -1;
      else if (how == 2) v = 0;
      else if (how == 3) v = r.pick(new Long[] {1L, 0x80L, 0x8000L, 0x80000000L, Long.MIN_VALUE, 0x7fL, 0xffL, ~1L, 0x5555555555555555L});
      BitMap a = make(n);
      for (int p = 0; p < n; p++) if ((v >>> p & 1) != 0) a.set(p);
      log.append(n).append(bits(a, n)).append(' ');
      ByteBuf alone = Unpooled.buffer(16);
      a.write(alone);
      BitMap one = make(n);
      one.read(alone);
      want[i] = bits(one, n);
      a.write(b);
    }
    for (int i = 0; i < k; i++) {
      BitMap t = make(ns[i]);
      int at = b.readerIndex(), fi = i;
      try {
        t.read(b);
      } catch (RuntimeException x) {
        c.fail("maps in a row " + log + ": #" + fi + ": " + Run.brief(x));
      }
      c.check(b.readerIndex() - at == width[ns[i]] && bits(t, ns[fi]).equals(want[fi]), () -> "maps in a row " + log + ": #" + fi + " takes " + (b.readerIndex() - at) + " bytes and reads " + bits(t, ns[fi]) + ", alone " + want[fi]);
      c.count("maps read in a row");
    }
    b.release();
    c.distinct(Rng.mix(log.toString().hashCode() + 5L));
    c.sample(log::toString);
  }

  static void state(Case c, int n, long v, BitSet[][] img, long[] width) {
    Rng r = c.rng;
    BitMap a = make(n);
    BitSet m = new BitSet(), want = new BitSet();
    // reach the state by sets and clears
    for (int i = 0; i < n; i++) if (r.chance(1, 4)) a.set(i);
    for (int i = 0; i < n; i++)
      if ((v >>> i & 1) != 0) {
        a.set(i);
        m.set(i);
        want.or(img[n][i]);
      } else a.clear(i);
    byte[] pre = Checks.junk(r);
    String kind = r.pick(Bufs.WRITE);
    int w = (int) width[n];
    byte fillb = (byte) r.next();
    int ri = r.range(0, pre.length);
    ByteBuf b = Bufs.writable(kind, pre, ri, w, fillb, r);
    int cap = b.capacity();
    a.write(b);
    int put = b.writerIndex() - pre.length;
    c.check(put == w, () -> n + "-bit map " + m + ": wrote " + put + " bytes, a new map writes " + w);
    c.check(b.readerIndex() == ri && Arrays.equals(pre, Bufs.slice(b, 0, pre.length)), () -> n + "-bit map: writing changed what was in the buffer");
    if (b.capacity() == cap) for (int i = b.writerIndex(); i < cap; i++) c.check(b.getByte(i) == fillb, () -> n + "-bit map: writing changed bytes behind the writer");
    c.check(bits(a, n).equals(m), () -> n + "-bit map " + m + " changed by writing to " + bits(a, n));
    byte[] out = Bufs.slice(b, pre.length, put);
    if (!kind.equals("exact-slice")) Bufs.free(b);
    BitMap t = make(n);
    boolean used = r.chance(2, 3);
    if (used) for (int i = 0; i < n; i++) if (r.chance(1, 2)) t.set(i);
    BitSet old = bits(t, n);
    byte[] post = r.chance(1, 3) ? new byte[0] : r.bytes(r.below(20));
    ByteBuf in = Bufs.readable(r.pick(Bufs.READ), Checks.junk(r), TextChecks.concat(out, post), Checks.junk(r), r);
    int r0 = in.readerIndex(), w0 = in.writerIndex();
    byte[] before = Bufs.image(in);
    try {
      t.read(in);
    } catch (RuntimeException x) {
      c.fail(n + "-bit map " + m + " written as " + Show.hex(out) + " cannot be read: " + Run.brief(x));
    }
    int took = in.readerIndex() - r0;
    c.check(took == put && in.writerIndex() == w0, () -> n + "-bit map " + m + ": " + put + " bytes written, " + took + " consumed: " + Show.hex(out));
    c.check(Arrays.equals(before, Bufs.image(in)), () -> n + "-bit map: reading changed the buffer");
    BitSet got = bits(t, n);
    c.check(got.equals(want), () -> n + "-bit map " + m + " written as " + Show.hex(out) + " reads back as " + got + (want.equals(m) ? "" : " (known deviations account for " + want + ")") + (used ? ", previous content " + old : ""));
    Bufs.free(in);
    if (!want.equals(m)) c.count("states affected by known findings");
    else c.count("states reproduced exactly");
    c.distinct(Rng.mix(v * 31 + n));
    c.sample(() -> n + "-bit " + m + " -> " + Show.hex(out) + " -> " + got);
  }
}
