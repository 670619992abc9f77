package vp;

import com.finproto.codec.*;
import io.netty.buffer.*;
import java.util.*;
import java.util.concurrent.*;
import vp.Run.*;

public final class SumChecks {
  static final String[] N = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};

  @SuppressWarnings("unchecked")
  static ChecksumService<ByteBuf, Integer>[] fresh() {
    return new ChecksumService[] {new Crc16ChecksumService(), new Crc32ChecksumService(), new SseBinChecksumService(), new SzseBinChecksumService()};
  }

  static void c19(Run run) {
    run.stepLimit = Long.MAX_VALUE / 2; // the large buffers legitimately execute billions of lines; the watchdog bounds the time
    run.rule = "A case computes all four checksums of random content (runs, high bytes, ramps, random; 0 to 64 KiB, up to 64 MiB in the large phase) at a random position in a buffer of random kind with surrounding junk and compares with independent implementations (JDK CRC32, bitwise CRC-16, byte sum); verify must accept exactly that value; positions, marks and content must be unchanged; services are shared by all threads. Distinct: content and position.";
    run.minEvals = 100;
    ChecksumService<ByteBuf, Integer>[] shared = fresh();
    for (int i = 0; i < 2; i++) {
      ChecksumService<ByteBuf, Integer> s = ChecksumServiceFactory.getInstance().getChecksumService(N[i]);
      if (s == null) run.violation("factory", i, N[i] + " is not available from the factory");
      else shared[i] = s;
    }
    for (int i = 0; i < 4; i++) {
      String a = fresh()[i].algorithm();
      if (!N[i].equals(a)) run.violation("names", i, "service " + N[i] + " calls itself " + a);
    }
    run.cases("short", 66_000, c -> one(c, shared, c.index < 256 ? new byte[] {(byte) c.index} : c.index < 65_792 ? new byte[] {(byte) (c.index >> 8), (byte) c.index} : new byte[0]));
    run.cases("values", run.n(60_000), c -> one(c, c.rng.chance(1, 8) ? fresh() : shared, content(c.rng, c.rng.chance(1, 60) ? c.rng.below(65_536) : c.rng.below(c.rng.chance(1, 5) ? 3000 : 80))));
    int[] big = run.thorough ? new int[] {1 << 20, (1 << 23) + 1, 1 << 24, (1 << 24) + 65_537, 1 << 25, 1 << 26, 1 << 27} : new int[] {1 << 20, (1 << 23) + 130_000, (1 << 24) + 70_000};
    run.casesSeq("large", big.length * 3L, c -> {
      int n = big[(int) (c.index % big.length)];
      byte[] b;
      if (c.index / big.length == 0) {
        b = new byte[n];
        Arrays.fill(b, (byte) 0xff);
      } else b = content(c.rng, n);
      one(c, shared, b);
      c.run.count("large buffers", 1);
    });
  }

  static byte[] content(Rng r, int n) {
    byte[] b = new byte[n];
    switch (r.below(6)) {
      case 0: Arrays.fill(b, (byte) r.next()); return b;
      case 1: Arrays.fill(b, (byte) 0xff); return b;
      case 2: for (int i = 0; i < n; i++) b[i] = (byte) i; return b;
      case 3: if (n > 0) b[r.below(n)] = (byte) (1 << r.below(8)); return b;
      case 4: for (int i = 0; i < n; i++) b[i] = (byte) (0x80 | r.below(128)); return b;
      default: return r.bytes(n);
    }
  }

  static void one(Case c, ChecksumService<ByteBuf, Integer>[] sv, byte[] data) {
    Rng r = c.rng;
    int[] want = {RefSum.crc16(data), RefSum.crc32(data), RefSum.sum8(data), RefSum.sum8(data)};
    boolean bigd = data.length > 1 << 19;
    byte[] pre = Checks.junk(r), post = Checks.junk(r);
    String kind = bigd && r.chance(1, 2) ? "heap" : r.pick(Bufs.READ);
    ByteBuf b = Bufs.readable(kind, pre, data, post, r);
    int r0 = b.readerIndex(), w0 = b.writerIndex(), refs = b.refCnt();
    int mr = r.range(0, r0);
    b.readerIndex(mr).markReaderIndex().readerIndex(r0).markWriterIndex();
    byte[] before = bigd ? null : Bufs.image(b);
    for (int k = 0; k < 4; k++) {
      int i = (int) ((k + c.index) % 4);
      String w = N[i] + " of " + data.length + " bytes " + Show.hex(data, 40) + " in a " + kind + " buffer at " + r0;
      Integer got = sv[i].calc(b);
      c.check(got != null && got == want[i], () -> w + ": " + got + ", expected " + want[i]);
      c.check(sv[i].verify(b, want[i]), () -> w + ": verify rejects the right value " + want[i]);
      int bit = 1 << r.below(32), wrong = r.chance(1, 2) ? want[i] ^ bit : r.chance(1, 2) ? ~want[i] : want[i] + 1;
      c.check(!sv[i].verify(b, wrong), () -> w + ": verify accepts " + wrong + " (right value " + want[i] + ")");
      if (k == 0) {
        c.check(!sv[i].verify(b, null), () -> w + ": verify accepts null");
        int[] others = {want[i] & 0xff, want[i] & 0xffff, (short) want[i], (byte) want[i], want[i] | 0x10000, want[i] ^ 0x80000000, Integer.reverseBytes(want[i]), -want[i], want[i] + 256};
        for (int o : others) if (o != want[i]) c.check(!sv[i].verify(b, o), () -> w + ": verify accepts " + o + " (right value " + want[i] + ")");
      }
      c.check(b.readerIndex() == r0 && b.writerIndex() == w0, () -> w + ": positions moved to " + b.readerIndex() + "/" + b.writerIndex() + " from " + r0 + "/" + w0);
      c.check(b.refCnt() == refs, () -> w + ": reference count changed");
      c.count("values compared for " + N[i]);
    }
    if (before != null) {
      byte[] after = Bufs.image(b);
      c.check(Arrays.equals(before, after), () -> "calculating changed the buffer: " + Show.firstDiff(before, after));
    }
    b.resetReaderIndex();
    c.check(b.readerIndex() == mr, () -> "calculating moved the reader mark");
    b.readerIndex(0).resetWriterIndex();
    c.check(b.writerIndex() == w0, () -> "calculating moved the writer mark");
    Bufs.free(b);
    c.distinct(Checks.hash("" + data.length, data.length > 4096 ? Arrays.copyOf(data, 4096) : data));
    c.sample(() -> data.length + " bytes " + Show.hex(data, 20) + " in " + kind + ": crc16 " + want[0] + " crc32 " + want[1] + " sum " + want[2]);
  }
}
