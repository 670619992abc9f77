package vp;

import io.netty.buffer.*;
import java.nio.ByteBuffer;
import java.util.*;

/** Buffers of every kind, with chosen content before and after the region of interest. */
public final class Bufs {
  public static final String[] READ = {"heap", "offset-array", "direct", "pooled-heap", "pooled-direct", "composite", "slice", "read-only", "read-only-direct", "nio-direct", "composite-slice", "duplicate"};
  public static final String[] WRITE = {"heap-min", "heap", "direct-min", "direct", "pooled-heap", "pooled-direct", "composite", "exact-slice", "exact-max", "roomy", "unreleasable", "wrapped-composite"};

  /** readable bytes = data, at readerIndex = pre.length in memory that also holds pre and (after the writer index) post */
  public static ByteBuf readable(String kind, byte[] pre, byte[] data, byte[] post, Rng r) {
    int a = pre.length, n = data.length, z = post.length;
    byte[] all = new byte[a + n + z];
    System.arraycopy(pre, 0, all, 0, a);
    System.arraycopy(data, 0, all, a, n);
    System.arraycopy(post, 0, all, a + n, z);
    ByteBuf b;
    switch (kind) {
      case "heap": b = Unpooled.buffer(Math.max(1, all.length)).writeBytes(all); break;
      case "offset-array": {
        byte[] w = new byte[all.length + 11];
        Arrays.fill(w, (byte) 0x5a);
        System.arraycopy(all, 0, w, 7, all.length);
        b = Unpooled.wrappedBuffer(w, 7, all.length);
        break;
      }
      case "direct": b = Unpooled.directBuffer(Math.max(1, all.length)).writeBytes(all); break;
      case "pooled-heap": b = PooledByteBufAllocator.DEFAULT.heapBuffer(Math.max(1, all.length)).writeBytes(all); break;
      case "pooled-direct": b = PooledByteBufAllocator.DEFAULT.directBuffer(Math.max(1, all.length)).writeBytes(all); break;
      case "composite": b = composite(all, r); break;
      case "composite-slice": {
        byte[] w = new byte[all.length + 9];
        System.arraycopy(all, 0, w, 5, all.length);
        b = composite(w, r).slice(5, all.length);
        break;
      }
      case "slice": {
        byte[] w = new byte[all.length + 13];
        Arrays.fill(w, (byte) 0x33);
        System.arraycopy(all, 0, w, 4, all.length);
        b = Unpooled.wrappedBuffer(w).slice(4, all.length);
        break;
      }
      case "read-only": b = Unpooled.wrappedBuffer(all).asReadOnly(); break;
      case "read-only-direct": {
        ByteBuffer d = ByteBuffer.allocateDirect(all.length);
        d.put(all).flip();
        b = Unpooled.wrappedBuffer(d.asReadOnlyBuffer());
        break;
      }
      case "nio-direct": {
        ByteBuffer d = ByteBuffer.allocateDirect(all.length);
        d.put(all).flip();
        b = Unpooled.wrappedBuffer(d);
        break;
      }
      case "duplicate": b = Unpooled.wrappedBuffer(all).duplicate(); break;
      default: throw new IllegalArgumentException(kind);
    }
    b.setIndex(a, a + n);
    return b;
  }

  private static ByteBuf composite(byte[] all, Rng r) {
    CompositeByteBuf c = Unpooled.compositeBuffer(64);
    int p = 0, parts = 0;
    while (p < all.length) {
      int k = parts++ > 40 ? all.length - p : Math.min(all.length - p, r.chance(1, 3) ? 1 + r.below(3) : 1 + r.below(Math.max(8, all.length / 3)));
      byte[] s = Arrays.copyOfRange(all, p, p + k);
      c.addComponent(true, r.chance(1, 2) ? Unpooled.wrappedBuffer(s) : Unpooled.directBuffer(k).writeBytes(s));
      p += k;
    }
    return c;
  }

  /**
   * A buffer to append n bytes to: content pre, readerIndex ri <= pre.length, writerIndex pre.length; where the kind has spare
   * capacity it is filled with the pattern fill.
   */
  public static ByteBuf writable(String kind, byte[] pre, int ri, int n, byte fill, Rng r) {
    int a = pre.length, cap = a + n + 17;
    ByteBuf b;
    switch (kind) {
      case "heap-min": b = Unpooled.buffer(Math.max(1, a), Integer.MAX_VALUE); break;
      case "heap": b = Unpooled.buffer(cap); break;
      case "roomy": {
        int room = r.chance(1, 60) ? r.pick(new int[] {1 << 16, 70_000, 140_000}) : r.pick(new int[] {300, 1100, 4200});
        b = r.chance(1, 2) ? Unpooled.buffer(cap + room) : Unpooled.directBuffer(cap + room);
        break;
      }
      case "direct-min": b = Unpooled.directBuffer(Math.max(1, a)); break;
      case "direct": b = Unpooled.directBuffer(cap); break;
      case "pooled-heap": b = PooledByteBufAllocator.DEFAULT.heapBuffer(r.chance(1, 2) ? 1 : cap); break;
      case "pooled-direct": b = PooledByteBufAllocator.DEFAULT.directBuffer(r.chance(1, 2) ? 1 : cap); break;
      case "composite": {
        CompositeByteBuf c = Unpooled.compositeBuffer(64);
        int left = cap, parts = 0;
        while (left > 0) {
          int k = parts++ > 30 ? left : Math.min(left, 1 + r.below(24));
          c.addComponent(true, (r.chance(1, 2) ? Unpooled.directBuffer(k) : Unpooled.buffer(k)).writeZero(k));
          left -= k;
        }
        c.setIndex(0, 0);
        b = c;
        break;
      }
      case "wrapped-composite": b = Unpooled.compositeBuffer(4); break;
      case "exact-slice": b = Unpooled.buffer(a + n + 20).slice(10, a + n); b.setIndex(0, 0); break;
      case "exact-max": b = Unpooled.buffer(Math.max(1, a), Math.max(1, a + n)); break;
      case "unreleasable": b = Unpooled.unreleasableBuffer(Unpooled.buffer(cap)); break;
      default: throw new IllegalArgumentException(kind);
    }
    b.writeBytes(pre);
    byte[] behind = new byte[b.capacity() - b.writerIndex()];
    Arrays.fill(behind, fill);
    b.setBytes(b.writerIndex(), behind);
    b.readerIndex(ri);
    return b;
  }

  public static byte[] slice(ByteBuf b, int off, int n) {
    byte[] x = new byte[n];
    b.getBytes(off, x);
    return x;
  }

  /** every byte of the capacity */
  public static byte[] image(ByteBuf b) {
    return slice(b, 0, b.capacity());
  }

  public static void free(ByteBuf b) {
    if (b.refCnt() > 0) b.release();
  }
}
