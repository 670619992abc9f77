package vp;

/** SplitMix64; every case derives its own stream from (seed, salt, index), so a case can be replayed alone. */
public final class Rng {
  private long s;

  public Rng(long seed) {
    s = seed;
  }

  public static Rng of(long seed, String salt, long index) {
    long h = 0x9E3779B97F4A7C15L ^ seed;
    for (int i = 0; i < salt.length(); i++) h = mix(h * 31 + salt.charAt(i));
    return new Rng(mix(h) ^ mix(index + 0x1234567L));
  }

  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  public long next() {
    s += 0x9E3779B97F4A7C15L;
    return mix(s);
  }

  public int below(int n) {
    return n <= 1 ? 0 : (int) Long.remainderUnsigned(next() >>> 1, n);
  }

  /** inclusive bounds */
  public int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  public boolean chance(int num, int den) {
    return below(den) < num;
  }

  public <T> T pick(T[] a) {
    return a[below(a.length)];
  }

  public <T> T pick(java.util.List<T> a) {
    return a.get(below(a.size()));
  }

  public int pick(int[] a) {
    return a[below(a.length)];
  }

  public byte[] bytes(int n) {
    byte[] b = new byte[n];
    for (int i = 0; i < n; i += 8) {
      long x = next();
      for (int j = i; j < Math.min(n, i + 8); j++, x >>>= 8) b[j] = (byte) x;
    }
    return b;
  }

  public Rng fork() {
    return new Rng(next());
  }
}
