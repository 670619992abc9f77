package vp;

/** Target of the probes that Instrument inserts at every source line of the repository's classes. */
public final class Probe {
  public static final byte[] cov = new byte[1 << 18];

  /** Thread owned by the harness; carries the logical step counter and the schedule perturbation. */
  public static class VThread extends Thread {
    public long steps, limit = Long.MAX_VALUE, total;
    public int yieldOneIn; // 0: none
    public long s;
    public long yields;
    /** how long a static initialiser is held at its start, in microseconds */
    public int initPause;
    /** the case being run, for the monitor of cases that do not end */
    public volatile long caseIndex = -1, caseSince, caseCpu;

    public VThread(Runnable r, String name) {
      this(r, name, 16L << 20);
    }

    public VThread(Runnable r, String name, long stack) {
      super(null, r, name, stack);
      setDaemon(true);
    }
  }

  public static final class StepLimit extends Error {
    StepLimit(long n) {
      super("no end after " + n + " executed source lines");
    }
  }

  /** counts stop here: a probe hit fewer times than this is rare */
  static final int ENOUGH = 25;

  public static void hit(int id) {
    byte n = cov[id];
    if (n < ENOUGH) cov[id] = (byte) (n + 1);
    Thread t = Thread.currentThread();
    if (t instanceof VThread) {
      VThread v = (VThread) t;
      if (++v.steps > v.limit) {
        long l = v.limit;
        v.limit = Long.MAX_VALUE;
        throw new StepLimit(l);
      }
      if (v.yieldOneIn != 0) perturb(v);
    }
  }

  /** a static initialiser begins */
  public static void init() {
    Thread t = Thread.currentThread();
    if (t instanceof VThread && ((VThread) t).initPause > 0) java.util.concurrent.locks.LockSupport.parkNanos(((VThread) t).initPause * 1000L);
  }

  public static void edge(int id) {
    byte n = cov[id];
    if (n < ENOUGH) cov[id] = (byte) (n + 1);
  }

  private static volatile int spin;

  private static void perturb(VThread v) {
    v.s = v.s * 6364136223846793005L + 1442695040888963407L;
    int r = (int) (v.s >>> 33);
    if (r % v.yieldOneIn != 0) return;
    v.yields++;
    int k = (r >>> 20) & 7;
    if (k < 4) Thread.yield();
    else if (k < 7) for (int i = (r >>> 8) & 0x3ff; i > 0; i--) spin = i;
    else java.util.concurrent.locks.LockSupport.parkNanos(1000);
  }

  public static VThread me() {
    Thread t = Thread.currentThread();
    return t instanceof VThread ? (VThread) t : null;
  }

  /** runs r with at most n executed lines of repository code */
  public static void limit(long n) {
    VThread v = me();
    if (v != null) {
      v.total += v.steps;
      v.steps = 0;
      v.limit = n;
    }
  }
}
