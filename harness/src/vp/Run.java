package vp;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.stream.*;

/** One execution of one property's check: cases, verdicts, evidence. */
public final class Run {
  public interface CaseFn {
    void run(Case c) throws Exception;
  }

  public static final class Viol extends RuntimeException {
    public final String known;

    Viol(String m, String known) {
      super(m, null, false, false);
      this.known = known;
    }
  }

  public static final class Case {
    public final Run run;
    public final String phase;
    public final long index;
    public final Rng rng;

    Case(Run run, String phase, long index) {
      this.run = run;
      this.phase = phase;
      this.index = index;
      this.rng = Rng.of(run.seed, run.id + "/" + phase, index);
    }

    public Viol fail(String m) {
      throw new Viol(m, null);
    }

    public void check(boolean ok, java.util.function.Supplier<String> m) {
      if (!ok) throw new Viol(m.get(), null);
    }

    public void count(String k) {
      run.count(k, 1);
    }

    long marked;

    /** one evaluation, identified by what was evaluated */
    public void distinct(long h) {
      marked++;
      run.distinct(h);
    }

    public void sample(java.util.function.Supplier<String> s) {
      run.sample(phase, index, s);
    }
  }

  public final String id, tier;
  public final long seed;
  public final Spec spec;
  public final Bind bind;
  public final RefCodec ref = new RefCodec();
  public final boolean thorough;
  /** below 1: a fraction of the cases, spread over all of them */
  static final double SCALE = Double.parseDouble(System.getProperty("vp.scale", "1"));
  public final int threads = SCALE < 1 ? 2 : Math.max(2, Math.min(8, Runtime.getRuntime().availableProcessors()));
  public String rule = "";
  public long minEvals = 1;
  public final List<String> assumptions = new ArrayList<>();
  final long start = System.nanoTime();
  long budgetNanos;
  final LongAdder evals = new LongAdder();
  final ConcurrentHashMap<String, LongAdder> counters = new ConcurrentHashMap<>();
  final Set<Long> distinct = ConcurrentHashMap.newKeySet();
  final LongAdder distinctOverflow = new LongAdder();
  final Map<String, Long> timing = new TreeMap<>();
  final Map<String, List<String>> samples = new ConcurrentHashMap<>();
  final ConcurrentLinkedQueue<Map<String, String>> violations = new ConcurrentLinkedQueue<>();
  final ConcurrentLinkedQueue<Throwable> errors = new ConcurrentLinkedQueue<>();
  final Map<String, String> known = new LinkedHashMap<>(); // key -> description, listed for this property
  final Set<String> knownSeen = ConcurrentHashMap.newKeySet();
  String replayPhase;
  long replayIndex = -1;
  int replayTimes = 1;
  /** line ceiling per case: an execution beyond it counts as not terminating */
  public long stepLimit = 400_000_000L;

  Run(String id, String tier, long seed, Spec spec, Bind bind) {
    this.id = id;
    this.tier = tier;
    this.seed = seed;
    this.spec = spec;
    this.bind = bind;
    this.thorough = tier.equals("thorough");
    budgetNanos = (thorough ? 420L : 200L) * 1_000_000_000L;
  }

  public void count(String k, long n) {
    counters.computeIfAbsent(k, x -> new LongAdder()).add(n);
  }

  public void distinct(long h) {
    if (distinct.size() < 3_000_000) distinct.add(h);
    else distinctOverflow.increment();
  }

  void sample(String phase, long index, java.util.function.Supplier<String> s) {
    List<String> l = samples.computeIfAbsent(phase, x -> Collections.synchronizedList(new ArrayList<>()));
    if (l.size() < 3 && index % 7 == l.size()) {
      String t = s.get();
      l.add(t.length() > 600 ? t.substring(0, 600) + "..." : t);
    }
  }

  /** a deviation that is listed in the known-findings file is recorded, any other is a violation */
  public void known(Case c, String key, java.util.function.Supplier<String> what) {
    if (known.containsKey(key)) {
      knownSeen.add(key);
      count("deviations matching a known finding", 1);
      return;
    }
    throw new Viol(what.get() + " [" + key + "]", key);
  }

  /** threads of a case are stuck for good: nothing more is run */
  volatile boolean hung;

  boolean stop() {
    return hung || violations.size() >= 20 || errors.size() >= 5;
  }

  public boolean timeUp() {
    return System.nanoTime() - start > budgetNanos;
  }

  /** quick count, multiplied in the thorough tier */
  public int n(int quick) {
    return thorough ? quick * 12 : quick;
  }

  public void cases(String phase, long n, CaseFn fn) {
    exec(phase, n, fn, threads);
  }

  /** whether reaching this probe more often is worth extra cases */
  public java.util.function.Predicate<Probes.P> interest = p ->
      !p.method.startsWith("equals(") && !p.method.startsWith("<") && !p.method.startsWith("create") && !p.method.startsWith("regist") && !p.method.startsWith("remove") && !p.method.startsWith("get");
  public double focusSeconds = -1;

  /**
   * n cases, number i on target i modulo their number; then more cases on the targets whose classes contain code that few cases
   * have reached so far. The targets are T, Field or F.
   */
  public void cases(String phase, long n, List<?> targets, CaseFn fn) {
    exec(phase, n, fn, threads);
    if (replayPhase != null || stop() || targets.isEmpty() || SCALE < 1) return;
    int k = targets.size();
    List<Set<String>> cls = new ArrayList<>();
    for (Object t : targets) cls.add(Checks.classes(spec, t));
    long round = (n + k - 1) / k;
    double secs = focusSeconds >= 0 ? focusSeconds : thorough ? 60 : 6;
    long end = System.nanoTime() + (long) (secs * 1e9);
    long done = 0;
    Set<String> shown = new TreeSet<>();
    while (System.nanoTime() < end && !stop() && !timeUp()) {
      Set<String> rare = new HashSet<>();
      for (Probes.P p : Probes.rare(interest)) rare.add(p.top());
      List<Integer> pick = new ArrayList<>();
      for (int i = 0; i < k; i++) if (!Collections.disjoint(cls.get(i), rare)) pick.add(i);
      if (pick.isEmpty()) break;
      for (String x : rare) if (shown.size() < 12) shown.add(x.substring(x.lastIndexOf('.') + 1));
      int m = pick.size(), rounds = Math.max(1, 1500 / m);
      long from = round;
      exec(phase, (long) m * rounds, fn, threads, j -> (from + j / m) * k + pick.get((int) (j % m)), end);
      round += rounds;
      done += (long) m * rounds;
    }
    if (done > 0) {
      count("extra cases on classes with rarely reached code", done);
      sample(phase + " rarely reached code in", 0, shown::toString);
    }
  }

  public void casesSeq(String phase, long n, CaseFn fn) {
    exec(phase, n, fn, 1);
  }

  private void exec(String phase, long n, CaseFn fn, int par) {
    if (SCALE < 1 && n > 40) {
      long k = Math.max(40, (long) (n * SCALE)), step = n % 1_000_003 == 0 ? 1 : 1_000_003;
      exec(phase, k, fn, par, i -> i * step % n, Long.MAX_VALUE);
      return;
    }
    exec(phase, n, fn, par, i -> i, Long.MAX_VALUE);
  }

  private void exec(String phase, long n, CaseFn fn, int par, java.util.function.LongUnaryOperator index, long end) {
    if (stop()) return;
    if (replayPhase != null) {
      if (!replayPhase.equals(phase)) return;
      par = 1;
    }
    long t0 = System.nanoTime();
    AtomicLong next = new AtomicLong();
    List<Probe.VThread> ts = new ArrayList<>();
    for (int t = 0; t < par; t++) {
      Probe.VThread th = new Probe.VThread(() -> {
        if (replayPhase != null) {
          for (int k = 0; k < replayTimes && violations.isEmpty(); k++) one(phase, replayIndex, fn);
          return;
        }
        for (;;) {
          long i = next.getAndIncrement();
          if (i >= n || stop()) return;
          if (timeUp()) {
            count("cases not reached within the time budget", 1);
            return;
          }
          if (end != Long.MAX_VALUE && System.nanoTime() > end) return;
          one(phase, index.applyAsLong(i), fn);
        }
      }, phase + "-" + t);
      ts.add(th);
      th.start();
    }
    Thread mon = new Thread(() -> monitor(phase, ts), "monitor");
    mon.setDaemon(true);
    mon.start();
    for (Thread t : ts)
      try {
        t.join();
      } catch (InterruptedException e) {
        throw new RuntimeException(e);
      }
    mon.interrupt();
    timing.merge(phase, System.nanoTime() - t0, Long::sum);
    for (Probe.VThread t : ts) count("source lines of repository code executed by case threads", t.total + t.steps);
  }

  /** a case that stays inside the repository's code for 100 s of processor time, or 300 s without any end, has hung */
  private void monitor(String phase, List<Probe.VThread> ts) {
    try {
      for (;;) {
        Thread.sleep(3000);
        for (Probe.VThread t : ts) {
          long i = t.caseIndex;
          if (i < 0 || !t.isAlive()) continue;
          long wall = System.nanoTime() - t.caseSince, cpu = CPU.getThreadCpuTime(t.getId()) - t.caseCpu;
          if (cpu < 100_000_000_000L && wall < 300_000_000_000L) continue;
          StackTraceElement[] st = t.getStackTrace();
          if (t.caseIndex != i) continue;
          boolean in = false;
          StringBuilder b = new StringBuilder("no end after " + wall / 1_000_000_000L + " s (" + cpu / 1_000_000_000L + " s of processor time):");
          for (int k = 0; k < st.length; k++) {
            in |= st[k].getClassName().startsWith("com.finproto.");
            if (k < 12) b.append("\n    at ").append(st[k]);
          }
          if (!in) continue;
          violation(phase, i, b.toString());
          int rc = 1;
          try {
            rc = finish(Main.evidence, Main.classes);
          } catch (Throwable e) {
            e.printStackTrace();
          }
          System.out.flush();
          Runtime.getRuntime().halt(rc);
        }
      }
    } catch (InterruptedException e) {
      // the phase is over
    }
  }

  static final java.lang.management.ThreadMXBean CPU = java.lang.management.ManagementFactory.getThreadMXBean();

  static boolean fromSut(Throwable t) {
    for (Throwable x = t; x != null; x = x.getCause()) {
      if (x instanceof Probe.StepLimit) return true;
      for (StackTraceElement e : x.getStackTrace()) if (e.getClassName().startsWith("com.finproto.")) return true;
    }
    return false;
  }

  static String brief(Throwable t) {
    StringBuilder b = new StringBuilder(t.toString());
    int k = 0;
    for (StackTraceElement e : t.getStackTrace()) {
      if (k++ == 14) break;
      b.append("\n    at ").append(e);
    }
    return b.toString();
  }

  private void one(String phase, long i, CaseFn fn) {
    Case c = new Case(this, phase, i);
    Probe.VThread me = Probe.me();
    if (me != null) {
      me.caseSince = System.nanoTime();
      me.caseCpu = CPU.getCurrentThreadCpuTime();
      me.caseIndex = i;
    }
    try {
      Probe.limit(stepLimit);
      fn.run(c);
    } catch (Viol v) {
      violation(phase, i, v.getMessage());
    } catch (Throwable t) {
      Throwable u = t instanceof ExceptionInInitializerError && t.getCause() != null ? t.getCause() : t;
      if (fromSut(u) || t instanceof ExceptionInInitializerError || t instanceof NoClassDefFoundError)
        violation(phase, i, "unexpected " + brief(u));
      else errors.add(new RuntimeException("harness error in " + phase + " #" + i, t));
    } finally {
      if (me != null) me.caseIndex = -1;
      Probe.limit(Long.MAX_VALUE);
      evals.add(Math.max(1, c.marked));
    }
  }

  public void violation(String phase, long i, String m) {
    Map<String, String> v = new LinkedHashMap<>();
    v.put("phase", phase);
    v.put("index", Long.toString(i));
    v.put("message", m);
    violations.add(v);
  }

  // ---- output

  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char ch : s.toCharArray()) {
      if (ch == '"' || ch == '\\') b.append('\\').append(ch);
      else if (ch == '\n') b.append("\\n");
      else if (ch < 0x20 || ch > 0x7e) b.append(String.format("\\u%04x", (int) ch));
      else b.append(ch);
    }
    return b.append('"').toString();
  }

  static String unq(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char ch = s.charAt(i);
      if (ch != '\\') b.append(ch);
      else {
        ch = s.charAt(++i);
        if (ch == 'n') b.append('\n');
        else if (ch == 'u') {
          b.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16));
          i += 4;
        } else b.append(ch);
      }
    }
    return b.toString();
  }

  int finish(Path evidence, Path classes) throws IOException {
    Files.createDirectories(evidence.resolve("replay"));
    double wall = (System.nanoTime() - start) / 1e9;
    long ev = evals.sum();
    TreeMap<String, Object> cov = new TreeMap<>();
    StringBuilder b = new StringBuilder();
    b.append("{\n \"property\": ").append(q(id)).append(",\n \"tier\": ").append(q(tier)).append(",\n \"seed\": ").append(seed);
    b.append(",\n \"level\": \"exploration\",\n \"coverage\": {\n");
    b.append("  \"evaluations\": ").append(ev).append(",\n  \"distinct_nontrivial\": ").append(distinct.size());
    b.append(",\n  \"rule\": ").append(q(rule)).append(",\n  \"observed\": {");
    boolean first = true;
    for (Map.Entry<String, LongAdder> e : new TreeMap<>(counters).entrySet()) {
      b.append(first ? "\n" : ",\n").append("   ").append(q(e.getKey())).append(": ").append(e.getValue().sum());
      first = false;
    }
    b.append("\n  },\n");
    lines(b, classes);
    b.append("  \"samples\": [");
    first = true;
    for (Map.Entry<String, List<String>> e : new TreeMap<>(samples).entrySet())
      for (String s : e.getValue()) {
        b.append(first ? "\n" : ",\n").append("   ").append(q(e.getKey() + ": " + s));
        first = false;
      }
    b.append("\n  ],\n  \"seconds_per_phase\": {");
    b.append(timing.entrySet().stream().map(e -> q(e.getKey()) + ": " + String.format(Locale.ROOT, "%.1f", e.getValue() / 1e9)).collect(Collectors.joining(", "))).append("}");
    b.append("\n },\n \"assumptions\": [");
    b.append(assumptions.stream().map(Run::q).collect(Collectors.joining(", ")));
    b.append("],\n \"known_findings_observed\": [").append(knownSeen.stream().sorted().map(Run::q).collect(Collectors.joining(", ")));
    b.append("],\n \"wall_s\": ").append(String.format(Locale.ROOT, "%.2f", wall)).append(",\n \"violations\": ").append(violations.size()).append("\n}\n");
    if (replayPhase == null) Files.write(evidence.resolve(id + ".json"), b.toString().getBytes(StandardCharsets.UTF_8));

    for (Throwable t : errors) t.printStackTrace();
    int shown = 0;
    Path rp = null;
    for (Map<String, String> v : violations) {
      if (shown++ == 0) {
        rp = evidence.resolve("replay").resolve(id + "-" + tier + "-" + seed + ".json");
        if (replayPhase == null) {
          String j = "{\"property\": " + q(id) + ", \"tier\": " + q(tier) + ", \"seed\": " + seed + ", \"phase\": " + q(v.get("phase")) + ", \"index\": "
              + v.get("index") + ", \"message\": " + q(v.get("message")) + "}\n";
          Files.write(rp, j.getBytes(StandardCharsets.UTF_8));
        }
      }
      if (shown <= 5) {
        String m = v.get("message");
        System.out.println("  " + id + " " + v.get("phase") + " #" + v.get("index") + ": " + (m.length() > 1500 ? m.substring(0, 1500) + "..." : m));
      }
    }
    System.out.println(String.format(Locale.ROOT, "%s %s seed=%d: %d evaluations, %d distinct, %.1f s, %d violation(s)", id, tier, seed, ev, distinct.size(), wall, violations.size()));
    if (!violations.isEmpty()) {
      System.out.println("VIOLATION property=" + id + " replay=" + rp);
      return 1;
    }
    if (!errors.isEmpty()) {
      System.out.println("ERROR: the harness failed; no verdict");
      return 2;
    }
    if (replayPhase == null && SCALE >= 1 && (ev < minEvals || distinct.isEmpty())) {
      System.out.println("INCONCLUSIVE: too little observed (" + ev + " evaluations)");
      return 2;
    }
    for (Map.Entry<String, String> e : known.entrySet())
      if (knownSeen.contains(e.getKey())) System.out.println("KNOWN-FINDING: property=" + id + " " + e.getKey() + " " + e.getValue());
    return 0;
  }

  private void lines(StringBuilder b, Path classes) throws IOException {
    Map<String, int[]> per = new TreeMap<>();
    for (Probes.P p : Probes.all) {
      String[] pk = p.cls.split("\\.");
      int[] x = per.computeIfAbsent(pk[2] + (p.line < 0 ? " branches" : " lines"), z -> new int[2]);
      x[1]++;
      if (Probe.cov[p.id] != 0) x[0]++;
    }
    b.append("  \"repository_probes_hit\": {");
    boolean first = true;
    for (Map.Entry<String, int[]> e : per.entrySet()) {
      b.append(first ? "" : ", ").append(q(e.getKey())).append(": ").append(q(e.getValue()[0] + " of " + e.getValue()[1]));
      first = false;
    }
    b.append("},\n");
    if (System.getenv("VP_UNHIT") != null)
      for (Probes.P p : Probes.rare(interest)) System.out.println("RARE " + p.cls + " " + p.method + " " + p.line + " hit " + Probe.cov[p.id]);
  }
}
