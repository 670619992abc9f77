package vp;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import vp.Run.*;

/** C22: the same numbered operations in many processes give the same results. */
public final class EnvChecks {
  static final class Env {
    final String name, jdk, order;
    final int threads;
    final String[] opts;

    Env(String name, String jdk, String order, int threads, String... opts) {
      this.name = name;
      this.jdk = jdk;
      this.order = order;
      this.threads = threads;
      this.opts = opts;
    }

    boolean newPrint() {
      return Integer.parseInt(jdk) >= 19;
    }

    String java() {
      return "/usr/lib/jvm/java-" + jdk + "-openjdk-amd64/bin/java";
    }
  }

  static final Env[] ENVS = {
    new Env("UTF-8, en-US, UTC, in order", "17", "forward", 1, "-Dfile.encoding=UTF-8", "-Duser.language=en", "-Duser.country=US", "-Duser.timezone=UTC"),
    new Env("ISO-8859-1, Turkish, reverse order", "17", "reverse", 1, "-Dfile.encoding=ISO-8859-1", "-Duser.language=tr", "-Duser.country=TR", "-Duser.timezone=Asia/Kolkata"),
    new Env("US-ASCII, Arabic digits, shuffled", "17", "shuffle", 1, "-Dfile.encoding=US-ASCII", "-Duser.language=ar", "-Duser.country=EG", "-Duser.timezone=America/St_Johns"),
    new Env("EBCDIC default charset, assertions enabled", "17", "shuffle", 1, "-Dfile.encoding=IBM1047", "-ea", "-Duser.language=de", "-Duser.country=DE"),
    new Env("half of the operations, other order, another operating system, processor and byte order by name, 64 processors, no context class loader", "17", "half", 1, "-XX:ActiveProcessorCount=64", "-Dos.arch=aarch64", "-Djava.vendor=Other", "-Djava.vm.vendor=Other", "-Dvp.loader=none", "-Dos.name=Windows 10", "-Dsun.cpu.endian=big", "-Dfile.encoding=GBK", "-Duser.language=zh", "-Duser.country=CN", "-Duser.timezone=Asia/Shanghai"),
    new Env("JDK 8, shuffled", "8", "shuffle", 1, "-Dfile.encoding=ISO-8859-1", "-Duser.language=ar", "-Duser.country=SA", "-Duser.timezone=Pacific/Apia"),
    new Env("every buffer watched for leaks, JDK 11, no cleaner", "11", "reverse", 2, "-Dio.netty.leakDetection.level=paranoid", "-Dio.netty.leakDetection.targetRecords=2", "-Dio.netty.maxDirectMemory=0", "-Dfile.encoding=UTF-16"),
    new Env("JDK 11, grouped by type", "11", "grouped", 1, "-Dfile.encoding=windows-1252", "-Duser.language=lt", "-Duser.country=LT"),
    new Env("JDK 21, Thai digits", "21", "reverse", 1, "-Duser.language=th", "-Duser.country=TH", "-Duser.extensions=u-nu-thai-ca-buddhist", "-Dfile.encoding=COMPAT"),
    new Env("JDK 25, Persian", "25", "forward", 1, "-Duser.language=fa", "-Duser.country=IR", "-Dfile.encoding=COMPAT"),
    new Env("no Unsafe, heap buffers preferred", "17", "forward", 1, "-Dio.netty.noUnsafe=true", "-Dio.netty.noPreferDirect=true", "-Dio.netty.allocator.type=unpooled", "-Dfile.encoding=UTF-8"),
    new Env("four threads, shuffled", "17", "shuffle", 4, "-Dfile.encoding=UTF-8", "-Dio.netty.tryReflectionSetAccessible=true"),
    new Env("each operation twice, other line separator and directory", "17", "twice", 1, "-Dline.separator=\r\n", "-Djava.io.tmpdir=/nonexistent", "-Duser.home=/nonexistent", "-Duser.name=nobody", "-Dfile.encoding=UTF-8", "-XX:+UseSerialGC", "-Xss512k"),
    new Env("one processor, baseline compiler", "17", "grouped", 1, "-XX:ActiveProcessorCount=1", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=Shift_JIS", "-Duser.language=hi", "-Duser.country=IN", "-Duser.extensions=u-nu-deva"),
    new Env("after a long past", "17", "reverse", 1, "-Dfile.encoding=UTF-8"),
  };

  static long[][] child(Run run, Env e, int n, int show, StringBuilder text) throws Exception {
    Path out = Files.createTempFile(Main.classes, "env", ".out");
    Path err = Files.createTempFile(Main.classes, "env", ".err");
    try {
      List<String> cmd = new ArrayList<>(Arrays.asList(e.java(), "-Xmx1g", "-XX:-OmitStackTraceInFastThrow"));
      cmd.add("-Dio.netty.leakDetection.level=disabled");
      cmd.addAll(Arrays.asList(e.opts));
      cmd.addAll(Arrays.asList("-cp", System.getProperty("java.class.path"), "vp.EnvChild", Main.home.toString(), Main.classes.toString(),
          Long.toString(run.seed), Integer.toString(n), e.order, Integer.toString(e.threads), Integer.toString(show), out.toString()));
      if (e.name.equals("after a long past")) cmd.add(run.thorough ? "70000" : "9000");
      ProcessBuilder pb = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(err.toFile());
      if (e.order.equals("twice")) pb.directory(new File("/"));
      if (e.order.equals("half")) for (String v : new String[] {"DEBUG", "CI", "TZ", "PROFILE", "LANG_OVERRIDE"}) pb.environment().put(v, v.equals("TZ") ? "Asia/Shanghai" : "1");
      pb.environment().keySet().removeIf(k -> k.startsWith("LC_") || k.equals("LANG"));
      Process p = pb.start();
      if (!p.waitFor(run.thorough ? 400 : 200, TimeUnit.SECONDS)) {
        p.destroyForcibly();
        throw new IllegalStateException("process '" + e.name + "' did not end in time");
      }
      if (p.exitValue() != 0) {
        String s = new String(Files.readAllBytes(err), StandardCharsets.ISO_8859_1);
        throw new IllegalStateException("process '" + e.name + "' ended with " + p.exitValue() + ": " + (s.length() > 2000 ? s.substring(0, 2000) : s));
      }
      if (text != null) text.append(new String(Files.readAllBytes(Paths.get(out + ".txt")), StandardCharsets.UTF_8));
      long[][] r = new long[n][2];
      try (DataInputStream d = new DataInputStream(new BufferedInputStream(Files.newInputStream(out)))) {
        for (long[] x : r) {
          x[0] = d.readLong();
          x[1] = d.readLong();
        }
        byte[] cov = new byte[Probe.cov.length];
        d.readFully(cov);
        for (int i = 0; i < cov.length; i++) if (cov[i] != 0) Probe.cov[i] = cov[i];
      }
      return r;
    } finally {
      Files.deleteIfExists(out);
      Files.deleteIfExists(err);
      Files.deleteIfExists(Paths.get(out + ".txt"));
    }
  }

  static void c22(Run run) throws Exception {
    run.rule = "One seeded list of operations (building, encoding, comparing and printing messages; decoding well-formed, damaged and random bytes; checksums; bitmaps) is executed by separate processes that differ in default charset, locale and digits, time zone, line separator, JDK release, compiler and collector, assertion setting, Netty memory access and allocator, number of processors and threads, and in which operations ran before, how many, and in what order. The results of every operation (bytes, values, acceptance, consumption, text) must be identical in all processes. Evaluations: results compared. Distinct: operations with distinct results.";
    run.assumptions.add("printed forms of messages with floating-point fields are not compared (their text depends on the JDK release), nor are hash codes between processes");
    int n = run.thorough ? 160_000 : 24_000;
    List<Env> envs = new ArrayList<>();
    for (Env e : ENVS) if (Files.isExecutable(Paths.get(e.java()))) envs.add(e);
    run.count("processes", envs.size());
    run.minEvals = 1000;
    long[][] base = null;
    try {
      base = child(run, envs.get(0), n, -1, null);
    } catch (IllegalStateException x) {
      run.errors.add(x);
      return;
    }
    long[][] b = base;
    for (long[] x : b) run.distinct(x[0]);
    run.cases("processes", envs.size() - 1, c -> {
      Env e = envs.get((int) c.index + 1);
      long[][] r = child(run, e, n, -1, null);
      int bad = -1, many = 0;
      for (int i = 0; i < n; i++) {
        if (r[i][0] == 0) continue;
        c.marked++;
        run.count("results compared", 1);
        if (r[i][0] != b[i][0] || r[i][1] != b[i][1]) {
          if (bad < 0) bad = i;
          many++;
        }
      }
      if (bad >= 0) {
        StringBuilder s = new StringBuilder(), t = new StringBuilder();
        child(run, envs.get(0), n, bad, s);
        child(run, e, n, bad, t);
        int k = 0;
        while (k < s.length() && k < t.length() && s.charAt(k) == t.charAt(k)) k++;
        int from = Math.max(0, k - 120);
        int fm = many, fb = bad;
        c.fail("operation " + fb + " (one of " + fm + ") gives another result in process '" + e.name + "' than in process '" + envs.get(0).name + "', from character " + k + " on:\n    "
            + part(s, 0, 200) + "\n    ..." + part(s, from, 260) + "\n    ..." + part(t, from, 260));
      }
      c.sample(() -> e.name + ": " + n + " operations, same results");
    });
    int parts = run.thorough ? 16 : 8;
    run.cases("grind", parts, c -> grind(c, (int) c.index, parts));
    run.cases("again", AGAIN.length * OTHER.length, EnvChecks::again);
  }

  /** processes that repeat the same operations very often, in classes as compiled */
  static void grind(Case c, int part, int parts) throws Exception {
    Run run = c.run;
    Path out = Files.createTempFile(Main.classes, "grind", ".out"), err = Files.createTempFile(Main.classes, "grind", ".err");
    try {
      String cp = System.getProperty("java.class.path").replace(Main.classes.toString(), Main.classes.resolveSibling("c").toString());
      List<String> cmd = new ArrayList<>(Arrays.asList(ENVS[0].java(), "-Xmx1g", "-Xss2m", "-XX:-OmitStackTraceInFastThrow", "-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-Dfile.encoding=UTF-8",
          "-Dio.netty.leakDetection.level=disabled", "-cp", cp, "vp.GrindChild", Main.home.toString(), Main.classes.toString(), Long.toString(run.seed), Integer.toString(part), Integer.toString(parts),
          run.thorough ? "1100000" : "70000", run.thorough ? "240" : "45", out.toString()));
      ProcessBuilder pb = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(err.toFile());
      Process p = pb.start();
      if (!p.waitFor(run.thorough ? 500 : 240, TimeUnit.SECONDS)) {
        p.destroyForcibly();
        throw new IllegalStateException("process 'grind " + part + "' did not end in time");
      }
      if (p.exitValue() != 0) {
        String s = new String(Files.readAllBytes(err), StandardCharsets.ISO_8859_1);
        throw new IllegalStateException("process 'grind " + part + "' ended with " + p.exitValue() + ": " + (s.length() > 2000 ? s.substring(0, 2000) : s));
      }
      List<String> l = new ArrayList<>(Files.readAllLines(out, StandardCharsets.UTF_8));
      if (l.isEmpty()) {
        String s = new String(Files.readAllBytes(err), StandardCharsets.ISO_8859_1);
        throw new IllegalStateException("process 'grind " + part + "' reported nothing: " + (s.length() > 2000 ? s.substring(0, 2000) : s));
      }
      String[] d = l.remove(0).split(" ");
      run.count("operations repeated in long-lived processes", Long.parseLong(d[1]));
      run.count("rejections repeated in long-lived processes", Long.parseLong(d[2]));
      for (Iterator<String> it = l.iterator(); it.hasNext(); ) {
        String s = it.next();
        if (s.startsWith("!skipped ")) {
          run.count("repetitions skipped for lack of time", Long.parseLong(s.substring(9)));
          it.remove();
        }
      }
      if (!l.isEmpty()) c.fail(l.get(0) + (l.size() > 1 ? " (and " + (l.size() - 1) + " more)" : ""));
      c.distinct(Rng.mix(part * 31L + parts));
    } finally {
      Files.deleteIfExists(out);
      Files.deleteIfExists(err);
    }
  }

  static final String[] AGAIN = {"C08", "C10", "C04", "C13", "C01", "C02", "C03", "C05", "C07", "C09", "C12", "C14", "C15", "C16", "C20"};
  static final Env[] OTHER = {
    new Env("assertions enabled, CRLF line separator, English, UTC", "17", "", 2, "-ea", "-Dline.separator=\r\n", "-Dfile.encoding=UTF-8", "-Duser.language=en", "-Duser.country=US", "-Duser.timezone=UTC"),
    new Env("JDK 21, Arabic digits, no Unsafe, unpooled heap buffers", "21", "", 2, "-Duser.language=ar", "-Duser.country=EG", "-Duser.extensions=u-nu-arab", "-Dfile.encoding=COMPAT", "-Dio.netty.noUnsafe=true", "-Dio.netty.noPreferDirect=true", "-Dio.netty.allocator.type=unpooled"),
    new Env("JDK 8, Hindi, UTF-8", "8", "", 2, "-Dfile.encoding=UTF-8", "-Duser.language=hi", "-Duser.country=IN", "-Duser.timezone=America/St_Johns", "-XX:+UseSerialGC"),
    new Env("JDK 11, EBCDIC, German, one processor", "11", "", 2, "-Dfile.encoding=IBM1047", "-Duser.language=de", "-Duser.country=CH", "-XX:ActiveProcessorCount=1", "-XX:TieredStopAtLevel=1", "-Duser.name=x", "-Djava.io.tmpdir=/nonexistent", "-Duser.dir=/"),
  };
  static final Env USUAL = new Env("usual", "17", "", 2, "-Dfile.encoding=ISO-8859-1", "-Duser.language=tr", "-Duser.country=TR", "-Duser.timezone=Asia/Kolkata");

  /** exit code of another property's check, scaled down, in a process of its own */
  static int sub(Run run, String id, Env e, StringBuilder text) throws Exception {
    Path dir = Files.createTempDirectory(Main.classes, "sub");
    Path out = dir.resolve("out.txt");
    try {
      List<String> cmd = new ArrayList<>(Arrays.asList(e.java(), "-Xmx2g", "-Xss4m", "-XX:MaxDirectMemorySize=1g", "-XX:-OmitStackTraceInFastThrow"));
      cmd.addAll(Arrays.asList(e.opts));
      String scale = id.equals("C08") ? "0.01" : id.equals("C16") ? "0.04" : id.equals("C12") ? "0.01" : "0.02";
      cmd.addAll(Arrays.asList("-Dvp.scale=" + (run.thorough ? Double.toString(Double.parseDouble(scale) * 10) : scale), "-Dvp.evidence=" + dir, "-Dio.netty.leakDetection.level=disabled", "-cp",
          System.getProperty("java.class.path"), "vp.Main", Main.home.toString(), Main.classes.toString(), id, "quick", Long.toString(run.seed)));
      Process p = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(out.toFile()).start();
      if (!p.waitFor(run.thorough ? 400 : 150, TimeUnit.SECONDS)) {
        p.destroyForcibly();
        p.waitFor();
        return 2;
      }
      text.append(new String(Files.readAllBytes(out), StandardCharsets.UTF_8));
      return p.exitValue();
    } finally {
      try (java.util.stream.Stream<Path> s = Files.walk(dir)) {
        s.sorted(Comparator.reverseOrder()).forEach(x -> x.toFile().delete());
      }
    }
  }

  static void again(Case c) throws Exception {
    Env e = OTHER[(int) (c.index % OTHER.length)];
    String id = AGAIN[(int) (c.index / OTHER.length)];
    if (!Files.isExecutable(Paths.get(e.java()))) return;
    StringBuilder t = new StringBuilder(), u = new StringBuilder();
    long t0 = System.nanoTime();
    int rc = sub(c.run, id, e, t);
    if (System.getenv("VP_TIMES") != null) System.out.println("TIME " + id + " " + e.jdk + " " + (System.nanoTime() - t0) / 1000000);
    if (rc == 0) {
      java.util.regex.Matcher m = java.util.regex.Pattern.compile(": (\\d+) evaluations").matcher(t);
      if (m.find()) c.run.count("evaluations of other properties in other environments", Long.parseLong(m.group(1)));
      c.distinct(Rng.mix(c.index + 1234));
      c.sample(() -> e.name + ": " + t);
      return;
    }
    if ((e.jdk.equals("8") || e.jdk.equals("11")) && EnvChild.LACKING.matcher(t).find()) {
      c.count("runs on a JDK that lacks what the code calls");
      return;
    }
    if (rc != 1 || t.indexOf("VIOLATION property=" + id) < 0) {
      c.count("runs in other environments without a verdict");
      System.out.println("NOTE: " + id + " in " + e.name + " gave no verdict: " + part(t, 0, 300));
      return;
    }
    if (sub(c.run, id, USUAL, u) == 0)
      c.fail("what holds in process '" + USUAL.name + "' does not hold in process '" + e.name + "': " + t.toString().split("\n")[0]);
    c.count("deviations that do not depend on the environment");
  }

  static String part(StringBuilder s, int from, int n) {
    return Run.q(s.substring(Math.min(from, s.length()), Math.min(s.length(), from + n)));
  }
}
