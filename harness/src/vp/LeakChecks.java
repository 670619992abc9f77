package vp;

import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.TimeUnit;
import vp.Run.*;

/** C24: nothing is retained. The measuring is done by LeakChild in processes of its own. */
public final class LeakChecks {
  static void c24(Run run) {
    run.rule = "Separate processes with a small heap and little direct memory run windows of operations on ever new contents (valid, truncated and damaged decodes; encodes into pooled and unpooled buffers, also without room; comparing, hashing, printing; registering and removing; unknown selectors and services; short-lived threads) for every message type and registry; after each window the heap after a full collection, the direct memory and the buffers not returned to the allocator are read. Growth that continues window after window is a leak. Evaluations: operations. Distinct: subjects measured.";
    run.minEvals = 1000;
    int parts = 8;
    run.assumptions.add("a fixed amount kept per class, thread pool or bounded cache is not a leak: only growth that continues over the last windows of at least 150 000 operations counts");
    run.cases("retained", parts, c -> part(c, (int) c.index, parts));
  }

  static void part(Case c, int part, int parts) throws Exception {
    Run run = c.run;
    Path out = Files.createTempFile(Main.classes, "leak", ".out"), err = Files.createTempFile(Main.classes, "leak", ".err");
    try {
      String cp = System.getProperty("java.class.path").replace(Main.classes.toString(), Main.classes.resolveSibling("c").toString());
      List<String> cmd = new ArrayList<>(Arrays.asList(EnvChecks.ENVS[0].java(), "-Xmx400m", "-Xss2m", "-XX:MaxDirectMemorySize=64m", "-XX:-OmitStackTraceInFastThrow", "-XX:+UseSerialGC", "-XX:SoftRefLRUPolicyMSPerMB=0",
          "-XX:CICompilerCount=2", "-Dfile.encoding=UTF-8", "-Dio.netty.leakDetection.level=disabled", "-cp", cp, "vp.LeakChild", Main.home.toString(), Main.classes.toString(), Long.toString(run.seed),
          Integer.toString(part), Integer.toString(parts), run.thorough ? "8000" : "2000", run.thorough ? "500" : "100", out.toString()));
      Process p = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(err.toFile()).start();
      if (!p.waitFor(run.thorough ? 800 : 400, TimeUnit.SECONDS)) {
        p.destroyForcibly();
        throw new IllegalStateException("process 'leak " + part + "' did not end in time");
      }
      List<String> l = new ArrayList<>(Files.readAllLines(out, StandardCharsets.UTF_8));
      if (p.exitValue() != 0 || l.isEmpty()) {
        String s = new String(Files.readAllBytes(err), StandardCharsets.ISO_8859_1);
        throw new IllegalStateException("process 'leak " + part + "' ended with " + p.exitValue() + ": " + (s.length() > 2000 ? s.substring(0, 2000) : s));
      }
      String bad = null;
      int many = 0;
      for (String s : l) {
        String[] d = s.split(" ", 3);
        if (d[0].equals("BAD")) {
          if (bad == null) bad = s.substring(4);
          many++;
        } else if (d[0].equals("subject")) {
          c.distinct(Rng.mix(d[2].hashCode() + 17L));
          run.count("subjects measured", 1);
          c.sample(() -> d[2]);
        } else run.count(d[2], Long.parseLong(d[1]));
        if (d[0].equals("ops")) c.marked += Long.parseLong(d[1]);
      }
      if (bad != null) c.fail(bad + (many > 1 ? " (and " + (many - 1) + " more)" : ""));
    } finally {
      Files.deleteIfExists(out);
      Files.deleteIfExists(err);
    }
  }
}
