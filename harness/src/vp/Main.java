package vp;

import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.regex.*;

/** Main HOME CLASSES ID TIER SEED [--replay FILE] */
public final class Main {
  public static void main(String[] a) throws Exception {
    System.setOut(new java.io.PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), true, "UTF-8"));
    Thread wd = new Thread(() -> {
      try {
        Thread.sleep(870_000);
      } catch (InterruptedException e) {
        return;
      }
      System.out.println("INCONCLUSIVE: watchdog");
      Runtime.getRuntime().halt(2);
    });
    wd.setDaemon(true);
    wd.start();
    int rc;
    try {
      rc = go(a);
    } catch (Throwable t) {
      t.printStackTrace();
      System.out.println("ERROR: the harness failed; no verdict");
      rc = 2;
    }
    System.out.flush();
    Runtime.getRuntime().halt(rc);
  }

  static Path evidence, classes, home;

  static int go(String[] a) throws Exception {
    Path home = Paths.get(a[0]), classes = Paths.get(a[1]);
    String id = a[2], tier = a[3];
    long seed = Long.parseLong(a[4]);
    Spec spec = Spec.load(home.resolve("spec"));
    Dict.load(classes.resolve("vp-dict.txt"));
    Probes.load(classes.resolve("vp-lines.txt"));
    Bind bind = new Bind(spec, Main.class.getClassLoader());
    String phase = null;
    long index = -1;
    if (a.length > 6 && a[5].equals("--replay")) {
      String j = new String(Files.readAllBytes(Paths.get(a[6])), StandardCharsets.UTF_8);
      tier = str(j, "tier");
      phase = str(j, "phase");
      seed = Long.parseLong(num(j, "seed"));
      index = Long.parseLong(num(j, "index"));
    }
    Run run = new Run(id, tier, seed, spec, bind);
    if (phase != null) {
      run.replayPhase = phase;
      run.replayIndex = index;
      run.replayTimes = Checks.concurrent(id) ? 400 : 1;
    }
    Pattern kp = Pattern.compile("known: property=(\\S+) (\\S+) (.*)");
    for (String l : Files.readAllLines(home.resolve("known_findings.txt"), StandardCharsets.UTF_8)) {
      Matcher m = kp.matcher(l);
      if (m.matches() && m.group(1).equals(id)) run.known.put(m.group(2), m.group(3));
    }
    evidence = System.getProperty("vp.evidence") == null ? home.resolve("evidence") : Paths.get(System.getProperty("vp.evidence"));
    Main.home = home;
    Main.classes = classes;
    bind.bindAll();
    try {
      Checks.run(run);
    } catch (Exception | LinkageError x) {
      // the repository's own classes fail before any case runs
      if (!(x instanceof Bind.BindError) && (Run.fromSut(x) || String.valueOf(x.getMessage()).contains("com/finproto"))) run.violation("start", 0, "the library's classes cannot be used: " + Run.brief(x));
      else throw x;
    }
    return run.finish(evidence, classes);
  }

  private static String str(String j, String k) {
    Matcher m = Pattern.compile("\"" + k + "\": \"((?:[^\"\\\\]|\\\\.)*)\"").matcher(j);
    if (!m.find()) throw new IllegalArgumentException(k);
    return Run.unq(m.group(1));
  }

  private static String num(String j, String k) {
    Matcher m = Pattern.compile("\"" + k + "\": (-?\\d+)").matcher(j);
    if (!m.find()) throw new IllegalArgumentException(k);
    return m.group(1);
  }
}
