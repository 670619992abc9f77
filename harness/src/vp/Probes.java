package vp;

import java.io.IOException;
import java.nio.file.*;
import java.util.*;
import java.util.function.Predicate;

/** The probes planted in the repository's classes: which parts of entered methods no execution has reached yet. */
public final class Probes {
  public static final class P {
    public final int id, line; // line negative: a branch
    public final String cls, method;

    P(int id, String cls, String method, int line) {
      this.id = id;
      this.cls = cls;
      this.method = method;
      this.line = line;
    }

    String top() {
      int d = cls.indexOf('$');
      return d < 0 ? cls : cls.substring(0, d);
    }
  }

  static List<P> all = new ArrayList<>();

  static void load(Path p) throws IOException {
    for (String l : Files.readAllLines(p, java.nio.charset.StandardCharsets.UTF_8)) {
      String[] t = l.split(" ");
      all.add(new P(Integer.parseInt(t[0]), t[1], t[2], Integer.parseInt(t[3])));
    }
  }

  /** probes that few executions have reached, in methods that were entered */
  static List<P> rare(Predicate<P> f) {
    Map<String, Boolean> entered = new HashMap<>();
    for (P p : all) if (Probe.cov[p.id] != 0) entered.put(p.cls + "." + p.method, true);
    List<P> l = new ArrayList<>();
    for (P p : all) if (Probe.cov[p.id] < Probe.ENOUGH && entered.containsKey(p.cls + "." + p.method) && f.test(p)) l.add(p);
    return l;
  }

  /** probes not hit in methods that were entered */
  static List<P> unhit(Predicate<P> f) {
    Set<String> entered = new HashSet<>();
    for (P p : all) if (Probe.cov[p.id] != 0) entered.add(p.cls + "." + p.method);
    List<P> l = new ArrayList<>();
    for (P p : all) if (Probe.cov[p.id] == 0 && entered.contains(p.cls + "." + p.method) && f.test(p)) l.add(p);
    return l;
  }
}
