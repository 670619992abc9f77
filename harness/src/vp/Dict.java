package vp;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Constants that occur in the classes under test: interesting values for the generators (never an oracle). */
public final class Dict {
  public static final Dict EMPTY = new Dict();
  public final List<Long> ints = new ArrayList<>();
  public final List<String> strs = new ArrayList<>();
  public final List<Double> dbls = new ArrayList<>();
  static Map<String, Dict> byClass = new HashMap<>();
  static Dict all = new Dict();

  static void load(Path p) throws IOException {
    Map<String, LinkedHashSet<Long>> is = new HashMap<>();
    Map<String, LinkedHashSet<String>> ss = new HashMap<>();
    Map<String, LinkedHashSet<Double>> ds = new HashMap<>();
    for (String l : Files.readAllLines(p, StandardCharsets.UTF_8)) {
      int a = l.indexOf(' ');
      String c = l.substring(0, a), v = l.substring(a + 3);
      int d = c.indexOf('$');
      String top = d < 0 ? c : c.substring(0, d);
      for (String k : new String[] {top, "*"}) {
        if (l.charAt(a + 1) == 'd') ds.computeIfAbsent(k, x -> new LinkedHashSet<>()).add(Double.parseDouble(v));
        else if (l.charAt(a + 1) == 'i') is.computeIfAbsent(k, x -> new LinkedHashSet<>()).add(Long.parseLong(v));
        else ss.computeIfAbsent(k, x -> new LinkedHashSet<>()).add(v.replaceAll("(?<!\\\\)\\\\n", "\n").replaceAll("(?<!\\\\)\\\\r", "\r").replace("\\\\", "\\"));
      }
    }
    Set<String> ks = new HashSet<>(is.keySet());
    ks.addAll(ss.keySet());
    ks.addAll(ds.keySet());
    for (String k : ks) {
      Dict d = new Dict();
      if (ds.containsKey(k)) d.dbls.addAll(ds.get(k));
      if (is.containsKey(k)) d.ints.addAll(is.get(k));
      if (ss.containsKey(k)) for (String s : ss.get(k)) if (Gen.cleanText(s)) d.strs.add(s);
      if (k.equals("*")) all = d;
      else byClass.put(k, d);
    }
  }

  /** classes whose code touches state that outlives a call, themselves or in a class they call; only how hard they are driven depends on it */
  static Set<String> hot(Path p) throws IOException {
    Set<String> own = new HashSet<>(), out = new HashSet<>();
    List<String> ls = Files.readAllLines(p, StandardCharsets.UTF_8);
    for (String l : ls) if (l.startsWith("s ")) own.add(top(l.split(" ")[1]));
    out.addAll(own);
    for (String l : ls) if (l.startsWith("c ") && own.contains(top(l.split(" ")[2]))) out.add(top(l.split(" ")[1]));
    return out;
  }

  private static String top(String c) {
    int d = c.indexOf('$');
    return d < 0 ? c : c.substring(0, d);
  }

  static Dict of(String className) {
    int d = className.indexOf('$');
    return byClass.getOrDefault(d < 0 ? className : className.substring(0, d), EMPTY);
  }
}
