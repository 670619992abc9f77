package vp;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.regex.*;

/** The committed wire layouts (spec/*.spec), parsed. */
public final class Spec {
  public enum Kind { INT, F32, F64, CHAR, STR, MSG, BODY, BODYLEN, CKSUM }

  public static final class Field {
    public Kind kind;
    public String name;
    public int width; // INT bytes, CHAR bytes
    public char pad = ' ';
    public boolean left;
    public int prefix; // bytes of length prefix of STR
    public int listPrefix; // 0: not a list
    public String msg; // MSG type name
    public String selector; // BODY
    public String algo; // CKSUM
    public int index;
    public MsgSpec owner;

    public boolean isList() {
      return listPrefix != 0;
    }

    public String toString() {
      return name;
    }
  }

  public static final class MsgSpec {
    public Proto proto;
    public String name;
    public boolean frame;
    public List<Field> fields = new ArrayList<>();
    /** selector value (Long or String) to message name */
    public LinkedHashMap<Object, String> cases = new LinkedHashMap<>();
    public Field body, selector, bodylen, cksum;

    public Field field(String n) {
      for (Field f : fields) if (f.name.equals(n)) return f;
      throw new IllegalArgumentException(name + "." + n);
    }

    public String className() {
      return proto.pkg + "." + name;
    }

    public String fq() {
      return proto.name + "." + name;
    }

    public String simple() {
      return name.substring(name.indexOf('$') + 1);
    }

    public String toString() {
      return fq();
    }
  }

  public static final class Proto {
    public String name, pkg;
    public boolean little;
    public LinkedHashMap<String, MsgSpec> msgs = new LinkedHashMap<>();
    public MsgSpec frame;
  }

  public final LinkedHashMap<String, Proto> protos = new LinkedHashMap<>();
  public final List<MsgSpec> all = new ArrayList<>();
  public final Map<String, MsgSpec> byClass = new HashMap<>();

  public static Spec load(Path dir) throws IOException {
    Spec s = new Spec();
    List<Path> files = new ArrayList<>();
    try (DirectoryStream<Path> ds = Files.newDirectoryStream(dir, "*.spec")) {
      for (Path p : ds) files.add(p);
    }
    Collections.sort(files);
    for (Path p : files) s.parse(p);
    for (Proto pr : s.protos.values())
      for (MsgSpec m : pr.msgs.values()) {
        s.all.add(m);
        s.byClass.put(m.className(), m);
        for (Field f : m.fields) {
          if (f.kind == Kind.MSG && !pr.msgs.containsKey(f.msg)) throw new IllegalStateException(m + " " + f.msg);
          if (f.kind == Kind.BODY) {
            m.body = f;
            m.selector = m.field(f.selector);
          }
          if (f.kind == Kind.BODYLEN) m.bodylen = f;
          if (f.kind == Kind.CKSUM) m.cksum = f;
        }
        for (String c : m.cases.values())
          if (!pr.msgs.containsKey(c)) throw new IllegalStateException(m + " case " + c);
        if (m.frame) pr.frame = m;
      }
    return s;
  }

  public MsgSpec get(String proto, String msg) {
    return protos.get(proto).msgs.get(msg);
  }

  private void parse(Path p) throws IOException {
    Proto pr = new Proto();
    MsgSpec cur = null;
    for (String line : Files.readAllLines(p, StandardCharsets.UTF_8)) {
      String l = line.trim();
      if (l.isEmpty() || l.startsWith("#")) continue;
      String[] t = l.split("\\s+");
      if (cur == null) {
        switch (t[0]) {
          case "protocol": pr.name = t[1]; protos.put(pr.name, pr); break;
          case "package": pr.pkg = t[1]; break;
          case "endian": pr.little = t[1].equals("little"); break;
          case "message":
          case "frame":
            cur = new MsgSpec();
            cur.proto = pr;
            cur.name = t[1];
            cur.frame = t[0].equals("frame");
            pr.msgs.put(cur.name, cur);
            break;
          default: throw new IOException(p + ": " + l);
        }
        continue;
      }
      if (l.equals("}")) {
        cur = null;
        continue;
      }
      if (t[0].equals("case")) {
        String k = t[1];
        Object key = k.startsWith("\"") ? (Object) k.substring(1, k.length() - 1) : (Object) Long.valueOf(k);
        if (cur.cases.put(key, t[3]) != null) throw new IOException("dup case " + l);
        continue;
      }
      Field f = new Field();
      f.name = t[t.length - 1];
      f.index = cur.fields.size();
      f.owner = cur;
      int i = 0;
      if (t[0].startsWith("list<")) {
        f.listPrefix = t[0].equals("list<u16>") ? 2 : 4;
        i = 1;
      }
      String ty = t[i];
      Matcher m;
      if (ty.equals("i8")) int_(f, 1);
      else if (ty.equals("i16")) int_(f, 2);
      else if (ty.equals("i32")) int_(f, 4);
      else if (ty.equals("i64")) int_(f, 8);
      else if (ty.equals("f32")) f.kind = Kind.F32;
      else if (ty.equals("f64")) f.kind = Kind.F64;
      else if (ty.equals("str<u16>")) { f.kind = Kind.STR; f.prefix = 2; }
      else if (ty.equals("str<u32>")) { f.kind = Kind.STR; f.prefix = 4; }
      else if (ty.equals("msg")) { f.kind = Kind.MSG; f.msg = t[i + 1]; }
      else if (ty.equals("body")) { f.kind = Kind.BODY; f.selector = t[i + 2]; }
      else if (ty.equals("bodylen32")) { f.kind = Kind.BODYLEN; f.width = 4; }
      else if ((m = Pattern.compile("checksum32\\((\\w+)\\)").matcher(ty)).matches()) { f.kind = Kind.CKSUM; f.width = 4; f.algo = m.group(1); }
      else if ((m = Pattern.compile("char\\[(\\d+)(?:,(\\w+),(\\w+))?\\]").matcher(ty)).matches()) {
        f.kind = Kind.CHAR;
        f.width = Integer.parseInt(m.group(1));
        if (m.group(2) != null) {
          f.pad = m.group(2).equals("zero") ? '0' : m.group(2).equals("nul") ? '\0' : ' ';
          f.left = m.group(3).equals("left");
        }
      } else throw new IOException(p + ": type " + l);
      cur.fields.add(f);
    }
  }

  private static void int_(Field f, int w) {
    f.kind = Kind.INT;
    f.width = w;
  }
}
