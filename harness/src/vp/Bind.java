package vp;

import io.netty.buffer.ByteBuf;
import java.lang.invoke.*;
import java.lang.reflect.Method;
import java.util.*;
import java.util.concurrent.*;
import vp.Spec.*;

/** Builds and reads the repository's message objects through their public constructors, getters and setters only. */
public final class Bind {
  public static final class Cls {
    public MsgSpec spec;
    public Class<?> type;
    MethodHandle make, enc, dec;
    MethodHandle[] get, set;
  }

  /** harness misconfiguration: the public API is not what the committed layouts were bound against */
  public static final class BindError extends RuntimeException {
    BindError(String m, Throwable t) {
      super(m, t);
    }
  }

  public final Spec spec;
  public final ClassLoader loader;
  final Map<MsgSpec, Cls> bySpec = new ConcurrentHashMap<>();
  private final Map<Class<?>, MsgSpec> specOf = new ConcurrentHashMap<>();

  public Bind(Spec spec, ClassLoader loader) {
    this.spec = spec;
    this.loader = loader;
  }

  public Cls of(MsgSpec s) {
    Cls c = bySpec.get(s);
    if (c == null) {
      c = bind(s);
      Cls d = bySpec.putIfAbsent(s, c);
      if (d != null) c = d;
    }
    return c;
  }

  public void bindAll() {
    for (MsgSpec s : spec.all) of(s);
  }

  private Cls bind(MsgSpec s) {
    try {
      Cls c = new Cls();
      c.spec = s;
      // does not initialise the class: initialisation happens on first real use
      c.type = Class.forName(s.className(), false, loader);
      MethodHandles.Lookup lk = MethodHandles.publicLookup();
      c.make = lk.findConstructor(c.type, MethodType.methodType(void.class)).asType(MethodType.methodType(Object.class));
      c.enc = lk.findVirtual(c.type, "encode", MethodType.methodType(void.class, ByteBuf.class))
          .asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
      c.dec = lk.findVirtual(c.type, "decode", MethodType.methodType(void.class, ByteBuf.class))
          .asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
      int n = s.fields.size();
      c.get = new MethodHandle[n];
      c.set = new MethodHandle[n];
      for (Field f : s.fields) {
        String cap = Character.toUpperCase(f.name.charAt(0)) + f.name.substring(1);
        Method g = c.type.getMethod("get" + cap);
        Class<?> t = g.getReturnType();
        Method st = c.type.getMethod("set" + cap, t);
        Class<?> want;
        if (f.isList()) want = List.class;
        else
          switch (f.kind) {
            case INT: case BODYLEN: case CKSUM:
              want = f.width == 1 ? byte.class : f.width == 2 ? short.class : f.width == 4 ? int.class : long.class;
              break;
            case F32: want = float.class; break;
            case F64: want = double.class; break;
            case CHAR: case STR: want = String.class; break;
            case MSG: want = Class.forName(s.proto.msgs.get(f.msg).className(), false, loader); break;
            default: want = Class.forName("com.finproto.codec.BinaryCodec", false, loader);
          }
        if (t != want) throw new IllegalStateException(s + "." + f + " is " + t + ", layout says " + want);
        c.get[f.index] = lk.unreflect(g).asType(MethodType.methodType(Object.class, Object.class));
        c.set[f.index] = lk.unreflect(st).asType(MethodType.methodType(void.class, Object.class, Object.class));
      }
      specOf.put(c.type, s);
      return c;
    } catch (ReflectiveOperationException | RuntimeException e) {
      throw new BindError("cannot bind " + s + ": " + e, e);
    }
  }

  public MsgSpec specOf(Object o) {
    MsgSpec s = specOf.get(o.getClass());
    if (s == null) {
      s = spec.byClass.get(o.getClass().getName());
      if (s != null) of(s);
    }
    return s;
  }

  static RuntimeException sneaky(Throwable t) {
    if (t instanceof Error) throw (Error) t;
    if (t instanceof RuntimeException) throw (RuntimeException) t;
    throw new RuntimeException(t);
  }

  public Object make(MsgSpec s) {
    try {
      return of(s).make.invokeExact();
    } catch (Throwable t) {
      throw sneaky(t);
    }
  }

  public void encode(MsgSpec s, Object o, ByteBuf b) {
    try {
      of(s).enc.invokeExact(o, b);
    } catch (Throwable t) {
      throw sneaky(t);
    }
  }

  public void decode(MsgSpec s, Object o, ByteBuf b) {
    try {
      of(s).dec.invokeExact(o, b);
    } catch (Throwable t) {
      throw sneaky(t);
    }
  }

  public Object getRaw(MsgSpec s, Object o, Field f) {
    try {
      return of(s).get[f.index].invokeExact(o);
    } catch (Throwable t) {
      throw sneaky(t);
    }
  }

  public void setRaw(MsgSpec s, Object o, Field f, Object v) {
    try {
      of(s).set[f.index].invokeExact(o, v);
    } catch (Throwable t) {
      throw sneaky(t);
    }
  }

  // ---- model -> object

  public Object toObject(Msg m, Rng r) {
    Object o = make(m.spec);
    for (Field f : m.spec.fields) setRaw(m.spec, o, f, toVal(f, m.v[f.index], r));
    return o;
  }

  /** the Java value for a model value; strings and boxes are fresh objects, lists of varied implementations */
  public Object toVal(Field f, Object x, Rng r) {
    if (f.isList()) {
      if (x == null) return null;
      List<?> l = (List<?>) x;
      List<Object> a = new ArrayList<>(l.size());
      Map<Object, Object> done = null;
      for (Object e : l) {
        // one model object is one object
        Object y = null;
        if (e instanceof Msg && ((Msg) e).one && r != null) {
          if (done == null) done = new IdentityHashMap<>();
          y = done.get(e);
          if (y == null) done.put(e, y = one(f, e, r));
        } else y = one(f, e, r);
        a.add(y);
      }
      if (r == null) return a;
      switch (r.below(9)) {
        case 5: {
          // a part of another list
          List<Object> w = new ArrayList<>(a.size() + 3);
          w.add(null);
          w.addAll(a);
          w.add(null);
          return w.subList(1, 1 + a.size());
        }
        case 6: {
          // a view
          Object[] z = a.toArray();
          return new AbstractList<Object>() {
            @Override
            public Object get(int i) {
              return z[i];
            }

            @Override
            public int size() {
              return z.length;
            }
          };
        }
        case 0: return a.size() > 20_000 ? a : new LinkedList<>(a); // get(i) of a linked list takes linear time
        case 1: return Collections.unmodifiableList(a);
        case 2: return Arrays.asList(a.toArray());
        case 3: return new CopyOnWriteArrayList<>(a);
        case 4: return new Vector<>(a);
        default: return a;
      }
    }
    return one(f, x, r);
  }

  @SuppressWarnings({"deprecation", "removal"})
  private Object one(Field f, Object x, Rng r) {
    if (x == null) return null;
    switch (f.kind) {
      case INT: case BODYLEN: case CKSUM: {
        long v = (Long) x;
        switch (f.width) {
          case 1: return (byte) v;
          case 2: return Short.valueOf((short) v);
          case 4: return Integer.valueOf((int) v);
          default: return Long.valueOf(v);
        }
      }
      case CHAR: case STR: return new String((String) x);
      case MSG: return toObject((Msg) x, r);
      case BODY: return x instanceof Msg ? toObject((Msg) x, r) : x;
      default: return x;
    }
  }

  // ---- object -> model

  public Msg fromObject(Object o) {
    MsgSpec s = specOf(o);
    if (s == null) throw new IllegalArgumentException("not a message: " + o.getClass());
    Msg m = new Msg(s);
    for (Field f : s.fields) m.v[f.index] = fromVal(f, getRaw(s, o, f));
    return m;
  }

  public Object fromVal(Field f, Object x) {
    if (f.isList()) {
      if (x == null) return null;
      List<Object> l = new ArrayList<>();
      for (Object e : (List<?>) x) l.add(fromOne(f, e));
      return l;
    }
    return fromOne(f, x);
  }

  private Object fromOne(Field f, Object x) {
    if (x == null) return null;
    switch (f.kind) {
      case INT: case BODYLEN: case CKSUM: return ((Number) x).longValue();
      case MSG: return fromObject(x);
      case BODY: return specOf(x) != null ? fromObject(x) : x;
      default: return x;
    }
  }
}
