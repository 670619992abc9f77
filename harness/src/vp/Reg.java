package vp;

import com.finproto.codec.BinaryCodec;
import java.lang.reflect.*;
import java.util.*;
import java.util.function.Supplier;
import vp.Spec.*;

/** Public face of one selector registry of the repository (nested factory of a frame or extensible message). */
public final class Reg {
  public final MsgSpec s;
  final Object inst;
  final Method create, register, remove, getType, fromValue;
  final Class<?> keyType, typeEnum;

  private Reg(MsgSpec s, Class<?> c) throws ReflectiveOperationException {
    this.s = s;
    inst = c.getMethod("getInstance").invoke(null);
    Method cr = null, rg = null, rm = null, gt = null;
    for (Method m : c.getMethods()) {
      if (m.getName().equals("create") && m.getParameterCount() == 1) cr = m;
      if (m.getName().equals("register")) rg = m;
      if (m.getName().equals("remove") && m.getParameterCount() == 1) rm = m;
      if (m.getName().equals("getMsgType")) gt = m;
    }
    create = cr;
    register = rg;
    remove = rm;
    getType = gt;
    keyType = cr.getParameterTypes()[0];
    Class<?> te = null;
    Method fv = null;
    for (Class<?> k : c.getClasses())
      if (k.isEnum())
        try {
          fv = k.getMethod("fromValue", int.class);
          te = k;
        } catch (NoSuchMethodException e) {
          // another enum
        }
    typeEnum = te;
    fromValue = fv;
    for (Method m : new Method[] {create, register, remove, getType}) if (m != null) m.setAccessible(true);
  }

  static List<Reg> all(Bind bind) throws ReflectiveOperationException {
    List<Reg> l = new ArrayList<>();
    for (MsgSpec s : bind.spec.all) {
      if (s.body == null) continue;
      for (Class<?> k : bind.of(s).type.getClasses())
        if (k.isEnum() && hasCreate(k)) l.add(new Reg(s, k));
    }
    return l;
  }

  private static boolean hasCreate(Class<?> k) {
    for (Method m : k.getMethods()) if (m.getName().equals("create")) return true;
    return false;
  }

  Object key(Object model) {
    if (model == null || model instanceof String) return model;
    long v = (Long) model;
    return keyType == Short.class ? (Object) Short.valueOf((short) v) : (Object) Integer.valueOf((int) v);
  }

  static Object call(Method m, Object o, Object... a) {
    try {
      return m.invoke(o, a);
    } catch (InvocationTargetException e) {
      throw Bind.sneaky(e.getCause());
    } catch (IllegalAccessException e) {
      throw new RuntimeException(e);
    }
  }

  public Object create(Object k) {
    return call(create, inst, key(k));
  }

  public void register(Class<?> c, Object k, Supplier<BinaryCodec> sup) {
    if (register.getParameterCount() == 3) call(register, inst, c, key(k), sup);
    else call(register, inst, key(k), sup);
  }

  public boolean remove(Object k) {
    return (Boolean) call(remove, inst, key(k));
  }

  /** model key or null */
  public Object typeOf(Class<?> c) {
    Object x = call(getType, inst, c);
    return x == null ? null : (Object) ((Number) x).longValue();
  }

  public Supplier<BinaryCodec> builtin(Bind bind, Object k) {
    MsgSpec t = s.proto.msgs.get(s.cases.get(k));
    return () -> (BinaryCodec) bind.make(t);
  }

  public Class<?> builtinClass(Bind bind, Object k) {
    return bind.of(s.proto.msgs.get(s.cases.get(k))).type;
  }

  public String toString() {
    return s.fq();
  }
}
