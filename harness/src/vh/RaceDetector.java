package vh;

import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;

/**
 * A happens-before race detector (vector clocks, full read sets) for the library's fields and for
 * the plain java.util collections it uses. Calls on thread-safe JDK objects, volatile fields and
 * monitors are synchronisation; where the JDK's guarantees are finer than what is modelled here the
 * model has the additional edge, so that it can miss races but does not make them up.
 */
public final class RaceDetector {

  private static final class VC {

    int[] c = new int[8];

    int get(int t) {
      return t < c.length ? c[t] : 0;
    }

    void set(int t, int v) {
      if (t >= c.length) {
        c = Arrays.copyOf(c, Math.max(t + 1, c.length * 2));
      }
      c[t] = v;
    }

    void join(VC o) {
      for (int i = 0; i < o.c.length; i++) {
        if (o.c[i] > get(i)) {
          set(i, o.c[i]);
        }
      }
    }
  }

  private static final class Access {

    final int tid;
    final int clock;
    final String thread;
    final StackTraceElement[] stack;
    /** by an atomic access, which races with plain ones only */
    boolean atomic;

    Access(int tid, int clock) {
      this.tid = tid;
      this.clock = clock;
      this.thread = Thread.currentThread().getName();
      this.stack = new Throwable().getStackTrace();
    }

    String where() {
      StringBuilder sb = new StringBuilder(thread);
      int n = 0;
      for (StackTraceElement e : stack) {
        if (!e.getClassName().startsWith("vh.RaceDetector") && n++ < 4) {
          sb.append(" < ").append(e.getClassName().replaceAll(".*\\.", "")).append('.')
              .append(e.getMethodName()).append(':').append(e.getLineNumber());
        }
      }
      return sb.toString();
    }
  }

  private static final class Shadow {

    Access write;
    final Map<Integer, Access> reads = new HashMap<>();
  }

  static volatile boolean on;
  private static final Object lock = new Object();
  private static final Map<Thread, Integer> tids = new HashMap<>();
  private static final List<VC> clocks = new ArrayList<>();
  private static final Map<Object, VC> syncs = new IdentityHashMap<>();
  private static final Map<Object, Map<String, Shadow>> shadows = new IdentityHashMap<>();
  private static final Map<String, Integer> fieldKinds = new ConcurrentHashMap<>();
  private static final Map<Class<?>, Boolean> threadSafe = new ConcurrentHashMap<>();
  private static final Map<String, String> races = new LinkedHashMap<>();
  static long accesses;
  static long syncOps;
  static final Set<String> fieldsSeen = ConcurrentHashMap.newKeySet();

  static void reset() {
    synchronized (lock) {
      tids.clear();
      clocks.clear();
      syncs.clear();
      shadows.clear();
      shadowKeys.clear();
      races.clear();
      on = true;
    }
  }

  static Map<String, String> stop() {
    synchronized (lock) {
      on = false;
      return new LinkedHashMap<>(races);
    }
  }

  private static int me() {
    Thread t = Thread.currentThread();
    Integer id = tids.get(t);
    if (id == null) {
      id = clocks.size();
      tids.put(t, id);
      VC vc = new VC();
      vc.set(id, 1);
      clocks.add(vc);
      // what happened before the thread was started
      VC started = syncs.get(t);
      if (started != null) {
        vc.join(started);
      }
    }
    return id;
  }

  private static final Object RW_LOCKS = new Object();
  private static final Object UPDATERS = new Object();
  private static final Object CONDITIONS = new Object();
  private static final Object TASKS = new Object();
  private static volatile boolean conditionSeen;
  private static volatile boolean updaterSeen;

  /** Objects that synchronise with each other share a key. */
  private static Object key(Object o) {
    String n = o.getClass().getName();
    if (n.startsWith("java.util.concurrent.locks.ReentrantReadWriteLock")) {
      return RW_LOCKS;
    }
    if (n.startsWith("java.util.concurrent.atomic.") && n.contains("Updater")
        || n.startsWith("java.lang.invoke.")) {
      updaterSeen = true;
      return UPDATERS;
    }
    if (n.contains("ConditionObject")) {
      return CONDITIONS;
    }
    return o;
  }

  /** At the begin of everything that an executor of the library may run. */
  public static void task() {
    acquire(TASKS);
  }

  public static void acquire(Object obj) {
    if (!on || obj == null) {
      return;
    }
    synchronized (lock) {
      Object o = key(obj);
      syncOps++;
      VC s = syncs.get(o);
      if (s != null) {
        clocks.get(me()).join(s);
      }
    }
  }

  public static void release(Object obj) {
    if (!on || obj == null) {
      return;
    }
    synchronized (lock) {
      Object o = key(obj);
      syncOps++;
      int t = me();
      VC vc = clocks.get(t);
      syncs.computeIfAbsent(o, k -> new VC()).join(vc);
      vc.set(t, vc.get(t) + 1);
    }
  }

  // 0: plain, 1: volatile, 2: final (or unknown)
  private static int kind(String key) {
    return fieldKinds.computeIfAbsent(key, k -> {
      try {
        int dot = k.lastIndexOf('.');
        Class<?> c = Class.forName(k.substring(0, dot).replace('/', '.'));
        while (c != null) {
          for (Field f : c.getDeclaredFields()) {
            if (f.getName().equals(k.substring(dot + 1))) {
              return Modifier.isVolatile(f.getModifiers()) ? 1
                  : Modifier.isFinal(f.getModifiers()) ? 2 : 0;
            }
          }
          c = c.getSuperclass();
        }
        return 2;
      } catch (ClassNotFoundException e) {
        return 2;
      }
    });
  }

  private static Object volatileToken(Object o, String key) {
    return shadowKeys.computeIfAbsent(o, x -> new HashMap<>()).computeIfAbsent(key, x -> new Object());
  }

  private static final Map<Object, Map<String, Object>> shadowKeys = new IdentityHashMap<>();

  /** Called after a field was read. */
  public static void read(Object o, String key) {
    if (!on) {
      return;
    }
    int kind = kind(key);
    if (kind == 1) {
      synchronized (lock) {
        acquire(volatileToken(o, key));
        if (updaterSeen) {
          acquire(UPDATERS);
        }
      }
    } else if (kind == 0) {
      access(o, key, false);
    }
  }

  /** Called before a field is written. */
  public static void write(Object o, String key) {
    if (!on) {
      return;
    }
    int kind = kind(key);
    if (kind == 1) {
      synchronized (lock) {
        release(volatileToken(o, key));
        if (updaterSeen) {
          release(UPDATERS);
        }
      }
    } else if (kind == 0) {
      access(o, key, true);
    }
  }

  private static void access(Object o, String key, boolean isWrite) {
    access(o, key, isWrite, false);
  }

  private static void access(Object o, String key, boolean isWrite, boolean atomic) {
    fieldsSeen.add(key);
    synchronized (lock) {
      if (!on) {
        return;
      }
      accesses++;
      int t = me();
      VC vc = clocks.get(t);
      Shadow s = shadows.computeIfAbsent(o, k -> new HashMap<>())
          .computeIfAbsent(key, k -> new Shadow());
      Access a = new Access(t, vc.get(t));
      a.atomic = atomic;
      if (s.write != null && s.write.tid != t && !(atomic && s.write.atomic) && s.write.clock > vc.get(s.write.tid)) {
        race(key, "write", s.write, isWrite ? "write" : "read", a);
      }
      if (isWrite) {
        for (Access r : s.reads.values()) {
          if (r.tid != t && !(atomic && r.atomic) && r.clock > vc.get(r.tid)) {
            race(key, "read", r, "write", a);
          }
        }
        s.reads.clear();
        s.write = a;
      } else {
        s.reads.put(t, a);
      }
    }
  }

  private static void race(String key, String k1, Access a1, String k2, Access a2) {
    races.putIfAbsent(key, "data race on " + key.replace('/', '.') + ": " + k1 + " by " + a1.where()
        + "  ||  " + k2 + " by " + a2.where());
  }

  private static boolean isThreadSafe(Class<?> c) {
    return threadSafe.computeIfAbsent(c, k -> {
      for (Class<?> x = k; x != null; x = x.getSuperclass()) {
        String n = x.getName();
        if (n.startsWith("java.util.concurrent.") || n.startsWith("vh.")
            || n.startsWith("java.util.Collections$Synchronized")
            || n.equals("java.util.Vector") || n.equals("java.util.Hashtable")
            || n.equals("java.lang.Thread") || n.startsWith("java.lang.invoke.")
            || n.startsWith("java.lang.ref.") || n.equals("java.lang.ThreadLocal")) {
          return true;
        }
      }
      return false;
    });
  }

  private static boolean isPlainCollection(Class<?> c) {
    String n = c.getName();
    return n.startsWith("java.util.HashMap") || n.startsWith("java.util.LinkedHash")
        || n.startsWith("java.util.TreeMap") || n.startsWith("java.util.HashSet")
        || n.equals("java.util.ArrayList") || n.equals("java.util.LinkedList")
        || n.equals("java.util.ArrayDeque") || n.startsWith("java.util.IdentityHashMap")
        || n.equals("java.util.PriorityQueue") || n.equals("java.util.WeakHashMap");
  }

  private static final Set<String> RELEASE_ONLY = Set.of("offer", "execute", "submit",
      "set", "lazySet", "countDown", "unlock", "offerLast", "addLast", "addFirst", "offerFirst",
      "push", "start", "setRelease");
  private static final Set<String> ACQUIRE_ONLY = Set.of("poll", "take", "get", "peek", "size",
      "isEmpty", "await", "lock", "contains", "iterator", "stream", "containsKey", "values",
      "forEach", "pollFirst", "pollLast", "pop", "join", "getAcquire", "acquire",
      "isShutdown", "isTerminated", "remainingCapacity", "toArray", "anyMatch");
  private static final Set<String> WRITES = Set.of("put", "putIfAbsent", "add", "remove", "clear",
      "offer", "poll", "push", "pop", "addFirst", "addLast", "offerFirst", "offerLast", "pollFirst",
      "pollLast", "removeFirst", "removeLast", "removeIf", "replace", "computeIfAbsent", "compute",
      "computeIfPresent", "merge", "putAll", "addAll", "set", "sort");

  private static boolean isAtomic(Object o) {
    Class<?> c = o.getClass();
    return c == AtomicBoolean.class || c == AtomicInteger.class || c == AtomicLong.class
        || c == AtomicReference.class;
  }

  private static boolean isPlain(String method) {
    return method.equals("getPlain") || method.equals("setPlain");
  }

  private static final Set<String> ATOMIC_READS = Set.of("get", "getPlain", "getAcquire",
      "getOpaque", "intValue", "longValue", "toString", "doubleValue", "floatValue");

  /** They run code of the caller in their midst. */
  private static boolean runsCode(String method) {
    return method.startsWith("compute") || method.equals("merge") || method.contains("AndUpdate")
        || method.contains("AndAccumulate") || method.equals("updateAndGet")
        || method.equals("accumulateAndGet");
  }

  private static boolean isLock(Object o) {
    return o.getClass().getName().startsWith("java.util.concurrent.locks.");
  }

  public static void beforeCall(Object o, String method) {
    if (!on || o == null) {
      return;
    }
    if (isAtomic(o)) {
      access(o, o.getClass().getName() + " value", !ATOMIC_READS.contains(method),
          !isPlain(method));
      if (isPlain(method)) {
        return;
      }
    }
    if (method.equals("wait")) {
      release(o);
    } else if (isThreadSafe(o.getClass())) {
      if (method.equals("newCondition")) {
        conditionSeen = true;
      }
      if (!ACQUIRE_ONLY.contains(method) || method.equals("await") && isLock(o)) {
        release(o);
        if (conditionSeen && isLock(o)) {
          release(CONDITIONS);
        }
      }
      if (runsCode(method)) {
        acquire(o);
      }
      if (!(o instanceof MonExecutor) && o instanceof java.util.concurrent.Executor) {
        release(TASKS);
      }
    } else if (isPlainCollection(o.getClass())) {
      access(o, o.getClass().getName() + " content", WRITES.contains(method));
    }
  }

  public static void afterCall(Object o, String method) {
    if (!on || o == null) {
      return;
    }
    if (isPlain(method) && isAtomic(o)) {
      return;
    }
    if (method.equals("wait")) {
      acquire(o);
    } else if (isThreadSafe(o.getClass())) {
      if (runsCode(method)) {
        release(o);
      }
      if (!RELEASE_ONLY.contains(method)) {
        acquire(o);
        if (conditionSeen && isLock(o)) {
          acquire(CONDITIONS);
        }
      }
      if (o instanceof Thread && method.equals("join")) {
        synchronized (lock) {
          Integer t = tids.get(o);
          if (t != null && !((Thread) o).isAlive()) {
            clocks.get(me()).join(clocks.get(t));
          }
        }
      }
    }
  }
}
