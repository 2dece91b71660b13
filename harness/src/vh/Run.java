package vh;

import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.util.ArrayList;
import java.util.List;
import java.util.Random;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;
import java.util.concurrent.locks.LockSupport;
import java.util.function.BooleanSupplier;

/** One execution of a scenario. */
final class Run {

  final Engine engine;
  final Random r;
  final long seed;
  final String scenario;
  final Noise.Plan plan;
  final boolean thorough;
  final ConcurrentLinkedQueue<Viol> violations = new ConcurrentLinkedQueue<>();
  volatile String inconclusive;
  private final List<Runnable> cleanup = new ArrayList<>();
  long signature = 1469598103934665603L;
  int events;
  String sample;
  final Rec rec = new Rec();

  static final class Viol {

    final String tag;
    final String msg;
    final List<String> trace;
    /** identifies a known finding */
    String key;

    Viol(String tag, String msg, List<String> trace) {
      this.tag = tag;
      this.msg = msg;
      this.trace = trace;
    }
  }

  Run(Engine engine, String scenario, long seed, Noise.Plan plan, boolean thorough) {
    this.engine = engine;
    this.scenario = scenario;
    this.seed = seed;
    this.plan = plan;
    this.r = new Random(seed);
    this.thorough = thorough;
  }

  void violate(String tag, String msg) {
    violate(tag, msg, rec.sorted());
  }

  void violate(String tag, String msg, List<E> trace) {
    if (violations.size() > 40) {
      return;
    }
    List<String> l = new ArrayList<>();
    if (trace != null) {
      int n = 0;
      for (E e : trace) {
        if (n++ > 600) {
          l.add("... " + trace.size() + " events");
          break;
        }
        l.add(e.toString());
      }
    }
    violations.add(new Viol(tag, msg, l));
  }

  /** Reports a violation that is listed in the known findings (or else is a normal one). */
  void known(String key, String tag, String msg) {
    violate(tag, msg);
    for (Viol v : violations) {
      if (v.tag.equals(tag) && v.msg.equals(msg)) {
        v.key = key;
      }
    }
  }

  /** Reports all that were found by a checker. */
  void violateAll(List<Viol> v, List<E> trace) {
    for (Viol x : v) {
      violate(x.tag, x.msg, trace);
    }
  }

  void sig(long v) {
    signature = (signature ^ v) * 1099511628211L;
  }

  /** Adds a recorded history to the signature of this run. */
  void cover(List<E> trace) {
    List<Thread> threads = new ArrayList<>();
    for (E e : trace) {
      int t = threads.indexOf(e.thread);
      if (t < 0) {
        t = threads.size();
        threads.add(e.thread);
      }
      sig(e.kind * 31L + t);
      sig(e.fid);
      sig(e.ev == null ? 7 : e.ev.hashCode());
    }
    events += trace.size();
    if (sample == null && trace.size() > 0) {
      StringBuilder sb = new StringBuilder();
      for (int i = 0; i < trace.size() && i < 12; i++) {
        sb.append(i == 0 ? "" : " | ").append(trace.get(i));
      }
      sample = sb.toString();
    }
  }

  void onEnd(Runnable c) {
    cleanup.add(c);
  }

  void end() {
    for (Runnable c : cleanup) {
      try {
        c.run();
      } catch (RuntimeException e) {
        // best effort
      }
    }
  }

  World world(Spec s, World.Opt o) {
    World w = new World(s, rec, o, r);
    onEnd(w::dispose);
    try {
      return w.build();
    } catch (RuntimeException e) {
      violate("CONFIG", "a valid configuration was refused: " + Engine.stack(e), null);
      throw new Abort();
    }
  }

  /** Ends a run whose verdict has been recorded. */
  static final class Abort extends RuntimeException {

    private static final long serialVersionUID = 1L;
  }

  /** Starts a machine that can be started. */
  void start(World w) {
    E e = w.start();
    if (e.ex != null) {
      violate("START", "a valid machine could not be started: " + Engine.stack(e.ex), null);
      throw new Abort();
    }
  }

  interface Body {

    void run() throws Exception;
  }

  final class Threads {

    final List<Thread> all = new ArrayList<>();
    final CountDownLatch go = new CountDownLatch(1);
    final AtomicReference<Throwable> failure = new AtomicReference<>();

    Thread add(String name, Body b) {
      Object hb = new Object();
      Thread t = new Thread(() -> {
        try {
          go.await();
          RaceDetector.acquire(this);
          b.run();
        } catch (Throwable e) {
          failure.compareAndSet(null, e);
        } finally {
          RaceDetector.release(hb);
        }
      }, name);
      t.setDaemon(true);
      all.add(t);
      t.start();
      return t;
    }

    void start() {
      RaceDetector.release(this);
      go.countDown();
    }

    /** @return false if some did not finish */
    boolean join(int seconds) throws InterruptedException {
      long until = System.nanoTime() + TimeUnit.SECONDS.toNanos(seconds);
      for (Thread t : all) {
        long left = TimeUnit.NANOSECONDS.toMillis(until - System.nanoTime());
        t.join(Math.max(1, left));
        if (t.isAlive()) {
          return false;
        }
      }
      if (failure.get() != null) {
        throw new IllegalStateException("harness thread failed", failure.get());
      }
      return true;
    }
  }

  Threads threads() {
    return new Threads();
  }

  static boolean await(double seconds, BooleanSupplier c) {
    long until = System.nanoTime() + (long) (seconds * 1e9);
    int n = 0;
    while (!c.getAsBoolean()) {
      if (System.nanoTime() > until) {
        return false;
      }
      if (++n < 50) {
        Thread.onSpinWait();
      } else {
        LockSupport.parkNanos(n < 200 ? 20_000 : 500_000);
      }
    }
    return true;
  }

  /** How often each thread got somewhere: entered or left a recorded call or callback. */
  private static final ConcurrentHashMap<Thread, AtomicLong> TICKS = new ConcurrentHashMap<>();

  static void tick() {
    Thread t = Thread.currentThread();
    AtomicLong n = TICKS.get(t);
    if (n == null) {
      if (TICKS.size() > 500) {
        TICKS.keySet().removeIf(x -> !x.isAlive());
      }
      n = new AtomicLong();
      TICKS.put(t, n);
    }
    n.incrementAndGet();
  }

  private static long ticks(Thread t) {
    AtomicLong a = TICKS.get(t);
    return a == null ? 0 : a.get();
  }

  /**
   * Whether a thread can be seen to wait for something inside the library's code (and not in a
   * callback of the harness): it does so at one and the same place during several seconds, or it
   * spends seconds of CPU time, or sleeps again and again, within one and the same call.
   */
  static String blockedInLibrary(Thread t, int seconds) {
    ThreadMXBean mx = ManagementFactory.getThreadMXBean();
    long ticks = ticks(t);
    long cpu = mx.getThreadCpuTime(t.getId());
    long since = System.nanoTime();
    String last = null;
    boolean same = true;
    int sleeping = 0;
    while (true) {
      Thread.State s = t.getState();
      StackTraceElement[] stack = t.getStackTrace();
      String at = libraryCall(stack);
      if (at == null || ticks(t) != ticks) {
        return null;
      }
      boolean waits = s == Thread.State.BLOCKED || s == Thread.State.WAITING
          || s == Thread.State.TIMED_WAITING;
      same &= waits && (last == null || last.equals(s + " " + at));
      last = s + " " + at;
      if (s == Thread.State.TIMED_WAITING && !stack[0].getClassName().startsWith("vh.")) {
        sleeping++;
      }
      long wall = System.nanoTime() - since;
      if (wall > seconds * 1_000_000_000L) {
        if (same) {
          return last;
        }
        long spent = mx.getThreadCpuTime(t.getId()) - cpu;
        if (spent > 1_500_000_000L && ticks(t) == ticks) {
          return "spinning (" + spent / 1_000_000 + " ms in one call) " + at;
        }
        if (sleeping > 20 * seconds / 2 && ticks(t) == ticks) {
          return "sleeping again and again (" + wall / 1_000_000 + " ms in one call) " + at;
        }
        if (wall > 4 * seconds * 1_000_000_000L) {
          return null;
        }
      }
      LockSupport.parkNanos(50_000_000);
    }
  }

  /** The frames above the library's topmost one, or null if a thread is elsewhere. */
  static String libraryCall(StackTraceElement[] stack) {
    StringBuilder sb = new StringBuilder();
    boolean top = true;
    for (StackTraceElement e : stack) {
      String c = e.getClassName();
      boolean woven = c.startsWith("vh.Noise") || c.startsWith("vh.RaceDetector");
      if (c.startsWith("vh.") && !c.startsWith("vh.Mon") && !(top && woven)) {
        return null;
      }
      top &= woven || c.startsWith("java.");
      if (sb.length() < 400 && !woven) {
        sb.append(c.replaceAll(".*\\.", "")).append('.').append(e.getMethodName()).append(':')
            .append(e.getLineNumber()).append(' ');
      }
      if (c.startsWith("com.webotech.")) {
        return sb.toString();
      }
    }
    return null;
  }
}
