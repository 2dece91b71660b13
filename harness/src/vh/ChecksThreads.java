package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.util.Threads;
import java.io.File;
import java.lang.ref.WeakReference;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;
import org.apache.logging.log4j.Level;

/** C21: the threads that the library makes. */
public final class ChecksThreads {

  static final String THREADS = "THREADS";
  private static final AtomicInteger ids = new AtomicInteger();
  /** the numbers of all threads of the library seen in this virtual machine */
  private static final Map<String, WeakReference<Thread>> numbers = new ConcurrentHashMap<>();

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C21", ChecksThreads::c21);
  }

  static Check c21() {
    Check c = new Check("C21", "thread factories used concurrently, machines (and apps) with library "
        + "executors that are fired at from several non-daemon threads while callbacks throw errors; every "
        + "thread on which a callback runs is examined, its number is compared with those of all library "
        + "threads seen before, errors have to reach the log exactly once and all events have to be "
        + "processed; separate processes have to exit when their main method returns; a case is "
        + "non-trivial if a library thread was examined; cases are distinct if names, counts and errors "
        + "differ", THREADS);
    c.noisy("factories", 20, ChecksThreads::factories);
    c.plain("many threads", 1, ChecksThreads::manyThreads);
    c.noisy("machines", 55, ChecksThreads::machines);
    c.noisy("apps", 10, ChecksThreads::apps);
    c.plain("process exit", 15, ChecksThreads::exits);
    return c;
  }

  private static String name(Random r) {
    String s = r.nextInt(3) == 0 ? Names.one(r, r.nextInt(100), r.nextInt(3), "t") : "thread-"
        + r.nextInt(1000);
    return s.indexOf('\u0000') >= 0 ? "zero" : s;
  }

  /**
   * @return what is wrong with a thread of the library, or null
   */
  private static String examine(Thread t, String name) {
    if (!t.isDaemon()) {
      return "is not a daemon thread";
    }
    String n = t.getName();
    if (!n.startsWith(name)) {
      return "is not named " + E.q(name);
    }
    String rest = n.substring(name.length());
    if (!rest.matches("[^0-9A-Za-z]?[0-9]+")) {
      return "is named " + E.q(n) + ", not " + E.q(name) + " and a number";
    }
    String number = rest.replaceAll("[^0-9]", "");
    WeakReference<Thread> ref = new WeakReference<>(t);
    WeakReference<Thread> other = numbers.putIfAbsent(number, ref);
    if (other != null && other.get() != t) {
      Thread o = other.get();
      return "shares its number " + number + " with " + (o == null ? "an earlier thread"
          : E.q(o.getName()));
    }
    return null;
  }

  /** Like those of a program that does not know about daemon threads. */
  private static Thread thread(boolean daemon, Runnable body) {
    Thread t = new Thread(body, "user");
    t.setDaemon(daemon);
    t.start();
    return t;
  }

  // ---------------------------------------------------------------------------------- factories

  /** However many threads there are. */
  private static void manyThreads(Run run) {
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("many");
    int n = run.r.nextBoolean() ? 150_000 + run.r.nextInt(100_000) : 1000 << run.r.nextInt(8);
    Set<String> names = new HashSet<>();
    Thread t = null;
    for (int i = 0; i < n; i++) {
      t = f.newThread(() -> {
      });
      if (!names.add(t.getName())) {
        run.violate(THREADS, "thread " + i + " of a factory shares the name " + t.getName(), null);
        break;
      }
    }
    run.sig(n);
    run.engine.count("threads of one factory", n);
    String b = examine(t, "many");
    if (b != null) {
      run.violate(THREADS, "a factory's thread " + b, null);
    }
    run.events += n;
  }

  private static void factories(Run run) throws Exception {
    Random r = run.r;
    int nf = 1 + r.nextInt(4);
    int nt = 1 + r.nextInt(4);
    int each = 1 + r.nextInt(30);
    String[] names = new String[nf];
    ThreadFactory[] fs = new ThreadFactory[nf];
    boolean[] handled = new boolean[nf];
    ConcurrentLinkedQueue<Object[]> calls = new ConcurrentLinkedQueue<>();
    for (int i = 0; i < nf; i++) {
      names[i] = i > 0 && r.nextInt(3) == 0 ? names[0] : name(r);
      handled[i] = r.nextBoolean();
      fs[i] = handled[i] ? Threads.newNamedDaemonThreadFactory(names[i],
          (t, e) -> calls.add(new Object[]{t, e})) : Threads.newNamedDaemonThreadFactory(names[i]);
    }
    ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    ConcurrentLinkedQueue<Object[]> thrown = new ConcurrentLinkedQueue<>();
    AtomicInteger made = new AtomicInteger();
    List<Thread> users = new ArrayList<>();
    CountDownLatch go = new CountDownLatch(1);
    for (int u = 0; u < nt; u++) {
      long seed = r.nextLong();
      users.add(thread(r.nextInt(4) == 0, () -> {
        Random q = new Random(seed);
        try {
          go.await();
        } catch (InterruptedException e) {
          return;
        }
        for (int i = 0; i < each; i++) {
          int f = q.nextInt(nf);
          AtomicInteger ran = new AtomicInteger();
          Thread[] on = new Thread[1];
          Throwable fail = handled[f] && q.nextInt(4) == 0 ? q.nextBoolean() ? new Throwables.TestError()
              : new IllegalStateException("induced") : null;
          Thread t;
          try {
            t = fs[f].newThread(() -> {
              ran.incrementAndGet();
              on[0] = Thread.currentThread();
              if (fail != null) {
                Throwables.sneak(fail);
              }
            });
          } catch (RuntimeException e) {
            bad.add("a factory with the name " + E.q(names[f]) + " failed: " + Engine.stack(e));
            return;
          }
          made.incrementAndGet();
          String b = t == null ? "is null" : examine(t, names[f]);
          if (b != null) {
            bad.add("a factory's thread " + b);
            return;
          }
          if (q.nextInt(3) == 0 || fail != null) {
            if (fail != null) {
              thrown.add(new Object[]{t, fail});
            }
            t.start();
            try {
              t.join(20000);
            } catch (InterruptedException e) {
              return;
            }
            if (!t.isAlive() && (ran.get() != 1 || on[0] != t)) {
              bad.add("a factory's thread ran its task " + ran + " times");
            }
          }
        }
      }));
    }
    go.countDown();
    for (Thread t : users) {
      t.join(60000);
      if (t.isAlive()) {
        run.inconclusive = "users did not finish";
        return;
      }
    }
    for (Object[] t : thrown) {
      int n = 0;
      for (Object[] c : calls) {
        n += c[0] == t[0] && c[1] == t[1] ? 1 : 0;
      }
      if (n != 1) {
        bad.add("the uncaught-exception handler was called " + n + " times for " + t[1]);
      }
    }
    if (calls.size() != thrown.size()) {
      bad.add("the uncaught-exception handlers were called " + calls.size() + " times instead of "
          + thrown.size());
    }
    run.events += made.get() + calls.size();
    run.sig(Arrays.asList(names).hashCode());
    run.sig(made.get() * 31L + calls.size());
    run.engine.count("threads examined", made.get());
    run.engine.count("uncaught exceptions handled", calls.size());
    bad.stream().distinct().limit(3).forEach(b -> run.violate(THREADS, b, null));
  }

  // ---------------------------------------------------------------------------------- machines

  private static final class Mach {

    final String name;
    GenericStateMachine<Object, Object> m;
    final AtomicInteger processed = new AtomicInteger();
    final Set<Thread> threads = ConcurrentHashMap.newKeySet();
    final Set<Thread> firing = ConcurrentHashMap.newKeySet();
    /** the thread an error was thrown on, with the error */
    final ConcurrentLinkedQueue<Object[]> errors = new ConcurrentLinkedQueue<>();
    final ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    volatile Thread starter;
    int fired;

    Mach(String name) {
      this.name = name;
    }

    /** In a callback. */
    void look(String at, StateEvent<Object> ev, boolean outcome) {
      Thread t = Thread.currentThread();
      Object p = ev.getPayload();
      if (!(p instanceof Job)) {
        return;
      }
      Job j = (Job) p;
      if (t == j.by) {
        bad.add("an event was processed on the thread that fired it");
      } else if (firing.contains(t) || t == starter) {
        bad.add("an event was processed on a thread of the program: " + t);
      } else if (threads.add(t)) {
        String b = examine(t, name);
        if (b != null) {
          bad.add("a processing thread " + b);
        }
      }
      for (Object[] e : errors) {
        if (e[0] == t) {
          bad.add("an event was processed on the thread that was ended by " + e[1]);
        }
      }
      Noise.hit(E.BEGIN);
      if (outcome) {
        processed.incrementAndGet();
      }
      if (at.equals(j.failAt)) {
        if (!outcome && !j.counted) {
          j.counted = true;
          processed.incrementAndGet();
        }
        Throwable e = Throwables.make(Throwables.EXCEPTIONS + 1 + j.kind % 3);
        errors.add(new Object[]{t, e});
        Throwables.sneak(e);
      }
    }
  }

  /** The payload. */
  private static final class Job {

    final Thread by = Thread.currentThread();
    final String failAt;
    final int kind;
    volatile boolean counted;

    Job(String failAt, int kind) {
      this.failAt = failAt;
      this.kind = kind;
    }
  }

  private static Mach machine(Random r) {
    int conf = r.nextInt(8);
    boolean standard = conf < 2;
    Mach x = new Mach(standard ? "state-machine" : name(r));
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    boolean lis = r.nextBoolean();
    if (lis) {
      b.setStateMachineListener(new StateMachineListener<>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> ev,
            State<Object, Object> t) {
          x.look("begin", ev, false);
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> ev,
            State<Object, Object> t) {
          x.look("end", ev, false);
        }
      });
    }
    if (conf == 0) {
      b.setEventProcessingStrategy(null);
    } else {
      EventProcessingStrategyFactory.Config<Object, Object> c =
          new EventProcessingStrategyFactory.Config<>();
      if (conf > 1) {
        c.withThreadName(x.name);
      }
      if (r.nextInt(4) == 0) {
        c.withMaxQueueSize(100000);
      }
      c.withUnmappedEventHandler((ev, sm) -> x.look("unmapped", ev, true));
      c.withUnexpectedFlowListener(new UnexpectedFlowListener<>() {
        @Override
        public void onExceptionDuringEventProcessing(StateEvent<Object> ev,
            StateMachine<Object, Object> sm, Thread t, Exception e) {
          x.look("flow", ev, false);
        }

        @Override
        public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
          x.bad.add("a late event");
        }

        @Override
        public void onEventBeforeMachineStart(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
          x.bad.add("an early event");
        }
      });
      EventProcessingStrategy<Object, Object> s = EventProcessingStrategyFactory.createDefaultStrategy(c);
      b.setEventProcessingStrategy(s);
    }
    x.m = b.build();
    NamedState<Object, Object> a = new NamedState<>("A");
    NamedState<Object, Object> z = new NamedState<>("B");
    for (NamedState<Object, Object> s : List.of(a, z)) {
      s.appendEntryActions((ev, sm) -> x.look("entry", ev, false));
      s.appendExitActions((ev, sm) -> x.look("exit", ev, true));
    }
    x.m.initialSate(a).receives(new NamedStateEvent<>("go")).itTransitionsTo(z)
        .when(z).receives(new NamedStateEvent<>("go")).itTransitionsTo(a);
    return x;
  }

  private static final String[] AT = {"exit", "entry", "begin", "end"};

  /** The process may have a handler of its own, that does not replace the one of a machine's threads. */
  private static void machines(Run run) throws Exception {
    Thread.UncaughtExceptionHandler before = Thread.getDefaultUncaughtExceptionHandler();
    if (run.r.nextInt(3) == 0) {
      Thread.setDefaultUncaughtExceptionHandler((t, e) -> {
      });
    }
    try {
      machinesAndErrors(run);
    } finally {
      Thread.setDefaultUncaughtExceptionHandler(before);
    }
  }

  private static void machinesAndErrors(Run run) throws Exception {
    Random r = run.r;
    int nm = 1 + r.nextInt(3);
    List<Mach> ms = new ArrayList<>();
    for (int i = 0; i < nm; i++) {
      ms.add(machine(r));
    }
    boolean log = r.nextInt(3) != 0;
    if (log) {
      Logs.start();
    }
    int nt = 1 + r.nextInt(3);
    int each = 1 + r.nextInt(40);
    int errorRate = r.nextInt(3) == 0 ? 0 : 2 + r.nextInt(10);
    List<Thread> users = new ArrayList<>();
    CountDownLatch go = new CountDownLatch(1);
    ConcurrentLinkedQueue<Throwable> failed = new ConcurrentLinkedQueue<>();
    for (Mach m : ms) {
      Thread t = thread(r.nextInt(4) == 0, () -> {
        m.starter = Thread.currentThread();
        m.m.start();
      });
      t.join();
      m.fired = each * nt;
    }
    for (int u = 0; u < nt; u++) {
      long seed = r.nextLong();
      users.add(thread(r.nextInt(4) == 0, () -> {
        Random q = new Random(seed);
        try {
          go.await();
          ms.forEach(m -> m.firing.add(Thread.currentThread()));
          for (int i = 0; i < each; i++) {
            for (Mach m : ms) {
              // the machines without handlers of ours have no unmapped events
              String failAt = errorRate > 0 && q.nextInt(errorRate) == 0 ? AT[q.nextInt(4)] : null;
              NamedStateEvent<Object> ev = new NamedStateEvent<>("go");
              ev.setPayload(new Job(failAt, q.nextInt(3)));
              m.m.fire(ev);
            }
          }
        } catch (Throwable e) {
          failed.add(e);
        }
      }));
    }
    go.countDown();
    for (Thread t : users) {
      t.join(60000);
      if (t.isAlive()) {
        run.inconclusive = "users did not finish";
        return;
      }
    }
    if (!failed.isEmpty()) {
      run.violate(THREADS, "fire() failed: " + Engine.stack(failed.peek()), null);
      return;
    }
    for (Mach m : ms) {
      // an error at the begin of a transition comes before the outcome is counted, see look()
      if (!Run.await(20, () -> m.processed.get() >= m.fired || !m.bad.isEmpty())) {
        if (idle(m.name)) {
          run.violate(THREADS, m.processed + " of " + m.fired + " events have been processed after "
              + m.errors.size() + " errors, and none is being processed", null);
        } else {
          run.inconclusive = "events are not processed in time";
        }
        return;
      }
    }
    int errors = 0;
    for (Mach m : ms) {
      errors += m.errors.size();
      run.engine.count("threads examined", m.threads.size());
      run.events += m.processed.get();
      run.sig(m.name.hashCode());
      run.sig(m.fired * 31L + m.errors.size());
      run.sig(m.threads.size());
      m.bad.stream().distinct().limit(3).forEach(b -> run.violate(THREADS, b, null));
    }
    run.engine.count("errors survived", errors);
    if (log) {
      logged(run, ms);
    }
  }

  private static boolean idle(String name) {
    for (int i = 0; i < 30; i++) {
      for (Map.Entry<Thread, StackTraceElement[]> t : Thread.getAllStackTraces().entrySet()) {
        if (t.getKey().getName().startsWith(name)) {
          for (StackTraceElement e : t.getValue()) {
            if (e.getClassName().startsWith("com.webotech.")) {
              return false;
            }
          }
        }
      }
      Noise.pause(50_000);
    }
    return true;
  }

  /** Each error has to be logged exactly once by the library's handler. */
  private static void logged(Run run, List<Mach> ms) {
    List<Object[]> errors = new ArrayList<>();
    ms.forEach(m -> errors.addAll(m.errors));
    for (Object[] e : errors) {
      Thread t = (Thread) e[0];
      boolean dead = Run.await(20, () -> !t.isAlive());
      if (!dead) {
        // processing must go on, not necessarily elsewhere if nothing remains to be done
        run.inconclusive = "the thread of an error lives on";
        Logs.stop();
        return;
      }
    }
    List<Logs.Line> lines = Logs.stop();
    for (Object[] e : errors) {
      int n = 0;
      Logs.Line line = null;
      for (Logs.Line l : lines) {
        if (l.thrown == e[1]) {
          n++;
          line = l;
        }
      }
      if (n != 1) {
        run.violate(THREADS, "an error that ended the thread " + e[0] + " was logged " + n + " times",
            null);
        return;
      }
      if (line.level != Level.ERROR || !line.text.contains(((Thread) e[0]).getName())) {
        run.violate(THREADS, "an error that ended the thread " + e[0] + " was logged as " + line, null);
        return;
      }
    }
    run.engine.count("errors found in the log", errors.size());
  }

  // ---------------------------------------------------------------------------------- apps

  private static final class Ctx extends AbstractAppContext<Ctx> {

    Ctx(String name) {
      super(name);
    }
  }

  private static final class Svc extends AbstractAppService<Ctx> {

    Svc(Ctx c, boolean exit) {
      super(c, exit);
    }
  }

  private static void apps(Run run) throws Exception {
    Random r = run.r;
    List<Svc> svcs = new ArrayList<>();
    ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    AtomicInteger examined = new AtomicInteger();
    int n = 1 + r.nextInt(2);
    List<Thread> mains = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Ctx c = new Ctx("an app");
      String name = r.nextInt(3) == 0 ? "app" : name(r);
      if (!name.equals("app")) {
        c.withAppThreadName(name);
      }
      run.sig(name.hashCode());
      Set<Thread> seen = new HashSet<>();
      Supplier<String> look = () -> {
        Thread t = Thread.currentThread();
        if (t.getName().equals("main of app")) {
          return "calls a subsystem on the thread of start()";
        }
        if (seen.add(t)) {
          examined.incrementAndGet();
          return examine(t, name);
        }
        return null;
      };
      Subsystem<Ctx> sub = new Subsystem<>() {
        @Override
        public void start(Ctx x) {
          String b = look.get();
          if (b != null) {
            bad.add("an app's thread " + b);
          }
        }

        @Override
        public void stop(Ctx x) {
          start(x);
        }
      };
      c.withSubsystems(List.of(sub));
      Svc s = new Svc(c, r.nextBoolean());
      svcs.add(s);
      Thread t = new Thread(s::start, "main of app");
      // killed with the virtual machine if it should not return
      t.setDaemon(true);
      mains.add(t);
      t.start();
    }
    for (int i = 0; i < n; i++) {
      Svc s = svcs.get(i);
      Supplier<String> st = () -> s.getLifecycleState() == null ? "" : s.getLifecycleState().getName();
      if (!Run.await(20, () -> st.get().equals("STARTED"))) {
        run.inconclusive = "the app does not start";
        return;
      }
      s.stop();
      if (!Run.await(20, () -> st.get().equals("STOPPED") || st.get().equals("_END_"))) {
        run.inconclusive = "the app does not stop";
        return;
      }
      if (mains.get(i).isAlive() && st.get().equals("STOPPED")) {
        try {
          s.stop();
        } catch (IllegalStateException e) {
          // is ending already
        }
      }
      mains.get(i).join(20000);
    }
    run.events += examined.get();
    run.engine.count("threads examined", examined.get());
    bad.stream().distinct().limit(3).forEach(b -> run.violate(THREADS, b, null));
  }

  // ---------------------------------------------------------------------------------- exit

  private static void exits(Run run) throws Exception {
    long seed = run.r.nextInt(1000000);
    List<String> cmd = new ArrayList<>(List.of(
        System.getProperty("java.home") + File.separator + "bin" + File.separator + "java", "-Xmx128m",
        "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dlog4j2.disableJmx=true",
        "-Dlog4j2.statusLoggerLevel=OFF", "-Dlog4j2.shutdownHookEnabled=false", "-cp",
        System.getProperty("java.class.path"), "vh.ChecksThreads$Probe", "" + seed));
    Process p = new ProcessBuilder(cmd).redirectErrorStream(true).start();
    p.getOutputStream().close();
    StringBuilder out = new StringBuilder();
    Thread reader = new Thread(() -> {
      try {
        byte[] b = p.getInputStream().readAllBytes();
        synchronized (out) {
          out.append(new String(b));
        }
      } catch (java.io.IOException e) {
        // gone
      }
    });
    reader.setDaemon(true);
    reader.start();
    boolean done = p.waitFor(90, TimeUnit.SECONDS);
    if (!done) {
      p.destroyForcibly();
      run.inconclusive = "the process hangs";
      return;
    }
    reader.join(5000);
    String o;
    synchronized (out) {
      o = out.toString();
    }
    run.events++;
    run.sig(seed);
    run.engine.count("processes", 1);
    if (p.exitValue() == 7) {
      run.violate(THREADS, "the process does not exit when its main method has returned: "
          + o.substring(o.indexOf("ALIVE")), null);
    } else if (p.exitValue() != 0 || !o.contains("MAIN DONE")) {
      run.inconclusive = "the process failed with " + p.exitValue() + ": " + o.substring(0,
          Math.min(500, o.length()));
    }
  }

  /** A program whose main method returns while machines and apps are idle, busy or waiting. */
  public static final class Probe {

    public static void main(String[] a) throws Exception {
      Logs.init();
      Random r = new Random(Long.parseLong(a[0]));
      for (int i = 1 + r.nextInt(4); i > 0; i--) {
        Mach m = machine(r);
        m.m.start();
        int n = 1 + r.nextInt(20);
        for (int k = 0; k < n; k++) {
          NamedStateEvent<Object> ev = new NamedStateEvent<>("go");
          ev.setPayload(new Job(r.nextInt(4) == 0 ? AT[r.nextInt(4)] : null, r.nextInt(3)));
          m.m.fire(ev);
        }
        if (r.nextBoolean()) {
          Run.await(5, () -> m.processed.get() >= n);
        }
        if (r.nextInt(4) == 0) {
          m.m.stop();
        }
      }
      for (int i = r.nextInt(3); i > 0; i--) {
        Svc s = new Svc(new Ctx("an app"), r.nextBoolean());
        if (r.nextInt(3) != 0) {
          Thread t = new Thread(s::start, "main of app");
          t.setDaemon(true);
          t.start();
          Run.await(5, () -> s.getLifecycleState() != null && s.getLifecycleState().getName().equals(
              "STARTED"));
          if (r.nextBoolean()) {
            s.stop();
          }
        }
      }
      Threads.newNamedDaemonThreadFactory("waits").newThread(() -> {
        try {
          Thread.sleep(1000000);
        } catch (InterruptedException e) {
          // end
        }
      }).start();
      Thread dog = new Thread(() -> {
        for (int i = 0; i < 40; i++) {
          try {
            Thread.sleep(500);
          } catch (InterruptedException e) {
            return;
          }
        }
        StringBuilder sb = new StringBuilder("ALIVE");
        for (Thread t : Thread.getAllStackTraces().keySet()) {
          if (!t.isDaemon()) {
            sb.append(' ').append(t.getName());
          }
        }
        System.out.println(sb);
        System.out.flush();
        Runtime.getRuntime().halt(7);
      }, "watchdog");
      dog.setDaemon(true);
      dog.start();
      System.out.println("MAIN DONE");
      System.out.flush();
    }
  }
}
