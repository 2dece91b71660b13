package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.lang.management.ManagementFactory;
import java.lang.ref.WeakReference;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Random;
import java.util.TreeMap;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.locks.LockSupport;
import java.util.function.Supplier;
import javax.management.ObjectName;

/** C20: what the library keeps. Nothing here may hold the objects whose reclamation is watched. */
final class ChecksRetain {

  static final String RETAIN = "RETAIN";
  private static final AtomicInteger ids = new AtomicInteger();

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C20", ChecksRetain::c20);
  }

  static Check c20() {
    Check c = new Check("C20", "bursts of events whose payloads (and machines, and contexts) are only "
        + "held by weak references, through all outcomes of an event, backlogs of 1 to 20000, both "
        + "strategies and all sorts of executors and queues; when the machine is idle, garbage collections "
        + "have to clear the references; object histograms of the whole heap are compared before and "
        + "after many bursts; a case is non-trivial if payloads were fired; cases are distinct if "
        + "configuration, events or outcomes differ", RETAIN);
    c.noisy("payloads", 45, ChecksRetain::payloads);
    c.noisy("machines", 20, ChecksRetain::machines);
    c.plain("apps", 8, ChecksRetain::apps);
    c.plain("growth", 20, ChecksRetain::growth);
    return c;
  }

  /** A payload, also big enough to be noticed in histograms. */
  static final class Payload {

    final long[] filler = new long[2];
  }

  static final class Watched {

    final WeakReference<Object> ref;
    final String what;

    Watched(Object o, String what) {
      ref = new WeakReference<>(o);
      this.what = what;
    }
  }

  /** States, events and callbacks that keep nothing. */
  private static final class Rig {

    final String tag = "retain" + ids.incrementAndGet();
    final Random r;
    GenericStateMachine<Object, Object> m;
    MonExecutor exec;
    String threadName;
    EventProcessingStrategy<Object, Object> strategy;
    EventProcessingStrategyFactory.Config<Object, Object> config;
    Queue<EventMachinePair<Object, Object>> queue;
    StateMachineListener<Object, Object> listener;
    final List<Object> parts = new ArrayList<>();
    boolean dropDup;
    int max = -1;
    String conf = "";
    final AtomicInteger outcomes = new AtomicInteger();
    final AtomicInteger refused = new AtomicInteger();
    final AtomicInteger unexpected = new AtomicInteger();
    volatile CountDownLatch gate;
    volatile boolean entered;

    Rig(Random r) {
      this.r = r;
    }

    /** What a callback does is told by the event's name. */
    private void maybe(String at, StateEvent<Object> ev) {
      String n = ev.getName();
      int i = n.indexOf('#');
      n = i < 0 ? n : n.substring(0, i);
      if (n.equals("gate") && at.equals("begin")) {
        entered = true;
        boolean done = false;
        while (!done) {
          try {
            done = gate.await(60, TimeUnit.SECONDS) || true;
          } catch (InterruptedException e) {
            // stay
          }
        }
      }
      if (n.equals(at)) {
        throw new IllegalStateException("induced");
      }
      if (n.equals(at + "!")) {
        throw new Throwables.TestError();
      }
      if (n.equals(at + "?")) {
        Throwables.sneak(new Throwables.TestChecked());
      }
    }

    static final String[] NAMES = {"go", "go", "go", "noop", "unmapped", "begin", "exit", "entry",
        "end", "begin!", "exit!", "entry!", "end!", "entry?", "unmapped?", "unmapped!", "flow"};

    void build(Object context, boolean allowDefault, Map<String, Integer> suffixes) {
      StateMachineListener<Object, Object> l = new StateMachineListener<>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> ev,
            State<Object, Object> t) {
          outcomes.incrementAndGet();
          maybe("begin", ev);
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> ev,
            State<Object, Object> t) {
          maybe("end", ev);
        }
      };
      listener = r.nextInt(4) == 0 ? new MultiConsumerStateMachineListener<>(l) : l;
      GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
      b.setContext(context);
      if (r.nextBoolean()) {
        b.setStateMachineListener(listener);
      }
      if (allowDefault && r.nextInt(4) == 0) {
        conf = "default strategy";
        threadName = "state-machine";
        if (r.nextBoolean()) {
          strategy = r.nextBoolean() ? EventProcessingStrategyFactory.createDefaultStrategy()
              : EventProcessingStrategyFactory.createDropDuplicateStrategy();
          b.setEventProcessingStrategy(strategy);
        }
      } else {
        config = new EventProcessingStrategyFactory.Config<>();
        if (r.nextInt(3) == 0) {
          threadName = tag;
          config.withThreadName(tag);
        } else {
          exec = new MonExecutor();
          config.withExecutor(exec);
        }
        if (r.nextInt(4) == 0) {
          max = 1 + r.nextInt(20);
          config.withMaxQueueSize(max);
        }
        int q = r.nextInt(7);
        queue = r.nextInt(3) == 0 ? new ArrayBlockingQueue<>(1 + r.nextInt(20)) : World.queue(q, null);
        if (queue != null) {
          config.withEventQueue(queue);
        }
        if (r.nextInt(3) != 0) {
          config.withUnmappedEventHandler((ev, sm) -> {
            outcomes.incrementAndGet();
            maybe("unmapped", ev);
          });
        }
        if (r.nextInt(3) != 0) {
          config.withUnexpectedFlowListener(new UnexpectedFlowListener<>() {
            @Override
            public void onExceptionDuringEventProcessing(StateEvent<Object> ev,
                StateMachine<Object, Object> sm, Thread t, Exception e) {
              refused.incrementAndGet();
              if (exec != null && exec.isWorker(Thread.currentThread())) {
                maybe("flow", ev);
              }
            }

            @Override
            public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
              unexpected.incrementAndGet();
            }

            @Override
            public void onEventBeforeMachineStart(StateEvent<Object> ev,
                StateMachine<Object, Object> sm) {
              unexpected.incrementAndGet();
            }
          });
        }
        dropDup = r.nextInt(3) == 0;
        strategy = dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(config)
            : EventProcessingStrategyFactory.createDefaultStrategy(config);
        b.setEventProcessingStrategy(strategy);
        conf = (dropDup ? "drop-duplicate " : "") + (exec != null ? "own executor" : "library executor")
            + (max > 0 ? " at most " + max : "") + (queue == null ? ""
            : " " + queue.getClass().getSimpleName());
      }
      m = b.build();
      if (r.nextBoolean()) {
        m.setStateMachineListener(listener);
      }
      NamedState<Object, Object> a = new NamedState<>("A");
      NamedState<Object, Object> c = new NamedState<>("B");
      for (NamedState<Object, Object> s : List.of(a, c)) {
        StateAction<Object, Object> in = (ev, sm) -> maybe("entry", ev);
        StateAction<Object, Object> out = (ev, sm) -> {
          maybe("exit", ev);
          if (ev.getName().startsWith("flow")) {
            throw new IllegalStateException("induced");
          }
        };
        s.appendEntryActions(in);
        s.appendExitActions(out);
        parts.add(s);
      }
      StateMachine<Object, Object> sm = m.initialSate(a);
      for (int i = 0; i < 2; i++) {
        NamedState<Object, Object> from = i == 0 ? a : c;
        NamedState<Object, Object> to = i == 0 ? c : a;
        boolean first = i == 0;
        for (Map.Entry<String, Integer> n : suffixes.entrySet()) {
          if (n.getKey().startsWith("unmapped")) {
            continue;
          }
          for (int k = -1; k < n.getValue(); k++) {
            if (!first) {
              sm = sm.when(from);
            }
            first = false;
            NamedStateEvent<Object> ev = new NamedStateEvent<>(n.getKey() + (k < 0 ? "" : "#" + k));
            sm = sm.receives(ev);
            sm = n.getKey().equals("noop") ? sm.itDoesNotTransition() : n.getKey().equals("stop")
                ? sm.itEnds() : sm.itTransitionsTo(to);
          }
        }
      }
    }

    private volatile long busyAt = System.nanoTime();

    /** A thread of the library's executor may just be replaced, so one look does not tell. */
    boolean idle() {
      if (exec != null) {
        return exec.idle();
      }
      if (!quiet()) {
        busyAt = System.nanoTime();
        return false;
      }
      return m != null && m.getEventQueueSize() == 0 && quiet()
          || System.nanoTime() - busyAt > 1_500_000_000L;
    }

    boolean awaitIdle() {
      busyAt = System.nanoTime();
      return Run.await(30, this::idle);
    }

    private boolean quiet() {
      for (Map.Entry<Thread, StackTraceElement[]> t : Thread.getAllStackTraces().entrySet()) {
        if (t.getKey().getName().startsWith(threadName)) {
          boolean task = false;
          boolean running = false;
          for (StackTraceElement e : t.getValue()) {
            task |= e.getMethodName().equals("getTask");
            running |= e.getClassName().startsWith("com.webotech.");
          }
          if (t.getValue().length > 0 && (!task || running)) {
            return false;
          }
        }
      }
      return true;
    }

    void close() {
      if (exec != null) {
        exec.shutdownNow();
      }
      if (gate != null) {
        gate.countDown();
      }
    }
  }

  private static Map<String, Integer> suffixes(int each) {
    Map<String, Integer> s = new TreeMap<>();
    for (String n : Rig.NAMES) {
      s.put(n, each);
    }
    s.put("gate", 0);
    s.put("stop", 0);
    return s;
  }

  /** A payload-carrying event of a class of its own. */
  private static final class OwnEvent implements StateEvent<Object> {

    private final String name;
    private Object payload;

    OwnEvent(String name, Object payload) {
      this.name = name;
      this.payload = payload;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object payload) {
      this.payload = payload;
    }
  }

  /** Runs on threads that are gone when references are looked at. */
  private static boolean apart(Run run, Runnable... bodies) throws InterruptedException {
    Run.Threads t = run.threads();
    for (Runnable b : bodies) {
      t.add("driver", b::run);
    }
    t.start();
    return t.join(60);
  }

  private static void shot(Rig g, Random r, String name, NamedStateEvent<Object> reused,
      List<Watched> watched, String what) {
    Object p = r.nextInt(6) == 0 ? new Object[]{new Payload()} : new Payload();
    synchronized (watched) {
      watched.add(new Watched(p, what + name));
    }
    StateEvent<Object> ev;
    switch (r.nextInt(4)) {
      case 0:
        reused.setPayload(p);
        ev = reused;
        break;
      case 1:
        ev = new OwnEvent(name, p);
        break;
      default:
        ev = new NamedStateEvent<>(name);
        ev.setPayload(p);
    }
    try {
      g.m.fire(ev);
    } catch (RuntimeException e) {
      // what a full queue's owner throws is not of interest here
    }
    reused.setPayload(null);
  }

  private static void payloads(Run run) throws Exception {
    Random r = run.r;
    Rig g = new Rig(r);
    run.onEnd(g::close);
    g.build(new Object(), true, suffixes(3));
    List<Watched> watched = new ArrayList<>();
    int senders = 1 + r.nextInt(3);
    boolean big = r.nextInt(40) == 0;
    int n = big ? (run.thorough ? 60000 : 12000) : 1 + r.nextInt(r.nextInt(4) == 0 ? 1500 : 120);
    // 0: none, 1: by an event, 2: by a call, 3: in the midst of a backlog
    int end = r.nextInt(5);
    boolean gated = r.nextInt(3) == 0 && !(g.threadName != null && g.threadName.equals("state-machine"));
    boolean calm = r.nextInt(3) == 0;
    run.sig(g.conf.hashCode());
    run.sig(n * 31L + end * 7L + (gated ? 1 : 0));
    Runnable[] bodies = new Runnable[senders];
    CountDownLatch started = new CountDownLatch(1);
    for (int s = 0; s < senders; s++) {
      Random q = new Random(r.nextLong());
      boolean lead = s == 0;
      bodies[s] = () -> {
        NamedStateEvent<Object> reused = new NamedStateEvent<>("go");
        if (lead) {
          for (int i = q.nextInt(3); i > 0; i--) {
            shot(g, q, "go", reused, watched, "before the start: ");
          }
          if (q.nextInt(4) == 0) {
            g.m.startInState(new NamedState<>(q.nextBoolean() ? "A" : "B"));
          } else {
            g.m.start();
          }
          if (gated) {
            g.gate = new CountDownLatch(1);
            g.m.fire(new NamedStateEvent<>("gate"));
          }
          started.countDown();
        } else {
          try {
            started.await();
          } catch (InterruptedException e) {
            throw new IllegalStateException(e);
          }
        }
        for (int i = 0; i < n; i++) {
          if (lead && i == n / 2 && end == 1) {
            shot(g, q, "stop", reused, watched, "");
          }
          if (lead && i == n / 2 && end == 3) {
            g.m.stop();
          }
          String name = Rig.NAMES[q.nextInt(calm || big ? 4 : Rig.NAMES.length)];
          int k = q.nextInt(4);
          shot(g, q, name + (k == 3 ? "" : "#" + k), reused, watched, "");
        }
        if (lead && end == 2) {
          g.m.stop();
        }
      };
    }
    if (!apart(run, bodies)) {
      run.inconclusive = "senders did not finish";
      g.close();
      return;
    }
    if (gated) {
      g.gate.countDown();
    }
    if (!g.awaitIdle()) {
      run.inconclusive = "does not become idle";
      return;
    }
    run.sig(g.outcomes.get());
    run.sig(g.refused.get());
    run.sig(g.unexpected.get());
    run.events += watched.size();
    run.sample = g.conf + ", " + watched.size() + " payloads fired, " + g.outcomes + " transitions, "
        + g.refused + " refused, " + g.unexpected + " early or late";
    run.engine.count("payloads fired", watched.size());
    run.engine.count("payloads refused or failed", g.refused.get());
    run.engine.count("payloads early or late", g.unexpected.get());
    cleared(run, watched, g, "the payload of ");
  }

  /** Collects until nothing watched is left, or nothing changes any more. */
  private static void cleared(Run run, List<Watched> watched, Rig g, String prefix) {
    long until = System.nanoTime() + 6_000_000_000L;
    int gcs = 0;
    List<Watched> left = left(watched);
    while (!left.isEmpty()) {
      if (System.nanoTime() > until && gcs > 12) {
        break;
      }
      System.gc();
      gcs++;
      left = left(left);
      if (!left.isEmpty()) {
        LockSupport.parkNanos(gcs < 3 ? 1_000_000L : 50_000_000L);
      }
    }
    run.engine.count("collections", gcs);
    run.engine.count("references seen cleared", watched.size() - left.size());
    if (left.isEmpty()) {
      return;
    }
    if (g != null && !g.awaitIdle()) {
      run.inconclusive = "not idle when references were looked at";
      return;
    }
    Map<String, Integer> by = new TreeMap<>();
    left.forEach(w -> by.merge(w.what.replaceAll("#.*", ""), 1, Integer::sum));
    run.violate(RETAIN, prefix + left.size() + " of " + watched.size() + " still reachable after " + gcs
        + " collections: " + by + (g == null ? "" : " (" + g.conf + ")"));
  }

  private static List<Watched> left(List<Watched> l) {
    List<Watched> left = new ArrayList<>();
    for (Watched w : l) {
      if (w.ref.get() != null) {
        left.add(w);
      }
    }
    return left;
  }

  // ---------------------------------------------------------------------------------- machines

  private static void machines(Run run) throws Exception {
    Random r = run.r;
    int n = 1 + r.nextInt(8);
    List<Watched> watched = new ArrayList<>();
    List<Object> kept = new ArrayList<>();
    List<MonExecutor> execs = new ArrayList<>();
    run.onEnd(() -> execs.forEach(MonExecutor::shutdownNow));
    long seed = r.nextLong();
    StringBuilder confs = new StringBuilder();
    boolean[] bad = new boolean[1];
    apart(run, () -> {
      Random q = new Random(seed);
      for (int i = 0; i < n; i++) {
        Rig g = new Rig(q);
        Object context = new Object[]{new Payload()};
        g.build(context, true, suffixes(0));
        String life = abandon(g, q);
        if (!g.awaitIdle()) {
          bad[0] = true;
        }
        String what = g.conf + ", " + life;
        confs.append(what).append("; ");
        watched.add(new Watched(g.m, "a machine with " + what));
        watched.add(new Watched(context, "the context of a machine with " + what));
        g.m = null;
        // whatever else the program may go on to hold
        if (q.nextBoolean()) {
          kept.addAll(g.parts);
        }
        if (q.nextInt(3) == 0 && g.strategy != null) {
          kept.add(g.strategy);
        }
        if (q.nextBoolean() && g.config != null) {
          kept.add(g.config);
        }
        if (q.nextBoolean() && g.queue != null) {
          kept.add(g.queue);
        }
        if (g.exec != null) {
          execs.add(g.exec);
        }
      }
    });
    if (bad[0]) {
      run.inconclusive = "does not become idle";
      return;
    }
    run.events += n;
    run.sig(confs.toString().hashCode());
    run.sample = confs.toString();
    run.engine.count("machines abandoned", n);
    cleared(run, watched, null, "");
    if (kept.size() > 1000) {
      run.sig(1);
    }
  }

  private static String abandon(Rig g, Random q) {
    int life = q.nextInt(6);
    if (life == 0) {
      return "never started";
    }
    if (q.nextInt(4) == 0) {
      g.m.fire(new NamedStateEvent<>("go"));
    }
    g.m.start();
    List<Watched> none = new ArrayList<>();
    NamedStateEvent<Object> reused = new NamedStateEvent<>("go");
    int k = q.nextInt(30);
    for (int i = 0; i < k; i++) {
      if (i == k / 2 && life == 1) {
        g.m.fire(new NamedStateEvent<>("stop"));
      }
      if (i == k / 2 && life == 2) {
        g.m.stop();
      }
      shot(g, q, Rig.NAMES[q.nextInt(Rig.NAMES.length)], reused, none, "");
    }
    if (life == 3) {
      g.m.stop();
      shot(g, q, "go", reused, none, "");
    }
    return k + " events" + (life == 1 ? ", ended by an event" : life <= 3 ? ", stopped" : "");
  }

  // ---------------------------------------------------------------------------------- apps

  private static final class Ctx extends AbstractAppContext<Ctx> {

    Ctx(String name) {
      super(name, new String[]{"x"});
    }
  }

  private static final class Svc extends AbstractAppService<Ctx> {

    Svc(Ctx c, boolean exit) {
      super(c, exit);
    }
  }

  private static final class Sub implements Subsystem<Ctx> {

    final boolean fails;

    Sub(boolean fails) {
      this.fails = fails;
    }

    @Override
    public void start(Ctx c) {
      if (fails) {
        throw new IllegalStateException("induced");
      }
    }

    @Override
    public void stop(Ctx c) {
      if (fails) {
        throw new IllegalStateException("induced");
      }
    }
  }

  private static void apps(Run run) throws Exception {
    Random r = run.r;
    List<Watched> watched = new ArrayList<>();
    StringBuilder what = new StringBuilder();
    boolean[] bad = new boolean[1];
    long seed = r.nextLong();
    boolean joined = apart(run, () -> {
      Random q = new Random(seed);
      for (int i = 0; i < 3; i++) {
        boolean exit = q.nextBoolean();
        boolean start = q.nextInt(5) != 0;
        Ctx c = new Ctx("app" + ids.incrementAndGet());
        c.withAppThreadName("retained-app" + ids.incrementAndGet());
        c.withSubsystems(List.of(new Sub(false), new Sub(q.nextInt(3) == 0)));
        Svc s = new Svc(c, exit);
        what.append(exit ? " exit" : " stay").append(start ? " run" : " never started");
        if (start && !cycle(s, exit)) {
          bad[0] = true;
        }
        watched.add(new Watched(s, "an app (" + what + ")"));
        watched.add(new Watched(c, "the context of an app (" + what + ")"));
      }
    });
    if (!joined || bad[0]) {
      run.inconclusive = "the app does not do its cycle";
      return;
    }
    run.events += 3;
    run.sig(what.toString().hashCode());
    run.engine.count("apps abandoned", 3);
    cleared(run, watched, null, "");
  }

  private static boolean cycle(Svc s, boolean exit) {
    Thread t = new Thread(s::start, "app main");
    t.setDaemon(true);
    t.start();
    Supplier<String> st = () -> s.getLifecycleState() == null ? "" : s.getLifecycleState().getName();
    if (!Run.await(20, () -> st.get().equals("STARTED") || st.get().equals("STOPPED")
        || st.get().equals("_END_"))) {
      return false;
    }
    for (int i = 0; i < 3 && !st.get().equals("_END_"); i++) {
      try {
        if (!exit || st.get().equals("STARTED")) {
          s.stop();
        }
      } catch (IllegalStateException e) {
        // too early or late
      }
      Run.await(5, () -> st.get().equals("STOPPED") || st.get().equals("_END_"));
    }
    Run.await(20, () -> st.get().equals("_END_"));
    try {
      t.join(20000);
    } catch (InterruptedException e) {
      return false;
    }
    return !t.isAlive();
  }

  // ---------------------------------------------------------------------------------- growth

  private static Map<String, long[]> histogram() throws Exception {
    String h = (String) ManagementFactory.getPlatformMBeanServer().invoke(
        new ObjectName("com.sun.management:type=DiagnosticCommand"), "gcClassHistogram",
        new Object[]{new String[0]}, new String[]{String[].class.getName()});
    Map<String, long[]> m = new HashMap<>();
    for (String line : h.split("\n")) {
      String[] w = line.trim().split("\\s+");
      if (w.length >= 4 && w[0].endsWith(":") && Character.isDigit(w[0].charAt(0))) {
        m.put(w[3], new long[]{Long.parseLong(w[1]), Long.parseLong(w[2])});
      }
    }
    if (m.size() < 20) {
      throw new IllegalStateException("no histogram: " + h);
    }
    return m;
  }

  private static void growth(Run run) throws Exception {
    Random r = run.r;
    histogram();
    long pairs0 = pairs(histogram());
    Rig g = new Rig(r);
    run.onEnd(g::close);
    g.build(new Object(), false, suffixes(0));
    String[] used = new String[1 + r.nextInt(6)];
    for (int i = 0; i < used.length; i++) {
      used[i] = Rig.NAMES[r.nextInt(Rig.NAMES.length)];
      // the errors take too long
      used[i] = used[i].endsWith("!") && r.nextInt(4) != 0 ? "go" : used[i];
    }
    int burst = 1 + r.nextInt(r.nextBoolean() ? 300 : 20);
    int bursts = Math.max(20, 6000 / burst);
    boolean named = r.nextBoolean();
    boolean gated = r.nextBoolean();
    int[] counter = new int[1];
    g.m.start();
    if (!bursts(run, g, used, burst, Math.max(3, bursts / 6), named, gated, counter)) {
      return;
    }
    Map<String, long[]> before = histogram();
    int n0 = counter[0];
    if (!bursts(run, g, used, burst, bursts, named, gated, counter)) {
      return;
    }
    Map<String, long[]> after = histogram();
    int fired = counter[0] - n0;
    run.events += fired;
    run.sig(g.conf.hashCode());
    run.sig(List.of(used).hashCode() * 31L + burst);
    run.sample = g.conf + ", " + bursts + " bursts of " + burst + " " + List.of(used);
    run.engine.count("events fired between histograms", fired);
    long pairs = pairs(after) - pairs0;
    run.engine.max("largest number of event holders", Math.max(0, pairs));
    // the backlog never was larger than one burst
    if (pairs > burst + 66) {
      run.violate(RETAIN, pairs + " event holders are kept after bursts of " + burst + " (" + g.conf
          + ", " + List.of(used) + ")");
    }
    for (Map.Entry<String, long[]> e : after.entrySet()) {
      long[] b = before.getOrDefault(e.getKey(), new long[2]);
      long more = e.getValue()[0] - b[0];
      // what the virtual machine itself makes on the way is not proportional to the events
      boolean own = e.getKey().startsWith("com.webotech.");
      if (more > fired / (own ? 10 : 4) || e.getValue()[1] - b[1] > fired * 24L + 2_000_000) {
        // may be something else that happened meanwhile: it then does not happen again
        Map<String, long[]> b2 = histogram();
        int n1 = counter[0];
        if (!bursts(run, g, used, burst, bursts, named, gated, counter)) {
          return;
        }
        Map<String, long[]> a2 = histogram();
        long again = a2.getOrDefault(e.getKey(), new long[2])[0] - b2.getOrDefault(e.getKey(),
            new long[2])[0];
        long bytes = a2.getOrDefault(e.getKey(), new long[2])[1] - b2.getOrDefault(e.getKey(),
            new long[2])[1];
        int f2 = counter[0] - n1;
        if (again > f2 / (own ? 10 : 4) || bytes > f2 * 24L + 2_000_000) {
          run.violate(RETAIN, "after " + fired + " events in bursts of " + burst + " there are " + more
              + " more objects of " + e.getKey() + ", and after " + f2 + " further events " + again
              + " more (" + bytes + " bytes, " + g.conf + ", " + List.of(used) + ")");
          return;
        }
      }
    }
  }

  private static long pairs(Map<String, long[]> h) {
    long[] v = h.get("com.webotech.statemachine.strategy.EventMachinePair");
    return v == null ? 0 : v[0];
  }

  private static boolean bursts(Run run, Rig g, String[] used, int burst, int bursts, boolean named,
      boolean gated, int[] counter) throws InterruptedException {
    long until = System.nanoTime() + 30_000_000_000L;
    for (int b = 0; b < bursts; b++) {
      if (System.nanoTime() > until) {
        run.inconclusive = "bursts take too long";
        return false;
      }
      CountDownLatch hold = gated && g.exec != null ? g.exec.hold() : null;
      NamedStateEvent<Object> reused = new NamedStateEvent<>("go");
      List<Watched> none = new ArrayList<>();
      for (int i = 0; i < burst; i++) {
        // a name of its own, unmapped, or one that is mapped
        String n = named ? (i % 2 == 0 ? "unmapped" : "go") + "#" + counter[0] : used[i % used.length];
        counter[0]++;
        shot(g, run.r, n, reused, none, "");
        none.clear();
      }
      if (hold != null) {
        hold.countDown();
      }
      if (!g.awaitIdle()) {
        run.inconclusive = "does not become idle";
        return false;
      }
      if (g.exec != null) {
        g.exec.forget();
      }
    }
    return true;
  }
}
