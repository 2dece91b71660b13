package vh;

import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.BooleanSupplier;
import java.util.regex.Pattern;

/** One app under test, with recording subsystems and listener, and the oracle for its history. */
final class App {

  static final String NONE = "_UNINITIALISED_";
  static final String UNINIT = "UNINITIALISED";
  static final String STARTING = "STARTING";
  static final String STARTED = "STARTED";
  static final String STOPPING = "STOPPING";
  static final String STOPPED = "STOPPED";
  static final String END = "_END_";

  private static final AtomicInteger ids = new AtomicInteger();
  private static final Map<String, String> TABLE = Map.of(
      NONE + " _immediate_", UNINIT,
      UNINIT + " start", STARTING,
      STARTING + " complete", STARTED,
      STARTING + " error", STOPPED,
      STARTED + " stop", STOPPING,
      STARTED + " error", STOPPED,
      STOPPING + " complete", STOPPED,
      STOPPING + " error", STOPPED,
      STOPPED + " start", STARTING,
      STOPPED + " stop", END);

  static final class Ctx extends AbstractAppContext<Ctx> {

    Ctx(String name, String[] args) {
      super(name, args);
    }
  }

  static final class Svc extends AbstractAppService<Ctx> {

    Svc(Ctx c) {
      super(c);
    }

    Svc(Ctx c, boolean exit) {
      super(c, exit);
    }
  }

  interface Hook {

    void at(E e) throws Exception;
  }

  final Run run;
  final Rec rec;
  final boolean exit;
  final int n;
  final String threadName;
  final Ctx ctx;
  final Svc svc;
  /** called inside subsystem and listener calls */
  volatile Hook hook;
  private final List<Subsystem<Ctx>> given;
  /** number of subsystem calls in the current transition */
  private volatile int called;
  Thread main;
  volatile E startCall;
  volatile boolean interruptedAfterStart;
  final AtomicInteger interrupts = new AtomicInteger();

  App(Run run, boolean exit, int n) {
    this.run = run;
    this.rec = run.rec;
    this.exit = exit;
    this.n = n;
    int id = ids.incrementAndGet();
    threadName = run.r.nextInt(8) == 0 ? "app" : "appthread" + id + (run.r.nextInt(6) == 0 ? " %s-x"
        : "");
    ctx = new Ctx("app" + id, run.r.nextBoolean() ? new String[0] : new String[]{"a", "b"});
    List<Subsystem<Ctx>> l = new ArrayList<>();
    boolean twins = run.r.nextInt(4) == 0;
    boolean repeated = run.r.nextInt(6) == 0;
    for (int i = 0; i < n; i++) {
      // the same one can be given more than once
      l.add(repeated && i > 0 && run.r.nextInt(3) == 0 ? l.get(run.r.nextInt(3) == 0
          ? run.r.nextInt(i) : i - 1) : new Sub(i, twins));
    }
    given = List.copyOf(l);
    switch (run.r.nextInt(4)) {
      case 0:
        l = List.copyOf(l);
        break;
      case 1:
        l = new LinkedList<>(l);
        break;
      case 2:
        l = Arrays.asList(l.toArray(new Subsystem[0]));
        break;
      default:
    }
    if (n > 0 || run.r.nextBoolean()) {
      ctx.withSubsystems(l);
    }
    if (!threadName.equals("app")) {
      ctx.withAppThreadName(threadName);
    }
    svc = exit && run.r.nextBoolean() ? new Svc(ctx) : new Svc(ctx, exit);
    Lis lis = new Lis();
    svc.setStateMachineListener(run.r.nextInt(4) == 0 ? new MultiConsumerStateMachineListener<>(lis,
        new LoggingStateMachineListener<>("x")) : lis);
  }

  private final class Sub implements Subsystem<Ctx> {

    final int i;
    /** equals other subsystems, an app has to start and stop each of them nevertheless */
    final boolean twin;

    Sub(int i, boolean twin) {
      this.i = i;
      this.twin = twin;
    }

    @Override
    public boolean equals(Object o) {
      return o == this || twin && o instanceof Sub && ((Sub) o).twin;
    }

    @Override
    public int hashCode() {
      return twin ? 7 : System.identityHashCode(this);
    }

    @Override
    public String toString() {
      return "sub";
    }

    @Override
    public void start(Ctx c) {
      call("sub start", c);
    }

    @Override
    public void stop(Ctx c) {
      call("sub stop", c);
    }

    private void call(String what, Ctx c) {
      E e = new E();
      e.kind = E.CALL;
      e.note = what;
      int next = "sub start".equals(what) ? called : n - 1 - called;
      called++;
      e.idx = next >= 0 && next < n && given.get(next) == this ? next : i;
      e.payload = c;
      inside(e);
    }
  }

  private final class Lis implements StateMachineListener<Ctx, Void> {

    @Override
    public void onStateChangeBegin(State<Ctx, Void> from, StateEvent<Void> ev, State<Ctx, Void> to) {
      trans(E.BEGIN, from, ev, to);
    }

    @Override
    public void onStateChangeEnd(State<Ctx, Void> from, StateEvent<Void> ev, State<Ctx, Void> to) {
      trans(E.END, from, ev, to);
    }

    private void trans(int kind, State<Ctx, Void> from, StateEvent<Void> ev, State<Ctx, Void> to) {
      E e = new E();
      if (kind == E.BEGIN) {
        called = 0;
      }
      e.kind = kind;
      e.from = from.getName();
      e.ev = ev.getName();
      e.to = to.getName();
      inside(e);
    }
  }

  private void inside(E e) {
    rec.enter(e);
    try {
      e.cur = state();
      Noise.hit(e.kind);
      Hook h = hook;
      if (h != null) {
        h.at(e);
      }
    } catch (Exception t) {
      e.ex = t;
      Throwables.sneak(t);
    } finally {
      rec.leave(e);
    }
  }

  String state() {
    State<Ctx, Void> s = svc.getLifecycleState();
    return s == null ? null : s.getName();
  }

  E observe() {
    E e = new E();
    e.kind = E.OBS;
    rec.enter(e);
    e.cur = state();
    rec.leave(e);
    return e;
  }

  E call(String what, Runnable c) {
    E e = new E();
    e.kind = E.CALL;
    e.note = what;
    rec.enter(e);
    try {
      c.run();
    } catch (Throwable t) {
      e.ex = t;
    } finally {
      rec.leave(e);
    }
    return e;
  }

  E start() {
    return call("app.start()", svc::start);
  }

  E stop() {
    return call("app.stop()", svc::stop);
  }

  E error() {
    Exception x = run.r.nextInt(6) == 0 ? null
        : (Exception) Throwables.make(1 + run.r.nextInt(Throwables.EXCEPTIONS));
    return call("app.error()", () -> svc.error(x));
  }

  /** Calls start() for the first time, on a thread of its own. */
  void launch() {
    CountDownLatch in = new CountDownLatch(1);
    main = new Thread(() -> {
      E e = new E();
      e.kind = E.CALL;
      e.note = "app.start()";
      rec.enter(e);
      startCall = e;
      in.countDown();
      try {
        svc.start();
      } catch (Throwable t) {
        e.ex = t;
      } finally {
        interruptedAfterStart = Thread.interrupted();
        rec.leave(e);
      }
    }, "main");
    main.setDaemon(true);
    RaceDetector.release(main);
    main.start();
    try {
      in.await();
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    }
    run.onEnd(this::dispose);
  }

  /** Lets the threads end. */
  private void dispose() {
    hook = null;
    for (int i = 0; i < 4 && main.isAlive(); i++) {
      try {
        svc.stop();
      } catch (RuntimeException e) {
        // whatever
      }
      main.interrupt();
      Noise.pause(500);
    }
  }

  List<Thread> appThreads() {
    List<Thread> l = new ArrayList<>();
    for (Thread t : Thread.getAllStackTraces().keySet()) {
      if (t.getName().startsWith(threadName + "-") && t.isAlive()) {
        l.add(t);
      }
    }
    return l;
  }

  /** Whether the threads of the app wait for events, and not because of the library. */
  boolean idle() {
    for (Thread t : appThreads()) {
      if (t.getState() != Thread.State.WAITING && t.getState() != Thread.State.TIMED_WAITING) {
        return false;
      }
      for (StackTraceElement e : t.getStackTrace()) {
        if (e.getClassName().startsWith("com.webotech.") || e.getClassName().startsWith("vh.")) {
          return false;
        }
      }
    }
    return true;
  }

  /**
   * Waits for something that has to happen.
   *
   * @return false if it did not, this has been recorded then
   */
  boolean await(String tag, String what, BooleanSupplier c) {
    long quiet = System.nanoTime();
    int size = rec.size();
    while (!Run.await(0.2, c)) {
      if (rec.size() != size) {
        size = rec.size();
        quiet = System.nanoTime();
      }
      if (System.nanoTime() - quiet > 6_000_000_000L) {
        int n = 0;
        while (n < 40 && idle() && !c.getAsBoolean()) {
          n++;
          Noise.pause(50_000);
        }
        if (n == 40 && rec.size() == size) {
          run.violate(tag, what + " does not happen, the app is idle in " + state());
          return false;
        }
        for (Thread t : appThreads()) {
          String b = Run.blockedInLibrary(t, 3);
          if (b != null && rec.size() == size && !c.getAsBoolean()) {
            run.violate(tag, what + " does not happen, the app's thread is stuck: " + b);
            return false;
          }
        }
        if (System.nanoTime() - quiet > 40_000_000_000L) {
          run.inconclusive = what + " does not happen";
          return false;
        }
      }
    }
    return true;
  }

  /** Waits until a state has been reached and the transition into it is complete. */
  boolean reach(String tag, String state, int times) {
    return await(tag, "reaching " + state + " (" + times + ". time)",
        () -> times(state) >= times && state.equals(state()));
  }

  boolean restartedAfter(long s0) {
    for (E e : rec.sorted()) {
      if (e.kind == E.END && e.s0 > s0 && STARTING.equals(e.to)) {
        return true;
      }
    }
    return false;
  }

  int times(String state) {
    int n = 0;
    for (E e : rec.sorted()) {
      if (e.kind == E.END && state.equals(e.to) && e.s1 != Long.MAX_VALUE) {
        n++;
      }
    }
    return n;
  }

  /** Waits until the first start() has returned. */
  boolean returned(String tag) {
    try {
      main.join(8000);
      if (!main.isAlive()) {
        return true;
      }
      int size = rec.size();
      String b = Run.blockedInLibrary(main, 3);
      if (b != null && idle() && rec.size() == size) {
        run.violate(tag, "start() does not return although the app is idle in " + state() + ": " + b);
        return false;
      }
      main.join(30000);
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    }
    if (main.isAlive()) {
      run.inconclusive = "start() does not return";
      return false;
    }
    return true;
  }

  /** A gate inside the app. */
  static final class Gate {

    final CountDownLatch in = new CountDownLatch(1);
    final CountDownLatch out = new CountDownLatch(1);
    volatile boolean passed;

    void pass() throws InterruptedException {
      if (!passed) {
        passed = true;
        in.countDown();
        out.await(60, TimeUnit.SECONDS);
      }
    }

    boolean reached() throws InterruptedException {
      return in.await(20, TimeUnit.SECONDS);
    }

    void open() {
      out.countDown();
    }
  }

  // ------------------------------------------------------------------------------- oracle

  private static final class Visit {

    final String state;
    /** the state may be seen from here on */
    final long from;
    long to = Long.MAX_VALUE;

    Visit(String state, long from) {
      this.state = state;
      this.from = from;
    }
  }

  /** Checks the whole history. */
  void check(String tag) {
    List<E> trace = rec.sorted();
    run.cover(trace);
    Pattern named = Pattern.compile(Pattern.quote(threadName) + "-\\d+");
    String cur = NONE;
    E open = null;
    E last = null;
    Thread appThread = null;
    List<E> subs = new ArrayList<>();
    List<Visit> visits = new ArrayList<>();
    visits.add(new Visit(null, 0));
    boolean phaseFailed = false;
    boolean phaseError = false;
    int errors = 0;
    int stops = 0;
    for (E e : trace) {
      boolean sub = e.note != null && e.note.startsWith("sub ");
      if (!sub && e.kind != E.BEGIN && e.kind != E.END) {
        continue;
      }
      if (last != null && e.s0 < last.s1) {
        run.violate(tag, "calls overlap: " + last + " and " + e, trace);
        return;
      }
      last = e;
      if (!(NONE.equals(e.from) && !sub)) {
        if (appThread == null) {
          appThread = e.thread;
          if (!named.matcher(e.thread.getName()).matches()) {
            run.violate(tag, "not called on a thread named " + threadName + "-...: " + e, trace);
            return;
          }
        } else if (appThread != e.thread) {
          run.violate(tag, "not called on the app's thread " + appThread.getName() + ": " + e, trace);
          return;
        }
      }
      if (e.kind == E.BEGIN) {
        if (open != null) {
          run.violate(tag, "a transition begins before another has ended: " + e, trace);
          return;
        }
        String to = TABLE.get(e.from + " " + e.ev);
        if (!cur.equals(e.from) || to == null || !to.equals(e.to)) {
          run.violate(tag, "undocumented transition while in " + cur + ": " + e, trace);
          return;
        }
        String bad = null;
        if (e.ev.equals("complete") && phaseFailed) {
          bad = "the app goes on although a subsystem failed";
        } else if (e.ev.equals("complete") && phaseError) {
          bad = "the app goes on although error() was called before";
        } else if (e.ev.equals("error") && ++errors > failures(trace, e.s0) + calls(trace, "app.error()", e.s0)) {
          bad = "an error that did not happen";
        } else if (e.ev.equals("stop") && e.from.equals(STARTED)
            && ++stops > calls(trace, "app.stop()", e.s0) + interrupts.get()) {
          bad = "a stop that was not called";
        }
        if (bad != null) {
          run.violate(tag, bad + ": " + e, trace);
          return;
        }
        open = e;
        subs.clear();
        phaseFailed = false;
        phaseError = false;
      } else if (sub) {
        boolean starting = e.note.equals("sub start");
        String in = starting ? STARTING : STOPPING;
        if (open == null || !in.equals(open.to) || !in.equals(e.cur)) {
          run.violate(tag, "subsystem called while not " + in + ": " + e, trace);
          return;
        }
        if (e.payload != ctx) {
          run.violate(tag, "subsystem called with " + e.payload + " instead of its context", trace);
          return;
        }
        int want = starting ? subs.size() : n - 1 - subs.size();
        if (phaseFailed || e.idx != want) {
          run.violate(tag, (phaseFailed ? "subsystem called after another one failed: "
              : "subsystem " + want + " should come next: ") + e, trace);
          return;
        }
        subs.add(e);
        phaseFailed = e.ex != null;
      } else {
        if (open == null || !open.from.equals(e.from) || !open.ev.equals(e.ev)
            || !open.to.equals(e.to)) {
          run.violate(tag, "end of a transition that did not begin: " + e, trace);
          return;
        }
        boolean phase = e.to.equals(STARTING) || e.to.equals(STOPPING);
        if (phase && !phaseFailed && subs.size() != n) {
          run.violate(tag, subs.size() + " of " + n + " subsystems were called when " + e.to + ": " + e,
              trace);
          return;
        }
        if (phase && !subs.isEmpty()) {
          for (E x : trace) {
            phaseError |= "app.error()".equals(x.note) && x.s0 > open.s0
                && x.s1 < subs.get(subs.size() - 1).s1;
          }
        }
        visits.get(visits.size() - 1).to = subs.isEmpty() ? e.s0 : subs.get(0).s0;
        visits.add(new Visit(e.to, open.from.equals(NONE) ? 0 : open.s1));
        cur = e.to;
        open = null;
      }
    }
    for (E e : trace) {
      if ("app.error()".equals(e.note) && e.ex != null) {
        run.violate(tag, "error() failed: " + e + " " + Engine.stack(e.ex), trace);
        return;
      }
      if (e.kind == E.OBS) {
        boolean ok = false;
        for (Visit v : visits) {
          ok |= (v.state == null ? e.cur == null : v.state.equals(e.cur)) && v.from <= e.s1
              && v.to >= e.s0;
        }
        if (open != null && open.to.equals(e.cur)) {
          ok = true;
        }
        if (!ok) {
          run.violate(tag, "the lifecycle was not in the state that was seen: " + e, trace);
          return;
        }
      }
    }
  }

  private static int failures(List<E> trace, long before) {
    int n = 0;
    for (E e : trace) {
      if (e.note != null && e.note.startsWith("sub ") && e.ex != null && e.s1 < before) {
        n++;
      }
    }
    return n;
  }

  private static int calls(List<E> trace, String what, long before) {
    int n = 0;
    for (E e : trace) {
      if (what.equals(e.note) && e.s0 < before) {
        n++;
      }
    }
    return n;
  }
}
