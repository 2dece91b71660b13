package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;

/** C01 to C05: transitions, their order and atomicity. */
final class ChecksCore {

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C01", ChecksCore::c01);
    m.put("C02", ChecksCore::c02);
    m.put("C03", ChecksCore::c03);
    m.put("C04", ChecksCore::c04);
    m.put("C05", ChecksCore::c05);
  }

  // ---------------------------------------------------------------------------------- C01

  static Check c01() {
    Check c = new Check("C01", "random transition tables (up to 100 states x 50 events, 400 states or 400 events, awkward, "
        + "equal-hash and long names) replayed event by event against a model of the table; a case "
        + "is non-trivial if at least one event was processed; cases are distinct if their "
        + "recorded histories are", Checker.TABLE, Checker.CONS, "CONFIG", Checker.START);
    c.plain("kept by the machine only", 5, run -> ChecksKept.kept(run, Checker.TABLE, "AU"));
    c.plain("sequential", 30, run -> {
      Spec.Gen g = Scn.gen(run.r);
      tail(run.r, g);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 30, 200, 2000), 8);
      Scn.full(run, Scn.batch(run, s, Scn.opt(run)));
    });
    c.plain("one by one", 15, run -> {
      Spec.Gen g = Scn.gen(run.r);
      tail(run.r, g);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 5);
      World w = run.world(s, Scn.opt(run));
      run.start(w);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
        if (!Scn.settle(run, w)) {
          return;
        }
      }
      Scn.full(run, w);
    });
    c.plain("start in state", 15, run -> {
      Spec.Gen g = Scn.gen(run.r);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 10, 60, 200), 5);
      World w = run.world(s, Scn.opt(run));
      int st = run.r.nextInt(s.states.size());
      E e = w.call("startInState(" + E.q(s.states.get(st)) + ")", () -> w.m.startInState(
          w.stateObjs.get(s.states.get(st))));
      if (e.ex != null) {
        run.violate(Checker.START, "startInState of a configured state failed: " + e);
        return;
      }
      CountDownLatch free = w.exec.hold();
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
      free.countDown();
      if (Scn.settle(run, w)) {
        Checker k = new Checker(w);
        k.startState = st;
        k.startedInState = true;
        Scn.finish(run, k.all().quiescent());
      }
    });
    c.plain("large table", 10, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.unique = false;
      switch (run.r.nextInt(3)) {
        case 0:
          g.minStates = 100;
          g.maxStates = 400;
          g.minTypes = 2;
          g.maxTypes = 8;
          break;
        case 1:
          g.maxStates = 8;
          g.minTypes = 100;
          g.maxTypes = 400;
          break;
        default:
          g.minStates = 40;
          g.maxStates = 100;
          g.minTypes = 20;
          g.maxTypes = 50;
          break;
      }
      g.pctMapped = 60 + run.r.nextInt(40);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, 500 + run.r.nextInt(1500), 3);
      Scn.full(run, Scn.batch(run, s, Scn.opt(run)));
    });
    c.plain("long history", 15, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.unique = false;
      g.maxActions = 1;
      Spec s = Spec.table(run.r, g);
      World.Opt o = Scn.opt(run);
      o.exec = new MonExecutor();
      int n = run.r.nextInt(3) > 0 ? 20000 : run.r.nextInt(4) > 0 ? 70000 : 140000;
      Scn.fires(run.r, s, n, 0);
      World w = run.world(s, o);
      run.start(w);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
        if (fid % 512 == 0) {
          Scn.settle(run, w);
        }
      }
      if (Scn.settle(run, w)) {
        Scn.full(run, w);
      }
    });
    c.plain("without payloads", 10, run -> {
      // nothing but the names, no listener either: the observer sees actions and handlers only
      Spec.Gen g = Scn.gen(run.r);
      g.unique = true;
      Spec s = Spec.table(run.r, g);
      for (int i = 0; i < s.states.size(); i++) {
        s.nEntry[i] = 1;
        s.nExit[i] = 1;
      }
      noNoop(s);
      int n = Scn.size(run.r, 20, 100, 300);
      for (int i = 0; i < n; i++) {
        s.fire(run.r.nextInt(s.types.size()), false, null);
      }
      World.Opt o = Scn.opt(run);
      o.listener = 0;
      Scn.full(run, Scn.batch(run, s, o));
    });
    c.noisy("concurrent", 25, run -> {
      Spec.Gen g = Scn.gen(run.r);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 12, 60, 400), 10);
      Scn.pauses(run.r, s, 3, 200);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5), false));
    });
    return c;
  }

  private static void tail(Random r, Spec.Gen g) {
    g.pctImmEnd = r.nextInt(4) == 0 ? 12 : 0;
    switch (r.nextInt(8)) {
      case 0:
        g.maxActions = 17;
        break;
      case 1:
        g.minStates = g.maxStates = 1;
        break;
      case 2:
        g.maxTypes = 20;
        g.maxStates = 20;
        break;
      case 3:
        g.pctNoop = 60;
        break;
      case 4:
        g.pctSelf = 80;
        break;
      default:
        break;
    }
  }

  static void noNoop(Spec s) {
    for (int[] o : s.out) {
      for (int j = 0; j < o.length; j++) {
        if (o[j] == Spec.NOOP) {
          o[j] = Spec.UNM;
        }
      }
    }
  }

  // ---------------------------------------------------------------------------------- C02

  static Check c02() {
    Check c = new Check("C02", "every callback of every transition is compared with the documented "
        + "sequence (listener, exit actions, entry actions, listener) for its event and states, in "
        + "sequential and perturbed concurrent executions; a case is non-trivial if at least one "
        + "event was processed; cases are distinct if their recorded histories are",
        Checker.PROTO);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, Checker.PROTO, "LA"));
    c.plain("sequential", 40, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.maxActions = new int[]{1, 3, 3, 8, 17, 40}[run.r.nextInt(6)];
      boolean many = run.r.nextInt(60) == 0;
      if (many) {
        g.maxActions = 300;
      }
      tail(run.r, g);
      g.pctEnd = run.r.nextInt(4) == 0 ? 5 : 0;
      g.pctImmEnd = run.r.nextInt(4) == 0 ? 10 : 0;
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, many ? 20 : Scn.size(run.r, 20, 100, 600), 6);
      World.Opt o = Scn.opt(run);
      o.listener = run.r.nextInt(4);
      if (o.listener == 0) {
        s = unique(run, g);
      }
      Scn.full(run, Scn.batch(run, s, o));
    });
    c.noisy("concurrent", 30, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.maxActions = 1 + run.r.nextInt(5);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 12, 60, 300), 10);
      Scn.pauses(run.r, s, 3, 200);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5),
          run.r.nextInt(3) == 0));
    });
    c.plain("replaced listener", 15, ChecksCore::replacedListener);
    c.plain("repeated and missing actions", 8, ChecksCore::repeatedActions);
    c.plain("stopped in between", 8, ChecksCore::stoppedInBetween);
    return c;
  }

  /** The same action can be appended many times, and missing ones do not matter. */
  @SuppressWarnings("unchecked")
  private static void repeatedActions(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.maxActions = 0;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, 2 + r.nextInt(12), 0);
    World w = run.world(s, Scn.opt(run));
    List<String> got = new ArrayList<>();
    List<StateAction<Object, Object>> pool = new ArrayList<>();
    for (int i = 0; i < 3; i++) {
      String id = "a" + i;
      pool.add((ev, sm) -> got.add(id + " on " + ev.getName() + " in "
          + sm.getCurrentState().getName()));
    }
    List<List<String>> entries = new ArrayList<>();
    List<List<String>> exits = new ArrayList<>();
    for (int i = 0; i < s.states.size(); i++) {
      State<Object, Object> st = w.stateObjs.get(s.states.get(i));
      entries.add(new ArrayList<>());
      exits.add(new ArrayList<>());
      int calls = r.nextInt(5);
      for (int k = 0; k < calls; k++) {
        boolean entry = r.nextBoolean();
        StateAction<Object, Object>[] a = new StateAction[r.nextInt(5)];
        for (int j = 0; j < a.length; j++) {
          int n = r.nextInt(4);
          if (n < 3) {
            a[j] = pool.get(n);
            (entry ? entries : exits).get(i).add("a" + n);
          }
        }
        try {
          if (entry) {
            st.appendEntryActions(a);
          } else {
            st.appendExitActions(a);
          }
        } catch (RuntimeException ex) {
          run.violate(Checker.PROTO, "appending actions failed: " + ex);
          return;
        }
        // the caller's array is not the state's
        java.util.Arrays.fill(a, pool.get(0));
      }
    }
    List<String> want = new ArrayList<>();
    int state = s.init;
    for (String a : entries.get(state)) {
      want.add(a + " on " + GenericStateMachine.RESERVED_STATE_EVENT_NAME_IMMEDIATE + " in "
          + s.states.get(state));
    }
    run.start(w);
    CountDownLatch free = w.exec.hold();
    for (int fid : Scn.roots(s)) {
      Spec.F f = s.fires.get(fid);
      Spec.Exp x = s.expect(fid, f.type, state);
      if (x.kind == E.BEGIN) {
        for (String a : exits.get(state)) {
          want.add(a + " on " + f.name + " in " + s.states.get(state));
        }
        state = x.newState;
        for (String a : entries.get(state)) {
          want.add(a + " on " + f.name + " in " + s.states.get(state));
        }
      }
      w.fire(fid);
    }
    free.countDown();
    if (!Scn.settle(run, w)) {
      return;
    }
    if (!got.equals(want)) {
      int i = 0;
      while (i < Math.min(got.size(), want.size()) && got.get(i).equals(want.get(i))) {
        i++;
      }
      run.violate(Checker.PROTO, "action " + i + " that ran was " + (i < got.size() ? got.get(i)
          : "none") + " instead of " + (i < want.size() ? want.get(i) : "none")
          + ", appended were entry actions " + entries + " and exit actions " + exits);
    }
    run.engine.count("actions run", got.size());
    run.cover(run.rec.sorted());
  }

  /** Whatever is still called for an event during which the machine was stopped has to fit. */
  private static void stoppedInBetween(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.pctMapped = 95;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, 1 + r.nextInt(12), 0);
    int fid = r.nextInt(6) == 0 ? -1 : r.nextInt(s.fires.size());
    for (int kind : new int[]{E.BEGIN, E.ENTRY, E.EXIT}) {
      if (r.nextInt(2) == 0) {
        s.op(fid, kind, kind == E.BEGIN ? 0 : r.nextInt(2), new Spec.Op(Spec.Op.STOP, 0));
      }
    }
    World w = run.world(s, Scn.opt(run));
    run.start(w);
    for (int f : Scn.roots(s)) {
      w.fire(f);
    }
    if (!Scn.settle(run, w)) {
      return;
    }
    List<E> trace = run.rec.sorted();
    E begin = null;
    List<String> seen = new ArrayList<>();
    int starts = 0;
    for (E e : trace) {
      if (e.fid == -1 && e.kind == E.END && ++starts > 1) {
        run.violate(Checker.PROTO, "told as the end of the initial transition: " + e);
      }
      if (!Checker.isProcessing(e) || e.fid != fid) {
        continue;
      }
      String what = E.KINDS[e.kind] + " " + e.idx;
      if (seen.contains(what)) {
        run.violate(Checker.PROTO, "called twice for one event: " + e);
      }
      seen.add(what);
      if (e.kind == E.BEGIN) {
        begin = e;
      } else if (e.kind == E.END && (begin == null || !begin.to.equals(e.to)
          || !begin.from.equals(e.from)
          && !GenericStateMachine.RESERVED_STATE_NAME_NOOP.equals(e.to))) {
        run.violate(Checker.PROTO, "the listener was told " + begin + " and then " + e);
      } else if (begin == null && e.kind != E.UNM) {
        run.violate(Checker.PROTO, "before the begin: " + e);
      }
    }
    run.cover(trace);
  }

  private static Spec unique(Run run, Spec.Gen g) {
    g.unique = true;
    g.pctNoop = 0;
    Spec s = Spec.table(run.r, g);
    for (int i = 0; i < s.states.size(); i++) {
      s.nEntry[i] = Math.max(1, s.nEntry[i]);
      s.nExit[i] = Math.max(1, s.nExit[i]);
    }
    noNoop(s);
    Scn.fires(run.r, s, Scn.size(run.r, 20, 100, 300), 0);
    return s;
  }

  /** Listeners set between events get all notifications of the events after that, and no others. */
  private static void replacedListener(Run run) throws Exception {
    Spec.Gen g = Scn.gen(run.r);
    Spec s = Spec.table(run.r, g);
    Scn.fires(run.r, s, 4 + run.r.nextInt(12), 0);
    World.Opt o = Scn.opt(run);
    World w = run.world(s, o);
    List<World> sinks = new ArrayList<>();
    AtomicInteger current = new AtomicInteger();
    run.start(w);
    // 0: the first one, -1: none, n: a further one
    List<E> fires = new ArrayList<>();
    List<Integer> expected = new ArrayList<>();
    for (int fid : Scn.roots(s)) {
      if (run.r.nextInt(2) == 0) {
        int k = run.r.nextInt(4);
        if (k == 0) {
          w.m.setStateMachineListener(null);
          current.set(-1);
        } else if (k == 1) {
          w.m.setStateMachineListener(w.listener);
          current.set(0);
        } else {
          int id = sinks.size() + 1;
          World sink = new World(s, run.rec, o, run.r);
          sinks.add(sink);
          w.m.setStateMachineListener(w.tagged(id));
          current.set(id);
        }
      }
      expected.add(current.get());
      fires.add(w.fire(fid));
      if (!Scn.settle(run, w)) {
        return;
      }
    }
    List<E> trace = run.rec.sorted();
    int state = s.init;
    for (int i = 0; i < fires.size(); i++) {
      E f = fires.get(i);
      Spec.Exp x = s.expect(f.fid, s.fires.get(f.fid).type, state);
      state = x.newState;
      int want = x.kind == E.UNM || expected.get(i) < 0 ? 0 : 2;
      int got = 0;
      for (E e : trace) {
        if (e.fid == f.fid && (e.kind == E.BEGIN || e.kind == E.END)) {
          if (e.idx != expected.get(i)) {
            run.violate(Checker.PROTO, "a listener that is not set was called: " + e);
          }
          got++;
        }
      }
      if (got != want) {
        run.violate(Checker.PROTO, "the listener that is set got " + got + " calls instead of "
            + want + " for " + f);
      }
    }
    run.cover(trace);
  }

  // ---------------------------------------------------------------------------------- C03

  static Check c03() {
    Check c = new Check("C03", "many threads fire events at one machine under perturbed schedules, "
        + "also while it is being started; overlap and interleaving of the recorded callbacks of "
        + "different events is looked for; a case is non-trivial if at least one event was "
        + "processed; cases are distinct if their recorded histories (with threads) are",
        Checker.ATOM, "WAIT");
    c.noisy("concurrent", 40, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 12, 60, 400), 12);
      Scn.pauses(run.r, s, 4, 300);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(8), false));
    });
    c.noisy("while starting", 30, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      s.nEntry[s.init] = 1 + run.r.nextInt(3);
      Scn.fires(run.r, s, Scn.size(run.r, 12, 30, 100), 10);
      Scn.pauses(run.r, s, 2, 200);
      startPauses(run, s);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(4), true));
    });
    c.noisy("fired while starting", 15, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      s.nEntry[s.init] = 2 + run.r.nextInt(3);
      Scn.fires(run.r, s, run.r.nextInt(5), 10);
      for (int i = 0; i < 3; i++) {
        int kind = new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)];
        s.op(-1, kind, kind == E.ENTRY ? run.r.nextInt(s.nEntry[s.init]) : 0,
            new Spec.Op(Spec.Op.FIRE, Scn.fire(run.r, s, true)));
      }
      startPauses(run, s);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), run.r.nextInt(3), true));
    });
    c.noisy("library executor", 15, ChecksCore::libraryExecutor);
    c.noisy("after errors", 10, run -> {
      // the processing thread dies now and then
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 5);
      for (int i = 0; i < 3; i++) {
        int kind = new int[]{E.BEGIN, E.ENTRY, E.END, E.EXIT, E.UNM}[run.r.nextInt(5)];
        s.op(run.r.nextInt(s.fires.size()), kind, 0,
            new Spec.Op(Spec.Op.THROW, 1 + run.r.nextInt(Throwables.KINDS - 1)));
      }
      Scn.pauses(run.r, s, 3, 300);
      World.Opt o = Scn.opt(run);
      World w = Scn.concurrent(run, s, o, 1 + run.r.nextInt(5), false);
      Scn.full(run, w);
    });
    c.plain("firing does not wait", 15, ChecksCore::firingDoesNotWait);
    c.plain("large backlog", 5, ChecksBulk::backlog);
    return c;
  }

  static void startPauses(Run run, Spec s) {
    for (int kind : new int[]{E.BEGIN, E.ENTRY, E.END}) {
      if (run.r.nextInt(2) == 0) {
        s.op(-1, kind, 0, new Spec.Op(Spec.Op.PAUSE, 1 + run.r.nextInt(1500)));
      }
    }
  }

  /** A callback takes forever; meanwhile fire() has to return. */
  private static void firingDoesNotWait(Run run) throws Exception {
    Spec.Gen g = Scn.gen(run.r);
    Spec s = Spec.table(run.r, g);
    s.nEntry[s.init] = 1;
    for (int[] o : s.out) {
      for (int j = 0; j < o.length; j++) {
        if (o[j] == Spec.NOOP && run.r.nextBoolean()) {
          o[j] = s.init;
        }
      }
    }
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    AtomicBoolean once = new AtomicBoolean();
    Runnable gate = () -> {
      if (once.compareAndSet(false, true)) {
        in.countDown();
        try {
          free.await(60, TimeUnit.SECONDS);
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
      }
    };
    int first = Scn.fire(run.r, s, false);
    boolean own = run.r.nextInt(3) == 0;
    // the library must not push back, however many events wait
    Scn.fires(run.r, s, run.r.nextInt(3) == 0 ? 500 + run.r.nextInt(6000) : 2 + run.r.nextInt(20),
        0);
    boolean starting = run.r.nextInt(3) == 0;
    int only = starting ? new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)]
        : 1 + run.r.nextInt(5);
    for (int kind = E.BEGIN; kind <= E.UNM; kind++) {
      if (kind == only || kind == E.END || kind == E.UNM) {
        s.op(starting ? -1 : first, kind, 0, new Spec.Op(Spec.Op.RUN, 0, gate));
      }
    }
    World.Opt o = Scn.opt(run);
    o.dropDup = s.fires.size() < 100 && run.r.nextInt(3) == 0;
    if (run.r.nextInt(4) == 0) {
      o.max = 1 + run.r.nextInt(5);
    }
    if (own) {
      o.exec = null;
    }
    World w = run.world(s, o);
    Run.Threads ts = run.threads();
    Thread starter = null;
    if (starting) {
      Thread t = new Thread(() -> w.start(), "starting");
      t.setDaemon(true);
      t.start();
      starter = t;
    } else {
      run.start(w);
      w.fire(first);
    }
    if (!in.await(20, TimeUnit.SECONDS)) {
      run.inconclusive = "the gate was not reached";
      free.countDown();
      return;
    }
    List<Integer> rest = Scn.roots(s);
    rest.remove(Integer.valueOf(first));
    int n = 1 + run.r.nextInt(3);
    for (int t = 0; t < n; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < rest.size(); i += n) {
          w.fire(rest.get(i));
        }
      });
    }
    ts.start();
    boolean done = Run.await(10, () -> ts.all.stream().noneMatch(Thread::isAlive));
    if (!done) {
      for (Thread t : ts.all) {
        String b = Run.blockedInLibrary(t, 3);
        if (b != null) {
          run.violate("WAIT", "fire() waits for the processing of an event (" + (starting
              ? "the machine is starting" : "in a callback") + "): " + b);
          break;
        }
      }
      if (Scn.ok(run)) {
        run.inconclusive = "firing threads did not finish";
      }
    }
    run.engine.count("fires while processing was blocked", rest.size());
    free.countDown();
    if (starter != null) {
      starter.join(20000);
    }
    if (!done || !ts.join(20)) {
      return;
    }
    if (own ? idle(run, w) : Scn.settle(run, w)) {
      Checker k = new Checker(w);
      k.dropDup = o.dropDup;
      Scn.finish(run, k.parse().atomicity());
    }
  }

  /** Waits until a machine with the library's own executor has become quiet. */
  private static boolean idle(Run run, World w) {
    int[] size = {-1};
    boolean done = Run.await(30, () -> {
      int before = size[0];
      size[0] = run.rec.size();
      if (w.m.getEventQueueSize() != 0 || size[0] != before) {
        return false;
      }
      Noise.pause(3000);
      return run.rec.size() == size[0];
    });
    if (!done) {
      run.inconclusive = "processing did not finish";
    }
    return done;
  }

  // ---------------------------------------------------------------------------------- C04

  static Check c04() {
    Check c = new Check("C04", "bursts of events from threads and callbacks (all queue kinds, "
        + "failing and interrupted threads); each fire's outcomes are counted and must be exactly "
        + "one, processed events must have been fired, and nothing may be left over; a case is "
        + "non-trivial if at least one event was processed; cases are distinct if their recorded "
        + "histories are", Checker.CONS, Scn.STALL);
    c.plain("kept by the machine only", 9, run -> ChecksKept.kept(run, Checker.CONS, "LAUR"));
    c.noisy("concurrent", 40, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 16, 80, 800), 12);
      Scn.pauses(run.r, s, 2, 200);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(10), false));
    });
    c.noisy("one at a time", 25, run -> {
      // the queue becomes empty after nearly every event
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, 6 + run.r.nextInt(20), 4);
      World w = run.world(s, Scn.opt(run));
      run.start(w);
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      int n = 1 + run.r.nextInt(3);
      int spin = run.r.nextInt(60);
      for (int t = 0; t < n; t++) {
        int from = t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            w.fire(roots.get(i));
            Noise.pause(spin);
          }
        });
      }
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        Scn.full(run, w);
      }
    });
    c.plain("large backlog", 8, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.unique = false;
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, 2000 + run.r.nextInt(10000), 1);
      Scn.full(run, Scn.batch(run, s, Scn.opt(run)));
    });
    c.plain("all waiting at once", 5, ChecksBulk::lost);
    c.plain("repeated events", 5, ChecksBulk::repeated);
    c.noisy("before start and at the end", 15, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.pctEnd = run.r.nextInt(10);
      g.pctImmEnd = run.r.nextInt(10);
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 8);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5), true));
    });
    c.noisy("failures", 15, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 6);
      Scn.failures(run.r, s, 1 + run.r.nextInt(5), 1);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5), false));
    });
    c.noisy("bounded and interrupted", 15, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 6);
      World.Opt o = Scn.opt(run);
      if (run.r.nextBoolean()) {
        o.max = 1 + run.r.nextInt(4);
      }
      World w = run.world(s, o);
      run.start(w);
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      int n = 1 + run.r.nextInt(4);
      for (int t = 0; t < n; t++) {
        int from = t;
        boolean intr = run.r.nextBoolean();
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            if (intr) {
              Thread.currentThread().interrupt();
            }
            w.fire(roots.get(i));
            Thread.interrupted();
          }
        });
      }
      boolean intr = run.r.nextBoolean();
      ts.add("interrupting", () -> {
        for (int i = 0; intr && i < 5; i++) {
          Noise.pause(30 + 40 * i);
          w.exec.threads.forEach(Thread::interrupt);
        }
      });
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        Scn.full(run, w);
      }
    });
    c.noisy("library executor", 15, run -> libraryExecutor(run));
    return c;
  }

  /** The executor is the library's own, so the outcomes have to be waited for. */
  static void libraryExecutor(Run run) throws Exception {
    Spec s = Scn.table(run, Scn.gen(run.r));
    Scn.fires(run.r, s, Scn.size(run.r, 16, 60, 3000), 8);
    Scn.pauses(run.r, s, run.r.nextInt(8), 200);
    World.Opt o = Scn.opt(run);
    o.exec = null;
    o.noStrategy = false;
    World w = run.world(s, o);
    run.start(w);
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int n = 1 + run.r.nextInt(4);
    for (int t = 0; t < n; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < roots.size(); i += n) {
          w.fire(roots.get(i));
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    Checker k = awaitOutcomes(run, w);
    if (k != null) {
      Scn.finish(run, k.all());
    }
  }

  /** Waits until all fires have an outcome; nothing happens for 10 seconds when one never comes. */
  static Checker awaitOutcomes(Run run, World w) {
    long quietSince = System.nanoTime();
    int size = -1;
    while (true) {
      int now = run.rec.size();
      if (now != size) {
        size = now;
        quietSince = System.nanoTime();
      }
      Checker k = new Checker(w).parse();
      boolean all = true;
      for (int fid : k.fires.keySet()) {
        all &= k.processed.containsKey(fid) || k.refused.containsKey(fid)
            || k.before.containsKey(fid) || k.after.containsKey(fid);
      }
      boolean open = k.trace.stream().anyMatch(e -> e.s1 == Long.MAX_VALUE);
      if (all && !open && w.m.getEventQueueSize() == 0) {
        return new Checker(w);
      }
      if (System.nanoTime() - quietSince > 10_000_000_000L) {
        if (open) {
          run.inconclusive = "a callback did not return";
          return null;
        }
        return new Checker(w);
      }
      Noise.pause(300);
    }
  }

  // ---------------------------------------------------------------------------------- C05

  static Check c05() {
    Check c = new Check("C05", "events fired concurrently from threads and callbacks; the processing "
        + "order is compared with the real-time order of the fires (fire A returned before fire B "
        + "began); a case is non-trivial if at least one event was processed; cases are distinct "
        + "if their recorded histories (with threads) are", Checker.ORDER);
    c.noisy("concurrent", 50, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 16, 80, 800), 14);
      Scn.pauses(run.r, s, 4, 250);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(8), false));
    });
    c.plain("batch", 15, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 30, 200, 6000), 10);
      World w = Scn.batch(run, s, Scn.opt(run));
      Scn.full(run, w);
    });
    c.plain("all waiting at once", 5, ChecksBulk::order);
    c.noisy("handed over", 20, run -> {
      // threads take turns, so that every pair of fires is ordered
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, 8 + run.r.nextInt(24), 10);
      Scn.pauses(run.r, s, 4, 300);
      World w = run.world(s, Scn.opt(run));
      run.start(w);
      List<Integer> roots = Scn.roots(s);
      int n = 2 + run.r.nextInt(3);
      AtomicInteger turn = new AtomicInteger();
      Run.Threads ts = run.threads();
      for (int t = 0; t < n; t++) {
        int from = t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            int k = i;
            if (!Run.await(20, () -> turn.get() == k)) {
              return;
            }
            w.fire(roots.get(i));
            turn.set(i + 1);
          }
        });
      }
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        Scn.full(run, w);
      }
    });
    c.noisy("while starting", 10, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      s.nEntry[s.init] = 1 + run.r.nextInt(3);
      for (int i = 0; i < 3; i++) {
        int kind = new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)];
        s.op(-1, kind, kind == E.ENTRY ? run.r.nextInt(s.nEntry[s.init]) : 0,
            new Spec.Op(Spec.Op.FIRE, Scn.fire(run.r, s, true)));
      }
      Scn.fires(run.r, s, Scn.size(run.r, 12, 30, 100), 8);
      startPauses(run, s);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(3), true));
    });
    c.noisy("failures", 15, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 8);
      Scn.failures(run.r, s, 1 + run.r.nextInt(5), 1);
      Scn.pauses(run.r, s, 2, 200);
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5), false));
    });
    c.noisy("library executor", 15, run -> libraryExecutor(run));
    c.noisy("drop duplicates", 10, run -> {
      // unique names, so that nothing is dropped
      Spec.Gen g = Scn.gen(run.r);
      g.unique = true;
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 200), 8);
      World.Opt o = Scn.opt(run);
      o.dropDup = true;
      Scn.full(run, Scn.concurrent(run, s, o, 1 + run.r.nextInt(5), false));
    });
    return c;
  }
}
