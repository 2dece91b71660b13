package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadInfo;
import java.lang.management.ThreadMXBean;
import java.lang.reflect.Method;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;

/** C26 to C28: strategies of the user, the lifecycle utility, machines that drive each other. */
final class ChecksMore {

  private static final String STRATEGY = "STRATEGY";
  private static final String LIFE = "LIFE";
  private static final String DEADLOCK = "DEADLOCK";

  private ChecksMore() {
  }

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C26", ChecksMore::c26);
    m.put("C27", ChecksMore::c27);
    m.put("C28", ChecksMore::c28);
  }

  // ---------------------------------------------------------------------------------- C26

  static Check c26() {
    Check c = new Check("C26", "machines with strategies of the harness: ones that drop, delay, "
        + "reorder and add events in front of the library's own, and ones that make the transitions "
        + "themselves; what they are handed is compared with what was configured and fired, and the "
        + "machine's history with what they let through; a case is non-trivial if events were "
        + "handed over; cases are distinct if their recorded histories are", STRATEGY, Checker.TABLE,
        Checker.CONS, Checker.PROTO, Checker.ORDER, Checker.ENDED, Checker.PAYLOAD, "CONFIG",
        Checker.START, Scn.STALL);
    c.noisy("decorated", 50, ChecksMore::decorated);
    c.plain("held back", 20, ChecksMore::decorated);
    c.noisy("own", 30, ChecksMore::own);
    return c;
  }

  /** What a strategy is handed, for each machine. */
  private static class Handed {

    final Run run;
    final ThreadLocal<StateEvent<Object>> firing = new ThreadLocal<>();
    final AtomicInteger calls = new AtomicInteger();
    final ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    volatile Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states;
    volatile World w;
    volatile boolean mayCome;
    volatile boolean compared;

    Handed(Run run) {
      this.run = run;
    }

    void states(Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> s) {
      if (calls.get() > 0) {
        bad.add("the transitions were set after an event had been handed over");
      }
      states = s;
    }

    void handed(StateEvent<Object> ev, GenericStateMachine<Object, Object> m) {
      calls.incrementAndGet();
      if (m != w.m) {
        bad.add("handed over with another machine: " + m);
      }
      if (!mayCome) {
        bad.add("handed over although the machine is not running: " + ev);
      }
      StateEvent<Object> f = firing.get();
      if (f == null) {
        bad.add("handed over twice, or not by the thread that fires it: " + ev);
      } else if (f != ev) {
        bad.add("not the instance that was fired: " + ev);
      }
      firing.remove();
      compare();
    }

    /** The transitions are those that were configured. */
    private void compare() {
      if (compared) {
        return;
      }
      compared = true;
      Spec s = w.spec;
      if (states == null) {
        bad.add("no transitions were set");
        return;
      }
      Set<String> names = new HashSet<>(s.types);
      if (s.unique) {
        names.clear();
        s.fires.forEach(f -> names.add(f.name));
      }
      for (int i = 0; i < s.states.size(); i++) {
        Map<StateEvent<Object>, State<Object, Object>> row = states.get(w.stateObjs.get(
            s.states.get(i)));
        for (String n : names) {
          int o = s.out[i][s.typeByName.get(n)];
          State<Object, Object> got = row == null ? null : row.get(new NamedStateEvent<>(n));
          String want = o == Spec.UNM ? null : o == Spec.END
              ? GenericStateMachine.RESERVED_STATE_NAME_END : o == Spec.NOOP
              ? GenericStateMachine.RESERVED_STATE_NAME_NOOP : s.states.get(o);
          String is = got == null ? null : got.getName();
          if (want == null ? is != null : !want.equals(is)) {
            bad.add("the transition of " + E.q(s.states.get(i)) + " on " + E.q(n) + " is to "
                + E.q(is) + " instead of " + E.q(want));
          }
        }
      }
    }

    /** Fires an event and expects it to be handed over, or not. */
    void fire(int fid, boolean expected) {
      StateEvent<Object> ev = w.event(w.spec.fires.get(fid));
      StateEvent<Object> outer = firing.get();
      firing.set(ev);
      try {
        w.m.fire(ev);
      } catch (RuntimeException e) {
        bad.add("fire() threw " + Engine.stack(e));
      }
      if (expected && firing.get() != null) {
        bad.add("not handed over when fire() returned: " + ev);
      }
      if (outer == null) {
        firing.remove();
      } else {
        firing.set(outer);
      }
    }

    boolean report() {
      for (String b : bad) {
        run.violate(STRATEGY, b);
        return true;
      }
      return false;
    }
  }

  /** In front of the library's strategy. */
  private static final class Decorator implements EventProcessingStrategy<Object, Object> {

    final EventProcessingStrategy<Object, Object> inner;
    final Handed handed;
    final int policy;
    /** events that are added */
    final Map<Integer, Integer> extra = new ConcurrentHashMap<>();
    final List<StateEvent<Object>> back = new ArrayList<>();
    final int offset;

    Decorator(EventProcessingStrategy<Object, Object> inner, Handed handed, int policy, int offset) {
      this.inner = inner;
      this.handed = handed;
      this.policy = policy;
      this.offset = offset;
    }

    @Override
    public int getEventQueueSize() {
      return inner.getEventQueueSize() + offset;
    }

    @Override
    public void processEvent(StateEvent<Object> ev, GenericStateMachine<Object, Object> m) {
      handed.handed(ev, m);
      int fid = handed.w.fidOf(ev);
      int h = (fid * 0x9E3779B1) >>> 28;
      if ((policy & 1) != 0 && h < 4) {
        return;
      }
      if ((policy & 2) != 0 && h >= 12) {
        synchronized (back) {
          back.add(ev);
        }
        return;
      }
      pass(ev);
      Integer x = extra.get(fid);
      if (x != null) {
        pass(handed.w.event(handed.w.spec.fires.get(x)));
      }
      if (h == 7) {
        flush();
      }
    }

    void flush() {
      List<StateEvent<Object>> l;
      synchronized (back) {
        l = new ArrayList<>(back);
        back.clear();
      }
      for (int i = l.size() - 1; i >= 0; i--) {
        pass(l.get(i));
      }
    }

    private void pass(StateEvent<Object> ev) {
      E e = new E();
      e.kind = E.FIRE;
      e.fid = handed.w.fidOf(ev);
      e.ev = ev.getName();
      e.payload = ev.getPayload();
      e.machine = handed.w.m;
      handed.w.rec.enter(e);
      try {
        inner.processEvent(ev, handed.w.m);
      } catch (RuntimeException x) {
        e.ex = x;
      } finally {
        handed.w.rec.leave(e);
      }
    }

    @Override
    public void setStates(
        Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states) {
      handed.states(states);
      inner.setStates(states);
    }

    @Override
    public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() {
      return handed.w.ufl();
    }
  }

  private static void decorated(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    Spec s = Spec.table(r, g);
    boolean dropDup = r.nextInt(5) == 0;
    if (dropDup && !s.unique) {
      dropDup = false;
    }
    List<Integer> early = new ArrayList<>();
    for (int i = r.nextInt(3); i > 0; i--) {
      early.add(Scn.fire(r, s, true));
    }
    List<Integer> late = new ArrayList<>();
    for (int i = r.nextInt(3); i > 0; i--) {
      late.add(Scn.fire(r, s, true));
    }
    int rootsFrom = s.fires.size();
    int n = Scn.size(r, 12, 60, 200);
    for (int i = 0; i < n; i++) {
      Scn.fire(r, s, false);
    }
    int rootsTo = s.fires.size();
    World.Opt o = Scn.opt(run);
    o.max = -1;
    o.dropDup = dropDup;
    o.unrecorded = true;
    Handed handed = new Handed(run);
    Decorator[] d = new Decorator[1];
    int policy = r.nextInt(4);
    o.around = inner -> d[0] = new Decorator(inner, handed, policy, 1000);
    Map<Integer, Integer> extra = new HashMap<>();
    if (r.nextBoolean()) {
      for (int i = rootsFrom; i < rootsTo; i++) {
        if (r.nextInt(6) == 0) {
          extra.put(i, Scn.fire(r, s, true));
        }
      }
    }
    // children are fired in callbacks, also through the strategy
    int children = r.nextInt(5);
    Map<Integer, Integer> child = new HashMap<>();
    for (int i = 0; i < children; i++) {
      child.put(rootsFrom + r.nextInt(n), Scn.fire(r, s, true));
    }
    World w = new World(s, run.rec, o, r);
    handed.w = w;
    run.onEnd(w::dispose);
    try {
      w.build();
    } catch (RuntimeException e) {
      run.violate("CONFIG", "a valid configuration was refused: " + Engine.stack(e), null);
      return;
    }
    d[0].extra.putAll(extra);
    w.each = e -> {
      if (Checker.isProcessing(e) && (e.kind == E.END || e.kind == E.UNM)) {
        Integer c = child.get(e.fid);
        if (c != null) {
          handed.fire(c, true);
        }
      }
    };
    for (int fid : early) {
      handed.fire(fid, false);
    }
    handed.mayCome = true;
    if (!sized(run, w, d[0], "before the start")) {
      return;
    }
    run.start(w);
    CountDownLatch free = run.scenario.equals("held back") ? w.exec.hold() : null;
    Run.Threads ts = run.threads();
    int nt = 1 + r.nextInt(4);
    for (int t = 0; t < nt; t++) {
      int from = rootsFrom + t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < rootsTo; i += nt) {
          handed.fire(i, true);
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    if (free != null) {
      if (!sized(run, w, d[0], "while nothing is processed")) {
        free.countDown();
        return;
      }
      free.countDown();
    }
    if (!Scn.settle(run, w)) {
      return;
    }
    d[0].flush();
    if (!Scn.settle(run, w) || handed.report()) {
      return;
    }
    int size = w.m.getEventQueueSize();
    if (size != 1000) {
      run.violate(STRATEGY, "the queue size is " + size + " instead of the strategy's 1000");
    }
    w.opt.unrecorded = false;
    Checker k = new Checker(w);
    k.parse();
    for (int fid : early) {
      int b = k.before.getOrDefault(fid, 0);
      if (b != 1) {
        run.violate(STRATEGY, "an event before the start was reported " + b + " times");
      }
    }
    Scn.finish(run, new Checker(w).all().quiescent());
    run.engine.count("events handed to strategies", handed.calls.get());
    if (!Scn.ok(run)) {
      return;
    }
    w.m.stop();
    handed.mayCome = false;
    if (!sized(run, w, d[0], "after the end")) {
      return;
    }
    for (int fid : late) {
      handed.fire(fid, false);
    }
    k = new Checker(w).parse();
    for (int fid : late) {
      int a = k.after.getOrDefault(fid, 0);
      if (a != 1) {
        run.violate(STRATEGY, "an event after the end was reported " + a + " times");
      }
    }
    handed.report();
  }

  private static boolean sized(Run run, World w, Decorator d, String when) {
    int size = w.m.getEventQueueSize();
    if (size == d.getEventQueueSize()) {
      return true;
    }
    run.violate(STRATEGY, when + " the queue size is " + size + " instead of the strategy's "
        + d.getEventQueueSize());
    return false;
  }

  /** Makes the transitions with the public operations of the machine, on the threads that fire. */
  private static final class Own implements EventProcessingStrategy<Object, Object> {

    static final Method NOTIFY = method("notifyStateMachineListener", boolean.class, State.class,
        StateEvent.class, State.class);
    static final Method UPDATE = method("updateCurrentState", State.class);
    static final Method NOOP = method("getNoopState");
    static final Method END = method("getEndState");

    private static Method method(String name, Class<?>... args) {
      try {
        return GenericStateMachine.class.getMethod(name, args);
      } catch (NoSuchMethodException e) {
        return null;
      }
    }

    static boolean possible() {
      return NOTIFY != null && UPDATE != null && NOOP != null && END != null;
    }

    final Handed handed;
    private final ArrayDeque<StateEvent<Object>> queue = new ArrayDeque<>();
    private boolean draining;

    Own(Handed handed) {
      this.handed = handed;
    }

    @Override
    public int getEventQueueSize() {
      return -7;
    }

    @Override
    public void processEvent(StateEvent<Object> ev, GenericStateMachine<Object, Object> m) {
      handed.handed(ev, m);
      synchronized (queue) {
        queue.add(ev);
        if (draining) {
          return;
        }
        draining = true;
      }
      while (true) {
        StateEvent<Object> e;
        synchronized (queue) {
          e = queue.poll();
          if (e == null) {
            draining = false;
            return;
          }
        }
        try {
          transition(e, m);
        } catch (ReflectiveOperationException x) {
          handed.bad.add("failed: " + Engine.stack(x.getCause() == null ? x : x.getCause()));
        }
      }
    }

    private void transition(StateEvent<Object> ev, GenericStateMachine<Object, Object> m)
        throws ReflectiveOperationException {
      if (m.isEnded()) {
        return;
      }
      State<Object, Object> cur = m.getCurrentState();
      State<Object, Object> to = handed.states.get(cur).get(ev);
      if (to == null) {
        handed.w.unmapped(ev, m);
        return;
      }
      NOTIFY.invoke(m, false, cur, ev, to);
      if (!NOOP.invoke(m).equals(to)) {
        cur.onExit(ev, m);
        UPDATE.invoke(m, to);
        to.onEntry(ev, m);
      }
      NOTIFY.invoke(m, true, cur, ev, to);
    }

    @Override
    public void setStates(
        Map<State<Object, Object>, Map<StateEvent<Object>, State<Object, Object>>> states) {
      handed.states(states);
    }

    @Override
    public UnexpectedFlowListener<Object, Object> getUnexpectedFlowListener() {
      return handed.w.ufl();
    }
  }

  private static void own(Run run) throws Exception {
    if (!Own.possible()) {
      return;
    }
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.pctEnd = r.nextInt(3) == 0 ? 5 : 0;
    g.pctImmEnd = 0;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, Scn.size(r, 12, 60, 200), 10);
    World.Opt o = Scn.opt(run);
    Handed handed = new Handed(run) {
      @Override
      void handed(StateEvent<Object> ev, GenericStateMachine<Object, Object> m) {
        calls.incrementAndGet();
        if (m != w.m) {
          bad.add("handed over with another machine: " + m);
        }
      }
    };
    o.around = inner -> new Own(handed);
    World w = new World(s, run.rec, o, r);
    handed.w = w;
    run.onEnd(w::dispose);
    try {
      w.build();
    } catch (RuntimeException e) {
      run.violate("CONFIG", "a valid configuration was refused: " + Engine.stack(e), null);
      return;
    }
    run.start(w);
    int size = w.m.getEventQueueSize();
    if (size != -7) {
      run.violate(STRATEGY, "the queue size is " + size + " instead of the strategy's -7");
    }
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int nt = 1 + r.nextInt(4);
    for (int t = 0; t < nt; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < roots.size(); i += nt) {
          w.fire(roots.get(i));
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts) || handed.report()) {
      return;
    }
    run.engine.count("events handed to strategies", handed.calls.get());
    Checker k = new Checker(w);
    k.all();
    String cur = World.name(w.m.getCurrentState());
    String want = k.finalState == Spec.END ? GenericStateMachine.RESERVED_STATE_NAME_END
        : s.states.get(k.finalState);
    if (!want.equals(cur)) {
      run.violate(STRATEGY, "the current state is " + E.q(cur) + " instead of " + E.q(want));
    }
    Scn.finish(run, k);
  }

  // ---------------------------------------------------------------------------------- C27

  static Check c27() {
    Check c = new Check("C27", "machines configured by the lifecycle utility, with recording actions, "
        + "under random histories of lifecycle and other events; each history is replayed on the "
        + "documented table; a case is non-trivial if events were processed; cases are distinct if "
        + "their recorded histories are", LIFE, Checker.TABLE, Checker.CONS, Checker.PROTO,
        Checker.ENDED, Checker.START, Checker.ORDER, Checker.ATOM, "CONFIG");
    c.plain("sequential", 35, run -> {
      Spec s = lifecycle(run.r);
      lifeFires(run.r, s, Scn.size(run.r, 25, 80, 300));
      World w = Scn.batch(run, s, lifeOpt(run));
      if (Scn.ok(run)) {
        Scn.full(run, w);
      }
    });
    c.noisy("concurrent", 25, run -> {
      Spec s = lifecycle(run.r);
      lifeFires(run.r, s, Scn.size(run.r, 15, 60, 200));
      World w = Scn.concurrent(run, s, lifeOpt(run), 1 + run.r.nextInt(4),
          run.r.nextInt(3) == 0);
      if (Scn.ok(run)) {
        Scn.full(run, w);
      }
    });
    c.plain("started in a state", 15, run -> {
      Spec s = lifecycle(run.r);
      lifeFires(run.r, s, Scn.size(run.r, 15, 60, 200));
      World w = run.world(s, lifeOpt(run));
      int st = run.r.nextInt(5);
      E e = w.call("startInState(" + s.states.get(st) + ")",
          () -> w.m.startInState(w.stateObjs.get(s.states.get(st))));
      if (e.ex != null) {
        run.violate(Checker.START, "startInState failed: " + e);
        return;
      }
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
      if (Scn.settle(run, w)) {
        Checker k = new Checker(w);
        k.startState = st;
        k.startedInState = true;
        Scn.finish(run, k.all().quiescent());
      }
    });
    c.plain("constants", 20, ChecksMore::constants);
    c.plain("states of the utility", 15, ChecksMore::utilityStates);
    return c;
  }

  /** The documented table. */
  private static Spec lifecycle(Random r) {
    Spec s = new Spec();
    s.states = List.of("UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED");
    if (r.nextInt(4) == 0) {
      // states of the user's own, in the same roles
      List<String> names = new ArrayList<>(List.of("STOPPED", "STARTED", "UNINITIALISED", "a", "b",
          "started", "", " ", "Stopping", "_x_"));
      Collections.shuffle(names, r);
      s.states = new ArrayList<>(names.subList(0, 5));
    }
    s.types = List.of("start", "complete", "stop", "error", "started", "STOPPED", "Start", "");
    int n = s.states.size();
    int t = s.types.size();
    s.out = new int[n][t];
    s.immEnd = new boolean[n];
    s.nEntry = new int[n];
    s.nExit = new int[n];
    for (int i = 0; i < n; i++) {
      s.nEntry[i] = r.nextInt(4);
      s.nExit[i] = r.nextInt(3);
      for (int j = 0; j < t; j++) {
        s.out[i][j] = Spec.UNM;
      }
    }
    s.out[0][0] = 1;
    s.out[1][1] = 2;
    s.out[1][3] = 4;
    s.out[2][2] = 3;
    s.out[2][3] = 4;
    s.out[3][1] = 4;
    s.out[3][3] = 4;
    s.out[4][0] = 1;
    s.out[4][2] = Spec.END;
    for (int j = 0; j < t; j++) {
      s.typeByName.put(s.types.get(j), j);
    }
    return s;
  }

  private static void lifeFires(Random r, Spec s, int n) {
    int state = 0;
    boolean mayEnd = r.nextInt(3) == 0;
    for (int i = 0; i < n; i++) {
      int t = r.nextInt(s.types.size());
      if (state != Spec.END && r.nextInt(3) > 0) {
        List<Integer> mapped = new ArrayList<>();
        for (int j = 0; j < s.types.size(); j++) {
          if (s.out[state][j] != Spec.UNM && (mayEnd || s.out[state][j] != Spec.END)) {
            mapped.add(j);
          }
        }
        t = mapped.get(r.nextInt(mapped.size()));
      }
      s.fireTok(t, false);
      if (state != Spec.END && s.out[state][t] != Spec.UNM) {
        state = s.out[state][t];
      }
    }
  }

  private static World.Opt lifeOpt(Run run) {
    World.Opt o = Scn.opt(run);
    o.lifecycle = true;
    return o;
  }

  /** The states the utility makes, each with any actions. */
  @SuppressWarnings({"unchecked", "rawtypes"})
  private static void utilityStates(Run run) {
    Random r = run.r;
    List<String> got = new ArrayList<>();
    StateAction[] pool = new StateAction[4];
    for (int i = 0; i < pool.length; i++) {
      String id = "a" + i;
      pool[i] = (ev, sm) -> got.add(id + " on " + ev.getName());
    }
    List<State<Object, Void>> states = new ArrayList<>();
    List<List<String>> want = new ArrayList<>();
    List<String> names = List.of("UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED");
    int n = 1 + r.nextInt(12);
    List<Integer> kinds = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      int k = r.nextInt(5);
      StateAction[] a = new StateAction[r.nextInt(3) == 0 ? 0
          : r.nextInt(r.nextInt(4) == 0 ? 60 : 7)];
      List<String> w = new ArrayList<>();
      for (int j = 0; j < a.length; j++) {
        int p = r.nextInt(pool.length);
        a[j] = pool[p];
        w.add("a" + p);
      }
      State<Object, Void> st = k == 0 ? LifecycleStateMachineUtil.newUnitialisedState(a)
          : k == 1 ? LifecycleStateMachineUtil.newStartingState(a)
          : k == 2 ? LifecycleStateMachineUtil.newStartedState(a)
          : k == 3 ? LifecycleStateMachineUtil.newStoppingState(a)
          : LifecycleStateMachineUtil.newStoppedState(a);
      states.add(st);
      want.add(w);
      kinds.add(k);
      run.sig(k);
      run.sig(w.hashCode());
    }
    for (int i = 0; i < 2 * n; i++) {
      int x = r.nextInt(n);
      if (r.nextInt(3) == 0) {
        int p = r.nextInt(pool.length);
        states.get(x).appendEntryActions(pool[p]);
        want.get(x).add("a" + p);
      }
      NamedStateEvent<Void> ev = new NamedStateEvent<>("e" + i);
      if (r.nextInt(3) == 0) {
        got.clear();
        states.get(x).onExit(ev, null);
        if (!got.isEmpty()) {
          run.violate(LIFE, "the exit of a new state ran " + got);
          return;
        }
      }
      got.clear();
      states.get(x).onEntry(ev, null);
      List<String> w = new ArrayList<>();
      want.get(x).forEach(s -> w.add(s + " on " + ev.getName()));
      String name = states.get(x).getName();
      if (!got.equals(w) || !names.get(kinds.get(x)).equals(name)) {
        run.violate(LIFE, "the state for " + names.get(kinds.get(x)) + " is named " + E.q(name)
            + " and ran " + got + " instead of " + w);
        return;
      }
    }
    run.cover(run.rec.sorted());
  }

  /** The utility's own events, without listener or payload: only the actions and the state tell. */
  private static void constants(Run run) throws Exception {
    Random r = run.r;
    Spec s = lifecycle(r);
    World.Opt o = lifeOpt(run);
    World w = run.world(s, o);
    List<StateEvent<Void>> events = List.of(LifecycleStateMachineUtil.evtStart,
        LifecycleStateMachineUtil.evtComplete, LifecycleStateMachineUtil.evtStop,
        LifecycleStateMachineUtil.evtError);
    run.start(w);
    int state = 0;
    int n = 1 + r.nextInt(40);
    StringBuilder path = new StringBuilder();
    for (int i = 0; i < n && state != Spec.END; i++) {
      int t = r.nextInt(4);
      if (s.out[state][t] == Spec.END && r.nextInt(4) > 0) {
        t = 0;
      }
      @SuppressWarnings({"unchecked", "rawtypes"})
      StateEvent<Object> ev = (StateEvent) events.get(t);
      w.m.fire(r.nextInt(4) == 0 ? new NamedStateEvent<>(s.types.get(t)) : ev);
      if (!Scn.settle(run, w)) {
        return;
      }
      int from = state;
      if (s.out[state][t] != Spec.UNM) {
        state = s.out[state][t];
      }
      path.append(s.types.get(t)).append(' ');
      run.sig(t);
      String want = state == Spec.END ? GenericStateMachine.RESERVED_STATE_NAME_END
          : s.states.get(state);
      String cur = World.name(w.m.getCurrentState());
      if (!want.equals(cur) || w.m.isEnded() != (state == Spec.END)) {
        run.violate(LIFE, s.types.get(t) + " while " + s.states.get(from) + " leads to " + cur
            + " instead of " + want + ", after: " + path);
        return;
      }
    }
    run.cover(run.rec.sorted());
  }

  // ---------------------------------------------------------------------------------- C28

  static Check c28() {
    Check c = new Check("C28", "groups of machines whose callbacks, reports of unexpected flow "
        + "included, fire at, start, stop, look at and re-equip each other at random, with queues that "
        + "are often full, under perturbed schedules; threads are watched for deadlocks and for waits "
        + "inside the library that do not end; a case is non-trivial if callbacks used other "
        + "machines; cases are distinct if their recorded histories (with threads) are", DEADLOCK,
        Scn.STALL);
    c.noisy("driving each other", 60, run -> drive(run, false));
    c.noisy("full queues", 40, run -> drive(run, true));
    return c;
  }

  private static final ThreadMXBean THREADS = ManagementFactory.getThreadMXBean();

  private static void drive(Run run, boolean full) throws Exception {
    Random r = run.r;
    int n = 2 + r.nextInt(3);
    AtomicInteger budget = new AtomicInteger(20 + r.nextInt(150));
    boolean stops = r.nextInt(3) == 0;
    List<World> ws = new ArrayList<>();
    long seed = r.nextLong();
    ThreadLocal<Random> rnd = ThreadLocal.withInitial(() -> new Random(seed));
    for (int i = 0; i < n; i++) {
      Spec.Gen g = new Spec.Gen();
      g.maxStates = 3;
      g.maxTypes = 4;
      g.pctEnd = stops ? 3 : 0;
      Spec s = Spec.table(r, g);
      for (int k = 0; k < 12; k++) {
        Scn.fire(r, s, true);
      }
      World.Opt o = Scn.opt(run);
      o.dropDup = r.nextBoolean();
      o.max = full ? 1 + r.nextInt(2) : r.nextInt(4) == 0 ? 1 + r.nextInt(3) : -1;
      World w = run.world(s, o);
      ws.add(w);
    }
    AtomicInteger used = new AtomicInteger();
    // listeners that several machines share
    List<MultiConsumerStateMachineListener<Object, Object>> shared = new ArrayList<>();
    if (r.nextInt(3) > 0) {
      for (int i = 0; i < 2; i++) {
        MultiConsumerStateMachineListener<Object, Object> m =
            new MultiConsumerStateMachineListener<>();
        for (World w : ws) {
          if (r.nextBoolean()) {
            m.add(w.listener);
          }
        }
        shared.add(m);
      }
    }
    for (World w : ws) {
      w.each = e -> {
        Random q = rnd.get();
        int ops = q.nextInt(3);
        for (int i = 0; i < ops && budget.get() > 0; i++) {
          use(ws.get(q.nextInt(n)), q, budget, stops, used, shared);
        }
      };
    }
    int late = r.nextInt(n * 2);
    for (int i = 0; i < n; i++) {
      if (i != late) {
        // perhaps another one has started it already
        ws.get(i).start();
      }
    }
    Run.Threads ts = run.threads();
    int nt = 2 + r.nextInt(3);
    for (int t = 0; t < nt; t++) {
      long ts0 = r.nextLong();
      ts.add("using" + t, () -> {
        Random q = new Random(ts0);
        for (int i = 0; i < 15; i++) {
          use(ws.get(q.nextInt(n)), q, budget, stops, used, shared);
        }
      });
    }
    List<CountDownLatch> held = new ArrayList<>();
    if (full) {
      for (World w : ws) {
        // the machines that were started may be stuck already
        if (r.nextBoolean() && (Run.await(3, w.exec::idle) || !deadlocked(run, ts, ws))) {
          held.add(w.exec.hold());
        }
        if (!run.violations.isEmpty()) {
          return;
        }
      }
    }
    ts.start();
    boolean done = Run.await(3, () -> ts.all.stream().noneMatch(Thread::isAlive));
    if (!done && deadlocked(run, ts, ws)) {
      return;
    }
    if (!Scn.join(run, ts)) {
      return;
    }
    held.forEach(CountDownLatch::countDown);
    budget.set(0);
    for (World w : ws) {
      if (!Run.await(3, w.exec::idle) && deadlocked(run, ts, ws)) {
        return;
      }
      if (!Scn.settle(run, w)) {
        return;
      }
    }
    run.engine.count("uses of other machines in callbacks", used.get());
    run.cover(run.rec.sorted());
  }

  private static void use(World w, Random q, AtomicInteger budget, boolean stops, AtomicInteger used,
      List<MultiConsumerStateMachineListener<Object, Object>> shared) {
    used.incrementAndGet();
    switch (q.nextInt(12)) {
      case 0:
        w.observe();
        break;
      case 1:
        MultiConsumerStateMachineListener<Object, Object> m = shared.isEmpty() ? null
            : shared.get(q.nextInt(shared.size()));
        int k = q.nextInt(6);
        if (m == null || k < 2) {
          w.m.setStateMachineListener(k == 0 ? null : w.listener);
        } else if (k == 2) {
          m.add(w.listener);
        } else if (k == 3) {
          m.remove(w.listener);
        } else {
          w.m.setStateMachineListener(m);
        }
        break;
      case 2:
        if (stops && q.nextInt(4) == 0) {
          w.stop();
        } else {
          w.m.getContext();
        }
        break;
      case 3:
        // refused mostly
        w.start();
        break;
      case 4:
        w.m.toString();
        break;
      default:
        if (budget.decrementAndGet() > 0) {
          w.fire(q.nextInt(w.spec.fires.size()));
        }
    }
  }

  /** Threads that wait for each other will do so forever. */
  private static boolean deadlocked(Run run, Run.Threads ts, List<World> ws) {
    long[] ids = THREADS.findDeadlockedThreads();
    if (ids == null) {
      return false;
    }
    StringBuilder sb = new StringBuilder();
    boolean ours = false;
    for (ThreadInfo i : THREADS.getThreadInfo(ids, 60)) {
      if (i == null) {
        continue;
      }
      for (Thread t : ts.all) {
        ours |= t.getId() == i.getThreadId();
      }
      for (World w : ws) {
        for (Thread t : w.exec.threads) {
          ours |= t.getId() == i.getThreadId();
        }
      }
      sb.append(i.getThreadName()).append(" waits for ").append(i.getLockName()).append(" held by ")
          .append(i.getLockOwnerName()).append(" in");
      int k = 0;
      for (StackTraceElement e : i.getStackTrace()) {
        if (e.getClassName().startsWith("com.webotech.") && k++ < 5) {
          sb.append(' ').append(e.getClassName().replaceAll(".*\\.", "")).append('.')
              .append(e.getMethodName()).append(':').append(e.getLineNumber());
        }
      }
      sb.append("; ");
    }
    if (ours) {
      run.violate(DEADLOCK, "machines wait for each other: " + sb);
    }
    return ours;
  }
}
