package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.UnexpectedFlowListener;
import java.lang.ref.WeakReference;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Random;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.stream.Collectors;

/**
 * Machines whose parts nobody else refers to, over garbage collections, and parts that several
 * machines have in common.
 */
final class ChecksKept {

  private static final String[] NAMES = {"go", "go", "go", "stay", "other", "fail", "caught"};

  private ChecksKept() {
  }

  /**
   * What happened, one line each. The first letter tells what it is: Listener, Action, Context,
   * Unmapped, Report, Early, laTe, Handler.
   */
  private static final class Sink {

    final ConcurrentLinkedQueue<String> lines = new ConcurrentLinkedQueue<>();
    volatile Object machine;

    void add(String s) {
      Run.tick();
      lines.add(s);
    }
  }

  /** What has to happen. */
  private static final class Model {

    final List<String> want = new ArrayList<>();
    String cur = "a";
    boolean ended;

    private void action(String what, String ev) {
      want.add("A " + what + " " + cur + " " + ev);
      want.add("C the context");
    }

    void start() {
      want.add("L begin _UNINITIALISED_ _immediate_ a");
      action("entry", "_immediate_");
      want.add("L end _UNINITIALISED_ _immediate_ a");
    }

    void event(String ev) {
      if (ended) {
        want.add("T " + ev);
        return;
      }
      if (ev.equals("other")) {
        want.add("U " + ev + " " + cur);
        return;
      }
      String from = cur;
      String to = ev.equals("stay") ? "_NOOP_" : ev.equals("end") ? "_END_"
          : cur.equals("a") ? "b" : "a";
      String t = from + " " + ev + " " + to;
      want.add("L begin " + t);
      if (!ev.equals("stay")) {
        action("exit", ev);
        if (ev.equals("fail")) {
          want.add("R " + ev + " induced");
          return;
        }
        if (ev.equals("caught")) {
          want.add("H " + ev + " to be caught");
        }
        cur = to;
        if (ev.equals("end")) {
          ended = true;
        } else {
          action("entry", ev);
        }
      }
      want.add("L end " + t);
    }
  }

  private static NamedStateEvent<Object> event(String name) {
    return new NamedStateEvent<>(name);
  }

  /** @param own what the actions of a machine belong to, null if that is its context */
  @SuppressWarnings("unchecked")
  private static State<Object, Object> state(String name, Sink own) {
    NamedState<Object, Object> s = new NamedState<>(name);
    s.appendEntryActions((e, m) -> acted("entry", e, m, own));
    s.appendExitActions((e, m) -> {
      acted("exit", e, m, own);
      if (e.getName().equals("fail")) {
        throw new IllegalArgumentException("induced");
      }
    }, new HandleExceptionAction<>((e, m) -> {
      if (e.getName().equals("caught")) {
        throw new IllegalArgumentException("to be caught");
      }
    }, (e, m, x) -> sink(m, own).add("H " + e.getName() + " " + x.getMessage())));
    return s;
  }

  private static Sink sink(StateMachine<Object, Object> m, Sink own) {
    return own != null ? own : (Sink) m.getContext();
  }

  private static void acted(String what, StateEvent<Object> e, StateMachine<Object, Object> m,
      Sink own) {
    Sink s = sink(m, own);
    s.add("A " + what + " " + m.getCurrentState().getName() + " " + e.getName());
    s.add(own != null ? "C " + m.getContext()
        : s.machine == m ? "C the context" : "C of another machine");
  }

  private static StateMachineListener<Object, Object> listener(Sink s) {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        s.add("L begin " + f.getName() + " " + e.getName() + " " + t.getName());
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
          State<Object, Object> t) {
        s.add("L end " + f.getName() + " " + e.getName() + " " + t.getName());
      }
    };
  }

  private static UnexpectedFlowListener<Object, Object> flow(Sink own) {
    return new UnexpectedFlowListener<>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> e,
          StateMachine<Object, Object> m, Thread t, Exception x) {
        sink(m, own).add("R " + e.getName() + " " + x.getMessage());
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
        sink(m, own).add("T " + e.getName());
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> e,
          StateMachine<Object, Object> m) {
        sink(m, own).add("E " + e.getName());
      }
    };
  }

  private static void configure(Random r, StateMachine<Object, Object> m, State<Object, Object> a,
      State<Object, Object> b) {
    StateMachine<Object, Object> x = m.initialSate(a).receives(event("go")).itTransitionsTo(b);
    for (State<Object, Object> s : List.of(a, b)) {
      State<Object, Object> to = s == a ? b : a;
      if (s == b) {
        x = x.when(b).receives(event("go")).itTransitionsTo(to);
      }
      x = x.when(s).receives(event("fail")).itTransitionsTo(to);
      x = x.when(s).receives(event("caught")).itTransitionsTo(to);
      x = x.when(s).receives(event("stay")).itDoesNotTransition();
      x = x.when(s).receives(event("end")).itEnds();
    }
  }

  private static GenericStateMachine<Object, Object> build(Random r, MonExecutor exec, Sink s,
      boolean multi) {
    EventProcessingStrategyFactory.Config<Object, Object> c =
        new EventProcessingStrategyFactory.Config<>();
    c.withExecutor(exec).withUnexpectedFlowListener(flow(s)).withUnmappedEventHandler(
        (e, m) -> s.add("U " + e.getName() + " " + m.getCurrentState().getName()));
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    b.setContext(new StringBuilder("the context"));
    b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(c));
    StateMachineListener<Object, Object> l = listener(s);
    if (multi) {
      MultiConsumerStateMachineListener<Object, Object> mc =
          new MultiConsumerStateMachineListener<>();
      mc.add(l);
      l = mc;
    }
    if (r.nextBoolean()) {
      b.setStateMachineListener(l);
      l = null;
    }
    GenericStateMachine<Object, Object> m = b.build();
    if (l != null) {
      m.setStateMachineListener(l);
    }
    configure(r, m, state("a", s), state("b", s));
    return m;
  }

  private static void collect(Run run) {
    WeakReference<Object> w = new WeakReference<>(new Object());
    for (int i = 0; i < 5 && w.get() != null; i++) {
      System.gc();
    }
    run.engine.count("collections", 1);
  }

  /**
   * Nobody but the machine refers to its states, events, listeners, handlers and context, and in
   * the end maybe nobody refers to the machine.
   *
   * @param kinds the lines to look at
   */
  @SuppressWarnings("unchecked")
  static void kept(Run run, String tag, String kinds) throws Exception {
    Random r = run.r;
    Sink s = new Sink();
    MonExecutor exec = new MonExecutor();
    run.onEnd(exec::shutdownNow);
    GenericStateMachine<Object, Object>[] m = new GenericStateMachine[]{
        build(r, exec, s, r.nextBoolean() || tag.equals("MULTI"))};
    Model k = new Model();
    int when = r.nextInt(5);
    if (when == 0) {
      collect(run);
    }
    if (r.nextBoolean()) {
      m[0].fire(event("go"));
      k.want.add("E go");
    }
    if (when == 1) {
      collect(run);
    }
    m[0].start();
    k.start();
    int n = 1 + r.nextInt(20);
    boolean abandoned = r.nextInt(3) == 0;
    int at = abandoned ? -1 : when > 1 ? r.nextInt(n) : -1;
    CountDownLatch free = abandoned ? exec.hold() : null;
    for (int i = 0; i < n; i++) {
      if (i == at) {
        if (!settle(run, exec)) {
          return;
        }
        collect(run);
      }
      String ev = !abandoned && i > 0 && r.nextInt(15) == 0 ? "end" : NAMES[r.nextInt(NAMES.length)];
      if (k.ended || ev.equals("end")) {
        // otherwise it were open whether it comes after the end
        if (!settle(run, exec)) {
          return;
        }
      }
      m[0].fire(event(ev));
      k.event(ev);
      if (ev.equals("end") && !settle(run, exec)) {
        return;
      }
    }
    if (abandoned) {
      m[0] = null;
      collect(run);
      free.countDown();
      if (!settle(run, exec)) {
        return;
      }
    } else if (!settle(run, exec)) {
      return;
    }
    compare(run, tag, kinds, s, k, abandoned ? "an abandoned machine" : "a machine");
    run.engine.count(abandoned ? "abandoned machines" : "machines nothing else refers to", 1);
  }

  private static boolean settle(Run run, MonExecutor exec) throws InterruptedException {
    if (Run.await(60, exec::idle)) {
      return true;
    }
    run.inconclusive = "processing did not finish";
    return false;
  }

  private static void compare(Run run, String tag, String kinds, Sink s, Model k, String what) {
    List<String> got = s.lines.stream().filter(x -> kinds.indexOf(x.charAt(0)) >= 0)
        .collect(Collectors.toList());
    List<String> want = k.want.stream().filter(x -> kinds.indexOf(x.charAt(0)) >= 0)
        .collect(Collectors.toList());
    if (!got.equals(want)) {
      int i = 0;
      while (i < got.size() && i < want.size() && got.get(i).equals(want.get(i))) {
        i++;
      }
      run.violate(tag, what + ": line " + i + " is " + (i < got.size() ? got.get(i) : "missing")
          + " instead of " + (i < want.size() ? want.get(i) : "nothing") + " in " + got, null);
    }
    run.sig(Arrays.hashCode(k.want.toArray()));
    run.events += k.want.size();
  }

  /** Machines that have their states, events, handlers and strategy configuration in common. */
  static void common(Run run, String tag) throws Exception {
    Random r = run.r;
    int n = 2 + r.nextInt(r.nextInt(6) == 0 ? 100 : 4);
    EventProcessingStrategyFactory.Config<Object, Object> c =
        new EventProcessingStrategyFactory.Config<>();
    c.withUnexpectedFlowListener(flow(null)).withUnmappedEventHandler((e, m) ->
        sink(m, null).add("U " + e.getName() + " " + m.getCurrentState().getName()));
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    State<Object, Object> a = state("a", null);
    State<Object, Object> bb = state("b", null);
    List<GenericStateMachine<Object, Object>> ms = new ArrayList<>();
    List<Sink> sinks = new ArrayList<>();
    List<Model> models = new ArrayList<>();
    List<MonExecutor> execs = new ArrayList<>();
    boolean oneExec = r.nextInt(3) == 0;
    for (int i = 0; i < n; i++) {
      if (i == 0 || !oneExec) {
        MonExecutor x = new MonExecutor();
        run.onEnd(x::shutdownNow);
        execs.add(x);
      }
      Sink s = new Sink();
      c.withExecutor(execs.get(execs.size() - 1));
      b.setContext(s).setStateMachineListener(listener(s)).setEventProcessingStrategy(
          EventProcessingStrategyFactory.createDefaultStrategy(c));
      GenericStateMachine<Object, Object> m = b.build();
      s.machine = m;
      configure(r, m, a, bb);
      ms.add(m);
      sinks.add(s);
      models.add(new Model());
    }
    NamedStateEvent<Object>[] same = new NamedStateEvent[NAMES.length];
    for (int i = 0; i < same.length; i++) {
      same[i] = event(NAMES[i]);
    }
    Run.Threads ts = run.threads();
    int groups = Math.min(n, 6);
    for (int g = 0; g < groups; g++) {
      int from = g;
      long seed = r.nextLong();
      ts.add("using" + g, () -> {
        Random x = new Random(seed);
        for (int i = from; i < n; i += groups) {
          ms.get(i).start();
          models.get(i).start();
        }
        for (int j = 0; j < 10; j++) {
          for (int i = from; i < n; i += groups) {
            int e = x.nextInt(NAMES.length);
            models.get(i).event(NAMES[e]);
            ms.get(i).fire(same[e]);
          }
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    for (MonExecutor x : execs) {
      if (!settle(run, x)) {
        return;
      }
    }
    for (int i = 0; i < n; i++) {
      compare(run, tag, "ACULRTEH", sinks.get(i), models.get(i), "machine " + i + " of " + n);
    }
    run.engine.count("machines with common states", n);
  }
}
