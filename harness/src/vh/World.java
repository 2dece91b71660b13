package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.DefaultEventStrategy;
import com.webotech.statemachine.strategy.DropDuplicateEventStrategy;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.api.StateAction;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Random;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.ConcurrentLinkedDeque;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.LinkedBlockingDeque;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.LinkedTransferQueue;
import java.util.function.Consumer;
import java.util.function.Function;

/** One machine under test, with recording callbacks. */
final class World {

  static final class Opt {

    /** 0: none, 1: via the builder, 2: via the setter, 3: behind a multi-consumer listener */
    int listener = 1;
    boolean dropDup;
    /** by the public constructors instead of the factory */
    boolean direct;
    int max = -1;
    Queue<EventMachinePair<Object, Object>> queue;
    /** null: the library makes the executor */
    MonExecutor exec;
    EventProcessingStrategyFactory.Config<Object, Object> config;
    boolean noStrategy;
    GenericStateMachine.Builder<Object, Object> builder;
    Object context = new Object();
    String threadName;
    /** fire fresh instances (0), copies of the payload-carrying instance (1) or a mix (2) */
    int instances = 2;
    /** fire the same instance of a name again and again */
    boolean reuse;
    /** the unmapped handler / unexpected flow listener throws */
    boolean recordSize;
    boolean noUnmapped;
    int mapStyle;
    /** the last callback of an event changes the event it was given */
    boolean spoil;
    /** the states are not the library's */
    boolean userStates;
    /** what the machine is given instead of the strategy */
    Function<EventProcessingStrategy<Object, Object>, EventProcessingStrategy<Object, Object>> around;
    /** fires are recorded by somebody else */
    boolean unrecorded;
    /** more will be configured */
    boolean open;
    /** configured by the lifecycle utility */
    boolean lifecycle;
  }

  final Spec spec;
  final Rec rec;
  final Opt opt;
  final Random r;
  GenericStateMachine<Object, Object> m;
  MonExecutor exec;
  final Map<String, State<Object, Object>> stateObjs = new HashMap<>();
  /** thrown in unexpected-flow callbacks when set, by fid */
  final Map<Integer, Throwable> uflThrows = new HashMap<>();
  StateMachineListener<Object, Object> listener;
  final ConcurrentLinkedQueue<String> strangers = new ConcurrentLinkedQueue<>();
  private final Map<Boolean, Throwable> thrown = new HashMap<>();
  private final boolean sameThrowable;
  private final ThreadLocal<Map<String, NamedStateEvent<Object>>> reused =
      ThreadLocal.withInitial(HashMap::new);
  /** called by the next callback of an event, once */
  volatile Runnable gate;
  /** if positive, every n-th callback throws */
  volatile int throwAt;
  /** called in each callback */
  volatile Consumer<E> each;

  World(Spec spec, Rec rec, Opt opt, Random r) {
    this.spec = spec;
    this.rec = rec;
    this.opt = opt;
    this.r = r;
    if (spec.visible) {
      opt.listener = 0;
    }
    sameThrowable = r.nextInt(3) == 0;
  }

  static Queue<EventMachinePair<Object, Object>> queue(int kind, Rec rec) {
    switch (kind) {
      case 1:
        return new ConcurrentLinkedQueue<>();
      case 2:
        return new LinkedBlockingQueue<>();
      case 3:
        return new LinkedBlockingDeque<>();
      case 4:
        return new ArrayBlockingQueue<>(200000);
      case 5:
        return new ConcurrentLinkedDeque<>();
      case 6:
        return new LinkedTransferQueue<>();
      case 7:
        return new MonQueue<>(rec);
      default:
        return null;
    }
  }

  World build() {
    buildMachine();
    configure();
    return this;
  }

  void buildMachine() {
    listener = new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        trans(E.BEGIN, 0, from, event, to);
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        trans(E.END, 0, from, event, to);
      }
    };
    GenericStateMachine.Builder<Object, Object> b =
        opt.builder != null ? opt.builder : new GenericStateMachine.Builder<>();
    if (opt.context != null || opt.builder != null) {
      b.setContext(opt.context);
    }
    if (!opt.noStrategy) {
      b.setEventProcessingStrategy(opt.around != null ? opt.around.apply(strategy()) : strategy());
    }
    if (opt.listener == 1) {
      b.setStateMachineListener(listener);
    } else if (opt.listener == 3) {
      b.setStateMachineListener(new MultiConsumerStateMachineListener<>(listener));
    } else if (opt.builder != null) {
      b.setStateMachineListener(null);
    }
    m = b.build();
    if (opt.listener == 2) {
      m.setStateMachineListener(listener);
    }
  }

  EventProcessingStrategy<Object, Object> strategy() {
    EventProcessingStrategyFactory.Config<Object, Object> c =
        opt.config != null ? opt.config : new EventProcessingStrategyFactory.Config<>();
    exec = opt.exec;
    if (opt.direct && exec != null && opt.config == null && !opt.noUnmapped) {
      DefaultEventStrategy<Object, Object> d = new DefaultEventStrategy<>(this::unmapped, exec,
          ufl(), opt.max, opt.queue != null ? opt.queue : new ConcurrentLinkedQueue<>());
      return opt.dropDup ? new DropDuplicateEventStrategy<>(d) : d;
    }
    if (exec != null) {
      c.withExecutor(exec);
    }
    if (opt.threadName != null) {
      c.withThreadName(opt.threadName);
    }
    if (opt.max != -1) {
      c.withMaxQueueSize(opt.max);
    }
    if (opt.queue != null) {
      c.withEventQueue(opt.queue);
    }
    if (!opt.noUnmapped) {
      c.withUnmappedEventHandler(this::unmapped);
    }
    c.withUnexpectedFlowListener(ufl());
    return opt.dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
        : EventProcessingStrategyFactory.createDefaultStrategy(c);
  }

  /** Appends the actions and makes the mappings. */
  @SuppressWarnings({"unchecked", "rawtypes"})
  void configure() {
    if (opt.lifecycle) {
      State[] st = new State[5];
      for (int i = 0; i < st.length; i++) {
        StateAction[] a = new StateAction[spec.nEntry[i]];
        String name = spec.states.get(i);
        for (int k = 0; k < a.length; k++) {
          int idx = k;
          a[k] = (ev, sm) -> action(E.ENTRY, name, idx, ev, sm);
        }
        if (!spec.states.contains(LifecycleStateMachineUtil.STATE_STARTING)) {
          // states of the user's own
          st[i] = state(name);
          st[i].appendEntryActions(a);
          append(st[i], E.EXIT, name, spec.nExit[i]);
          stateObjs.put(name, st[i]);
          continue;
        }
        st[i] = i == 0 ? LifecycleStateMachineUtil.newUnitialisedState(a)
            : i == 1 ? LifecycleStateMachineUtil.newStartingState(a)
            : i == 2 ? LifecycleStateMachineUtil.newStartedState(a)
            : i == 3 ? LifecycleStateMachineUtil.newStoppingState(a)
            : LifecycleStateMachineUtil.newStoppedState(a);
        append(st[i], E.EXIT, name, spec.nExit[i]);
        stateObjs.put(name, st[i]);
      }
      LifecycleStateMachineUtil.configureAppStateMachine((StateMachine) m, st[0], st[1], st[2],
          st[3], st[4]);
      return;
    }
    for (int i = 0; i < spec.states.size(); i++) {
      State<Object, Object> st = state(spec.states.get(i));
      stateObjs.put(spec.states.get(i), st);
      append(st, E.ENTRY, spec.states.get(i), spec.nEntry[i]);
      append(st, E.EXIT, spec.states.get(i), spec.nExit[i]);
    }
    Map<Integer, List<String>> names = new HashMap<>();
    if (spec.unique) {
      for (Spec.F f : spec.fires) {
        names.computeIfAbsent(f.type, k -> new ArrayList<>()).add(f.name);
      }
    } else {
      for (int t = 0; t < spec.types.size(); t++) {
        names.put(t, List.of(spec.types.get(t)));
      }
    }
    State<Object, Object> init = stateObjs.get(spec.states.get(spec.init));
    boolean spoilt = r.nextInt(3) == 0;
    List<Integer> order = new ArrayList<>();
    order.add(spec.init);
    for (int i = 0; i < spec.states.size(); i++) {
      if (i != spec.init) {
        order.add(i);
      }
    }
    // one state without any mapping can be left at that, the last one
    int bare = -1;
    if (!opt.open && r.nextBoolean()) {
      for (int k = order.size() - 1; k >= 1 && bare < 0; k--) {
        if (isBare(order.get(k))) {
          bare = order.remove(k);
        }
      }
    }
    List<Mapping> all = new ArrayList<>();
    for (int i : order) {
      int n = all.size();
      if (spec.immEnd[i] && i != spec.init && !opt.open && r.nextBoolean()) {
        // what is never configured ends the machine, too
        continue;
      }
      if (spec.immEnd[i]) {
        all.add(new Mapping(i, null, Spec.END));
        continue;
      }
      for (int t = 0; t < spec.types.size(); t++) {
        if (spec.out[i][t] != Spec.UNM) {
          for (String name : names.getOrDefault(t, List.of())) {
            all.add(new Mapping(i, name, spec.out[i][t]));
          }
        }
      }
      if (all.size() == n) {
        // known to the machine, but without mappings that matter
        all.add(new Mapping(i, "never fired", Spec.NOOP));
      }
    }
    if (r.nextInt(3) == 0) {
      // the order of the mappings does not matter, but the initial state comes first
      Collections.shuffle(all, r);
      for (int i = 0; i < all.size(); i++) {
        if (all.get(i).state == spec.init) {
          Collections.swap(all, 0, i);
          break;
        }
      }
    }
    StateMachine<Object, Object> sm = m.initialSate(init);
    boolean first = true;
    for (Mapping x : all) {
      if (!first) {
        sm = sm.when(opt.mapStyle == 1 ? state(spec.states.get(x.state))
            : stateObjs.get(spec.states.get(x.state)));
      }
      first = false;
      if (x.name != null) {
        NamedStateEvent<Object> ev = new NamedStateEvent<>(new String(x.name));
        if (spoilt) {
          // what the configuration is made with does not matter later
          ev.setPayload("the payload of a configured event");
        }
        sm = sm.receives(ev);
      }
      sm = x.to == Spec.END ? sm.itEnds() : x.to == Spec.NOOP ? sm.itDoesNotTransition()
          : sm.itTransitionsTo(stateObjs.get(spec.states.get(x.to)));
    }
    if (bare >= 0) {
      sm.when(stateObjs.get(spec.states.get(bare)));
    }
  }

  private static final class Mapping {

    final int state;
    final String name;
    final int to;

    Mapping(int state, String name, int to) {
      this.state = state;
      this.name = name;
      this.to = to;
    }
  }

  private boolean isBare(int i) {
    if (spec.immEnd[i]) {
      return false;
    }
    for (int o : spec.out[i]) {
      if (o != Spec.UNM) {
        return false;
      }
    }
    return true;
  }

  State<Object, Object> state(String name) {
    return opt.userStates ? new UserState(name)
        : new NamedState<>(r.nextBoolean() ? new String(name) : name);
  }

  @SuppressWarnings("unchecked")
  private void append(State<Object, Object> st, int kind, String name, int n) {
    for (int i = 0; i < n; i++) {
      int idx = i;
      if (kind == E.ENTRY) {
        st.appendEntryActions((ev, sm) -> action(kind, name, idx, ev, sm));
      } else {
        st.appendExitActions((ev, sm) -> action(kind, name, idx, ev, sm));
      }
    }
  }

  /** A further listener of the same machine, its calls are told apart by their index. */
  StateMachineListener<Object, Object> tagged(int id) {
    return new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        trans(E.BEGIN, id, from, event, to);
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        trans(E.END, id, from, event, to);
      }
    };
  }

  int fidOf(StateEvent<Object> ev) {
    Object p = ev.getPayload();
    if (p instanceof Tok) {
      if (((Tok) p).owner != null && ((Tok) p).owner != spec) {
        return -4;
      }
      return ((Tok) p).fid;
    }
    Integer byPayload = spec.byPayload == null ? null : spec.byPayload.get(p);
    if (byPayload != null) {
      return byPayload;
    }
    String n = ev.getName();
    if (GenericStateMachine.RESERVED_STATE_EVENT_NAME_IMMEDIATE.equals(n)) {
      return -1;
    }
    Integer id = spec.byName.get(n);
    return id != null ? id : -3;
  }

  static String name(State<Object, Object> s) {
    return s == null ? null : s.getName();
  }

  private E cb(int kind, StateEvent<Object> ev, StateMachine<Object, Object> sm) {
    E e = new E();
    e.kind = kind;
    e.machine = m;
    if (sm != null && (sm != m || sm.getContext() != opt.context) && m != null) {
      strangers.add(E.KINDS[kind] + " callback got " + sm + " instead of its own machine");
    }
    if (ev != null) {
      e.fid = fidOf(ev);
      e.ev = ev.getName();
      e.payload = ev.getPayload();
    }
    return e;
  }

  private void run(E e) {
    rec.enter(e);
    try {
      State<Object, Object> c = m.getCurrentState();
      e.cur = name(c);
      e.curSeq = rec.now();
      e.ended = m.isEnded();
      e.started = m.isStarted();
      if (opt.recordSize) {
        e.size = m.getEventQueueSize();
      }
      Noise.hit(e.kind);
      Runnable g = gate;
      if (g != null && e.fid != -1 && Checker.isProcessing(e)) {
        gate = null;
        g.run();
      }
      if (throwAt > 0 && e.fid != -1 && e.kind < E.EXC && e.s0 % throwAt == 0) {
        throw new IllegalStateException("induced");
      }
      Consumer<E> c1 = each;
      if (c1 != null) {
        c1.accept(e);
      }
      for (Spec.Op op : spec.opsAt(e.fid, e.kind, e.idx)) {
        exec(op, e);
      }
    } finally {
      rec.leave(e);
    }
  }

  private void exec(Spec.Op op, E e) {
    switch (op.k) {
      case Spec.Op.FIRE:
        fire(op.arg);
        break;
      case Spec.Op.STOP: {
        stop();
        observe();
        break;
      }
      case Spec.Op.PAUSE:
        Noise.pause(op.arg);
        break;
      case Spec.Op.RUN:
        op.run.run();
        break;
      case Spec.Op.THROW: {
        Throwable t = throwable(op.arg);
        e.ex = t;
        Throwables.sneak(t);
        break;
      }
      default:
        throw new IllegalArgumentException();
    }
  }

  /** Of some machines it's always the same instance. */
  private Throwable throwable(int kind) {
    if (!sameThrowable) {
      return Throwables.make(kind);
    }
    synchronized (thrown) {
      return thrown.computeIfAbsent(Throwables.isError(kind), k -> Throwables.make(kind));
    }
  }

  private void trans(int kind, int id, State<Object, Object> from, StateEvent<Object> ev,
      State<Object, Object> to) {
    E e = cb(kind, ev, null);
    e.idx = id;
    e.from = name(from);
    e.to = name(to);
    run(e);
    if (opt.spoil && kind == E.END) {
      ev.setPayload("spoilt by a listener");
    }
  }

  private void action(int kind, String state, int idx, StateEvent<Object> ev,
      StateMachine<Object, Object> sm) {
    E e = cb(kind, ev, sm);
    e.to = state;
    e.idx = idx;
    run(e);
  }

  void extra(int kind, String state, int idx, StateEvent<Object> ev,
      StateMachine<Object, Object> sm) {
    action(kind, state, idx, ev, sm);
  }

  void unmapped(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
    run(cb(E.UNM, ev, sm));
    if (opt.spoil) {
      ev.setPayload("spoilt by a handler");
    }
  }

  UnexpectedFlowListener<Object, Object> ufl() {
    return new UnexpectedFlowListener<>() {
      @Override
      public void onExceptionDuringEventProcessing(StateEvent<Object> ev,
          StateMachine<Object, Object> sm, Thread thread, Exception ex) {
        E e = cb(E.EXC, ev, sm);
        e.ex = ex;
        e.exThread = thread;
        unexpected(e);
      }

      @Override
      public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
        unexpected(cb(E.AFTER, ev, sm));
      }

      @Override
      public void onEventBeforeMachineStart(StateEvent<Object> ev,
          StateMachine<Object, Object> sm) {
        unexpected(cb(E.BEFORE, ev, sm));
      }
    };
  }

  private void unexpected(E e) {
    run(e);
    Throwable t = uflThrows.get(e.fid);
    if (t != null && e.kind == E.EXC) {
      Throwables.sneak(t);
    }
  }

  StateEvent<Object> event(Spec.F f) {
    // another instance of the name, too
    NamedStateEvent<Object> ev = new NamedStateEvent<>((f.fid & 1) == 1 ? new String(f.name) : f.name);
    ev.setPayload(f.payload);
    boolean copy = opt.instances == 1 || opt.instances == 2 && (f.fid & 3) == 1;
    return copy ? new NamedStateEvent<>(ev) : ev;
  }

  E fire(int fid) {
    Spec.F f = spec.fires.get(fid);
    if (opt.reuse && opt.around == null && !f.child) {
      // the thread's own instance of that name, fired again and again
      NamedStateEvent<Object> own = reused.get()
          .computeIfAbsent(f.name, n -> new NamedStateEvent<>(n));
      own.setPayload(f.payload);
      return fire(f, own);
    }
    return fire(f, event(f));
  }

  E fire(Spec.F f, StateEvent<Object> ev) {
    if (opt.unrecorded) {
      m.fire(ev);
      return null;
    }
    E e = new E();
    e.kind = E.FIRE;
    e.fid = f.fid;
    e.ev = f.name;
    e.payload = f.payload;
    e.machine = m;
    Noise.hit(E.FIRE);
    rec.enter(e);
    try {
      m.fire(ev);
    } catch (Throwable t) {
      e.ex = t;
    } finally {
      rec.leave(e);
    }
    return e;
  }

  /** Looks at the machine. */
  E observe() {
    E e = new E();
    e.kind = E.OBS;
    e.machine = m;
    rec.enter(e);
    e.started = m.isStarted();
    e.ended = m.isEnded();
    e.cur = name(m.getCurrentState());
    e.size = m.getEventQueueSize();
    rec.leave(e);
    return e;
  }

  /** Calls something and records it. */
  E call(String what, Runnable c) {
    E e = new E();
    e.kind = E.CALL;
    e.note = what;
    e.machine = m;
    rec.enter(e);
    try {
      c.run();
    } catch (RuntimeException | Error t) {
      e.ex = t;
    } finally {
      rec.leave(e);
    }
    return e;
  }

  E stop() {
    return call("stop()", () -> m.stop());
  }

  E start() {
    return call("start()", () -> m.start());
  }

  /**
   * Waits until the injected executor has nothing left to do; all firing threads must be done.
   *
   * @return false if it got stuck
   */
  boolean quiesce() {
    return Run.await(60, () -> exec.idle() || rec.endless()) && !rec.endless();
  }

  void dispose() {
    if (exec != null) {
      exec.shutdownNow();
    }
  }

  static ArrayDeque<E> dequeOf(List<E> l) {
    return new ArrayDeque<>(l);
  }
}
