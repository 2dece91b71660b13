package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.function.Supplier;

/** C15: configuration calls. */
final class ChecksApi {

  static final String RULE = "RULE";
  private static final String[] RESERVED = {"_END_", "_UNINITIALISED_", "_NOOP_"};
  private static final String IMMEDIATE = "_immediate_";
  private static final int INIT = 0;
  private static final int WHEN = 1;
  private static final int RECEIVES = 2;
  private static final int ENDS = 3;
  private static final int TO = 4;
  private static final int NOT = 5;
  private static final String[] OPS = {"initialSate", "when", "receives", "itEnds",
      "itTransitionsTo", "itDoesNotTransition"};
  private static final String OUT_END = "\u0000end";
  private static final String OUT_NOOP = "\u0000noop";
  private static final String OUT_PENDING = "\u0000pending";

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C15", ChecksApi::c15);
  }

  private static final class Call {

    final int op;
    final String arg;

    Call(int op, String arg) {
      this.op = op;
      this.arg = arg;
    }

    @Override
    public String toString() {
      return OPS[op] + "(" + (arg == null ? "" : E.q(arg)) + ")";
    }
  }

  /** What the rules say. */
  private static final class Model {

    String init;
    String state;
    String event;
    final Map<String, Map<String, String>> map = new LinkedHashMap<>();
    final java.util.Set<String> ends = new java.util.LinkedHashSet<>();

    private static boolean reserved(String s) {
      return List.of(RESERVED).contains(s);
    }

    /** @return false if it has to be rejected, which changes nothing */
    boolean apply(Call c) {
      switch (c.op) {
        case INIT:
          if (reserved(c.arg) || init != null) {
            return false;
          }
          init = c.arg;
          state = c.arg;
          map.put(c.arg, new LinkedHashMap<>());
          return true;
        case WHEN:
          if (reserved(c.arg) || init == null || state != null) {
            return false;
          }
          state = c.arg;
          map.putIfAbsent(c.arg, new LinkedHashMap<>());
          return true;
        case RECEIVES:
          if (IMMEDIATE.equals(c.arg) || state == null) {
            return false;
          }
          event = c.arg;
          map.get(state).putIfAbsent(event, OUT_PENDING);
          return true;
        case ENDS:
          if (state == null) {
            return false;
          }
          if (event == null) {
            if (!map.get(state).isEmpty() || ends.contains(state)) {
              return false;
            }
            ends.add(state);
            state = null;
            return true;
          }
          return outcome(OUT_END);
        case TO:
          return !reserved(c.arg) && outcome(c.arg);
        default:
          return outcome(OUT_NOOP);
      }
    }

    private boolean outcome(String o) {
      if (state == null || event == null || !OUT_PENDING.equals(map.get(state).get(event))) {
        return false;
      }
      map.get(state).put(event, o);
      state = null;
      event = null;
      return true;
    }

    boolean startable() {
      return init != null && map.values().stream().noneMatch(m -> m.containsValue(OUT_PENDING));
    }
  }

  /** A machine with what it tells about itself. */
  private static final class Sut {

    final GenericStateMachine<Object, Object> m;
    StateMachine<Object, Object> next;
    final List<String> seen = java.util.Collections.synchronizedList(new ArrayList<>());
    final Map<String, NamedState<Object, Object>> instances = new LinkedHashMap<>();
    final Random r;

    Sut(MonExecutor exec, Random r) {
      this.r = r;
      m = new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(
          EventProcessingStrategyFactory.createDefaultStrategy(
              new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(exec)
                  .withUnmappedEventHandler((e, s) -> seen.add("unmapped " + e.getName()))
                  .withUnexpectedFlowListener(new UnexpectedFlowListener<>() {
                    @Override
                    public void onExceptionDuringEventProcessing(StateEvent<Object> e,
                        StateMachine<Object, Object> s, Thread t, Exception x) {
                      seen.add("exception " + Engine.stack(x));
                    }

                    @Override
                    public void onEventAfterMachineEnd(StateEvent<Object> e,
                        StateMachine<Object, Object> s) {
                      seen.add("after");
                    }

                    @Override
                    public void onEventBeforeMachineStart(StateEvent<Object> e,
                        StateMachine<Object, Object> s) {
                      seen.add("before");
                    }
                  }))).setStateMachineListener(new StateMachineListener<>() {
                    @Override
                    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
                        State<Object, Object> t) {
                      seen.add("begin " + f.getName() + " " + e.getName() + " " + t.getName());
                    }

                    @Override
                    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
                        State<Object, Object> t) {
                      seen.add("end " + f.getName() + " " + e.getName() + " " + t.getName());
                    }
                  }).build();
      next = m;
    }

    NamedState<Object, Object> state(String n) {
      return r.nextBoolean() ? new NamedState<>(new String(n))
          : instances.computeIfAbsent(n, NamedState::new);
    }

    /** @return what was thrown, or null */
    Throwable apply(Call c) {
      try {
        StateMachine<Object, Object> sm = r.nextBoolean() ? m : next;
        switch (c.op) {
          case INIT:
            next = sm.initialSate(state(c.arg));
            break;
          case WHEN:
            next = sm.when(state(c.arg));
            break;
          case RECEIVES:
            next = sm.receives(new NamedStateEvent<>(new String(c.arg)));
            break;
          case ENDS:
            next = sm.itEnds();
            break;
          case TO:
            next = sm.itTransitionsTo(state(c.arg));
            break;
          default:
            next = sm.itDoesNotTransition();
        }
        return null;
      } catch (Throwable t) {
        return t;
      }
    }
  }

  static Check c15() {
    Check c = new Check("C15", "random sequences of configuration calls, about a third of them against "
        + "the rules; each call has to be accepted or rejected as the rules say, then machines that "
        + "were configured with the same calls are started in each of their states and have to react "
        + "to each event as the accepted calls say; a case is non-trivial if at least one call was "
        + "made; cases are distinct if their call sequences are", RULE);
    c.plain("call sequences", 1, ChecksApi::sequence);
    return c;
  }

  private static String pick(Random r, List<String> l) {
    return l.get(r.nextInt(l.size()));
  }

  private static Call random(Random r, List<String> states, List<String> events) {
    int op = r.nextInt(8);
    op = op >= 6 ? RECEIVES + r.nextInt(2) * (TO - RECEIVES) : op;
    switch (op) {
      case INIT:
      case WHEN:
      case TO:
        return new Call(op, r.nextInt(10) == 0 ? RESERVED[r.nextInt(3)] : pick(r, states));
      case RECEIVES:
        return new Call(op, r.nextInt(10) == 0 ? IMMEDIATE : pick(r, events));
      default:
        return new Call(op, null);
    }
  }

  /** A call that the rules allow at this point. */
  private static Call valid(Random r, Model m, List<String> states, List<String> events) {
    if (m.init == null) {
      return new Call(INIT, pick(r, states));
    }
    if (m.state == null) {
      return new Call(WHEN, pick(r, states));
    }
    if (m.event == null) {
      if (m.map.get(m.state).isEmpty() && !m.ends.contains(m.state) && r.nextInt(8) == 0) {
        return new Call(ENDS, null);
      }
      return new Call(RECEIVES, pick(r, events));
    }
    if (!OUT_PENDING.equals(m.map.get(m.state).get(m.event))) {
      return new Call(RECEIVES, pick(r, events));
    }
    int k = r.nextInt(8);
    return k == 0 ? new Call(ENDS, null) : k == 1 ? new Call(NOT, null)
        : new Call(TO, pick(r, states));
  }

  private static void sequence(Run run) throws Exception {
    Random r = run.r;
    List<String> states = new ArrayList<>(Names.make(r, 1 + r.nextInt(5), r.nextInt(3) == 0 ? 1
        + r.nextInt(3) : 0, "s"));
    List<String> events = new ArrayList<>(Names.make(r, 1 + r.nextInt(4), r.nextInt(3) == 0 ? 1
        + r.nextInt(3) : 0, "e"));
    if (r.nextInt(10) == 0) {
      // only reserved for the other kind
      states.add(IMMEDIATE);
      events.add("_END_");
      events.add("_NOOP_");
    }
    MonExecutor exec = new MonExecutor();
    run.onEnd(exec::shutdownNow);
    Model model = new Model();
    Sut sut = new Sut(exec, r);
    List<Call> calls = new ArrayList<>();
    int n = 1 + r.nextInt(r.nextInt(5) == 0 ? 120 : 40);
    int pctWild = r.nextInt(3) == 0 ? 70 : 30;
    for (int i = 0; i < n; i++) {
      Call c = r.nextInt(100) < pctWild ? random(r, states, events)
          : valid(r, model, states, events);
      if (!apply(run, sut, model, calls, c)) {
        return;
      }
      if (r.nextInt(20) == 0 && !model.startable() && !refused(run, sut, calls)) {
        return;
      }
    }
    // the pending mappings have to be completed before it can be started
    if (!model.startable() && !refused(run, sut, calls)) {
      return;
    }
    for (int i = 0; i < 400 && !model.startable(); i++) {
      Call c = valid(r, model, states, events);
      for (Map.Entry<String, Map<String, String>> e : model.map.entrySet()) {
        if (model.event == null && e.getValue().containsValue(OUT_PENDING)) {
          if (model.state == null) {
            c = new Call(WHEN, e.getKey());
          } else if (model.state.equals(e.getKey())) {
            for (Map.Entry<String, String> x : e.getValue().entrySet()) {
              if (x.getValue().equals(OUT_PENDING)) {
                c = new Call(RECEIVES, x.getKey());
              }
            }
          }
        }
      }
      if (!apply(run, sut, model, calls, c)) {
        return;
      }
    }
    run.events += calls.size();
    for (Call c : calls) {
      run.sig(c.op);
      run.sig(c.arg == null ? 3 : c.arg.hashCode());
    }
    if (run.sample == null) {
      run.sample = calls.subList(0, Math.min(12, calls.size())).toString();
    }
    if (!model.startable()) {
      return;
    }
    // in the initial state
    try {
      sut.m.start();
    } catch (RuntimeException e) {
      run.violate(RULE, "start() is refused after " + calls + ": " + Engine.stack(e));
      return;
    }
    boolean ends = model.ends.contains(model.init);
    if (sut.m.isEnded() != ends) {
      run.violate(RULE, "ended is " + sut.m.isEnded() + " after start() after " + calls);
      return;
    }
    if (!walk(run, exec, sut, model, calls, ends ? null : model.init, events)) {
      return;
    }
    // and in all others
    for (String s : model.map.keySet()) {
      if (model.ends.contains(s)) {
        continue;
      }
      Sut o = new Sut(exec, r);
      for (Call c : calls) {
        o.apply(c);
      }
      try {
        o.m.startInState(o.state(s));
      } catch (RuntimeException e) {
        run.violate(RULE, "startInState(" + E.q(s) + ") is refused after " + calls + ": "
            + Engine.stack(e));
        return;
      }
      if (!walk(run, exec, o, model, calls, s, events)) {
        return;
      }
    }
  }

  private static boolean apply(Run run, Sut sut, Model model, List<Call> calls, Call c) {
    calls.add(c);
    boolean ok = model.apply(c);
    Throwable t = sut.apply(c);
    run.engine.count(ok ? "accepted calls" : "rejected calls", 1);
    if (ok && t != null) {
      run.violate(RULE, "rejected although the rules allow it: the last of " + calls + ": "
          + Engine.stack(t));
      return false;
    }
    if (!ok && !(t instanceof IllegalStateException)) {
      run.violate(RULE, (t == null ? "accepted" : t.toString())
          + " although it is against the rules: the last of " + calls);
      return false;
    }
    if (sut.next != sut.m) {
      run.violate(RULE, "the returned machine is another one: " + calls);
      return false;
    }
    return true;
  }

  private static boolean refused(Run run, Sut sut, List<Call> calls) {
    try {
      sut.m.start();
    } catch (IllegalStateException e) {
      if (!sut.m.isStarted() && !sut.m.isEnded() && sut.m.getCurrentState() == null) {
        return true;
      }
    }
    run.violate(RULE, "start() of an incomplete machine was not refused after " + calls + ", "
        + sut.m);
    return false;
  }

  private static boolean walk(Run run, MonExecutor exec, Sut sut, Model model, List<Call> calls,
      String state, List<String> events) {
    for (int i = 0; i < 12 && state != null; i++) {
      String e = pick(run.r, events);
      if (run.r.nextInt(10) == 0) {
        e = "other";
      }
      String o = model.map.get(state).get(e);
      sut.seen.clear();
      sut.m.fire(new NamedStateEvent<>(new String(e)));
      if (!Run.await(30, exec::idle)) {
        run.inconclusive = "processing did not finish";
        return false;
      }
      List<String> want;
      String next = state;
      boolean ended = false;
      String to = null;
      if (o == null) {
        want = List.of("unmapped " + e);
      } else {
        to = o.equals(OUT_END) ? "_END_" : o.equals(OUT_NOOP) ? "_NOOP_" : o;
        want = List.of("begin " + state + " " + e + " " + to, "end " + state + " " + e + " " + to);
        if (o.equals(OUT_END)) {
          ended = true;
          next = null;
        } else if (!o.equals(OUT_NOOP)) {
          next = o;
          if (model.ends.contains(o)) {
            ended = true;
            next = null;
          }
        }
      }
      run.engine.count("events", 1);
      boolean unconfigured = next != null && !model.map.containsKey(next);
      String cur = sut.m.getCurrentState().getName();
      if (!sut.seen.equals(want) || !unconfigured && (sut.m.isEnded() != ended
          || !cur.equals(ended ? "_END_" : next))) {
        run.violate(RULE, "event " + E.q(e) + " in state " + E.q(state) + " led to " + sut.seen
            + ", state " + E.q(cur) + (sut.m.isEnded() ? ", ended" : "") + " instead of " + want
            + " after " + calls);
        return false;
      }
      if (unconfigured) {
        return true;
      }
      state = next;
    }
    return true;
  }
}
