package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Random;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.LinkedBlockingDeque;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicIntegerArray;
import java.util.function.BiConsumer;

/** Very many events that wait at once; nothing is recorded but what became of each of them. */
final class ChecksBulk {

  private ChecksBulk() {
  }

  /** Around the sizes at which something may change. */
  static int amount(Random r, int max) {
    int[] at = {64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 4096, 8192, 10000, 16384, 32768,
        50000, 65536, 100000};
    int n = 0;
    while (n < at.length && at[n] <= max) {
      n++;
    }
    return Math.max(1, at[r.nextInt(n)] + r.nextInt(7) - 3);
  }

  /** One machine and what happened to the events fired at it; payloads are their numbers. */
  static final class Bulk implements UnexpectedFlowListener<Object, Object>,
      StateMachineListener<Object, Object> {

    final Run run;
    final Random r;
    final MonExecutor exec = new MonExecutor();
    final GenericStateMachine<Object, Object> m;
    final String[] names;
    /** the name of each event */
    final int[] name;
    final Integer[] payload;
    final AtomicIntegerArray processed;
    final AtomicIntegerArray refused;
    final int[] order;
    volatile int count;
    volatile String strange;
    volatile Runnable each;

    Bulk(Run run, int n, int nNames, int max, boolean dropDup) {
      this.run = run;
      r = run.r;
      run.onEnd(exec::shutdownNow);
      names = new String[nNames];
      String prefix = r.nextInt(4) == 0 ? "event with a rather long name " : "e";
      for (int i = 0; i < nNames; i++) {
        names[i] = prefix + i;
      }
      name = new int[n];
      payload = new Integer[n];
      for (int i = 0; i < n; i++) {
        name[i] = nNames == n ? i : r.nextInt(nNames);
        payload[i] = 1000 + i;
      }
      processed = new AtomicIntegerArray(n);
      refused = new AtomicIntegerArray(n);
      order = new int[n];
      Queue<EventMachinePair<Object, Object>> q = null;
      // the size of the default one takes long to find out
      int k = r.nextInt(n > 2500 ? 3 : 5);
      if (k == 0) {
        q = new LinkedBlockingQueue<>();
      } else if (k == 1) {
        q = new ArrayBlockingQueue<>(Math.max(n, 1) + 5);
      } else if (k == 2) {
        q = new LinkedBlockingDeque<>();
      } else if (k == 3) {
        q = new ConcurrentLinkedQueue<>();
      }
      EventProcessingStrategyFactory.Config<Object, Object> c =
          new EventProcessingStrategyFactory.Config<>();
      c.withExecutor(exec).withUnexpectedFlowListener(this)
          .withUnmappedEventHandler((ev, sm) -> done(ev)).withEventQueue(q);
      if (max > 0 || r.nextBoolean()) {
        c.withMaxQueueSize(max);
      }
      m = new GenericStateMachine.Builder<Object, Object>().setStateMachineListener(this)
          .setEventProcessingStrategy(
              dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
                  : EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
      State<Object, Object> a = new NamedState<>("a");
      State<Object, Object> b = new NamedState<>("b");
      StateMachine<Object, Object> sm = m.initialSate(a);
      boolean first = true;
      for (int i = 0; i < nNames; i++) {
        int how = r.nextInt(3);
        for (State<Object, Object> s : List.of(a, b)) {
          if (how > 0) {
            if (!first) {
              sm = sm.when(s);
            }
            first = false;
            sm = sm.receives(new NamedStateEvent<>(names[i]));
            sm = how == 1 ? sm.itDoesNotTransition() : sm.itTransitionsTo(i % 2 == 0 ? a : b);
          }
        }
      }
      if (first) {
        sm.receives(new NamedStateEvent<>("never fired")).itTransitionsTo(b);
      }
      if (!r.nextBoolean()) {
        m.startInState(a);
      } else {
        m.start();
      }
    }

    void fire(int i) {
      NamedStateEvent<Object> ev = new NamedStateEvent<>(names[name[i]]);
      ev.setPayload(payload[i]);
      Run.tick();
      m.fire(ev);
    }

    private int index(StateEvent<Object> ev) {
      int i = ev.getPayload() instanceof Integer ? (Integer) ev.getPayload() - 1000 : -1;
      if (i < 0 || i >= payload.length || payload[i] != ev.getPayload()
          || !names[name[i]].equals(ev.getName())) {
        strange = ev + " with payload " + ev.getPayload();
        return -1;
      }
      return i;
    }

    private void done(StateEvent<Object> ev) {
      int i = index(ev);
      if (i >= 0) {
        Run.tick();
        processed.incrementAndGet(i);
        if (count < order.length) {
          order[count] = i;
        }
        count++;
        if (each != null) {
          each.run();
        }
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> from, StateEvent<Object> event,
        State<Object, Object> to) {
      // the end is enough
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> from, StateEvent<Object> event,
        State<Object, Object> to) {
      if (!GenericStateMachine.RESERVED_STATE_EVENT_NAME_IMMEDIATE.equals(event.getName())) {
        done(event);
      }
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> ev,
        StateMachine<Object, Object> sm, Thread thread, Exception e) {
      int i = index(ev);
      if (i >= 0) {
        refused.incrementAndGet(i);
      }
      if (!(e instanceof IllegalStateException) || thread != Thread.currentThread()) {
        strange = ev + " reported with " + e + " for " + thread;
      }
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      strange = ev + " reported as late";
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> ev, StateMachine<Object, Object> sm) {
      strange = ev + " reported as early";
    }

    boolean settle() throws InterruptedException {
      if (Run.await(120, () -> exec.idle())) {
        return true;
      }
      for (Thread t : exec.threads) {
        String b = t.isAlive() ? Run.blockedInLibrary(t, 4) : null;
        if (b != null) {
          run.violate(Scn.STALL, "the processing thread is stuck: " + b);
          return false;
        }
      }
      run.inconclusive = "processing did not finish";
      return false;
    }

    /** Each event is accounted for exactly once, except those that were dropped. */
    boolean once(String tag, int accepted, String what) {
      for (int i = 0; i < name.length; i++) {
        int want = i < accepted ? 1 : 0;
        if (processed.get(i) != want || refused.get(i) != 1 - want) {
          run.violate(tag, "event " + i + " of " + name.length + " was processed "
              + processed.get(i) + " times and refused " + refused.get(i) + " times, " + what, null);
          return false;
        }
      }
      if (strange != null) {
        run.violate(tag, strange + ", " + what, null);
        return false;
      }
      return true;
    }

    void cover(int... more) {
      run.sig(Arrays.hashCode(name));
      run.sig(names[0].length());
      run.sig(Arrays.hashCode(more));
      run.events += name.length;
      run.engine.count("events waiting at once", name.length);
    }
  }

  /** C03: firing does not wait for the processing, however much is waiting already. */
  static void backlog(Run run) throws Exception {
    int n = amount(run.r, 100000);
    Bulk b = new Bulk(run, n, 1 + run.r.nextInt(5), -1, false);
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    b.each = () -> {
      if (in.getCount() > 0) {
        in.countDown();
        try {
          free.await(100, TimeUnit.SECONDS);
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
      }
    };
    run.onEnd(free::countDown);
    b.fire(0);
    if (!in.await(20, TimeUnit.SECONDS)) {
      run.inconclusive = "the gate was not reached";
      return;
    }
    Run.Threads ts = run.threads();
    int nThreads = 1 + run.r.nextInt(3);
    for (int t = 0; t < nThreads; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = 1 + from; i < n; i += nThreads) {
          b.fire(i);
        }
      });
    }
    ts.start();
    for (int i = 0; i < 6 && !Run.await(10, () -> ts.all.stream().noneMatch(Thread::isAlive)); i++) {
      for (Thread t : ts.all) {
        String at = Run.blockedInLibrary(t, 3);
        if (at != null) {
          run.violate("WAIT", "fire() waits for the processing of an event while "
              + b.m.getEventQueueSize() + " are waiting: " + at, null);
          return;
        }
      }
    }
    if (ts.all.stream().anyMatch(Thread::isAlive)) {
      run.inconclusive = "firing threads did not finish";
      return;
    }
    free.countDown();
    if (b.settle()) {
      b.cover(nThreads);
      run.engine.count("fires while processing was blocked", n);
    }
  }

  /** C04: nothing is lost or processed twice, however much is waiting. */
  static void lost(Run run) throws Exception {
    int n = amount(run.r, 100000);
    Bulk b = new Bulk(run, n, 1 + run.r.nextInt(5), -1, false);
    if (waiting(b, n)) {
      b.once(Checker.CONS, n, "all were waiting at once");
      b.cover();
    }
  }

  /** C04: an event that is fired twice is processed twice, also if nothing tells one from the other. */
  static void repeated(Run run) throws Exception {
    Random r = run.r;
    int nNames = 1 + r.nextInt(4);
    int n = amount(r, 2000);
    Object[] payloads = new Object[1 + r.nextInt(3)];
    for (int i = 0; i < payloads.length; i++) {
      payloads[i] = r.nextInt(3) == 0 ? null : Payloads.make(r.nextInt(Payloads.KINDS), i);
    }
    boolean one = r.nextBoolean();
    MonExecutor exec = new MonExecutor();
    run.onEnd(exec::shutdownNow);
    int[] seen = new int[nNames];
    int[] fired = new int[nNames];
    Map<String, Integer> index = new HashMap<>();
    List<String> names = Names.make(r, nNames, r.nextInt(4), "e");
    NamedState<Object, Object> a = new NamedState<>("a");
    NamedState<Object, Object> b = new NamedState<>("b");
    EventProcessingStrategyFactory.Config<Object, Object> c =
        new EventProcessingStrategyFactory.Config<>();
    c.withExecutor(exec).withUnmappedEventHandler((ev, sm) -> seen[index.get(ev.getName())]++);
    StateMachineListener<Object, Object> l = new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        // the end is enough
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> from, StateEvent<Object> event,
          State<Object, Object> to) {
        seen[index.get(event.getName())]++;
      }
    };
    GenericStateMachine<Object, Object> g = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(c))
        .setStateMachineListener(l).build();
    StateMachine<Object, Object> sm = g.initialSate(a).receives(new NamedStateEvent<>("other"))
        .itTransitionsTo(b);
    for (int i = 0; i < nNames; i++) {
      index.put(names.get(i), i);
      int how = r.nextInt(3);
      for (NamedState<Object, Object> s : List.of(a, b)) {
        if (how > 0) {
          sm = sm.when(s).receives(new NamedStateEvent<>(names.get(i)));
          sm = how == 1 ? sm.itDoesNotTransition() : sm.itTransitionsTo(s);
        }
      }
    }
    g.startInState(a);
    List<NamedStateEvent<Object>> evs = new ArrayList<>();
    for (String x : names) {
      evs.add(new NamedStateEvent<>(x));
    }
    int burst = r.nextBoolean() ? n : 1 + r.nextInt(20);
    int[] order = new int[n];
    for (int i = 0; i < n; i++) {
      order[i] = i > 0 && r.nextInt(3) > 0 ? order[i - 1] : r.nextInt(nNames);
    }
    for (int i = 0; i < n;) {
      CountDownLatch free = exec.hold();
      for (int k = 0; k < burst && i < n; k++, i++) {
        NamedStateEvent<Object> ev = one ? evs.get(order[i])
            : new NamedStateEvent<>(names.get(order[i]));
        ev.setPayload(payloads[r.nextInt(payloads.length)]);
        fired[order[i]]++;
        g.fire(ev);
      }
      free.countDown();
      if (!Run.await(60, exec::idle)) {
        run.inconclusive = "processing did not finish";
        return;
      }
    }
    if (!Arrays.equals(fired, seen)) {
      run.violate(Checker.CONS, "events of the names " + names + ", with " + payloads.length
          + " different payloads, were fired " + Arrays.toString(fired) + " and processed "
          + Arrays.toString(seen) + " times", null);
    }
    run.sig(Arrays.hashCode(order));
    run.sig(burst);
    run.events += n;
    run.engine.count("events that repeat", n);
  }

  /** C05: nor does the order change. */
  static void order(Run run) throws Exception {
    int n = amount(run.r, 100000);
    int rounds = run.r.nextInt(3) == 0 ? 1 : 2 + run.r.nextInt(3);
    if (rounds > 1) {
      n = Math.max(n, 64 * rounds + run.r.nextInt(1000));
    }
    Bulk b = new Bulk(run, n, 1 + run.r.nextInt(5), -1, false);
    // in several bursts, of which each waits until the one before was processed
    for (int i = 0; i < rounds; i++) {
      CountDownLatch free = b.exec.hold();
      for (int j = (int) ((long) n * i / rounds); j < (long) n * (i + 1) / rounds; j++) {
        b.fire(j);
      }
      free.countDown();
      if (!b.settle()) {
        return;
      }
    }
    int prev = -1;
    for (int i = 0; i < Math.min(n, b.count); i++) {
      if (b.order[i] < prev) {
        run.violate(Checker.ORDER, "event " + b.order[i] + " was processed after event " + prev
            + " although it was fired before it and " + n + " were waiting", null);
        return;
      }
      prev = b.order[i];
    }
    b.cover();
  }

  private static boolean waiting(Bulk b, int n) throws Exception {
    CountDownLatch free = b.exec.hold();
    for (int i = 0; i < n; i++) {
      b.fire(i);
    }
    free.countDown();
    return b.settle();
  }

  /** C11: the maximum is exactly what was configured, also if it is large. */
  static void largeMaximum(Run run) throws Exception {
    Random r = run.r;
    int max = amount(r, r.nextInt(3) == 0 ? 100000 : 2000);
    int n = max + 1 + r.nextInt(20);
    int accepted = max;
    if (r.nextInt(4) == 0) {
      n = 1 + r.nextInt(5000);
      accepted = n;
      max = r.nextBoolean() ? Integer.MAX_VALUE : Integer.MAX_VALUE - r.nextInt(1000);
    }
    boolean dropDup = n <= 2100 && r.nextInt(4) == 0;
    Bulk b = new Bulk(run, n, dropDup ? n : 1 + r.nextInt(5), max, dropDup);
    if (waiting(b, n)) {
      b.once(Checker.REFUSE, accepted, "the maximum is " + max);
      b.cover(max);
    }
  }

  /** C12: exactly one of each name survives, however many names are waiting. */
  static void manyNames(Run run) throws Exception {
    Random r = run.r;
    int n = amount(r, 2000);
    int nNames = r.nextInt(3) == 0 ? n : 1 + r.nextInt(n);
    Bulk b = new Bulk(run, n, nNames, r.nextInt(4) == 0 ? n + 10 : -1, true);
    if (!waiting(b, n)) {
      return;
    }
    boolean[] seen = new boolean[nNames];
    List<Integer> want = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      if (!seen[b.name[i]]) {
        seen[b.name[i]] = true;
        want.add(i);
      }
    }
    List<Integer> got = new ArrayList<>();
    for (int i = 0; i < Math.min(n, b.count); i++) {
      got.add(b.order[i]);
    }
    if (b.strange != null) {
      run.violate("DUP", b.strange, null);
    }
    for (int i = 0; i < n; i++) {
      if (b.refused.get(i) != 0) {
        run.violate("DUP", "dropping was reported as an error: event " + i + " of " + n, null);
        return;
      }
    }
    if (!got.equals(want)) {
      int i = 0;
      while (i < Math.min(got.size(), want.size()) && got.get(i).equals(want.get(i))) {
        i++;
      }
      run.violate("DUP", "with " + want.size() + " different events waiting, " + got.size()
          + " were processed, and number " + i + " was event " + (i < got.size() ? got.get(i) : "none")
          + " instead of " + (i < want.size() ? want.get(i) : "none"), null);
    }
    b.cover(nNames);
  }

  /** C12: what was dropped or refused before does not matter, only what is waiting does. */
  static void roomAgain(Run run) throws Exception {
    Random r = run.r;
    int max = r.nextInt(3) == 0 ? -1 : 1 + r.nextInt(r.nextInt(4) == 0 ? 40 : 6);
    int nNames = 1 + r.nextInt(2 * Math.max(max, 3));
    int rounds = 2 + r.nextInt(5);
    int burst = 1 + r.nextInt(4 * nNames);
    Bulk b = new Bulk(run, rounds * burst, Math.min(nNames, rounds * burst), max, true);
    int at = 0;
    for (int k = 0; k < rounds; k++) {
      boolean[] waits = new boolean[b.names.length];
      List<Integer> want = new ArrayList<>();
      List<Integer> wantRefused = new ArrayList<>();
      int was = b.count;
      CountDownLatch free = b.exec.hold();
      int end = at + 1 + r.nextInt(burst);
      for (int i = at; i < end; i++) {
        if (!waits[b.name[i]]) {
          if (max < 0 || want.size() < max) {
            want.add(i);
            waits[b.name[i]] = true;
          } else {
            wantRefused.add(i);
          }
        }
        b.fire(i);
      }
      free.countDown();
      if (!b.settle()) {
        return;
      }
      List<Integer> got = new ArrayList<>();
      for (int i = was; i < b.count; i++) {
        got.add(b.order[i]);
      }
      List<Integer> refused = new ArrayList<>();
      for (int i = at; i < end; i++) {
        for (int j = b.refused.get(i); j > 0; j--) {
          refused.add(i);
        }
      }
      if (b.strange != null || !got.equals(want) || !refused.equals(wantRefused)) {
        StringBuilder sb = new StringBuilder();
        for (int i = at; i < end; i++) {
          sb.append(' ').append(i).append(':').append(b.names[b.name[i]]);
        }
        run.violate("DUP", b.strange != null ? b.strange : "round " + k + ": of" + sb
            + " that were fired while nothing was processed and the maximum was " + max + ", "
            + got + " were processed and " + refused + " refused instead of " + want + " and "
            + wantRefused, null);
        return;
      }
      at = end;
    }
    b.cover(nNames);
  }

  /** C12: an event in progress is not waiting, each callback can fire the event again. */
  static void chain(Run run) throws Exception {
    Random r = run.r;
    int n = 1 + r.nextInt(r.nextInt(8) == 0 ? 2000 : 30);
    int at = r.nextInt(5);
    int times = 1 + r.nextInt(3);
    boolean payloads = r.nextBoolean();
    boolean same = r.nextInt(3) == 0;
    String name = Names.one(r, r.nextInt(100), r.nextInt(3), "e");
    MonExecutor exec = new MonExecutor();
    run.onEnd(exec::shutdownNow);
    int[] count = {0};
    ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    @SuppressWarnings("unchecked")
    StateMachine<Object, Object>[] m = new StateMachine[1];
    NamedStateEvent<Object> one = new NamedStateEvent<>(name);
    Runnable fire = () -> {
      for (int i = 0; i < times; i++) {
        NamedStateEvent<Object> ev = same ? one : new NamedStateEvent<>(name);
        ev.setPayload(payloads ? "payload " + count[0] + (i == 0 ? "" : " dropped") : null);
        m[0].fire(ev);
      }
    };
    BiConsumer<Integer, StateEvent<Object>> step = (k, ev) -> {
      if (k != at || !name.equals(ev.getName())) {
        return;
      }
      if (!(payloads ? ("payload " + count[0]).equals(ev.getPayload()) : ev.getPayload() == null)) {
        bad.add(ev.getPayload() + " at step " + count[0]);
      }
      count[0]++;
      if (count[0] < n) {
        fire.run();
      }
    };
    EventProcessingStrategyFactory.Config<Object, Object> c =
        new EventProcessingStrategyFactory.Config<>();
    c.withExecutor(exec).withUnmappedEventHandler((ev, sm) -> step.accept(4, ev))
        .withUnexpectedFlowListener(new UnexpectedFlowListener<>() {
          @Override
          public void onExceptionDuringEventProcessing(StateEvent<Object> ev,
              StateMachine<Object, Object> sm, Thread thread, Exception e) {
            bad.add(ev + " reported with " + e);
          }

          @Override
          public void onEventAfterMachineEnd(StateEvent<Object> ev,
              StateMachine<Object, Object> sm) {
            bad.add(ev + " reported as late");
          }

          @Override
          public void onEventBeforeMachineStart(StateEvent<Object> ev,
              StateMachine<Object, Object> sm) {
            bad.add(ev + " reported as early");
          }
        });
    NamedState<Object, Object> a = new NamedState<>("a");
    NamedState<Object, Object> b = r.nextInt(3) == 0 ? a : new NamedState<>("b");
    for (NamedState<Object, Object> s : a == b ? List.of(a) : List.of(a, b)) {
      s.appendEntryActions((ev, sm) -> step.accept(0, ev));
      s.appendExitActions((ev, sm) -> step.accept(1, ev));
    }
    GenericStateMachine<Object, Object> g = new GenericStateMachine.Builder<Object, Object>()
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDropDuplicateStrategy(c))
        .setStateMachineListener(new StateMachineListener<>() {
          @Override
          public void onStateChangeBegin(State<Object, Object> from, StateEvent<Object> event,
              State<Object, Object> to) {
            step.accept(2, event);
          }

          @Override
          public void onStateChangeEnd(State<Object, Object> from, StateEvent<Object> event,
              State<Object, Object> to) {
            step.accept(3, event);
          }
        }).build();
    m[0] = g;
    String mapped = at == 4 ? name + "x" : name;
    StateMachine<Object, Object> sm = g.initialSate(a).receives(new NamedStateEvent<>(mapped))
        .itTransitionsTo(b);
    if (a != b) {
      sm.when(b).receives(new NamedStateEvent<>(mapped)).itTransitionsTo(a);
    }
    g.start();
    CountDownLatch free = exec.hold();
    fire.run();
    free.countDown();
    if (!Run.await(60, exec::idle)) {
      run.inconclusive = "processing did not finish";
      return;
    }
    if (!bad.isEmpty()) {
      run.violate("DUP", bad.peek(), null);
    } else if (count[0] != n) {
      run.violate("DUP", "an event that fires itself (" + times + " times, with"
          + (payloads ? "" : "out") + " payloads) from its callbacks while nothing else waits was"
          + " processed " + count[0] + " instead of " + n + " times", null);
    }
    run.sig(n * 100L + at * 10 + times);
    run.sig(name.hashCode());
    run.events += n;
    run.engine.count("events that fired themselves", n);
  }

  /** C14: the size is the number of events, however many there are. */
  static void largeSize(Run run) throws Exception {
    Random r = run.r;
    int n = amount(r, 100000);
    boolean bounded = n > 100 && r.nextInt(4) == 0;
    int max = bounded ? n - r.nextInt(n / 2) : -1;
    Bulk b = new Bulk(run, n, 1 + r.nextInt(5), max, false);
    int step = 1 + r.nextInt(Math.max(1, n / 50));
    CountDownLatch free = b.exec.hold();
    for (int i = 0; i < n; i++) {
      b.fire(i);
      if (i % step == 0 || i == n - 1) {
        size(b, Math.min(i + 1, bounded ? max : n), "after " + (i + 1) + " events were fired");
      }
    }
    int accepted = bounded ? max : n;
    b.each = () -> {
      if (b.count % step == 0) {
        // this one is still in progress
        size(b, accepted - b.count + 1, "in the callback of event " + b.count + " of " + accepted);
      }
    };
    free.countDown();
    if (!b.settle()) {
      return;
    }
    size(b, 0, "after all " + accepted + " events");
    b.cover(max);
  }

  private static void size(Bulk b, int want, String when) {
    int got = b.m.getEventQueueSize();
    b.run.engine.count("sizes compared exactly", 1);
    if (got != want) {
      b.run.violate(Checker.SIZE, "the queue size is " + got + " instead of " + want + " " + when,
          null);
    }
  }
}
