package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.DefaultUnexpectedFlowListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;
import org.apache.logging.log4j.Level;

/** C23: the logging listener and the handlers that log. */
final class ChecksLog {

  static final String LOG = "LOG";
  private static final AtomicInteger ids = new AtomicInteger();

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C23", ChecksLog::c23);
  }

  static Check c23() {
    Check c = new Check("C23", "notifications with plain and awkward names, directly, through machines and "
        + "from several threads; the layout of a line is learned from unmistakable names and every other "
        + "line has to be exactly that layout with its own names; unmapped, early, late, refused and "
        + "failing events with the built-in handlers; a case is non-trivial if lines were written; cases "
        + "are distinct if their names or their number of lines differ", LOG);
    c.plain("direct", 30, ChecksLog::direct);
    c.noisy("threads", 15, ChecksLog::threads);
    c.noisy("machine", 30, ChecksLog::machine);
    c.noisy("handlers", 25, ChecksLog::handlers);
    return c;
  }

  // ---------------------------------------------------------------------------------- layouts

  /** How a line is made of names: literals around the slots N, F, E and T. */
  private static final class Layout {

    final List<String> parts = new ArrayList<>();
    final boolean begin;
    final boolean named;

    Layout(boolean begin, boolean named) {
      this.begin = begin;
      this.named = named;
    }

    private static final String[] SLOTS = {"<NAME>", "<FROM>", "<EVENT>", "<TO>"};

    /** @return what is wrong with the layout, or null */
    String learn(String text) {
      int[] at = new int[4];
      for (int i = 0; i < 4; i++) {
        at[i] = text.indexOf(SLOTS[i]);
        boolean want = i == 0 ? named : i == 3 || begin;
        if (want && at[i] < 0) {
          return "does not have " + SLOTS[i];
        }
        if (i == 0 && !want && at[i] >= 0) {
          return "has a name";
        }
        if (at[i] >= 0 && text.indexOf(SLOTS[i], at[i] + 1) >= 0) {
          return "has " + SLOTS[i] + " twice";
        }
      }
      for (int i = 1; named && i < 4; i++) {
        if (at[i] >= 0 && at[i] < at[0]) {
          return "is not prefixed with the name";
        }
      }
      int pos = 0;
      while (pos < text.length()) {
        int next = text.length();
        int slot = -1;
        for (int i = 0; i < 4; i++) {
          if (at[i] >= pos && at[i] < next) {
            next = at[i];
            slot = i;
          }
        }
        parts.add(text.substring(pos, next));
        if (slot < 0) {
          break;
        }
        parts.add(SLOTS[slot]);
        pos = next + SLOTS[slot].length();
      }
      return null;
    }

    String make(String name, String from, String event, String to) {
      StringBuilder sb = new StringBuilder();
      for (String p : parts) {
        sb.append(p.equals(SLOTS[0]) ? name : p.equals(SLOTS[1]) ? from : p.equals(SLOTS[2]) ? event
            : p.equals(SLOTS[3]) ? to : p);
      }
      return sb.toString();
    }
  }

  private static State<Object, Object> state(String n) {
    return new NamedState<>(n);
  }

  /** A state of the program's own. */
  private static final class OwnState implements State<Object, Object> {

    private final String name;

    OwnState(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
      // nothing to do
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
      // nothing to do
    }

    @Override
    @SafeVarargs
    public final void appendEntryActions(StateAction<Object, Object>... a) {
      // none
    }

    @Override
    @SafeVarargs
    public final void appendExitActions(StateAction<Object, Object>... a) {
      // none
    }

    @Override
    public String toString() {
      throw new IllegalStateException("induced");
    }
  }

  /** [begin, end] of unnamed and [begin, end] of named listeners. */
  private static Layout[] layouts(Run run) {
    Layout[] l = new Layout[4];
    for (int i = 0; i < 4; i++) {
      boolean begin = i % 2 == 0;
      boolean named = i >= 2;
      Logs.start();
      StateMachineListener<Object, Object> lis = named ? new LoggingStateMachineListener<>("<NAME>")
          : new LoggingStateMachineListener<>();
      if (begin) {
        lis.onStateChangeBegin(state("<FROM>"), new NamedStateEvent<>("<EVENT>"), state("<TO>"));
      } else {
        lis.onStateChangeEnd(state("<FROM>"), new NamedStateEvent<>("<EVENT>"), state("<TO>"));
      }
      List<Logs.Line> lines = mine(Logs.stop(), Thread.currentThread());
      String kind = (begin ? "begin" : "end") + (named ? " with a name" : "");
      if (lines.size() != 1) {
        run.violate(LOG, "a notification of the " + kind + " made " + lines.size() + " lines", null);
        throw new Run.Abort();
      }
      l[i] = new Layout(begin, named);
      String bad = lines.get(0).level != Level.INFO ? "has level " + lines.get(0).level
          : l[i].learn(lines.get(0).text);
      if (bad != null) {
        run.violate(LOG, "the line of the " + kind + " " + bad + ": " + lines.get(0), null);
        throw new Run.Abort();
      }
    }
    return l;
  }

  private static List<Logs.Line> mine(List<Logs.Line> all, Thread t) {
    List<Logs.Line> l = new ArrayList<>();
    for (Logs.Line x : all) {
      if (x.thread == t && x.logger.startsWith("com.webotech.")) {
        l.add(x);
      }
    }
    return l;
  }

  private static String any(Random r) {
    switch (r.nextInt(12)) {
      case 0:
        return "x".repeat(1 + r.nextInt(5000));
      case 1:
        return "{" + r.nextInt(3) + "}";
      case 2:
        return "\\{}" + "{}".repeat(r.nextInt(5)) + "\\";
      case 3: {
        char[] c = new char[1 + r.nextInt(10)];
        for (int i = 0; i < c.length; i++) {
          c[i] = (char) r.nextInt(r.nextBoolean() ? 128 : 0xd800);
        }
        return new String(c);
      }
      case 4:
        return "${" + new String[]{"env:HOME", "date:yyyy", "java:os", "ctx:x", "lower:X"}[r.nextInt(5)]
            + "}";
      case 5:
        return "%" + "dmnptTxX%".charAt(r.nextInt(9)) + " %1$s";
      default:
        return Names.one(r, r.nextInt(50), r.nextInt(4), "n");
    }
  }

  /** Something to be called with names, and the lines it has to write. */
  private static final class Note {

    final String name;
    final boolean begin;
    final String from;
    final String event;
    final String to;

    Note(String name, boolean begin, String from, String event, String to) {
      this.name = name;
      this.begin = begin;
      this.from = from;
      this.event = event;
      this.to = to;
    }

    String expected(Layout[] l) {
      boolean named = name != null && !name.isEmpty();
      return l[(begin ? 0 : 1) + (named ? 2 : 0)].make(name, from, event, to);
    }

    @Override
    public String toString() {
      return (begin ? "begin " : "end ") + E.q(name) + ": " + E.q(from) + " + " + E.q(event) + " = "
          + E.q(to);
    }
  }

  private static Note note(Random r, String name, boolean nulls) {
    String[] s = new String[3];
    for (int i = 0; i < 3; i++) {
      s[i] = nulls && r.nextInt(3) == 0 ? null : any(r);
    }
    if (r.nextInt(6) == 0) {
      s[2] = s[0];
    }
    return new Note(name, r.nextBoolean(), s[0], s[1], s[2]);
  }

  private static StateMachineListener<Object, Object> listener(Random r, String name) {
    return name == null && r.nextBoolean() ? new LoggingStateMachineListener<>()
        : new LoggingStateMachineListener<>(name);
  }

  private static Throwable tell(Random r, StateMachineListener<Object, Object> lis, Note n) {
    boolean own = r.nextInt(4) == 0;
    State<Object, Object> from = own ? new OwnState(n.from) : state(n.from);
    State<Object, Object> to = own ? new OwnState(n.to) : state(n.to);
    NamedStateEvent<Object> ev = new NamedStateEvent<>(n.event);
    if (r.nextBoolean()) {
      ev.setPayload("the payload {}");
    }
    try {
      if (n.begin) {
        lis.onStateChangeBegin(from, ev, to);
      } else {
        lis.onStateChangeEnd(from, ev, to);
      }
      return null;
    } catch (RuntimeException | Error e) {
      return e;
    }
  }

  /** @return what is wrong, or null */
  private static String judge(Note n, List<Logs.Line> lines, Layout[] l, boolean nulls) {
    if (lines.size() != 1) {
      return n + " made " + lines.size() + " lines " + lines;
    }
    if (lines.get(0).level != Level.INFO) {
      return n + " was logged as " + lines.get(0);
    }
    if (!nulls && !lines.get(0).text.equals(n.expected(l))) {
      return n + " was logged as " + lines.get(0) + " instead of " + E.q(n.expected(l));
    }
    return null;
  }

  private static void direct(Run run) throws Exception {
    Random r = run.r;
    Layout[] l = layouts(run);
    for (int i = 0; i < 4; i++) {
      String name = r.nextInt(4) == 0 ? null : r.nextInt(4) == 0 ? "" : any(r);
      StateMachineListener<Object, Object> lis = listener(r, name);
      Logs.start();
      for (int k = 0; k < 25; k++) {
        boolean nulls = r.nextInt(8) == 0;
        Note n = note(r, name, nulls);
        Logs.clear();
        if (r.nextInt(4) == 0) {
          Thread.currentThread().interrupt();
        }
        Throwable t = tell(r, lis, n);
        Thread.interrupted();
        run.sig(n.toString().hashCode());
        run.events++;
        String bad = t != null ? n + " made the listener throw " + Engine.stack(t)
            : judge(n, mine(Logs.now(), Thread.currentThread()), l, nulls);
        if (bad != null) {
          Logs.stop();
          run.violate(LOG, bad, null);
          return;
        }
      }
      Logs.stop();
    }
    run.engine.count("notifications compared", 100);
  }

  private static void threads(Run run) throws Exception {
    Random r = run.r;
    Layout[] l = layouts(run);
    int nt = 2 + r.nextInt(3);
    int each = 1 + r.nextInt(20);
    List<List<Note>> notes = new ArrayList<>();
    String[] failed = new String[nt];
    String sharedName = r.nextBoolean() ? "shared" : null;
    StateMachineListener<Object, Object> shared = listener(r, sharedName);
    Run.Threads t = run.threads();
    for (int i = 0; i < nt; i++) {
      List<Note> mine = new ArrayList<>();
      notes.add(mine);
      int id = i;
      Random q = new Random(r.nextLong());
      String name = r.nextBoolean() ? sharedName : any(r);
      StateMachineListener<Object, Object> lis = name == sharedName ? shared : listener(r, name);
      t.add("notifier" + i, () -> {
        for (int k = 0; k < each; k++) {
          Note n = note(q, name, false);
          mine.add(n);
          if (q.nextInt(8) == 0) {
            Thread.currentThread().interrupt();
          }
          Throwable e = tell(q, lis, n);
          Thread.interrupted();
          if (e != null && failed[id] == null) {
            failed[id] = n + " made the listener throw " + Engine.stack(e);
          }
        }
      });
    }
    Logs.start();
    t.start();
    if (!t.join(60)) {
      run.inconclusive = "notifiers did not finish";
      Logs.stop();
      return;
    }
    List<Logs.Line> all = Logs.stop();
    for (int i = 0; i < nt; i++) {
      List<Logs.Line> lines = mine(all, t.all.get(i));
      String bad = failed[i];
      if (bad == null && lines.size() != each) {
        bad = each + " notifications made " + lines.size() + " lines on a thread";
      }
      for (int k = 0; bad == null && k < each; k++) {
        bad = judge(notes.get(i).get(k), lines.subList(k, k + 1), l, false);
        run.sig(notes.get(i).get(k).toString().hashCode());
      }
      if (bad != null) {
        run.violate(LOG, bad, null);
        return;
      }
      run.events += each;
    }
    run.engine.count("notifications compared", nt * each);
  }

  // ---------------------------------------------------------------------------------- machine

  private static void machine(Run run) throws Exception {
    Random r = run.r;
    Layout[] l = layouts(run);
    int n = 2 + r.nextInt(4);
    int ne = 1 + r.nextInt(4);
    int scheme = r.nextInt(4);
    List<String> names = new ArrayList<>();
    for (String s : Names.make(r, n + 8, scheme, "s")) {
      if (names.size() < n && !s.equals("_END_") && !s.equals("_NOOP_") && !s.equals("_UNINITIALISED_")) {
        names.add(s);
      }
    }
    if (names.size() < n) {
      return;
    }
    List<String> events = Names.make(r, ne, r.nextInt(4), "e");
    String name = r.nextInt(3) == 0 ? null : r.nextInt(5) == 0 ? "" : any(r);
    LoggingStateMachineListener<Object, Object> lis = new LoggingStateMachineListener<>(name);
    MonExecutor exec = new MonExecutor();
    run.onEnd(exec::shutdownNow);
    GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
        .setContext(new Object())
        .setStateMachineListener(r.nextInt(4) == 0 ? new MultiConsumerStateMachineListener<>(lis) : lis)
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            new EventProcessingStrategyFactory.Config<Object, Object>().withExecutor(exec)
                .withUnmappedEventHandler((ev, sm) -> {
                })))
        .build();
    // -2: no transition, -3: unmapped, -1: the end
    int[][] out = new int[n][ne];
    List<NamedState<Object, Object>> states = new ArrayList<>();
    names.forEach(s -> states.add(new NamedState<>(s)));
    StateMachine<Object, Object> sm = m.initialSate(states.get(0));
    for (int i = 0; i < n; i++) {
      for (int e = 0; e < ne; e++) {
        int to = r.nextInt(5) == 0 ? -2 : r.nextInt(10) == 0 ? -1 : r.nextInt(n);
        out[i][e] = to;
        if (i != 0 || e != 0) {
          sm = sm.when(states.get(i));
        }
        sm = sm.receives(new NamedStateEvent<>(events.get(e)));
        sm = to == -2 ? sm.itDoesNotTransition() : to == -1 ? sm.itEnds() : sm.itTransitionsTo(
            states.get(to));
      }
    }
    int fires = 1 + r.nextInt(25);
    List<Note> want = new ArrayList<>();
    want.add(new Note(name, true, "_UNINITIALISED_", "_immediate_", names.get(0)));
    want.add(new Note(name, false, "_UNINITIALISED_", "_immediate_", names.get(0)));
    int wantStart = want.size();
    int cur = 0;
    List<Integer> seq = new ArrayList<>();
    for (int i = 0; i < fires; i++) {
      int e = r.nextInt(ne);
      seq.add(e);
      if (cur == -1) {
        continue;
      }
      int to = out[cur][e];
      String target = to == -2 ? "_NOOP_" : to == -1 ? "_END_" : names.get(to);
      want.add(new Note(name, true, names.get(cur), events.get(e), target));
      want.add(new Note(name, false, names.get(cur), events.get(e), target));
      cur = to == -2 ? cur : to;
    }
    Logs.start();
    Thread me = Thread.currentThread();
    m.start();
    for (int e : seq) {
      m.fire(new NamedStateEvent<>(events.get(e)));
    }
    if (!Run.await(60, exec::idle)) {
      run.inconclusive = "does not become idle";
      Logs.stop();
      return;
    }
    List<Logs.Line> lines = new ArrayList<>();
    List<Logs.Line> all = Logs.stop();
    for (Logs.Line x : all) {
      if ((x.thread == me || exec.isWorker(x.thread)) && x.level == Level.INFO
          && x.logger.startsWith("com.webotech.")) {
        lines.add(x);
      }
    }
    run.events += lines.size();
    run.sample = lines.toString();
    want.forEach(x -> run.sig(x.toString().hashCode()));
    String end = m.getCurrentState() == null ? null : m.getCurrentState().getName();
    String wantEnd = cur == -1 ? "_END_" : names.get(cur);
    if (!wantEnd.equals(end)) {
      run.violate(LOG, "a machine with a logging listener is in " + E.q(end) + " instead of " + E.q(
          wantEnd), null);
      return;
    }
    if (lines.size() != want.size()) {
      run.violate(LOG, want.size() + " notifications of a machine made " + lines.size() + " lines: "
          + lines, null);
      return;
    }
    // those of start() are written by another thread, but strictly before
    for (int i = 0; i < lines.size(); i++) {
      if (i < wantStart != (lines.get(i).thread == me)) {
        run.violate(LOG, "a line was written by another thread than the one that notified: "
            + lines.get(i), null);
        return;
      }
      String bad = judge(want.get(i), lines.subList(i, i + 1), l, false);
      if (bad != null) {
        run.violate(LOG, bad, null);
        return;
      }
    }
    run.engine.count("notifications compared", lines.size());
  }

  // ---------------------------------------------------------------------------------- handlers

  private static void handlers(Run run) throws Exception {
    Random r = run.r;
    MonExecutor exec = r.nextInt(3) != 0 ? new MonExecutor() : null;
    if (exec != null) {
      run.onEnd(exec::shutdownNow);
    }
    int max = exec != null && r.nextInt(3) == 0 ? 1 + r.nextInt(4) : -1;
    EventProcessingStrategyFactory.Config<Object, Object> c =
        new EventProcessingStrategyFactory.Config<>();
    if (exec != null) {
      c.withExecutor(exec);
    } else if (r.nextBoolean()) {
      c.withThreadName("logged" + ids.incrementAndGet());
    }
    if (max > 0) {
      c.withMaxQueueSize(max);
    }
    if (r.nextInt(3) == 0) {
      c.withUnexpectedFlowListener(new DefaultUnexpectedFlowListener<>());
    }
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    boolean simple = exec == null && r.nextInt(3) == 0;
    boolean dup = !simple && r.nextInt(4) == 0;
    if (!simple) {
      b.setEventProcessingStrategy(dup
          ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
          : EventProcessingStrategyFactory.createDefaultStrategy(c));
    }
    GenericStateMachine<Object, Object> m = b.build();
    NamedState<Object, Object> a = new NamedState<>("the state");
    // exceptions by name of their event
    Map<String, Throwable> throwing = new java.util.concurrent.ConcurrentHashMap<>();
    AtomicInteger seen = new AtomicInteger();
    a.appendExitActions((ev, sm) -> {
      seen.incrementAndGet();
      Throwable t = throwing.get(ev.getName());
      if (t != null) {
        Throwables.sneak(t);
      }
    });
    String tag = "<" + ids.incrementAndGet() + ".";
    int n = 1 + r.nextInt(20);
    // how often an event occurs in a row
    int most = r.nextBoolean() ? 1 : 3;
    List<String> names = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      String odd = r.nextInt(3) == 0 ? any(r) : "event";
      names.add(odd + tag + i + ">" + (r.nextInt(4) == 0 ? any(r) : ""));
    }
    // 0: mapped, 1: unmapped, 2: throws, 3: throws an error
    int[] kind = new int[n];
    StateMachine<Object, Object> sm = m.initialSate(a);
    sm = sm.receives(new NamedStateEvent<>("finish")).itEnds();
    for (int i = 0; i < n; i++) {
      kind[i] = r.nextInt(10) == 0 ? 3 : r.nextInt(3);
      if (kind[i] != 1) {
        sm = sm.when(a).receives(new NamedStateEvent<>(names.get(i))).itTransitionsTo(a);
        if (kind[i] == 2) {
          throwing.put(names.get(i), Throwables.make(1 + r.nextInt(Throwables.EXCEPTIONS)));
        } else if (kind[i] == 3) {
          throwing.put(names.get(i), Throwables.make(Throwables.anError(r)));
        }
      }
    }
    boolean early = r.nextInt(3) == 0;
    boolean late = r.nextInt(3) == 0;
    Logs.start();
    List<Logs.Line> all;
    // how often each event has been fired with that outcome
    int[] reports = new int[n];
    int[] thrown = new int[n];
    try {
      if (early) {
        for (int i = 0; i < n; i += 1 + r.nextInt(3)) {
          for (int k = r.nextInt(most); k >= 0; k--) {
            m.fire(event(r, names.get(i)));
            reports[i]++;
          }
        }
      }
      m.start();
      CountDownLatch hold = max > 0 ? exec.hold() : null;
      int accepted = 0;
      int wantSeen = 0;
      for (int i = 0; i < n; i++) {
        for (int k = dup ? 0 : r.nextInt(most); k >= 0; k--) {
          m.fire(event(r, names.get(i)));
          boolean refused = max > 0 && accepted >= max;
          accepted++;
          reports[i] += refused ? 1 : kind[i] == 0 ? 0 : 1;
          thrown[i] += refused || kind[i] < 2 ? 0 : 1;
          wantSeen += refused || kind[i] == 1 ? 0 : 1;
        }
      }
      if (hold != null) {
        hold.countDown();
      }
      int ws = wantSeen;
      if (exec != null ? !Run.await(60, exec::idle) : !Run.await(20, () -> seen.get() >= ws)) {
        run.inconclusive = "does not become idle";
        return;
      }
      int total = logged(reports, kind, thrown, exec);
      Run.await(20, () -> count(Logs.now(), tag, names, throwing) >= total);
      if (late) {
        m.stop();
        for (int i = 0; i < n; i += 1 + r.nextInt(3)) {
          for (int k = r.nextInt(most); k >= 0; k--) {
            m.fire(event(r, names.get(i)));
            reports[i]++;
          }
        }
      }
      if (exec == null) {
        // the last ones could come twice
        Noise.pause(2000);
      }
    } finally {
      all = Logs.stop();
    }
    int errors = 0;
    for (int i = 0; i < n; i++) {
      run.sig(names.get(i).hashCode());
      run.sig(reports[i]);
      List<Logs.Line> found = new ArrayList<>();
      int uncaught = 0;
      for (Logs.Line x : all) {
        // uncaught errors are logged with their thread, not their event
        if (x.thrown instanceof Error) {
          uncaught += x.thrown == throwing.get(names.get(i)) ? 1 : 0;
        } else if (x.logger.startsWith("com.webotech.") && x.text.contains(names.get(i))) {
          found.add(x);
        }
      }
      int want = reports[i];
      if (kind[i] == 3) {
        // an error is logged with its thread
        want -= thrown[i];
        errors += thrown[i];
        if (exec == null && uncaught != thrown[i]) {
          run.violate(LOG, thrown[i] + " errors were logged " + uncaught + " times", null);
          return;
        }
      }
      if (found.size() != want) {
        run.violate(LOG, "of " + want + " unexpected occurrences of the event " + E.q(names.get(i)) + " "
            + found.size() + " were logged: " + found, null);
        return;
      }
      if (kind[i] == 2) {
        int with = 0;
        for (Logs.Line x : found) {
          with += x.thrown == throwing.get(names.get(i)) ? 1 : 0;
        }
        if (with != thrown[i]) {
          run.violate(LOG, "the exception " + throwing.get(names.get(i)) + " was thrown " + thrown[i]
              + " times and logged " + with + " times: " + found, null);
          return;
        }
      }
      run.events += found.size();
    }
    run.engine.count("unexpected occurrences compared", run.events);
    run.engine.count("errors compared", errors);
    run.sample = all.toString().substring(0, Math.min(600, all.toString().length()));
  }

  /** How many lines there have to be. */
  private static int logged(int[] reports, int[] kind, int[] thrown, MonExecutor exec) {
    int total = 0;
    for (int i = 0; i < reports.length; i++) {
      total += reports[i] - (exec != null && kind[i] == 3 ? thrown[i] : 0);
    }
    return total;
  }

  private static int count(List<Logs.Line> lines, String tag, List<String> names,
      Map<String, Throwable> throwing) {
    int k = 0;
    for (Logs.Line x : lines) {
      k += x.thrown instanceof Error ? throwing.containsValue(x.thrown) ? 1 : 0
          : x.text.contains(tag) ? 1 : 0;
    }
    return k;
  }

  private static StateEvent<Object> event(Random r, String name) {
    NamedStateEvent<Object> e = new NamedStateEvent<>(name);
    if (r.nextInt(3) == 0) {
      e.setPayload("payload {}");
    }
    return e;
  }
}
