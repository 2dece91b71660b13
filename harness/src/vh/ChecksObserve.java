package vh;

import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.function.Supplier;

/** C25: what other threads see, and data races. */
final class ChecksObserve {

  static final String SEEN = "SEEN";
  static final String RACE = "RACE";

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C25", ChecksObserve::c25);
  }

  static Check c25() {
    Check c = new Check("C25", "machines that are observed and get other listeners from several threads while "
        + "they are started, fired at and stopped; everything seen is compared with what the callbacks "
        + "tell about when the machine was in which state, per observer in order; every notification has "
        + "to reach a listener that was set at the time; a happens-before race detector watches all "
        + "non-final fields and plain collections of the library; a case is non-trivial if something was "
        + "seen; cases are distinct if their recorded histories are", SEEN, RACE);
    c.plain("kept by the machine only", 2, run -> ChecksKept.kept(run, SEEN, "L"));
    c.noisy("observers", 35, ChecksObserve::observers);
    c.plain("while a callback blocks", 8, ChecksObserve::whileBlocked);
    c.noisy("listeners", 25, ChecksObserve::listeners);
    c.noisy("races", 30, ChecksObserve::races);
    c.noisy("races in apps", 10, ChecksObserve::appRaces);
    return c;
  }

  // ---------------------------------------------------------------------------------- observers

  private static void observers(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.pctMapped = 90;
    g.pctEnd = r.nextInt(3) == 0 ? 5 : 0;
    g.pctImmEnd = r.nextInt(4) == 0 ? 15 : 0;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, Scn.size(r, 15, 60, 200), 5);
    Scn.pauses(r, s, 3, 200);
    if (r.nextInt(4) == 0) {
      for (int i = 0; i < 3; i++) {
        s.op(r.nextInt(s.fires.size()), 1 + r.nextInt(4), 0, new Spec.Op(Spec.Op.THROW,
            1 + r.nextInt(Throwables.EXCEPTIONS)));
      }
    }
    World.Opt o = Scn.opt(run);
    o.listener = 1 + r.nextInt(3);
    World w = run.world(s, o);
    AtomicBoolean done = new AtomicBoolean();
    int startMode = r.nextInt(4);
    int st = r.nextInt(s.states.size());
    boolean inState = startMode == 1 && !s.immEnd[st];
    if (startMode == 0) {
      run.start(w);
    }
    Run.Threads firing = run.threads();
    List<Integer> roots = Scn.roots(s);
    int nf = 1 + r.nextInt(3);
    for (int t = 0; t < nf; t++) {
      List<Integer> mine = new ArrayList<>();
      for (int i = t; i < roots.size(); i += nf) {
        mine.add(roots.get(i));
      }
      firing.add("firing" + t, () -> {
        Run.await(10, () -> w.m.isStarted());
        for (int fid : mine) {
          w.fire(fid);
        }
      });
    }
    if (startMode != 0) {
      firing.add("starting", () -> {
        if (inState) {
          w.call("startInState()", () -> w.m.startInState(w.stateObjs.get(s.states.get(st))));
        } else {
          run.start(w);
        }
      });
    }
    if (r.nextInt(3) == 0) {
      int micros = r.nextInt(3000);
      firing.add("stopping", () -> {
        Run.await(10, () -> w.m.isStarted());
        Noise.pause(1 + micros);
        w.stop();
        w.observe();
      });
    }
    Run.Threads watching = run.threads();
    int no = 1 + r.nextInt(3);
    for (int t = 0; t < no; t++) {
      Random q = new Random(r.nextLong());
      int most = 400;
      watching.add("observer" + t, () -> {
        for (int i = 0; i < most && !done.get(); i++) {
          w.observe();
          if (q.nextInt(3) == 0) {
            Noise.pause(1 + q.nextInt(60));
          }
        }
        w.observe();
      });
    }
    watching.start();
    firing.start();
    if (!Scn.join(run, firing) || !Scn.settle(run, w)) {
      done.set(true);
      return;
    }
    done.set(true);
    if (!Scn.join(run, watching)) {
      return;
    }
    w.observe();
    List<E> trace = run.rec.sorted();
    run.cover(trace);
    judge(run, trace, s.fires.size(), s.states.get(inState ? st : s.init));
  }

  /** Some callback takes forever; meanwhile the machine can be looked at and be given a listener. */
  private static void whileBlocked(Run run) throws Exception {
    Random r = run.r;
    Spec s = Spec.table(r, Scn.gen(r));
    Scn.fires(r, s, 2 + r.nextInt(6), 0);
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    Runnable gate = () -> {
      in.countDown();
      ChecksFlow.await(free);
    };
    boolean starting = r.nextInt(4) == 0;
    int st = -1;
    if (starting) {
      s.op(-1, r.nextBoolean() ? E.BEGIN : E.END, 0, new Spec.Op(Spec.Op.RUN, 0, gate));
    } else if (r.nextInt(3) == 0) {
      s.op(Scn.roots(s).get(0), new int[]{E.BEGIN, E.END, E.ENTRY, E.EXIT, E.UNM}[r.nextInt(5)], 0,
          new Spec.Op(Spec.Op.RUN, 0, gate));
      st = 0;
    }
    World w = run.world(s, Scn.opt(run));
    Run.Threads starter = run.threads();
    starter.add("starting", w::start);
    starter.start();
    if (!starting) {
      if (!Scn.join(run, starter)) {
        return;
      }
      if (st < 0) {
        w.gate = gate;
      }
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
    }
    if (!Run.await(5, () -> in.getCount() == 0 || !starting && w.exec.idle())) {
      free.countDown();
      run.inconclusive = "the gate was not reached";
      return;
    }
    if (in.getCount() > 0) {
      // that event had no such callback
      free.countDown();
      return;
    }
    Run.Threads watching = run.threads();
    String[] what = new String[3];
    for (int i = 0; i < what.length; i++) {
      int id = i;
      int first = r.nextInt(7);
      watching.add("observer" + i, () -> {
        for (int k = 0; k < 7; k++) {
          switch ((first + k) % 7) {
            case 0:
              what[id] = "isStarted()";
              w.m.isStarted();
              break;
            case 1:
              what[id] = "isEnded()";
              w.m.isEnded();
              break;
            case 2:
              what[id] = "getCurrentState()";
              w.m.getCurrentState();
              break;
            case 3:
              what[id] = "getEventQueueSize()";
              w.m.getEventQueueSize();
              break;
            case 4:
              what[id] = "setStateMachineListener()";
              w.m.setStateMachineListener(w.listener);
              break;
            case 5:
              what[id] = "getContext()";
              w.m.getContext();
              break;
            default:
              what[id] = "an observation";
              w.observe();
          }
        }
      });
    }
    watching.start();
    if (!Run.await(10, () -> watching.all.stream().noneMatch(Thread::isAlive))) {
      for (int i = 0; i < what.length; i++) {
        String b = Run.blockedInLibrary(watching.all.get(i), 3);
        if (b != null) {
          run.violate(SEEN, what[i] + " waits for the event in progress: " + b);
          break;
        }
      }
      if (Scn.ok(run)) {
        run.inconclusive = "observers did not finish";
      }
    } else {
      run.engine.count("reads while a callback was blocked", what.length * 7);
      run.events += what.length * 7;
    }
    free.countDown();
    if (!Scn.ok(run) || !Scn.join(run, starter) || !Scn.settle(run, w)) {
      return;
    }
    run.cover(run.rec.sorted());
  }

  private static final class Visit {

    final String state;
    long from;
    long to = Long.MAX_VALUE;

    Visit(String state, long from) {
      this.state = state;
      this.from = from;
    }

    boolean during(E e, String seen) {
      return (state == null ? seen == null : state.equals(seen)) && from <= e.s1 && to >= e.s0;
    }
  }

  /** When the machine may have been in which state, as far as its own thread tells. */
  private static List<Visit> visits(List<E> trace, String first) {
    long starting = Long.MAX_VALUE;
    long started = Long.MAX_VALUE;
    long stopping = Long.MAX_VALUE;
    long stopped = Long.MAX_VALUE;
    for (E e : trace) {
      if (e.kind == E.CALL && e.note.startsWith("start")) {
        starting = Math.min(starting, e.s0);
        started = Math.min(started, e.s1);
      }
      if (e.kind == E.CALL && e.note.equals("stop()")) {
        stopping = Math.min(stopping, e.s0);
        stopped = Math.min(stopped, e.s1);
      }
    }
    List<Visit> visits = new ArrayList<>();
    visits.add(new Visit(null, 0));
    visits.get(0).to = started;
    visits.add(new Visit(first, starting));
    long prev = starting;
    E begun = null;
    for (E e : trace) {
      if (e.kind < E.BEGIN || e.kind > E.EXC) {
        continue;
      }
      if (e.kind == E.EXC && e.exThread != e.thread) {
        continue;
      }
      Visit v = visits.get(visits.size() - 1);
      if (e.cur == null ? v.state != null : !e.cur.equals(v.state)) {
        v.to = e.curSeq;
        if ("_END_".equals(e.cur) && begun != null) {
          unseen(visits, begun, stopped);
        }
        visits.add(new Visit(e.cur, prev));
      }
      begun = e.kind == E.BEGIN && !"_END_".equals(e.cur) ? e : begun;
      prev = Math.max(e.s1 == Long.MAX_VALUE ? e.s0 : e.s1, e.s0);
    }
    Visit last = visits.get(visits.size() - 1);
    boolean end = "_END_".equals(last.state);
    if (!end) {
      // may have ended after the last callback
      long from = Math.min(prev, stopping);
      boolean may = stopping != Long.MAX_VALUE;
      for (E e : trace) {
        may |= e.kind == E.OBS && e.ended;
      }
      if (may) {
        last.to = Math.min(last.to, stopped);
        if (begun != null) {
          unseen(visits, begun, stopped);
        }
        visits.add(new Visit("_END_", from));
      }
    } else {
      last.from = Math.min(last.from, stopping);
      if (visits.size() > 1) {
        for (Visit v : visits.subList(0, visits.size() - 1)) {
          v.to = Math.min(v.to, stopped);
        }
      }
    }
    return visits;
  }

  /** The state a transition was on its way to when the machine was stopped. */
  private static void unseen(List<Visit> visits, E begun, long stopped) {
    Visit last = visits.get(visits.size() - 1);
    if (!last.state.equals(begun.to) && !"_NOOP_".equals(begun.to) && !"_END_".equals(begun.to)) {
      Visit v = new Visit(begun.to, begun.s0);
      v.to = stopped;
      visits.add(v);
    }
  }

  private static void judge(Run run, List<E> trace, int fires, String first) {
    List<Visit> visits = visits(trace, first);
    long starting = Long.MAX_VALUE;
    long started = Long.MAX_VALUE;
    long stopped = Long.MAX_VALUE;
    for (E e : trace) {
      if (e.kind == E.CALL && e.note.startsWith("start")) {
        starting = Math.min(starting, e.s0);
        started = Math.min(started, e.s1);
      }
      if (e.kind == E.CALL && e.note.equals("stop()") && e.s0 > starting) {
        stopped = Math.min(stopped, e.s1);
      }
    }
    Map<Thread, Integer> at = new HashMap<>();
    Map<Thread, E> before = new HashMap<>();
    int seen = 0;
    for (E e : trace) {
      if (e.kind != E.OBS) {
        continue;
      }
      seen++;
      String bad = null;
      E b = before.put(e.thread, e);
      if (e.ended && !"_END_".equals(e.cur)) {
        bad = "seen as ended but not in the end state";
      } else if (e.started && e.cur == null) {
        bad = "seen as started but in no state";
      } else if (b != null && b.started && !e.started) {
        bad = "not started any more";
      } else if (b != null && b.ended && !e.ended) {
        bad = "not ended any more";
      } else if (e.started && e.s1 < starting || !e.started && e.s0 > started) {
        bad = "the started flag is not current";
      } else if (!e.ended && e.s0 > stopped) {
        bad = "the ended flag is not current";
      } else if (e.size < 0 || e.size > fires + 1) {
        bad = "a queue size that never was";
      } else {
        int from = at.getOrDefault(e.thread, 0);
        int found = -1;
        for (int i = from; i < visits.size() && found < 0; i++) {
          found = visits.get(i).during(e, e.cur) ? i : -1;
        }
        if (found < 0) {
          boolean ever = false;
          for (Visit v : visits) {
            ever |= v.during(e, e.cur);
          }
          bad = ever ? "a state older than one seen before" : "the machine was not in that state";
        } else {
          at.put(e.thread, found);
        }
      }
      if (bad != null) {
        run.violate(SEEN, bad + ": " + e + " started=" + e.started + " size=" + e.size, trace);
        return;
      }
    }
    run.engine.count("observations judged", seen);
    run.engine.max("largest number of visits", visits.size());
  }

  // ---------------------------------------------------------------------------------- listeners

  /** Setting a listener: its id, or 0 for none. */
  private static final class Set {

    final int id;
    long s0;
    volatile long s1 = Long.MAX_VALUE;

    Set(int id) {
      this.id = id;
    }
  }

  private static void listeners(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.pctMapped = 100;
    g.pctNoop = 0;
    g.unique = false;
    Spec s = Spec.table(r, g);
    for (int i = 0; i < s.states.size(); i++) {
      s.nEntry[i] = 1 + r.nextInt(2);
      s.nExit[i] = 1 + r.nextInt(2);
    }
    Scn.fires(r, s, Scn.size(r, 15, 60, 150), 0);
    Scn.pauses(r, s, 4, 200);
    World.Opt o = Scn.opt(run);
    o.listener = 0;
    World w = run.world(s, o);
    List<Set> sets = new ArrayList<>();
    int nset = 1 + r.nextInt(3);
    int each = 1 + r.nextInt(25);
    boolean nulls = r.nextInt(3) == 0;
    Set none = new Set(0);
    none.s1 = 0;
    sets.add(none);
    if (r.nextBoolean()) {
      set(run, w, sets, 1);
    }
    run.start(w);
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int nf = 1 + r.nextInt(2);
    for (int t = 0; t < nf; t++) {
      List<Integer> mine = new ArrayList<>();
      for (int i = t; i < roots.size(); i += nf) {
        mine.add(roots.get(i));
      }
      ts.add("firing" + t, () -> {
        for (int fid : mine) {
          w.fire(fid);
        }
      });
    }
    for (int t = 0; t < nset; t++) {
      Random q = new Random(r.nextLong());
      int base = 2 + t * 1000;
      ts.add("setting" + t, () -> {
        for (int i = 0; i < each; i++) {
          set(run, w, sets, nulls && q.nextInt(3) == 0 ? 0 : base + i);
          Noise.pause(1 + q.nextInt(150));
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
      return;
    }
    List<E> trace = run.rec.sorted();
    run.cover(trace);
    // all callbacks in the order of processing, also those of start()
    List<E> cbs = new ArrayList<>();
    for (E e : trace) {
      if (e.kind >= E.BEGIN && e.kind <= E.EXIT) {
        cbs.add(e);
      }
    }
    long now = run.rec.next();
    int judged = 0;
    for (int i = 0; i < cbs.size(); ) {
      int j = i;
      while (j < cbs.size() && cbs.get(j).fid == cbs.get(i).fid) {
        j++;
      }
      // the callbacks of one transition
      int begins = 0;
      int ends = 0;
      for (int k = i; k < j; k++) {
        begins += cbs.get(k).kind == E.BEGIN ? 1 : 0;
        ends += cbs.get(k).kind == E.END ? 1 : 0;
      }
      boolean start = cbs.get(i).fid == -1;
      String bad = null;
      long p = i == 0 ? 0 : cbs.get(i - 1).s1;
      long n = j == cbs.size() ? now : cbs.get(j).s0;
      if (begins > 1 || ends > 1) {
        bad = "a notification reached several listeners";
      } else {
        E first = cbs.get(i);
        E last = cbs.get(j - 1);
        if (begins == 1 && first.kind != E.BEGIN || ends == 1 && last.kind != E.END) {
          bad = "notifications out of order";
        } else {
          bad = candidate(sets, begins == 1 ? first.idx : 0, p, first.s0)
              ? candidate(sets, ends == 1 ? last.idx : 0, ends == 1 ? cbs.get(j - 2).s1 : last.s1,
              ends == 1 ? last.s0 : n) ? null : "the end" : "the begin";
          bad = bad == null ? null : bad + " of a transition " + (start ? "at the start " : "")
              + "did not reach the listener that was set";
        }
      }
      judged += 2;
      if (bad != null) {
        run.violate(SEEN, bad + ": " + cbs.subList(i, j), trace);
        return;
      }
      i = j;
    }
    run.engine.count("notifications judged", judged);
    run.engine.count("listeners set", sets.size());
  }

  private static void set(Run run, World w, List<Set> sets, int id) {
    StateMachineListener<Object, Object> l = id == 0 ? null : w.tagged(id);
    Set s = new Set(id);
    s.s0 = run.rec.next();
    synchronized (sets) {
      sets.add(s);
    }
    E e = w.call("set listener " + id, () -> w.m.setStateMachineListener(l));
    s.s1 = run.rec.next();
    if (e.ex != null) {
      run.violate(SEEN, "setting a listener failed: " + Engine.stack(e.ex));
    }
  }

  /** Whether a listener may have been the current one at some moment from w0 to w1. */
  private static boolean candidate(List<Set> sets, int id, long w0, long w1) {
    for (Set k : sets) {
      if (k.id != id || k.s0 > w1) {
        continue;
      }
      boolean replaced = false;
      for (Set j : sets) {
        replaced |= j != k && j.s0 > k.s1 && j.s1 < w0;
      }
      if (!replaced) {
        return true;
      }
    }
    return false;
  }

  // ---------------------------------------------------------------------------------- races

  private static void races(Run run) throws Exception {
    Random r = run.r;
    RaceDetector.reset();
    run.onEnd(RaceDetector::stop);
    Spec.Gen g = Scn.gen(r);
    g.pctEnd = r.nextInt(3) == 0 ? 5 : 0;
    g.pctImmEnd = r.nextInt(4) == 0 ? 10 : 0;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, Scn.size(r, 12, 40, 80), 5);
    Scn.pauses(r, s, 3, 200);
    for (int i = r.nextInt(4); i > 0; i--) {
      s.op(r.nextInt(s.fires.size()), 1 + r.nextInt(5), 0, new Spec.Op(Spec.Op.THROW,
          1 + r.nextInt(Throwables.KINDS - 1)));
    }
    World.Opt o = Scn.opt(run);
    o.listener = r.nextInt(4);
    o.dropDup = r.nextInt(3) == 0;
    o.max = r.nextInt(3) == 0 ? 1 + r.nextInt(5) : -1;
    o.recordSize = r.nextBoolean();
    World w = run.world(s, o);
    MultiConsumerStateMachineListener<Object, Object> multi =
        new MultiConsumerStateMachineListener<>(w.tagged(7), new LoggingStateMachineListener<>("x"));
    for (State<Object, Object> st : w.stateObjs.values()) {
      if (r.nextInt(3) == 0) {
        st.appendExitActions(new HandleExceptionAction<>((ev, sm) -> {
          throw new IllegalStateException("induced");
        }, (ev, sm, ex) -> Noise.hit(E.EXIT)));
      }
    }
    boolean startRace = r.nextBoolean();
    if (!startRace) {
      run.start(w);
    }
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int nf = 1 + r.nextInt(3);
    for (int t = 0; t < nf; t++) {
      List<Integer> mine = new ArrayList<>();
      for (int i = t; i < roots.size(); i += nf) {
        mine.add(roots.get(i));
      }
      ts.add("firing" + t, () -> {
        for (int fid : mine) {
          w.fire(fid);
        }
      });
    }
    if (startRace) {
      ts.add("starting", () -> run.start(w));
    }
    for (int t = r.nextInt(3); t > 0; t--) {
      ts.add("observer" + t, () -> {
        for (int i = 0; i < 25; i++) {
          w.observe();
          w.m.toString();
          w.m.getContext();
          Noise.pause(1 + i * 5);
        }
      });
    }
    if (r.nextBoolean()) {
      ts.add("setting", () -> {
        for (int i = 0; i < 8; i++) {
          w.m.setStateMachineListener(i % 3 == 0 ? multi : i % 3 == 1 ? null : w.tagged(8));
          multi.add(w.tagged(10 + i));
          Noise.pause(1 + i * 20);
        }
      });
    }
    if (r.nextInt(3) == 0) {
      ts.add("stopping", () -> {
        Run.await(5, () -> w.m.isStarted());
        w.stop();
      });
    }
    ts.start();
    if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
      RaceDetector.stop();
      return;
    }
    report(run);
  }

  private static void report(Run run) {
    long accesses = RaceDetector.accesses;
    Map<String, String> races = RaceDetector.stop();
    run.cover(run.rec.sorted());
    run.engine.count("field and collection accesses checked for races", accesses);
    RaceDetector.accesses = 0;
    run.engine.max("largest number of fields and collections watched", RaceDetector.fieldsSeen.size());
    races.values().stream().limit(3).forEach(x -> run.violate(RACE, x));
  }

  private static void appRaces(Run run) throws Exception {
    Random r = run.r;
    RaceDetector.reset();
    run.onEnd(RaceDetector::stop);
    boolean exit = r.nextBoolean();
    App a = new App(run, exit, r.nextInt(4));
    AtomicBoolean done = new AtomicBoolean();
    Run.Threads ts = run.threads();
    for (int t = 1 + r.nextInt(2); t > 0; t--) {
      ts.add("observer" + t, () -> {
        for (int i = 0; i < 200 && !done.get(); i++) {
          a.observe();
          Noise.pause(1 + i);
        }
      });
    }
    ts.start();
    a.launch();
    // what happens does not matter here, so there are no verdicts on it
    if (!Run.await(10, () -> a.times(App.STARTED) > 0)) {
      run.inconclusive = "the app does not start";
    } else {
      if (r.nextInt(3) == 0) {
        a.error();
      } else {
        a.stop();
      }
      if (Run.await(10, () -> a.times(App.STOPPED) > 0) && !exit) {
        if (r.nextBoolean()) {
          a.start();
          Run.await(10, () -> a.times(App.STARTED) > 1);
        }
        a.stop();
      }
    }
    done.set(true);
    if (!Scn.join(run, ts)) {
      return;
    }
    report(run);
  }
}
