package vh;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Optional;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.function.Supplier;

/** C06 to C10: the start, the end, failures and payloads. */
final class ChecksFlow {

  private static final int[] KINDS = {E.BEGIN, E.END, E.ENTRY, E.EXIT, E.UNM};

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C06", ChecksFlow::c06);
    m.put("C07", ChecksFlow::c07);
    m.put("C08", ChecksFlow::c08);
    m.put("C09", ChecksFlow::c09);
    m.put("C10", ChecksFlow::c10);
  }

  // ---------------------------------------------------------------------------------- C06

  static Check c06() {
    Check c = new Check("C06", "machines that end by an event, by reaching an ending state or at "
        + "once, under concurrent fires, starts and observers; everything seen after the end is "
        + "checked; a case is non-trivial if callbacks or reports were recorded; cases are distinct "
        + "if their recorded histories are", Checker.ENDED);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, Checker.ENDED, "T"));
    c.noisy("ends while firing", 35, run -> {
      Spec s = mixed(run, 10 + run.r.nextInt(20), 8);
      Scn.fires(run.r, s, Scn.size(run.r, 16, 60, 300), 10);
      Scn.pauses(run.r, s, 2, 300);
      int threads = 1 + run.r.nextInt(5);
      World w = Scn.concurrent(run, s, Scn.opt(run), threads, run.r.nextInt(3) == 0);
      after(run, w);
    });
    c.noisy("observed", 20, run -> {
      Spec s = mixed(run, 20, 15);
      Scn.fires(run.r, s, 10 + run.r.nextInt(20), 5);
      Scn.pauses(run.r, s, 3, 300);
      World w = run.world(s, Scn.opt(run));
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      ts.add("firing", () -> {
        w.start();
        for (int fid : roots) {
          w.fire(fid);
          Noise.pause(run.r.nextInt(40));
        }
      });
      AtomicBoolean stop = new AtomicBoolean();
      for (int i = 0; i < 2; i++) {
        ts.add("observing" + i, () -> observe(run, w, stop));
      }
      ts.start();
      Run.await(20, () -> !ts.all.get(0).isAlive());
      Scn.settle(run, w);
      Noise.pause(100);
      stop.set(true);
      if (Scn.join(run, ts)) {
        after(run, w);
      }
    });
    c.noisy("initial state ends", 15, run -> {
      Spec s = ending(run, 0, 0);
      s.immEnd[s.init] = true;
      for (int j = 0; j < s.types.size(); j++) {
        s.out[s.init][j] = Spec.UNM;
      }
      Scn.fires(run.r, s, 1 + run.r.nextInt(10), 5);
      ChecksCore.startPauses(run, s);
      if (run.r.nextBoolean()) {
        s.op(-1, E.BEGIN, 0, new Spec.Op(Spec.Op.FIRE, Scn.fire(run.r, s, true)));
      }
      World w = Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(3), true);
      after(run, w);
    });
    c.plain("backlog at the end", 15, run -> {
      Spec s = ending(run, 15, 15);
      Scn.fires(run.r, s, Scn.size(run.r, 40, 300, 3000), 3);
      World.Opt o = Scn.opt(run);
      if (run.r.nextInt(4) == 0) {
        o.dropDup = true;
      }
      World w = Scn.batch(run, s, o);
      after(run, w);
    });
    c.plain("library executor", 10, run -> {
      // a machine that ends by its last event
      Spec s = ending(run, 0, 0);
      int t = run.r.nextInt(s.types.size());
      for (int[] o : s.out) {
        o[t] = Spec.END;
      }
      Scn.fires(run.r, s, run.r.nextInt(10), 0);
      for (Spec.F f : s.fires) {
        while (f.type == t && s.types.size() > 1) {
          f.type = run.r.nextInt(s.types.size());
        }
      }
      World.Opt o = Scn.opt(run);
      o.exec = null;
      World w = run.world(s, o);
      run.start(w);
      for (Spec.F f : s.fires) {
        w.m.fire(new NamedStateEvent<>(s.types.get(f.type)));
      }
      w.m.fire(new NamedStateEvent<>(s.types.get(t)));
      if (!Run.await(10, () -> w.m.isEnded())) {
        run.violate(Checker.ENDED, "the machine did not end within 10 s after the ending event, it "
            + "is in " + w.m.getCurrentState());
      } else if (!"_END_".equals(World.name(w.m.getCurrentState())) || !w.m.isStarted()) {
        run.violate(Checker.ENDED, "an ended machine is seen in " + w.m.getCurrentState());
      }
      run.cover(run.rec.sorted());
    });
    return c;
  }

  private static Spec ending(Run run, int pctEnd, int pctImmEnd) {
    Spec.Gen g = Scn.gen(run.r);
    g.unique = false;
    return ending(run, g, pctEnd, pctImmEnd);
  }

  /** The events have all sorts of payloads and tell themselves apart by their names sometimes. */
  private static Spec mixed(Run run, int pctEnd, int pctImmEnd) {
    Spec.Gen g = Scn.gen(run.r);
    return ending(run, g, pctEnd, pctImmEnd);
  }

  private static Spec ending(Run run, Spec.Gen g, int pctEnd, int pctImmEnd) {
    g.pctEnd = pctEnd;
    g.pctImmEnd = pctImmEnd;
    g.pctMapped = 90;
    return g.pctEnd + g.pctImmEnd > 0 ? Scn.table(run, g) : Spec.table(run.r, g);
  }

  static void observe(Run run, World w, AtomicBoolean stop) {
    boolean started = false;
    boolean ended = false;
    while (!stop.get() && run.violations.isEmpty()) {
      boolean e = w.m.isEnded();
      State<Object, Object> st = w.m.getCurrentState();
      boolean s = w.m.isStarted();
      if (e && !"_END_".equals(World.name(st))) {
        run.violate(Checker.ENDED, "seen as ended but in state " + st);
      }
      if (ended && !e || started && !s) {
        run.violate(Checker.ENDED, "no longer seen as " + (ended && !e ? "ended" : "started"));
      }
      if (e && !s) {
        run.violate(Checker.ENDED, "seen as ended but not as started");
      }
      ended = e;
      started = s;
      Noise.hit(E.OBS);
    }
  }

  /** Once the machine has ended, it is tried to bring it back to life. */
  static void after(Run run, World w) throws Exception {
    if (!Scn.ok(run)) {
      return;
    }
    w.observe();
    Checker before = new Checker(w).parse();
    before.stopFrom = stopFrom(before);
    before.table();
    if (before.finalEnded && w.m.isEnded()) {
      int kind = run.r.nextInt(4);
      if (kind == 0) {
        w.stop();
      } else if (kind == 1) {
        w.start();
      } else if (kind == 2) {
        int st = run.r.nextInt(w.spec.states.size());
        w.call("startInState", () -> w.m.startInState(w.state(w.spec.states.get(st))));
      }
      int n = 1 + run.r.nextInt(3);
      Run.Threads ts = run.threads();
      for (int t = 0; t < n; t++) {
        int k = 1 + run.r.nextInt(3);
        int[] fids = new int[k];
        for (int i = 0; i < k; i++) {
          fids[i] = Scn.fire(run.r, w.spec, false);
        }
        ts.add("late" + t, () -> {
          for (int fid : fids) {
            w.fire(fid);
          }
        });
      }
      ts.start();
      if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
        return;
      }
      w.observe();
      run.engine.count("machines that ended", 1);
    }
    Checker k = new Checker(w);
    k.dropDup = w.opt.dropDup;
    k.parse();
    k.stopFrom = stopFrom(k);
    k.atomicity();
    if (!k.broken) {
      k.table();
    }
    k.conservation();
    k.staysEnded();
    k.quiescent();
    Scn.finish(run, k);
  }

  private static long stopFrom(Checker k) {
    long l = Long.MAX_VALUE;
    for (E e : k.trace) {
      if (e.kind == E.CALL && "stop()".equals(e.note)) {
        l = Math.min(l, e.s0);
      }
    }
    return l > k.knownEnded ? Long.MAX_VALUE : l;
  }

  // ---------------------------------------------------------------------------------- C07

  static Check c07() {
    Check c = new Check("C07", "stop() is called at random moments by threads and callbacks, also "
        + "while a callback blocks; what is seen and called after its return is checked; a case is "
        + "non-trivial if callbacks or reports were recorded; cases are distinct if their recorded "
        + "histories (with threads) are", "STOPPED");
    c.noisy("by other threads", 35, run -> {
      Spec s = ending(run, run.r.nextInt(3) == 0 ? 5 : 0, run.r.nextInt(3) == 0 ? 5 : 0);
      Scn.fires(run.r, s, Scn.size(run.r, 16, 60, 300), 10);
      Scn.pauses(run.r, s, 4, 300);
      World w = run.world(s, Scn.opt(run));
      int st = run.r.nextInt(s.states.size());
      if (run.r.nextInt(5) == 0 && !s.immEnd[st]) {
        w.call("startInState()", () -> w.m.startInState(w.stateObjs.get(s.states.get(st))));
      } else {
        run.start(w);
      }
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      int n = 1 + run.r.nextInt(3);
      for (int t = 0; t < n; t++) {
        int from = t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            w.fire(roots.get(i));
          }
        });
      }
      int stops = 1 + (run.r.nextInt(3) == 0 ? run.r.nextInt(3) : 0);
      for (int t = 0; t < stops; t++) {
        int wait = run.r.nextInt(500);
        ts.add("stopping" + t, () -> {
          Noise.pause(wait);
          w.stop();
          w.observe();
          w.observe();
        });
      }
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        stopped(run, w);
      }
    });
    c.noisy("in callbacks", 20, run -> {
      Spec s = ending(run, 0, 0);
      Scn.fires(run.r, s, Scn.size(run.r, 16, 60, 200), 5);
      int n = 1 + run.r.nextInt(3);
      for (int i = 0; i < n; i++) {
        s.op(run.r.nextInt(s.fires.size()), KINDS[run.r.nextInt(5)], 0,
            new Spec.Op(Spec.Op.STOP, 0));
      }
      if (run.r.nextInt(4) == 0) {
        s.op(-1, new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)], 0,
            new Spec.Op(Spec.Op.STOP, 0));
      }
      World w = run.r.nextBoolean() ? Scn.batch(run, s, Scn.opt(run))
          : Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(4), run.r.nextInt(3) == 0);
      if (Scn.ok(run)) {
        stopped(run, w);
      }
    });
    c.noisy("while starting", 12, run -> {
      Spec s = ending(run, 0, 0);
      s.nEntry[s.init] = 1 + run.r.nextInt(3);
      CountDownLatch in = new CountDownLatch(1);
      s.op(-1, E.BEGIN, 0, new Spec.Op(Spec.Op.RUN, 0, in::countDown));
      ChecksCore.startPauses(run, s);
      Scn.fires(run.r, s, 3 + run.r.nextInt(6), 3);
      World.Opt o = Scn.opt(run);
      World w = run.world(s, o);
      Run.Threads ts = run.threads();
      ts.add("starting", w::start);
      ts.add("firing", () -> {
        in.await(10, TimeUnit.SECONDS);
        for (int fid : Scn.roots(s)) {
          w.fire(fid);
        }
      });
      int wait = run.r.nextInt(600);
      ts.add("stopping", () -> {
        in.await(10, TimeUnit.SECONDS);
        Noise.pause(wait);
        w.stop();
        w.observe();
      });
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        stopped(run, w);
      }
    });
    c.plain("while a callback blocks", 25, ChecksFlow::stopWhileBlocked);
    c.plain("without events", 5, run -> {
      Spec s = ending(run, 0, 0);
      World.Opt o = Scn.opt(run);
      if (run.r.nextBoolean()) {
        o.exec = null;
        o.noStrategy = run.r.nextBoolean();
      }
      World w = run.world(s, o);
      run.start(w);
      int n = 1 + run.r.nextInt(4);
      for (int i = 0; i < n; i++) {
        w.stop();
        w.observe();
      }
      int late = o.noStrategy ? 0 : run.r.nextInt(4);
      for (int i = 0; i < late; i++) {
        w.fire(Scn.fire(run.r, s, false));
        w.observe();
      }
      stopped(run, w);
    });
    return c;
  }

  /** Some callback takes forever; meanwhile the machine is stopped and has to be seen as such. */
  private static void stopWhileBlocked(Run run) throws Exception {
    Spec.Gen g = Scn.gen(run.r);
    g.pctMapped = 90;
    Spec s = Spec.table(run.r, g);
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    AtomicBoolean once = new AtomicBoolean();
    Scn.fires(run.r, s, 3 + run.r.nextInt(run.r.nextInt(4) == 0 ? 300 : 20), 3);
    boolean starting = run.r.nextInt(5) == 0;
    int at = starting ? -1 : run.r.nextInt(Math.min(3, Scn.roots(s).size()));
    Runnable gate = () -> {
      if (once.compareAndSet(false, true)) {
        in.countDown();
        await(free);
      }
    };
    int only = KINDS[run.r.nextInt(5)];
    for (int kind : KINDS) {
      if (kind == only || kind == E.END || kind == E.UNM) {
        s.op(at < 0 ? -1 : Scn.roots(s).get(at), kind, 0, new Spec.Op(Spec.Op.RUN, 0, gate));
      }
    }
    World w = run.world(s, Scn.opt(run));
    Thread starter = new Thread(w::start, "starting");
    starter.setDaemon(true);
    starter.start();
    if (!starting) {
      starter.join(20000);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
    }
    if (!in.await(starting ? 20 : 5, TimeUnit.SECONDS)) {
      free.countDown();
      if (!Scn.settle(run, w)) {
        return;
      }
      run.inconclusive = "the gate was not reached";
      return;
    }
    if (starting) {
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
    }
    Run.Threads ts = run.threads();
    int n = 1 + run.r.nextInt(2);
    for (int i = 0; i < n; i++) {
      ts.add("stopping" + i, () -> {
        w.stop();
        w.observe();
      });
    }
    ts.start();
    boolean done = Run.await(10, () -> ts.all.stream().noneMatch(Thread::isAlive));
    if (!done) {
      for (Thread t : ts.all) {
        String b = Run.blockedInLibrary(t, 3);
        if (b != null) {
          run.violate("STOPPED", "stop() waits for the event in progress: " + b);
          break;
        }
      }
      if (Scn.ok(run)) {
        run.inconclusive = "stop() did not return";
      }
    } else {
      for (int i = 0; i < 3; i++) {
        w.fire(Scn.fire(run.r, s, false));
        w.observe();
      }
      run.engine.count("stops while a callback was blocked", 1);
    }
    free.countDown();
    starter.join(20000);
    if (done && Scn.settle(run, w)) {
      stopped(run, w);
    }
  }

  static void await(CountDownLatch l) {
    try {
      l.await(60, TimeUnit.SECONDS);
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    }
  }

  /** What has to hold once a first stop() returned. */
  static void stopped(Run run, World w) throws Exception {
    w.observe();
    Checker k = new Checker(w).parse();
    E stop = null;
    for (E e : k.trace) {
      if (e.kind == E.CALL && "stop()".equals(e.note)) {
        if (e.ex != null) {
          run.violate("STOPPED", "stop() threw " + Engine.stack(e.ex));
        }
        if (stop == null || e.s1 < stop.s1) {
          stop = e;
        }
      }
    }
    run.cover(k.trace);
    if (stop == null) {
      return;
    }
    run.engine.count("stopped machines", 1);
    long from = stop.s1;
    Set<Integer> going = new HashSet<>();
    E cb = null;
    for (E e : k.trace) {
      if (e.machine != w.m || e.s0 < from) {
        continue;
      }
      if (e.kind <= E.EXC && !(e.kind == E.EXC && k.isRefusal(e))) {
        going.add(e.fid);
        cb = e;
      }
      if (e.kind != E.FIRE && e.kind != E.CALL && (!e.ended || !"_END_".equals(e.cur))) {
        run.violate("STOPPED", "after the return of stop() the machine is not seen as ended in the "
            + "end state: " + e);
        return;
      }
    }
    int allowed = 1;
    // the transition of the start and an event that was taken while it was going on
    if (going.size() > allowed) {
      run.violate("STOPPED", "callbacks of " + going.size() + " events after the return of stop(): "
          + "events " + going + ", last " + cb);
    }
    // an event whose processing began before another one that was in progress cannot be waiting
    for (int fid : going) {
      E f = k.fires.get(fid);
      if (f != null && f.s0 > from) {
        run.violate("STOPPED", "event #" + fid + " was fired after the return of stop() but "
            + "processed: " + cb);
      }
    }
    for (E f : k.fires.values()) {
      int a = k.after.getOrDefault(f.fid, 0);
      int b = k.before.getOrDefault(f.fid, 0);
      int r = k.refused.getOrDefault(f.fid, 0);
      if (f.s0 > from && (a != 1 || b != 0 || r != 0 || f.ex != null)) {
        run.violate("STOPPED", "an event fired after the return of stop() was reported " + a
            + " times as coming after the end: " + f);
        return;
      }
    }
  }

  // ---------------------------------------------------------------------------------- C08

  static Check c08() {
    Check c = new Check("C08", "concurrent and repeated starts, refused starts of incomplete "
        + "machines and events fired around the start; a case is non-trivial if something was "
        + "called or reported; cases are distinct if their recorded histories (with threads) are",
        Checker.START);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, Checker.START, "E"));
    c.noisy("concurrent starts", 35, ChecksFlow::concurrentStarts);
    c.noisy("fires around the start", 30, run -> {
      Spec s = Scn.table(run, Scn.gen(run.r));
      s.nEntry[s.init] = 1 + run.r.nextInt(3);
      Scn.fires(run.r, s, 4 + run.r.nextInt(20), 5);
      ChecksCore.startPauses(run, s);
      int kind = new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)];
      s.op(-1, kind, 0, new Spec.Op(Spec.Op.FIRE, Scn.fire(run.r, s, true)));
      World w = run.world(s, Scn.opt(run));
      List<Integer> roots = Scn.roots(s);
      int early = run.r.nextInt(4);
      for (int i = 0; i < early && i < roots.size(); i++) {
        w.fire(roots.get(i));
      }
      Run.Threads ts = run.threads();
      int n = 1 + run.r.nextInt(3);
      for (int t = 0; t < n; t++) {
        int from = early + t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            w.fire(roots.get(i));
          }
        });
      }
      ts.add("starting", () -> run.start(w));
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        aroundStart(run, w);
      }
    });
    c.plain("refused starts", 20, ChecksFlow::refusedStarts);
    c.plain("stopped before the start", 3, run -> {
      // it has not been started nevertheless
      Spec s = Spec.table(run.r, Scn.gen(run.r));
      Scn.fires(run.r, s, 1 + run.r.nextInt(10), 0);
      World w = run.world(s, Scn.opt(run));
      int at = run.r.nextInt(s.fires.size());
      for (int fid : Scn.roots(s)) {
        if (fid == at) {
          w.m.stop();
        }
        w.fire(fid);
      }
      if (w.m.isStarted()) {
        run.violate(Checker.START, "stop() started the machine");
      }
      if (Scn.settle(run, w)) {
        aroundStart(run, w);
      }
    });
    return c;
  }

  private static void aroundStart(Run run, World w) {
    Checker k = new Checker(w).parse();
    run.cover(k.trace);
    E start = null;
    for (E e : k.trace) {
      if (e.kind == E.CALL && e.machine == w.m && e.note.startsWith("start") && e.ex == null) {
        start = e;
      }
    }
    boolean initial = false;
    for (Checker.Group g : k.groups) {
      if (g.fid == -1) {
        if (initial) {
          run.violate(Checker.START, "a second initial transition: " + g.first());
        }
        initial = true;
      }
      if (k.before.containsKey(g.fid)) {
        run.violate(Checker.START, "an event that was reported as coming before the start was "
            + "processed: " + g.first());
      }
    }
    for (E f : k.fires.values()) {
      int b = k.before.getOrDefault(f.fid, 0);
      boolean early = start == null || f.s1 < start.s0;
      // from within the initial callbacks or later
      boolean late = start != null && (f.s0 > start.s1 || w.spec.fires.get(f.fid).child
          && f.thread == start.thread);
      if (early && b != 1) {
        run.violate(Checker.START, "an event fired before the start was reported " + b
            + " times as such: " + f);
        return;
      }
      if (late && b != 0 || b > 1) {
        run.violate(Checker.START, "an event was reported " + b + " times as coming before the "
            + "start: " + f + ", start: " + start);
        return;
      }
      if (f.ex != null) {
        run.violate(Checker.START, "fire() threw: " + f);
      }
    }
  }

  private static void concurrentStarts(Run run) throws Exception {
    Spec s = Spec.table(run.r, Scn.gen(run.r));
    Scn.fires(run.r, s, run.r.nextInt(10), 0);
    ChecksCore.startPauses(run, s);
    if (run.r.nextInt(5) == 0) {
      s.op(-1, new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)], 0,
          new Spec.Op(Spec.Op.RUN, 0, () -> { }));
    }
    World w = run.world(s, Scn.opt(run));
    // a start from within the start
    int nested = run.r.nextInt(6);
    List<E> calls = java.util.Collections.synchronizedList(new ArrayList<>());
    if (nested < 2) {
      s.op(-1, new int[]{E.BEGIN, E.ENTRY, E.END}[run.r.nextInt(3)], 0,
          new Spec.Op(Spec.Op.RUN, 0, () -> calls.add(nested == 0 ? w.start()
              : w.call("startInState " + s.init,
                  () -> w.m.startInState(w.stateObjs.get(s.states.get(s.init)))))));
    }
    Run.Threads ts = run.threads();
    int n = 2 + run.r.nextInt(4);
    for (int t = 0; t < n; t++) {
      boolean plain = run.r.nextInt(3) != 0;
      int st = run.r.nextInt(s.states.size());
      int times = 1 + run.r.nextInt(2);
      ts.add("starting" + t, () -> {
        for (int i = 0; i < times; i++) {
          E e = plain ? w.start() : w.call("startInState " + st,
              () -> w.m.startInState(w.stateObjs.get(s.states.get(st))));
          calls.add(e);
        }
      });
    }
    ts.start();
    if (!ts.join(30)) {
      for (Thread t : ts.all) {
        String b = t.isAlive() ? Run.blockedInLibrary(t, 3) : null;
        if (b != null) {
          run.violate(Checker.START, "a start does not return: " + b);
          return;
        }
      }
      run.inconclusive = "starts did not return";
      return;
    }
    E won = null;
    for (E e : calls) {
      if (e.ex == null) {
        if (won != null) {
          run.violate(Checker.START, "two starts succeeded: " + won + " and " + e);
          return;
        }
        won = e;
      } else if (!(e.ex instanceof IllegalStateException)) {
        run.violate(Checker.START, "a start threw " + Engine.stack(e.ex));
        return;
      }
    }
    if (won == null) {
      run.violate(Checker.START, "no start succeeded, one threw " + Engine.stack(calls.get(0).ex));
      return;
    }
    int state = won.note.equals("start()") ? s.init : Integer.parseInt(won.note.substring(13));
    for (int fid : Scn.roots(s)) {
      w.fire(fid);
    }
    if (!Scn.settle(run, w)) {
      return;
    }
    Checker k = new Checker(w);
    k.startState = state;
    k.startedInState = !won.note.equals("start()");
    k.parse();
    run.cover(k.trace);
    int cbs = 0;
    for (E e : k.trace) {
      if (e.fid == -1 && e.kind <= E.UNM) {
        cbs++;
        if (won.thread != e.thread) {
          run.violate(Checker.START, "the start's callback was made by a thread whose start failed: "
              + e);
        }
      }
    }
    int want = k.startedInState ? 0 : s.expectStart(state).cbs.size();
    if (cbs != want) {
      run.violate(Checker.START, cbs + " callbacks of the start instead of " + want + " after " + won);
    }
    // the machine is in the state of the start that succeeded, the others had no effect
    k.table();
    for (Run.Viol v : k.out) {
      if (v.tag.equals(Checker.TABLE)) {
        run.violate(Checker.START, "after " + won + ": " + v.msg);
      }
    }
    if (s.fires.isEmpty()) {
      String cur = World.name(w.m.getCurrentState());
      if (!s.states.get(state).equals(cur) || !w.m.isStarted() || w.m.isEnded()) {
        run.violate(Checker.START, "after " + won + " the machine is in state " + E.q(cur)
            + (w.m.isEnded() ? " and ended" : ""));
      }
    }
    startsAfter(run, w);
  }

  /** A machine is only started once, also if it has ended in the meantime. */
  private static void startsAfter(Run run, World w) {
    Random r = run.r;
    if (r.nextInt(3) == 0) {
      w.m.stop();
    }
    State<Object, Object> before = w.m.getCurrentState();
    boolean ended = w.m.isEnded();
    int n = 1 + r.nextInt(3);
    for (int i = 0; i < n && Scn.ok(run); i++) {
      boolean interrupted = r.nextInt(3) == 0;
      if (interrupted) {
        Thread.currentThread().interrupt();
      }
      E e = r.nextBoolean() ? w.call("start() again", w.m::start)
          : w.call("startInState again", () -> w.m.startInState(
              w.stateObjs.get(w.spec.states.get(r.nextInt(w.spec.states.size())))));
      if (interrupted && !Thread.interrupted()) {
        run.violate(Checker.START, "the interrupt flag was lost: " + e);
      }
      if (!(e.ex instanceof IllegalStateException) || w.m.getCurrentState() != before
          || w.m.isEnded() != ended || !w.m.isStarted()) {
        run.violate(Checker.START, "not refused: " + e + " " + Engine.stack(e.ex) + ", the machine "
            + "was in state " + E.q(World.name(before)) + " and is now in "
            + E.q(World.name(w.m.getCurrentState())));
      }
    }
  }

  /** Starts that have to be refused leave the machine as it was. */
  private static void refusedStarts(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.unique = false;
    g.stateScheme = 0;
    g.typeScheme = 0;
    Spec s = Spec.table(r, g);
    World.Opt o = Scn.opt(run);
    o.open = true;
    World w = new World(s, run.rec, o, r);
    run.onEnd(w::dispose);
    int kind = r.nextInt(4);
    Runnable complete = null;
    if (kind == 0) {
      // nothing configured at all
      w.buildMachine();
      complete = w::configure;
    } else if (kind == 1) {
      w.build();
      int st = r.nextInt(s.states.size());
      NamedStateEvent<Object> open = new NamedStateEvent<>("no outcome yet");
      w.m.when(w.stateObjs.get(s.states.get(st))).receives(open);
      int out = r.nextInt(3);
      complete = () -> {
        if (out == 0) {
          w.m.itDoesNotTransition();
        } else if (out == 1) {
          w.m.itEnds();
        } else {
          w.m.itTransitionsTo(w.stateObjs.get(s.states.get(0)));
        }
      };
    } else {
      w.build();
    }
    boolean bad = kind < 2;
    boolean target = !bad && r.nextBoolean();
    if (target) {
      // a state that is only reached is not configured
      w.m.when(w.stateObjs.get(s.states.get(r.nextInt(s.states.size()))))
          .receives(new NamedStateEvent<>("to a target")).itTransitionsTo(new NamedState<>("target"));
    }
    int n = 1 + r.nextInt(4);
    for (int i = 0; i < n; i++) {
      E e;
      int what = r.nextInt(bad ? 6 : 4);
      switch (what) {
        case 0:
          e = refused(run, w, "startInState of an unknown state",
              () -> w.m.startInState(new NamedState<>(target ? "target" : "not configured")));
          break;
        case 1:
          e = refused(run, w, "startInState of a reserved state",
              () -> w.m.startInState(new NamedState<>(new String[]{"_END_", "_NOOP_",
                  "_UNINITIALISED_"}[r.nextInt(3)])));
          break;
        case 2:
          w.fire(Scn.fire(r, s, false));
          break;
        case 3:
          refused(run, w, "startInState of a state with a similar name",
              () -> w.m.startInState(new NamedState<>(s.states.get(0) + " ")));
          break;
        case 4:
          refused(run, w, "start of an incomplete machine", () -> w.m.start());
          break;
        default:
          refused(run, w, "startInState of an incomplete machine", () -> w.m.startInState(
              w.state(s.states.get(r.nextInt(s.states.size())))));
          break;
      }
      if (!Scn.ok(run)) {
        return;
      }
    }
    if (complete != null) {
      complete.run();
    }
    E st = w.start();
    if (st.ex != null) {
      run.violate(Checker.START, "start failed after starts that were refused: "
          + Engine.stack(st.ex));
      return;
    }
    if (r.nextBoolean()) {
      w.fire(Scn.fire(r, s, false));
    }
    if (!Scn.settle(run, w)) {
      return;
    }
    if (r.nextInt(3) == 0) {
      w.stop();
    }
    String cur = World.name(w.m.getCurrentState());
    int size = run.rec.size();
    for (int i = 0; i < 2; i++) {
      boolean plain = r.nextBoolean();
      E again = plain ? w.start() : w.call("startInState again",
          () -> w.m.startInState(w.stateObjs.get(s.states.get(r.nextInt(s.states.size())))));
      size++;
      if (!(again.ex instanceof IllegalStateException)) {
        run.violate(Checker.START, "a second start was not refused with an IllegalStateException: "
            + again);
      }
    }
    if (run.rec.size() != size || !cur.equals(World.name(w.m.getCurrentState()))) {
      run.violate(Checker.START, "a refused start had an effect, the state is "
          + w.m.getCurrentState() + " instead of " + cur);
    }
    aroundStart(run, w);
  }

  private static E refused(Run run, World w, String what, Runnable c) {
    int size = run.rec.size();
    E e = w.call(what, c);
    if (!(e.ex instanceof IllegalStateException)) {
      run.violate(Checker.START, "was not refused with an IllegalStateException: " + e);
    } else if (w.m.isStarted() || w.m.isEnded() || run.rec.size() != size + 1) {
      run.violate(Checker.START, "was refused but had an effect (started " + w.m.isStarted()
          + ", ended " + w.m.isEnded() + "): " + e);
    }
    return e;
  }

  // ---------------------------------------------------------------------------------- C09

  static Check c09() {
    Check c = new Check("C09", "exceptions and errors of 38 kinds thrown at random callbacks (and by "
        + "the unexpected-flow listener); reports, skipped steps, resulting state and the fate of "
        + "all other events are compared with a model; a case is non-trivial if at least one event "
        + "was processed; cases are distinct if their recorded histories are", Checker.EXC,
        Checker.CONS, Checker.ORDER, Checker.TABLE, Scn.STALL);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, Checker.EXC, "R"));
    c.plain("sequential", 35, run -> {
      Spec s = failing(run, Scn.size(run.r, 12, 60, 400), true);
      Scn.full(run, Scn.batch(run, s, Scn.opt(run)));
    });
    c.plain("one by one", 15, run -> {
      Spec s = failing(run, 1 + run.r.nextInt(20), true);
      World w = run.world(s, Scn.opt(run));
      throwingReports(run, w, run.r.nextInt(3));
      run.start(w);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
        if (!Scn.settle(run, w)) {
          return;
        }
      }
      Scn.full(run, w);
    });
    c.noisy("concurrent", 30, run -> {
      Spec s = failing(run, Scn.size(run.r, 16, 60, 300), true);
      World.Opt o = Scn.opt(run);
      World w = run.world(s, o);
      throwingReports(run, w, run.r.nextInt(4));
      run.start(w);
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      int n = 1 + run.r.nextInt(5);
      for (int t = 0; t < n; t++) {
        int from = t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            w.fire(roots.get(i));
          }
        });
      }
      ts.start();
      if (Scn.join(run, ts) && Scn.settle(run, w)) {
        Scn.full(run, w);
      }
    });
    c.plain("stopped before", 10, run -> {
      Spec s = failing(run, Scn.size(run.r, 12, 60, 200), false);
      for (Map.Entry<Long, List<Spec.Op>> at : s.ops.entrySet()) {
        // some of those that fail stop the machine at first
        if (run.r.nextInt(3) == 0 && at.getValue().stream().anyMatch(o -> o.k == Spec.Op.THROW)) {
          at.getValue().add(0, new Spec.Op(Spec.Op.STOP, 0));
        }
      }
      World w = Scn.batch(run, s, Scn.opt(run));
      if (!Scn.ok(run)) {
        return;
      }
      Checker k = new Checker(w).parse();
      k.stopFrom = stopFrom(k);
      k.atomicity();
      if (!k.broken) {
        k.table();
      }
      k.conservation();
      k.quiescent();
      Scn.finish(run, k);
    });
    c.plain("library executor", 15, run -> {
      Spec s = failing(run, 3 + run.r.nextInt(20), false);
      World.Opt o = Scn.opt(run);
      o.exec = null;
      World w = run.world(s, o);
      throwingReports(run, w, run.r.nextInt(3));
      run.start(w);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
      Checker k = ChecksCore.awaitOutcomes(run, w);
      if (k != null) {
        Scn.finish(run, k.all());
      }
    });
    return c;
  }

  static Spec failing(Run run, int n, boolean ends) {
    Spec.Gen g = Scn.gen(run.r);
    if (run.r.nextInt(3) == 0) {
      g.pctNoop = 40;
    }
    if (ends && run.r.nextInt(3) == 0) {
      // the last event may fail, too
      g.pctEnd = 5 + run.r.nextInt(20);
      g.pctImmEnd = run.r.nextInt(20);
    }
    Spec s = Scn.table(run, g);
    Scn.fires(run.r, s, n, 6);
    int k = 1 + run.r.nextInt(1 + s.fires.size() / 2);
    Scn.failures(run.r, s, k, 3);
    return s;
  }

  /** Lets the reports of some events fail as well. */
  static void throwingReports(Run run, World w, int n) {
    for (int i = 0; i < n; i++) {
      int kind = 1 + run.r.nextInt(Throwables.KINDS - 1);
      w.uflThrows.put(run.r.nextInt(w.spec.fires.size()), Throwables.make(kind));
    }
  }

  // ---------------------------------------------------------------------------------- C10

  /** A payload that must not be touched. */
  static final class Hostile {

    final int n;

    Hostile(int n) {
      this.n = n;
    }

    @Override
    public boolean equals(Object o) {
      throw new IllegalStateException("equals of a payload was called");
    }

    @Override
    public int hashCode() {
      throw new IllegalStateException("hashCode of a payload was called");
    }

    @Override
    public String toString() {
      return "hostile" + n;
    }
  }

  static Check c10() {
    Check c = new Check("C10", "event instances that are fired again and again with changing "
        + "payloads (also none, and objects equal to each other) before they are processed; each "
        + "processed event must show one of the fired (name, payload object) pairs in all its "
        + "callbacks, as often as that was fired; a case is non-trivial if at least one event was "
        + "processed; cases are distinct if their recorded histories are", Checker.PAYLOAD);
    c.plain("reused instances", 40, run -> reused(run, 1, true));
    c.noisy("reused instances while processing", 30, run -> reused(run, 1 + run.r.nextInt(4),
        false));
    c.noisy("fresh instances", 15, run -> {
      Spec.Gen g = Scn.gen(run.r);
      g.unique = true;
      Spec s = Spec.table(run.r, g);
      Scn.fires(run.r, s, Scn.size(run.r, 20, 60, 300), 10);
      if (run.r.nextBoolean()) {
        int kind = KINDS[run.r.nextInt(5)];
        s.op(run.r.nextInt(s.fires.size()), kind, 0,
            new Spec.Op(Spec.Op.THROW, 1 + run.r.nextInt(Throwables.EXCEPTIONS)));
      }
      Scn.full(run, Scn.concurrent(run, s, Scn.opt(run), 1 + run.r.nextInt(5), false));
    });
    return c;
  }

  /** Each thread has one instance per name; what was fired is compared with what was seen. */
  private static void reused(Run run, int threads, boolean batch) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.unique = false;
    g.pctNoop = 20;
    Spec s = Spec.table(r, g);
    World.Opt o = Scn.opt(run);
    o.spoil = r.nextInt(3) == 0;
    World w = run.world(s, o);
    run.start(w);
    CountDownLatch free = batch ? o.exec.hold() : null;
    int n = Scn.size(r, 16, 80, 600);
    boolean shared = batch && r.nextBoolean();
    List<List<Object[]>> fired = new ArrayList<>();
    Run.Threads ts = run.threads();
    Map<String, NamedStateEvent<Object>> common = new HashMap<>();
    Map<Object, Object> commonLast = new IdentityHashMap<>();
    boolean throwing = r.nextInt(4) == 0;
    if (throwing) {
      w.throwAt = 2 + r.nextInt(10);
    }
    for (int t = 0; t < threads; t++) {
      List<Object[]> mine = new ArrayList<>();
      fired.add(mine);
      Random tr = new Random(r.nextLong());
      Map<String, NamedStateEvent<Object>> own = shared ? common : new HashMap<>();
      // what an event shows is not asked before it is processed
      Map<Object, Object> last = shared ? commonLast : new IdentityHashMap<>();
      Run.Body b = () -> {
        for (int i = 0; i < n; i++) {
          String name = s.types.get(tr.nextInt(s.types.size()));
          NamedStateEvent<Object> ev = own.computeIfAbsent(name, NamedStateEvent::new);
          if (tr.nextInt(4) != 0) {
            set(ev, any(tr, i), last);
          }
          StateEvent<Object> inst = tr.nextInt(6) == 0 ? new NamedStateEvent<>(ev) : ev;
          mine.add(new Object[]{name, last.get(ev)});
          E e = new E();
          e.kind = E.FIRE;
          e.ev = name;
          e.payload = null;
          e.note = String.valueOf(inst.getPayload());
          e.machine = w.m;
          run.rec.enter(e);
          w.m.fire(inst);
          run.rec.leave(e);
          if (tr.nextInt(2) == 0) {
            set(ev, any(tr, -i), last);
          }
        }
      };
      if (batch) {
        b.run();
      } else {
        ts.add("firing" + t, b);
      }
    }
    if (r.nextInt(3) == 0) {
      // callbacks do so, too
      List<Object[]> mine = new ArrayList<>();
      fired.add(mine);
      Random cr = new Random(r.nextLong());
      Map<String, NamedStateEvent<Object>> own = new HashMap<>();
      Map<Object, Object> last = new IdentityHashMap<>();
      int[] left = {n};
      int every = 1 + r.nextInt(6);
      w.each = e -> {
        if (!Checker.isProcessing(e) || !o.exec.isWorker(e.thread) || e.s0 % every != 0
            || left[0]-- <= 0) {
          return;
        }
        String name = s.types.get(cr.nextInt(s.types.size()));
        NamedStateEvent<Object> ev = own.computeIfAbsent(name, NamedStateEvent::new);
        set(ev, any(cr, 7000 + left[0]), last);
        mine.add(new Object[]{name, last.get(ev)});
        w.m.fire(ev);
        if (cr.nextInt(3) != 0) {
          set(ev, any(cr, 8000 + left[0]), last);
        }
      };
    }
    ts.start();
    if (free != null) {
      free.countDown();
    }
    if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
      return;
    }
    // groups: from a begin or an unmapped call up to the next one
    List<E> trace = run.rec.sorted();
    Map<String, IdentityHashMap<Object, int[]>> count = new HashMap<>();
    Object none = new Object();
    for (List<Object[]> l : fired) {
      for (Object[] f : l) {
        count.computeIfAbsent((String) f[0], k -> new IdentityHashMap<>())
            .computeIfAbsent(f[1] == null ? none : f[1], k -> new int[1])[0]++;
      }
    }
    E first = null;
    int groups = 0;
    for (E e : trace) {
      if (e.machine != w.m || e.kind > E.EXC || e.fid == -1) {
        continue;
      }
      if (e.kind == E.BEGIN || e.kind == E.UNM) {
        first = e;
        groups++;
        IdentityHashMap<Object, int[]> m = count.get(e.ev);
        int[] left = m == null ? null : m.get(e.payload == null ? none : e.payload);
        if (left == null) {
          run.violate(Checker.PAYLOAD, "an event was processed with a payload it never had when it "
              + "was fired: " + e);
          break;
        }
        if (left[0]-- == 0) {
          run.violate(Checker.PAYLOAD, "more events were processed with this payload than were fired"
              + ": " + e);
          break;
        }
      } else if (first == null || first.payload != e.payload || !first.ev.equals(e.ev)) {
        run.violate(Checker.PAYLOAD, "the event changed while it was processed: " + first + " and "
            + e);
        break;
      }
    }
    run.engine.count("payloads compared", groups);
    run.cover(trace);
  }

  private static void set(StateEvent<Object> ev, Object payload, Map<Object, Object> last) {
    ev.setPayload(payload);
    last.put(ev, payload);
  }

  private static final Object[] ONLY = {Optional.empty(), Boolean.TRUE, Boolean.FALSE, "", 0, 0L,
      0.0, List.of(), Map.of(), Object.class, Thread.State.NEW, Collections.emptyList(), ' ', "null"};

  private static Object any(Random r, int i) {
    switch (r.nextInt(10)) {
      case 8:
        return Payloads.make(r.nextInt(Payloads.KINDS), i);
      case 9:
        return ONLY[r.nextInt(ONLY.length)];
      case 0:
        return null;
      case 1:
        return new String("same");
      case 2:
        return Integer.valueOf(1000 + i);
      case 3:
        return new int[]{i};
      case 4:
        return new Hostile(i);
      case 5:
        return new ArrayList<>();
      case 6:
        return new NamedStateEvent<>("payload");
      default:
        return new Tok(-5);
    }
  }
}
