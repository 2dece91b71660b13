package vh;

import java.util.ArrayList;
import java.util.List;
import java.util.Random;
import java.util.concurrent.CountDownLatch;

/** Common pieces of the scenarios. */
final class Scn {

  static final String STALL = "STALL";

  private Scn() {
  }

  /** Mostly small, sometimes large. */
  static int size(Random r, int small, int medium, int large) {
    int k = r.nextInt(40);
    return 1 + r.nextInt(k == 0 ? large : k < 6 ? medium : small);
  }

  static Spec.Gen gen(Random r) {
    Spec.Gen g = new Spec.Gen();
    g.anyPayload = true;
    g.stateScheme = r.nextInt(3) == 0 ? 1 + r.nextInt(3) : 0;
    g.typeScheme = r.nextInt(3) == 0 ? 1 + r.nextInt(3) : 0;
    g.sameNames = r.nextInt(6) == 0;
    g.unique = r.nextInt(3) == 0;
    g.compound = !g.unique && r.nextInt(5) == 0;
    if (r.nextInt(4) == 0) {
      g.pctMapped = 95;
    }
    return g;
  }

  /** Sometimes of a machine without a listener. */
  static Spec table(Run run, Spec.Gen g) {
    g.visible = run.r.nextInt(6) == 0;
    return Spec.table(run.r, g);
  }

  /** Some other payload, since it should not matter which one an event has. */
  static Object payload(Random r, int fid) {
    switch (r.nextInt(6)) {
      case 0:
        return null;
      case 1:
        return "payload";
      case 2:
        return fid;
      case 3:
        return Payloads.make(r.nextInt(Payloads.KINDS), fid);
      default:
        return new Tok(fid, r.nextInt(3));
    }
  }

  /** Adds fires, some of them made by callbacks. */
  static void fires(Random r, Spec s, int roots, int pctChild) {
    List<Integer> level = new ArrayList<>();
    for (int i = 0; i < roots; i++) {
      level.add(fire(r, s, false));
    }
    for (int depth = 0; depth < 3 && !level.isEmpty(); depth++) {
      List<Integer> next = new ArrayList<>();
      for (int fid : level) {
        for (int kind : new int[]{E.BEGIN, E.END, E.ENTRY, E.EXIT, E.UNM}) {
          if (r.nextInt(100) < pctChild) {
            int n = r.nextInt(5) == 0 ? 2 : 1;
            for (int i = 0; i < n; i++) {
              int c = fire(r, s, true);
              s.op(fid, kind, kind == E.ENTRY || kind == E.EXIT ? r.nextInt(2) : 0,
                  new Spec.Op(Spec.Op.FIRE, c));
              next.add(c);
            }
          }
        }
      }
      level = next;
    }
  }

  static int fire(Random r, Spec s, boolean child) {
    int t = r.nextInt(s.types.size());
    if (!s.unique) {
      return s.fireTok(t, child).fid;
    }
    Spec.F f = s.fire(t, child, null);
    f.payload = payload(r, f.fid);
    return f.fid;
  }

  /** Lets callbacks fail, and some of the reports fire events. */
  static void failures(Random r, Spec s, int n, int actions) {
    for (int i = 0; i < n; i++) {
      int kind = new int[]{E.BEGIN, E.ENTRY, E.END, E.EXIT, E.UNM}[r.nextInt(5)];
      int fid = r.nextInt(s.fires.size());
      s.op(fid, kind, kind == E.ENTRY || kind == E.EXIT ? r.nextInt(actions) : 0,
          new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
      if (r.nextInt(3) == 0 && s.opsAt(fid, E.EXC, 0).isEmpty()) {
        s.op(fid, E.EXC, 0, new Spec.Op(Spec.Op.FIRE, fire(r, s, true)));
      }
    }
  }

  /** Lets callbacks take their time. */
  static void pauses(Random r, Spec s, int n, int maxMicros) {
    for (int i = 0; i < n && !s.fires.isEmpty(); i++) {
      int fid = r.nextInt(s.fires.size() + 1) - 1;
      int kind = 1 + r.nextInt(5);
      s.op(fid, kind, 0, new Spec.Op(Spec.Op.PAUSE, 1 + r.nextInt(maxMicros)));
    }
  }

  static World.Opt opt(Run run) {
    World.Opt o = new World.Opt();
    o.exec = new MonExecutor();
    o.listener = 1 + run.r.nextInt(3);
    o.queue = World.queue(run.r.nextInt(12), run.rec);
    o.mapStyle = run.r.nextInt(2);
    o.reuse = run.r.nextInt(4) == 0;
    o.userStates = run.r.nextInt(7) == 0;
    o.direct = run.r.nextInt(6) == 0;
    o.max = run.r.nextInt(4) == 0 ? (run.r.nextBoolean() ? 0 : -5) : -1;
    return o;
  }

  static List<Integer> roots(Spec s) {
    List<Integer> l = new ArrayList<>();
    for (Spec.F f : s.fires) {
      if (!f.child) {
        l.add(f.fid);
      }
    }
    return l;
  }

  /** Fires everything from one thread while nothing is processed, then lets it be processed. */
  static World batch(Run run, Spec s, World.Opt o) throws Exception {
    World w = run.world(s, o);
    run.start(w);
    CountDownLatch free = o.exec.hold();
    for (int fid : roots(s)) {
      w.fire(fid);
    }
    free.countDown();
    settle(run, w);
    return w;
  }

  /** Fires from several threads while the machine is working (and perhaps only being started). */
  static World concurrent(Run run, Spec s, World.Opt o, int threads, boolean startRace)
      throws Exception {
    World w = run.world(s, o);
    if (!startRace) {
      run.start(w);
    }
    Run.Threads ts = run.threads();
    List<Integer> roots = roots(s);
    for (int t = 0; t < threads; t++) {
      List<Integer> mine = new ArrayList<>();
      for (int i = t; i < roots.size(); i += threads) {
        mine.add(roots.get(i));
      }
      ts.add("firing" + t, () -> {
        for (int fid : mine) {
          w.fire(fid);
        }
      });
    }
    if (startRace) {
      ts.add("starting", () -> run.start(w));
    }
    ts.start();
    if (join(run, ts)) {
      settle(run, w);
    }
    return w;
  }

  static boolean join(Run run, Run.Threads ts) throws InterruptedException {
    if (ts.join(30)) {
      return true;
    }
    for (Thread t : ts.all) {
      String b = t.isAlive() ? Run.blockedInLibrary(t, 4) : null;
      if (b != null) {
        run.violate(STALL, "thread " + t.getName() + " is stuck: " + b);
        return false;
      }
    }
    run.inconclusive = "threads did not finish";
    return false;
  }

  /** Waits until everything has been processed. */
  static boolean settle(Run run, World w) {
    if (w.quiesce()) {
      return true;
    }
    if (run.rec.endless()) {
      run.violate(Checker.CONS, "the processing of " + w.spec.fires.size() + " events does not end",
          null);
      return false;
    }
    for (Thread t : w.exec.threads) {
      String b = t.isAlive() ? Run.blockedInLibrary(t, 4) : null;
      if (b != null) {
        run.violate(STALL, "the processing thread is stuck: " + b);
        return false;
      }
    }
    run.inconclusive = "processing did not finish";
    return false;
  }

  static boolean ok(Run run) {
    return run.inconclusive == null && run.violations.isEmpty();
  }

  static Checker finish(Run run, Checker c) {
    run.violateAll(c.out, c.trace);
    run.cover(c.trace);
    return c;
  }

  static Checker full(Run run, World w) {
    return finish(run, new Checker(w).all().quiescent().threads());
  }
}
