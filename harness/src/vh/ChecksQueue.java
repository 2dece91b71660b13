package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.LinkedBlockingDeque;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.function.Supplier;

/** C11 to C14: queues, their bounds and sizes, and independent machines. */
final class ChecksQueue {

  private static final int[] KINDS = {E.BEGIN, E.END, E.ENTRY, E.EXIT, E.UNM};

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C11", ChecksQueue::c11);
    m.put("C12", ChecksQueue::c12);
    m.put("C13", ChecksQueue::c13);
    m.put("C14", ChecksQueue::c14);
  }

  /** Fires the given events from some threads and waits for the threads. */
  static boolean fireAll(Run run, World w, List<Integer> fids, int threads) throws Exception {
    if (threads <= 1) {
      for (int fid : fids) {
        w.fire(fid);
      }
      return true;
    }
    Run.Threads ts = run.threads();
    for (int t = 0; t < threads; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < fids.size(); i += threads) {
          w.fire(fids.get(i));
        }
      });
    }
    ts.start();
    return Scn.join(run, ts);
  }

  private static Spec plain(Run run) {
    Spec.Gen g = Scn.gen(run.r);
    return Spec.table(run.r, g);
  }

  private static List<Integer> more(Run run, Spec s, int n) {
    List<Integer> l = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      l.add(Scn.fire(run.r, s, false));
    }
    return l;
  }

  // ---------------------------------------------------------------------------------- C11

  static Check c11() {
    Check c = new Check("C11", "machines with bounded queues (and user queues that decline offers) "
        + "under concurrent fires; the number of accepted events is compared with the room there was "
        + "while nothing is processed, and the exact size history of an instrumented queue with each "
        + "refusal; a case is non-trivial if events were fired; cases are distinct if their recorded "
        + "histories (with threads) are", Checker.REFUSE);
    c.noisy("nothing is processed", 35, run -> rounds(run, false));
    c.noisy("declined offers", 15, run -> rounds(run, true));
    c.noisy("while processing", 30, run -> {
      Spec s = plain(run);
      Scn.fires(run.r, s, Scn.size(run.r, 20, 80, 300), run.r.nextInt(3) == 0 ? 30 : 8);
      Scn.pauses(run.r, s, 6, 300);
      World.Opt o = Scn.opt(run);
      o.max = 1 + run.r.nextInt(run.r.nextInt(4) == 0 ? 20 : 3);
      MonQueue<EventMachinePair<Object, Object>> q = null;
      if (run.r.nextInt(3) != 0) {
        q = new MonQueue<>(run.rec);
        o.queue = q;
      }
      World w = run.world(s, o);
      run.start(w);
      if (fireAll(run, w, Scn.roots(s), 1 + run.r.nextInt(6)) && Scn.settle(run, w)) {
        refusals(run, w, q, o.max);
      }
    });
    c.plain("declined at will", 6, ChecksQueue::declinedAtWill);
    c.plain("large maximum", 8, ChecksBulk::largeMaximum);
    c.plain("unbounded", 8, run -> {
      Spec s = plain(run);
      World.Opt o = Scn.opt(run);
      o.max = new int[]{0, -1, -2, Integer.MIN_VALUE}[run.r.nextInt(4)];
      World w = run.world(s, o);
      run.start(w);
      int n = s.unique ? 50 : Scn.size(run.r, 200, 2000, 20000);
      if (s.unique) {
        s = w.spec;
      }
      CountDownLatch free = o.exec.hold();
      List<Integer> l = more(run, s, n);
      boolean done = fireAll(run, w, l, 1 + run.r.nextInt(3));
      free.countDown();
      if (done && Scn.settle(run, w)) {
        Checker k = new Checker(w).parse();
        run.cover(k.trace);
        if (!k.refused.isEmpty()) {
          run.violate(Checker.REFUSE, k.refused.size() + " events were refused with a maximum of "
              + o.max);
        }
        for (E f : k.fires.values()) {
          if (f.ex != null || k.processed.getOrDefault(f.fid, 0) != 1) {
            run.violate(Checker.REFUSE, "with a maximum of " + o.max + " an event was processed "
                + k.processed.getOrDefault(f.fid, 0) + " times: " + f);
            break;
          }
        }
      }
    });
    return c;
  }

  /** The exact number of events is accepted whenever the queue is empty and not drained. */
  private static void rounds(Run run, boolean declining) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    Spec s = Spec.table(r, g);
    World.Opt o = Scn.opt(run);
    int max = 1 + r.nextInt(r.nextInt(6) == 0 ? 200 : 5);
    o.max = max;
    if (declining) {
      o.queue = r.nextInt(3) == 0 ? new ArrayBlockingQueue<>(max)
          : r.nextBoolean() ? new LinkedBlockingQueue<>(max) : new LinkedBlockingDeque<>(max);
      o.max = r.nextInt(3) == 0 ? max + 1 + r.nextInt(3) : -1;
    }
    if (s.unique && r.nextInt(4) == 0) {
      o.dropDup = true;
    }
    int rounds = 1 + r.nextInt(5);
    List<List<Integer>> all = new ArrayList<>();
    for (int i = 0; i < rounds; i++) {
      List<Integer> l = more(run, s, r.nextInt(max * 2 + 4));
      all.add(l);
      if (r.nextInt(2) == 0 && !l.isEmpty()) {
        s.op(l.get(r.nextInt(l.size())), KINDS[r.nextInt(5)], 0,
            new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
      }
    }
    World w = run.world(s, o);
    run.start(w);
    for (int i = 0; i < rounds; i++) {
      CountDownLatch free;
      boolean inCallback = r.nextInt(3) == 0;
      if (inCallback) {
        // the event in progress does not take a place
        CountDownLatch in = new CountDownLatch(1);
        CountDownLatch out = new CountDownLatch(1);
        w.gate = () -> {
          in.countDown();
          ChecksFlow.await(out);
        };
        int first = s.unique ? all.get(i).isEmpty() ? -1 : all.get(i).remove(0)
            : Scn.fire(r, s, false);
        if (first < 0) {
          w.gate = null;
          continue;
        }
        w.fire(first);
        if (!in.await(20, TimeUnit.SECONDS)) {
          run.inconclusive = "the gate was not reached";
          return;
        }
        free = out;
      } else {
        free = o.exec.hold();
      }
      List<Integer> l = all.get(i);
      boolean done = fireAll(run, w, l, 1 + r.nextInt(6));
      free.countDown();
      if (!done || !Scn.settle(run, w)) {
        return;
      }
      Checker k = new Checker(w).parse();
      int refused = 0;
      int processed = 0;
      for (int fid : l) {
        refused += k.refused.containsKey(fid) ? 1 : 0;
        processed += k.processed.containsKey(fid) ? 1 : 0;
      }
      int want = Math.min(l.size(), max);
      if (processed != want || refused != l.size() - want) {
        run.violate(Checker.REFUSE, "round " + i + ": of " + l.size() + " events that were fired at "
            + "an empty queue with room for " + max + ", " + processed + " were accepted and "
            + refused + " refused");
        return;
      }
      run.engine.count("refused events", refused);
      run.engine.count("accepted events", processed);
    }
    refusals(run, w, null, max);
  }

  /** A queue that has its own rules, whether something is waiting or not. */
  private static void declinedAtWill(Run run) throws Exception {
    Random r = run.r;
    Spec s = plain(run);
    Scn.fires(r, s, Scn.size(r, 20, 80, 300), 8);
    World.Opt o = Scn.opt(run);
    o.max = -1;
    o.dropDup = s.unique && r.nextInt(3) == 0;
    MonQueue<EventMachinePair<Object, Object>> q = new MonQueue<>(run.rec);
    int pct = r.nextInt(4) == 0 ? 100 : 10 + r.nextInt(80);
    int seed = r.nextInt();
    q.declines = i -> new Random(seed + 31L * i).nextInt(100) < pct;
    o.queue = q;
    World w = run.world(s, o);
    run.start(w);
    CountDownLatch free = r.nextBoolean() ? o.exec.hold() : new CountDownLatch(0);
    boolean done = fireAll(run, w, Scn.roots(s), 1 + r.nextInt(4));
    free.countDown();
    if (done && Scn.settle(run, w)) {
      refusals(run, w, null, Integer.MAX_VALUE - 1);
      Checker k = new Checker(w).parse();
      int refused = k.refused.size();
      int accepted = q.accepted();
      if (Scn.ok(run) && refused != k.fires.size() - accepted) {
        run.violate(Checker.REFUSE, "the queue took " + accepted + " of " + k.fires.size()
            + " events and " + refused + " were reported as refused");
      }
    }
  }

  /** How events were refused, and that they were for a reason. */
  private static void refusals(Run run, World w, MonQueue<?> q, int max) {
    Checker k = new Checker(w).parse();
    run.cover(k.trace);
    if (q != null && q.max > max) {
      run.violate(Checker.REFUSE, q.max + " events were waiting with a maximum of " + max);
      return;
    }
    for (E e : k.trace) {
      if (e.kind == E.EXC && e.machine == w.m && k.isRefusal(e)) {
        if (!(e.ex instanceof IllegalStateException)) {
          run.violate(Checker.REFUSE, "a refusal was not reported as an IllegalStateException: " + e);
          return;
        }
        if (e.exThread != e.thread) {
          run.violate(Checker.REFUSE, "a refusal was reported for thread " + e.exThread + ": " + e);
          return;
        }
        Spec.F f = w.spec.fires.get(e.fid);
        if (!f.name.equals(e.ev)) {
          run.violate(Checker.REFUSE, "a refusal was reported with another event: " + e);
          return;
        }
      }
    }
    int n = 0;
    for (E f : k.fires.values()) {
      int p = k.processed.getOrDefault(f.fid, 0);
      int x = k.refused.getOrDefault(f.fid, 0);
      if (f.ex != null) {
        run.violate(Checker.REFUSE, "fire() threw " + Engine.stack(f.ex));
        return;
      }
      if (p + x != 1) {
        run.violate(Checker.REFUSE, "an event was processed " + p + " times and refused " + x
            + " times: " + f);
        return;
      }
      if (x > 0) {
        n++;
        if (q != null) {
          int m = q.maxIn(f.s0, f.s1);
          if (m < max) {
            run.violate(Checker.REFUSE, "an event was refused while never more than " + m + " of "
                + max + " were waiting: " + f);
            return;
          }
        }
      }
    }
    run.engine.count("refused events while processing", n);
    // whatever the queue: accepted events that are not being processed are waiting
    List<long[]> changes = new ArrayList<>();
    for (E f : k.fires.values()) {
      if (k.processed.containsKey(f.fid)) {
        changes.add(new long[]{f.s1, 1});
      }
    }
    for (Checker.Group g : k.groups) {
      if (g.fid >= 0) {
        changes.add(new long[]{g.first().s0, -1});
      }
    }
    changes.sort((a, b) -> Long.compare(a[0], b[0]));
    int waiting = 0;
    for (long[] c : changes) {
      waiting += (int) c[1];
      if (waiting > max + 1) {
        run.violate(Checker.REFUSE, (waiting - 1) + " or more events were waiting at " + c[0]
            + " with a maximum of " + max);
        return;
      }
    }
  }

  // ---------------------------------------------------------------------------------- C12

  static Check c12() {
    Check c = new Check("C12", "events with few names fired concurrently at machines that drop "
        + "duplicates, while nothing is processed (exactly the first of each name survives), while "
        + "one event is in progress, and freely; a case is non-trivial if events were fired; cases "
        + "are distinct if their recorded histories (with threads) are", "DUP");
    c.noisy("nothing is processed", 35, run -> {
      Random r = run.r;
      Spec s = dup(run);
      World.Opt o = Scn.opt(run);
      o.dropDup = true;
      World w = run.world(s, o);
      run.start(w);
      int rounds = 1 + r.nextInt(4);
      int busy = r.nextInt(3);
      for (int i = 0; i < rounds; i++) {
        // sometimes the worker is in a callback of an event that may be fired again
        CountDownLatch out = new CountDownLatch(1);
        CountDownLatch free = out;
        int first = -1;
        if (busy == 0) {
          CountDownLatch in = new CountDownLatch(1);
          w.gate = () -> {
            in.countDown();
            ChecksFlow.await(out);
          };
          first = Scn.fire(r, s, false);
          w.fire(first);
          if (!in.await(20, TimeUnit.SECONDS)) {
            run.inconclusive = "the gate was not reached";
            return;
          }
        } else {
          free = o.exec.hold();
        }
        List<Integer> l = more(run, s, r.nextInt(14));
        if (r.nextInt(4) == 0 && !l.isEmpty()) {
          s.op(l.get(r.nextInt(l.size())), KINDS[r.nextInt(5)], 0,
              new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
        }
        int threads = 1 + r.nextInt(5);
        boolean done = fireAll(run, w, l, threads);
        free.countDown();
        if (!done || !Scn.settle(run, w)) {
          return;
        }
        Checker k = new Checker(w).parse();
        Map<String, List<Integer>> byName = new HashMap<>();
        Set<String> names = new HashSet<>();
        for (int fid : l) {
          names.add(s.fires.get(fid).name);
          if (k.processed.containsKey(fid)) {
            byName.computeIfAbsent(s.fires.get(fid).name, x -> new ArrayList<>()).add(fid);
          }
        }
        for (String n : names) {
          List<Integer> got = byName.getOrDefault(n, List.of());
          if (got.size() != 1) {
            run.violate("DUP", got.size() + " events " + E.q(n) + " were processed of those that "
                + "were fired while nothing was processed: " + got);
            return;
          }
          if (threads == 1) {
            int want = -1;
            for (int fid : l) {
              if (want < 0 && s.fires.get(fid).name.equals(n)) {
                want = fid;
              }
            }
            if (got.get(0) != want) {
              run.violate("DUP", "event #" + got.get(0) + " " + E.q(n) + " was processed instead of #"
                  + want + " that was waiting when it was fired");
              return;
            }
          }
        }
        if (first >= 0 && k.processed.getOrDefault(first, 0) != 1) {
          run.violate("DUP", "event #" + first + " was processed "
              + k.processed.getOrDefault(first, 0) + " times");
          return;
        }
      }
      drops(run, w);
    });
    c.plain("many names", 8, ChecksBulk::manyNames);
    c.plain("room again", 8, ChecksBulk::roomAgain);
    c.plain("fired by itself", 8, ChecksBulk::chain);
    c.noisy("while processing", 35, run -> {
      Spec s = dup(run);
      Scn.fires(run.r, s, Scn.size(run.r, 24, 80, 400), 8);
      Scn.pauses(run.r, s, 6, 300);
      World.Opt o = Scn.opt(run);
      o.dropDup = true;
      if (run.r.nextInt(4) == 0) {
        int k = 1 + run.r.nextInt(3);
        for (int i = 0; i < k; i++) {
          s.op(run.r.nextInt(s.fires.size()), KINDS[run.r.nextInt(5)], 0,
              new Spec.Op(Spec.Op.THROW, 1 + run.r.nextInt(Throwables.KINDS - 1)));
        }
      }
      World w = run.world(s, o);
      run.start(w);
      if (fireAll(run, w, Scn.roots(s), 1 + run.r.nextInt(6)) && Scn.settle(run, w)) {
        drops(run, w);
      }
    });
    return c;
  }

  private static Spec dup(Run run) {
    Spec.Gen g = Scn.gen(run.r);
    g.unique = false;
    g.maxTypes = 4;
    return Spec.table(run.r, g);
  }

  /** Every dropped event must have met an equal one that was waiting. */
  private static void drops(Run run, World w) {
    Checker k = new Checker(w).parse();
    run.cover(k.trace);
    Map<Integer, Checker.Group> groups = new HashMap<>();
    for (Checker.Group g : k.groups) {
      groups.putIfAbsent(g.fid, g);
    }
    int dropped = 0;
    for (E f : k.fires.values()) {
      int p = k.processed.getOrDefault(f.fid, 0);
      if (p > 1) {
        run.violate("DUP", "an event was processed " + p + " times: " + f);
        return;
      }
      if (k.refused.containsKey(f.fid) || f.ex != null) {
        run.violate("DUP", "dropping was reported as an error: " + f);
        return;
      }
      if (p == 0) {
        dropped++;
        boolean reason = false;
        for (E x : k.fires.values()) {
          Checker.Group g = groups.get(x.fid);
          if (x != f && g != null && x.ev.equals(f.ev) && x.s0 < f.s1 && g.first().s0 > f.s0) {
            reason = true;
            break;
          }
        }
        if (!reason) {
          run.violate("DUP", "an event was dropped although no equal one was waiting: " + f);
          return;
        }
      }
    }
    // never two equal ones waiting (one more may have been taken out but not be visible yet)
    List<Object[]> changes = new ArrayList<>();
    for (E f : k.fires.values()) {
      if (k.processed.containsKey(f.fid)) {
        changes.add(new Object[]{f.s1, 1, f.ev});
      }
    }
    for (Checker.Group g : k.groups) {
      if (g.fid >= 0) {
        changes.add(new Object[]{g.first().s0, -1, g.ev});
      }
    }
    changes.sort((a, b) -> Long.compare((Long) a[0], (Long) b[0]));
    Map<String, Integer> waiting = new HashMap<>();
    for (Object[] c : changes) {
      int n = waiting.merge((String) c[2], (Integer) c[1], Integer::sum);
      if (n > 2) {
        run.violate("DUP", (n - 1) + " equal events " + E.q((String) c[2]) + " were waiting at "
            + c[0]);
        return;
      }
    }
    k.order();
    for (Run.Viol v : k.out) {
      if (v.tag.equals(Checker.ORDER)) {
        run.violate("DUP", v.msg);
      }
    }
    run.engine.count("dropped events", dropped);
    run.engine.count("processed events", k.processed.size());
  }

  // ---------------------------------------------------------------------------------- C13

  static Check c13() {
    Check c = new Check("C13", "two to six (rarely up to 21) machines with the same names, built from one builder, from "
        + "many, or from one configuration, used concurrently while some of them fail, block, stop "
        + "or end; each one's history is checked by itself and may contain its own events only; a "
        + "case is non-trivial if events were processed; cases are distinct if their recorded "
        + "histories are", "ISOLATED", Checker.TABLE, Checker.CONS, Checker.ORDER, Checker.ENDED,
        Checker.MACHINE, Scn.STALL, Checker.START);
    c.noisy("together", 50, ChecksQueue::together);
    c.noisy("states and events in common", 12, run -> ChecksKept.common(run, "ISOLATED"));
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, "ISOLATED", "C"));
    c.plain("queue sizes", 20, ChecksQueue::sizesApart);
    c.plain("default strategies", 15, ChecksQueue::defaults);
    c.plain("blocked neighbour", 10, ChecksQueue::blockedNeighbour);
    return c;
  }

  /** With executors of their own, machines do not wait for a blocked callback of another one. */
  private static void blockedNeighbour(Run run) throws Exception {
    Random r = run.r;
    int n = 2 + r.nextInt(3);
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    run.onEnd(free::countDown);
    String threadName = r.nextBoolean() ? "neighbour" : null;
    boolean own = r.nextInt(3) > 0;
    List<World> ws = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Spec s = owned(run, false, 0);
      World.Opt o = new World.Opt();
      o.exec = own ? null : new MonExecutor();
      o.threadName = threadName;
      o.dropDup = r.nextInt(4) == 0;
      o.context = "context";
      Scn.fires(r, s, 1 + r.nextInt(10), 5);
      own(s);
      World w = run.world(s, o);
      ws.add(w);
      run.start(w);
    }
    World victim = ws.get(r.nextInt(n));
    victim.gate = () -> {
      in.countDown();
      ChecksFlow.await(free);
    };
    for (int fid : Scn.roots(victim.spec)) {
      victim.fire(fid);
    }
    if (!Run.await(20, () -> in.getCount() == 0)) {
      run.inconclusive = "the gate was not reached";
      return;
    }
    Run.Threads ts = run.threads();
    for (World w : ws) {
      if (w != victim) {
        ts.add("firing", () -> {
          for (int fid : Scn.roots(w.spec)) {
            w.fire(fid);
          }
        });
      }
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    for (World w : ws) {
      if (w == victim) {
        continue;
      }
      if (!Run.await(10, () -> w.m.getEventQueueSize() == 0)) {
        int waiting = w.m.getEventQueueSize();
        free.countDown();
        if (waiting > 0 && Run.await(10, () -> w.m.getEventQueueSize() == 0)) {
          run.violate("ISOLATED", "events were only processed when a callback of another machine "
              + "had returned");
        } else {
          run.inconclusive = "processing did not finish";
        }
        return;
      }
      Checker k = new Checker(w);
      k.dropDup = w.opt.dropDup;
      k.all();
      run.violateAll(k.out, k.trace);
    }
    run.cover(run.rec.sorted());
    free.countDown();
    Run.await(10, () -> victim.m.getEventQueueSize() == 0);
    run.engine.count("machines beside a blocked one", n - 1);
  }

  /** Ways in which machines are made. */
  private static final class Family {

    final int way;
    final EventProcessingStrategyFactory.Config<Object, Object> config =
        new EventProcessingStrategyFactory.Config<>();
    final GenericStateMachine.Builder<Object, Object> builder = new GenericStateMachine.Builder<>();
    final MonExecutor shared = new MonExecutor();

    Family(int way) {
      this.way = way;
    }

    World.Opt opt(Run run) {
      World.Opt o = new World.Opt();
      o.exec = way == 0 ? new MonExecutor() : shared;
      o.listener = 1 + run.r.nextInt(3);
      if (way == 1 || way == 3) {
        o.config = config;
      }
      if (way == 2 || way == 3) {
        o.builder = builder;
      }
      if (run.r.nextInt(4) == 0) {
        o.dropDup = true;
      }
      if (run.r.nextBoolean()) {
        // the contexts of different machines may be equal
        o.context = new String("context");
      } else if (run.r.nextInt(3) == 0) {
        o.context = null;
      }
      return o;
    }
  }

  private static Spec owned(Run run, boolean unique, int pctEnd) {
    Spec.Gen g = new Spec.Gen();
    g.unique = false;
    g.pctEnd = pctEnd;
    g.maxStates = 4;
    g.maxTypes = 3;
    Spec s = Spec.table(run.r, g);
    return s;
  }

  private static void own(Spec s) {
    for (Spec.F f : s.fires) {
      ((Tok) f.payload).owner = s;
    }
  }

  private static void together(Run run) throws Exception {
    Random r = run.r;
    Family fam = new Family(r.nextInt(4));
    int n = 2 + r.nextInt(r.nextInt(12) == 0 ? 20 : 3);
    List<World> ws = new ArrayList<>();
    boolean ending = r.nextInt(3) == 0;
    int victim = r.nextInt(n);
    for (int i = 0; i < n; i++) {
      Spec s = owned(run, false, ending && i == victim ? 20 : 0);
      World.Opt o = fam.opt(run);
      Scn.fires(r, s, Scn.size(r, 10, 30, 100), 8);
      if (i == victim) {
        int k = r.nextInt(4);
        for (int j = 0; j < k; j++) {
          s.op(r.nextInt(s.fires.size()), KINDS[r.nextInt(5)], 0,
              new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
        }
      }
      Scn.pauses(r, s, 2, 100);
      own(s);
      World w = run.world(s, o);
      ws.add(w);
    }
    int late = r.nextInt(2 * n);
    for (World w : ws) {
      if (ws.indexOf(w) != late) {
        run.start(w);
      }
    }
    Run.Threads ts = run.threads();
    boolean mixed = r.nextBoolean();
    for (int i = 0; i < n; i++) {
      World w = ws.get(i);
      List<Integer> roots = Scn.roots(w.spec);
      if (i == late) {
        ts.add("starting" + i, () -> run.start(w));
      }
      if (mixed) {
        // every thread fires at every machine
        for (int t = 0; t < n; t++) {
          int from = t;
          ts.add("firing" + i + "-" + t, () -> {
            for (int j = from; j < roots.size(); j += n) {
              w.fire(roots.get(j));
            }
          });
        }
      } else {
        ts.add("firing" + i, () -> {
          for (int fid : roots) {
            w.fire(fid);
          }
        });
      }
    }
    boolean stopping = r.nextInt(3) == 0 && late != victim;
    if (stopping) {
      int wait = r.nextInt(300);
      ts.add("stopping", () -> {
        Noise.pause(wait);
        ws.get(victim).stop();
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    for (World w : ws) {
      if (!Scn.settle(run, w)) {
        return;
      }
    }
    List<E> trace = null;
    for (World w : ws) {
      Checker k = new Checker(w);
      trace = k.trace;
      k.dropDup = w.opt.dropDup;
      if (stopping && ws.indexOf(w) == victim) {
        for (E e : k.trace) {
          if (e.kind == E.CALL && e.machine == w.m && "stop()".equals(e.note)) {
            k.stopFrom = Math.min(k.stopFrom, e.s0);
          }
        }
      }
      k.all();
      k.quiescent();
      run.violateAll(k.out, k.trace);
      for (String x : w.strangers) {
        run.violate("ISOLATED", x);
        break;
      }
      for (Checker.Group g : k.groups) {
        if (g.fid == -4) {
          run.violate("ISOLATED", "an event fired at another machine was processed: " + g.first());
          break;
        }
      }
      if (w.m.getEventQueueSize() != 0) {
        run.violate("ISOLATED", "queue size " + w.m.getEventQueueSize()
            + " of a machine that has processed all its events");
      }
    }
    run.engine.count("machines", n);
    run.cover(trace);
  }

  /** Each machine counts its own events, also while all are blocked. */
  private static void sizesApart(Run run) throws Exception {
    Random r = run.r;
    Family fam = new Family(r.nextInt(4));
    int n = 2 + r.nextInt(4);
    List<World> ws = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      World.Opt o = fam.opt(run);
      o.dropDup = false;
      if (o.config == null) {
        o.max = new int[]{-1, 0, -7, 1, 2 + r.nextInt(5)}[r.nextInt(5)];
      }
      World w = run.world(owned(run, false, 0), o);
      run.start(w);
      ws.add(w);
    }
    List<CountDownLatch> free = new ArrayList<>();
    Set<MonExecutor> execs = new HashSet<>();
    for (World w : ws) {
      if (execs.add(w.exec)) {
        free.add(w.exec.hold());
      }
    }
    int[] want = new int[n];
    int total = r.nextInt(30);
    for (int i = 0; i < total; i++) {
      int m = r.nextInt(n);
      int fid = Scn.fire(r, ws.get(m).spec, false);
      own(ws.get(m).spec);
      ws.get(m).fire(fid);
      // each with its own maximum
      if (ws.get(m).opt.max <= 0 || want[m] < ws.get(m).opt.max) {
        want[m]++;
      }
    }
    for (int i = 0; i < n; i++) {
      int got = ws.get(i).m.getEventQueueSize();
      if (got != want[i]) {
        run.violate("ISOLATED", "queue size " + got + " instead of " + want[i] + " of machine " + i
            + " of " + n);
      }
    }
    free.forEach(CountDownLatch::countDown);
    for (World w : ws) {
      if (!Scn.settle(run, w)) {
        return;
      }
    }
    for (World w : ws) {
      Checker k = new Checker(w).all();
      run.violateAll(k.out, k.trace);
      if (w.m.getEventQueueSize() != 0) {
        run.violate("ISOLATED", "queue size " + w.m.getEventQueueSize() + " when all is done");
      }
    }
    run.cover(run.rec.sorted());
  }

  /** Machines without any strategy set. */
  private static void defaults(Run run) throws Exception {
    Random r = run.r;
    boolean one = r.nextBoolean();
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    int n = 2 + r.nextInt(4);
    List<World> ws = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Spec.Gen g = new Spec.Gen();
      g.maxStates = 4;
      g.maxTypes = 3;
      // everything mapped, since there is no handler that records
      g.pctMapped = 100;
      Spec s = Spec.table(r, g);
      Scn.fires(r, s, 1 + r.nextInt(10), 5);
      own(s);
      World.Opt o = new World.Opt();
      o.noStrategy = true;
      if (one) {
        o.builder = b;
      }
      World w = run.world(s, o);
      ws.add(w);
      run.start(w);
    }
    Run.Threads ts = run.threads();
    for (World w : ws) {
      ts.add("firing", () -> {
        for (int fid : Scn.roots(w.spec)) {
          w.fire(fid);
        }
      });
    }
    int victim = r.nextInt(3 * n);
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    if (victim < n) {
      ws.get(victim).stop();
    }
    for (int i = 0; i < n; i++) {
      World w = ws.get(i);
      if (i == victim) {
        continue;
      }
      Checker k = ChecksCore.awaitOutcomes(run, w);
      if (k == null) {
        return;
      }
      k.all();
      run.violateAll(k.out, k.trace);
      if (w.m.isEnded()) {
        run.violate("ISOLATED", "a machine ended although only another one was stopped");
      }
      for (String x : w.strangers) {
        run.violate("ISOLATED", x);
        break;
      }
    }
    run.cover(run.rec.sorted());
  }

  // ---------------------------------------------------------------------------------- C14

  static Check c14() {
    Check c = new Check("C14", "the queue size is read by observers, callbacks and while the "
        + "processing is blocked, and compared with bounds computed from the recorded fires and "
        + "callbacks (exact when blocked or idle); a case is non-trivial if sizes were compared; "
        + "cases are distinct if their recorded histories (with threads) are", Checker.SIZE);
    c.noisy("observed", 40, ChecksQueue::observedSizes);
    c.plain("blocked", 30, ChecksQueue::blockedSizes);
    c.plain("large sizes", 6, ChecksBulk::largeSize);
    c.noisy("outcomes", 20, run -> {
      // whatever happened to the events, the size is 0 in the end
      Random r = run.r;
      Spec.Gen g = Scn.gen(r);
      g.pctEnd = r.nextInt(3) == 0 ? 5 : 0;
      Spec s = Spec.table(r, g);
      Scn.fires(r, s, Scn.size(r, 16, 60, 300), 8);
      int k = r.nextInt(6);
      for (int i = 0; i < k; i++) {
        s.op(r.nextInt(s.fires.size()), KINDS[r.nextInt(5)], 0,
            new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
      }
      World.Opt o = Scn.opt(run);
      o.max = r.nextInt(3) == 0 ? 1 + r.nextInt(4) : -1;
      o.dropDup = r.nextInt(3) == 0;
      if (r.nextInt(4) == 0) {
        o.queue = new ArrayBlockingQueue<>(1 + r.nextInt(3));
      }
      World w = run.world(s, o);
      ChecksFlow.throwingReports(run, w, r.nextInt(3));
      boolean race = r.nextInt(4) == 0;
      if (!race) {
        run.start(w);
      }
      Run.Threads ts = run.threads();
      List<Integer> roots = Scn.roots(s);
      int n = 1 + r.nextInt(4);
      for (int t = 0; t < n; t++) {
        int from = t;
        ts.add("firing" + t, () -> {
          for (int i = from; i < roots.size(); i += n) {
            w.fire(roots.get(i));
          }
        });
      }
      if (race) {
        ts.add("starting", () -> run.start(w));
      }
      if (r.nextInt(4) == 0) {
        ts.add("stopping", () -> {
          Noise.pause(200);
          if (w.m.isStarted()) {
            w.stop();
          }
        });
      }
      ts.start();
      if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
        return;
      }
      int size = w.m.getEventQueueSize();
      if (size != 0) {
        run.violate(Checker.SIZE, "the queue size is " + size + " when nothing is left to process");
      }
      run.engine.count("sizes compared", 1);
      run.cover(run.rec.sorted());
    });
    c.plain("library executor", 8, run -> {
      Spec s = plain(run);
      Scn.fires(run.r, s, 2 + run.r.nextInt(20), 5);
      World.Opt o = Scn.opt(run);
      o.exec = null;
      World w = run.world(s, o);
      run.start(w);
      for (int fid : Scn.roots(s)) {
        w.fire(fid);
      }
      if (!Run.await(10, () -> w.m.getEventQueueSize() == 0)) {
        run.violate(Checker.SIZE, "the queue size is " + w.m.getEventQueueSize()
            + " long after the last event");
        return;
      }
      long zero = run.rec.next();
      Checker k = new Checker(w).parse();
      run.cover(k.trace);
      for (Checker.Group g : k.groups) {
        if (g.lastLeave() > zero) {
          run.violate(Checker.SIZE, "the queue size was 0 although an event was not completed: "
              + g.first());
          return;
        }
      }
      for (E f : k.fires.values()) {
        if (!k.processed.containsKey(f.fid)) {
          run.violate(Checker.SIZE, "the queue size was 0 although an event was not processed: " + f);
          return;
        }
      }
    });
    return c;
  }

  private static void observedSizes(Run run) throws Exception {
    Random r = run.r;
    Spec s = Spec.table(r, Scn.gen(r));
    Scn.fires(r, s, Scn.size(r, 16, 50, 150), 8);
    Scn.pauses(r, s, 4, 300);
    World.Opt o = Scn.opt(run);
    o.max = r.nextInt(4) == 0 ? 1 + r.nextInt(4) : -1;
    World[] ref = new World[1];
    for (int i = 0; i < 6; i++) {
      s.op(r.nextInt(s.fires.size()), KINDS[r.nextInt(5)], 0,
          new Spec.Op(Spec.Op.RUN, 0, () -> ref[0].observe()));
    }
    if (r.nextInt(3) == 0) {
      for (int i = 0; i < 2; i++) {
        s.op(r.nextInt(s.fires.size()), KINDS[r.nextInt(5)], 0,
            new Spec.Op(Spec.Op.THROW, 1 + r.nextInt(Throwables.KINDS - 1)));
      }
    }
    World w = run.world(s, o);
    ref[0] = w;
    run.start(w);
    AtomicBoolean stop = new AtomicBoolean();
    Run.Threads obs = run.threads();
    for (int i = 0; i < 2; i++) {
      obs.add("observing" + i, () -> {
        for (int j = 0; j < 400 && !stop.get(); j++) {
          Noise.hit(E.OBS);
          w.observe();
          Noise.pause(5);
        }
      });
    }
    obs.start();
    boolean done = fireAll(run, w, Scn.roots(s), 1 + r.nextInt(4));
    done = done && Scn.settle(run, w);
    stop.set(true);
    if (!Scn.join(run, obs) || !done) {
      return;
    }
    w.observe();
    Checker k = new Checker(w).parse();
    run.cover(k.trace);
    sizes(run, w, k, k.trace);
  }

  private static void sizes(Run run, World w, Checker k, List<E> trace) {
    List<Checker.Group> gs = new ArrayList<>();
    for (Checker.Group g : k.groups) {
      if (g.fid >= 0) {
        gs.add(g);
      }
    }
    Map<Integer, Long> leave = new HashMap<>();
    Map<Integer, Long> complete = new HashMap<>();
    for (int i = 0; i < gs.size(); i++) {
      leave.put(gs.get(i).fid, gs.get(i).lastLeave());
      complete.put(gs.get(i).fid, i + 1 < gs.size() ? gs.get(i + 1).first().s0 : Long.MAX_VALUE);
    }
    long last = trace.get(trace.size() - 1).s0;
    int n = 0;
    for (E o : trace) {
      if (o.kind != E.OBS) {
        continue;
      }
      int lower = 0;
      int upper = 0;
      for (E f : k.fires.values()) {
        if (k.refused.containsKey(f.fid)) {
          continue;
        }
        Long l = leave.get(f.fid);
        if (f.s1 < o.s0 && l != null && l > o.s1) {
          lower++;
        }
        if (f.s0 < o.s1 && complete.getOrDefault(f.fid, Long.MAX_VALUE) > o.s0) {
          upper++;
        }
      }
      if (o.s0 == last) {
        // nothing goes on any more
        upper = 0;
      }
      n++;
      if (o.size < lower || o.size > upper) {
        run.violate(Checker.SIZE, "queue size " + o.size + " is not within " + lower + ".." + upper
            + ", the number of accepted events that were not completed: " + o);
        return;
      }
      if (lower == upper) {
        run.engine.count("sizes compared exactly", 1);
      }
    }
    run.engine.count("sizes compared", n);
  }

  /** The exact size while the worker is blocked. */
  private static void blockedSizes(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.unique = false;
    Spec s = Spec.table(r, g);
    World.Opt o = Scn.opt(run);
    o.max = r.nextInt(4) == 0 ? 1 + r.nextInt(4) : -1;
    o.dropDup = r.nextInt(4) == 0;
    MonQueue<EventMachinePair<Object, Object>> q = new MonQueue<>(run.rec);
    int declines = r.nextInt(3) == 0 ? 1 + r.nextInt(4) : 0;
    boolean mon = declines > 0 || r.nextInt(3) == 0;
    int[] offered = {0};
    boolean[] declined = {false};
    if (mon) {
      // a queue that has its own rules
      o.queue = q;
      q.declines = i -> {
        offered[0]++;
        declined[0] = declines > 0 && i % declines == 0;
        return declined[0];
      };
    }
    World w = run.world(s, o);
    int early = r.nextInt(3);
    for (int i = 0; i < early; i++) {
      w.fire(Scn.fire(r, s, false));
    }
    size(run, w, 0, "before the start");
    run.start(w);
    int rounds = 1 + r.nextInt(5);
    for (int i = 0; i < rounds && Scn.ok(run); i++) {
      boolean inCallback = r.nextInt(3) != 0;
      CountDownLatch in = new CountDownLatch(1);
      CountDownLatch out = new CountDownLatch(1);
      CountDownLatch free = out;
      int base = 0;
      if (inCallback) {
        boolean fails = r.nextInt(3) == 0;
        w.gate = () -> {
          in.countDown();
          ChecksFlow.await(out);
          if (fails) {
            Throwables.sneak(Throwables.make(1 + r.nextInt(Throwables.KINDS - 1)));
          }
        };
        w.fire(Scn.fire(r, s, false));
        while (declined[0]) {
          size(run, w, 0, "after an offer was declined");
          declined[0] = false;
          if (declines == 1) {
            break;
          }
          w.fire(Scn.fire(r, s, false));
        }
        if (declines == 1) {
          out.countDown();
          w.gate = null;
          continue;
        }
        if (!in.await(20, TimeUnit.SECONDS)) {
          run.inconclusive = "the gate was not reached";
          return;
        }
        base = 1;
      } else {
        free = o.exec.hold();
      }
      size(run, w, base, "with " + base + " in progress");
      int waiting = 0;
      Set<String> names = new HashSet<>();
      int n = Scn.size(r, 8, 40, 400);
      for (int j = 0; j < n && Scn.ok(run); j++) {
        int fid = Scn.fire(r, s, false);
        declined[0] = false;
        w.fire(fid);
        boolean dropped = o.dropDup && names.contains(s.fires.get(fid).name);
        if (!dropped && !declined[0] && (o.max <= 0 || waiting < o.max)) {
          waiting++;
          names.add(s.fires.get(fid).name);
        }
        size(run, w, base + waiting, "with " + base + " in progress and " + waiting + " waiting");
      }
      boolean stop = r.nextInt(8) == 0;
      if (stop) {
        w.stop();
        i = rounds;
        w.fire(Scn.fire(r, s, false));
        // those waiting may have been discarded, but not the one in progress
        int got = w.m.getEventQueueSize();
        if (got < base || got > base + waiting) {
          run.violate(Checker.SIZE, "the queue size is " + got + " after stop() with " + base
              + " in progress and at most " + waiting + " waiting");
        }
        if (mon && !o.dropDup && got == base + waiting) {
          // those waiting are discarded one by one
          int[] gone = {0};
          int all = waiting;
          q.polled = () -> {
            int size = w.m.getEventQueueSize();
            int left = all - gone[0]++;
            run.engine.count("sizes compared while discarding", 1);
            if (left > 0 && (size < left - 1 || size > left + 1)) {
              run.violate(Checker.SIZE, "the queue size is " + size + " while " + left
                  + " events are waiting to be discarded after the end");
            }
          };
        }
      }
      free.countDown();
      if (!Scn.settle(run, w)) {
        return;
      }
      size(run, w, 0, stop ? "after the end" : "when all is done");
    }
    run.cover(run.rec.sorted());
  }

  private static void size(Run run, World w, int want, String when) {
    int got = w.m.getEventQueueSize();
    run.engine.count("sizes compared exactly", 1);
    if (got != want) {
      run.violate(Checker.SIZE, "the queue size is " + got + " instead of " + want + " " + when);
    }
  }
}
