package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.function.Supplier;

/** C16, C22 and C24: the multi-consumer listener, names, and the exception handling action. */
final class ChecksLib {

  static final String MULTI = "MULTI";
  static final String NAMES = "NAMES";
  static final String WRAP = "WRAP";

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C16", ChecksLib::c16);
    m.put("C22", ChecksLib::c22);
    m.put("C24", ChecksLib::c24);
  }

  // ---------------------------------------------------------------------------------- C16

  static Check c16() {
    Check c = new Check("C16", "concurrent notifications, additions and removals of listeners, some of "
        + "which throw, are slow, change the registrations or notify all themselves; each listener's calls are "
        + "compared with its registration as far as the recorded order determines it, and the results "
        + "of add and remove have to be linearizable; a case is non-trivial if something was notified; "
        + "cases are distinct if their recorded histories are", MULTI);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, MULTI, "L"));
    c.noisy("concurrent", 60, ChecksLib::multi);
    c.noisy("one thread", 15, run -> multi(run, 1));
    c.noisy("in a machine", 25, ChecksLib::multiInMachine);
    return c;
  }

  /** A call of add or remove, or a notification. */
  private static final class Op {

    final int kind;
    final int listener;
    /** by an object that equals the listener */
    boolean twin;
    long s0;
    long s1 = Long.MAX_VALUE;
    boolean result;
    Throwable thrown;

    Op(int kind, int listener) {
      this.kind = kind;
      this.listener = listener;
    }

    @Override
    public String toString() {
      return s0 + ".." + s1 + " " + (kind == 0 ? "add " : kind == 1 ? "remove " : "notify ")
          + listener + (twin ? "'" : "") + (kind < 2 ? " = " + result : "") + (thrown == null ? "" : " threw " + thrown);
    }
  }

  private static final class Noted {

    final int listener;
    final int notification;
    final boolean twin;
    final String bad;

    Noted(int listener, int notification, boolean twin, String bad) {
      this.twin = twin;
      this.listener = listener;
      this.notification = notification;
      this.bad = bad;
    }
  }

  /** Collides with all others, and throws or acts when called. */
  private static final class Consumer implements StateMachineListener<Object, Object> {

    final int id;
    final int hash;
    final Multi x;
    final boolean isTwin;
    /** equal to this one, and perhaps used instead of it */
    Consumer twin;
    int throwing;
    int pause;
    /** what it does when called, once: add (0) or remove (1) of a listener, notify (2) */
    final ConcurrentLinkedQueue<int[]> acts = new ConcurrentLinkedQueue<>();

    Consumer(int id, int hash, boolean isTwin, Multi x) {
      this.isTwin = isTwin;
      this.id = id;
      this.hash = hash;
      this.x = x;
    }

    @Override
    public int hashCode() {
      return hash;
    }

    @Override
    public boolean equals(Object o) {
      return this == o || twin != null && twin == o;
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      note(true, f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      note(false, f, e, t);
    }

    private void note(boolean begin, State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      int n = e == null ? -1 : (Integer) e.getPayload();
      String bad = null;
      if (n < 0 || x.from.get(n) != f || x.event.get(n) != e || x.to.get(n) != t
          || x.begin.get(n) != begin) {
        bad = "called with " + f + " " + e + " " + t + " for notification " + n;
      }
      x.noted.add(new Noted(id, n, isTwin, bad));
      int[] act = acts.poll();
      if (act != null) {
        x.op(new Op(act[0], act[1]));
      }
      if (pause > 0) {
        Noise.pause(pause);
      }
      if (throwing > 0 && x.r.get().nextInt(2) == 0) {
        Throwable ex = Throwables.make(throwing);
        if (!(ex instanceof RuntimeException) && !(ex instanceof Error)) {
          ex = new RuntimeException(ex);
        }
        Throwables.sneak(ex);
      }
    }
  }

  private static final class Multi {

    final Rec rec;
    final ThreadLocal<Random> r;
    final List<Consumer> all = new ArrayList<>();
    MultiConsumerStateMachineListener<Object, Object> m;
    final ConcurrentLinkedQueue<Op> ops = new ConcurrentLinkedQueue<>();
    final ConcurrentLinkedQueue<Noted> noted = new ConcurrentLinkedQueue<>();
    final List<State<Object, Object>> from = new ArrayList<>();
    final List<StateEvent<Object>> event = new ArrayList<>();
    final List<State<Object, Object>> to = new ArrayList<>();
    final List<Boolean> begin = new ArrayList<>();

    Multi(Rec rec, long seed) {
      this.rec = rec;
      r = ThreadLocal.withInitial(() -> new Random(seed + Thread.currentThread().getId()));
    }

    private Consumer target(Op o) {
      Consumer c = all.get(o.listener);
      return o.twin ? c.twin : c;
    }

    Op op(Op o) {
      o.twin = o.kind < 2 && all.get(o.listener).twin != null && r.get().nextInt(2) == 0;
      ops.add(o);
      o.s0 = rec.next();
      try {
        if (o.kind == 0) {
          o.result = m.add(target(o));
        } else if (o.kind == 1) {
          o.result = m.remove(target(o));
        } else if (begin.get(o.listener)) {
          m.onStateChangeBegin(from.get(o.listener), event.get(o.listener), to.get(o.listener));
        } else {
          m.onStateChangeEnd(from.get(o.listener), event.get(o.listener), to.get(o.listener));
        }
      } catch (Throwable t) {
        o.thrown = t;
      } finally {
        o.s1 = rec.next();
      }
      return o;
    }
  }

  private static void multi(Run run) throws Exception {
    multi(run, 2 + run.r.nextInt(4));
  }

  @SuppressWarnings("unchecked")
  private static void multi(Run run, int threads) throws Exception {
    Random r = run.r;
    Multi x = new Multi(run.rec, r.nextLong());
    int n = 1 + r.nextInt(r.nextInt(50) == 0 ? 300 : r.nextInt(6) == 0 ? 40 : 7);
    int hashes = r.nextInt(3) == 0 ? 1 : 1000;
    int churn = 1 + r.nextInt(n);
    boolean[] init = new boolean[n];
    boolean twins = r.nextInt(3) == 0;
    List<StateMachineListener<Object, Object>> first = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Consumer c = new Consumer(i, r.nextInt(hashes), false, x);
      c.throwing = r.nextInt(4) == 0 ? new int[]{1, 2, 3, 12, 13, 14, 15, 16}[r.nextInt(8)] : 0;
      c.pause = r.nextInt(5) == 0 ? r.nextInt(100) : 0;
      if (twins && r.nextInt(2) == 0) {
        c.twin = new Consumer(i, c.hash, true, x);
        c.twin.twin = c;
      }
      x.all.add(c);
      init[i] = r.nextInt(3) != 0;
      if (init[i]) {
        first.add(c);
      }
    }
    for (int i = 0; i < n; i++) {
      for (int k = r.nextInt(8) - 5; k > 0; k--) {
        x.all.get(i).acts.add(new int[]{r.nextInt(2), r.nextInt(2) == 0 ? i : r.nextInt(n)});
      }
    }
    x.m = new MultiConsumerStateMachineListener<>(first.toArray(new StateMachineListener[0]));
    int notes = threads * (1 + r.nextInt(8));
    for (int i = 0; i < notes; i++) {
      x.from.add(new NamedState<>("f"));
      x.to.add(new NamedState<>("t"));
      StateEvent<Object> e = new NamedStateEvent<>("e");
      e.setPayload(i);
      x.event.add(e);
      x.begin.add(r.nextBoolean());
    }
    // some listeners notify the listeners when they are called
    for (int k = r.nextInt(3) == 0 ? 1 + r.nextInt(5) : 0; k > 0; k--) {
      x.from.add(new NamedState<>("f"));
      x.to.add(new NamedState<>("t"));
      StateEvent<Object> e = new NamedStateEvent<>("e");
      e.setPayload(x.event.size());
      x.event.add(e);
      x.begin.add(r.nextBoolean());
      x.all.get(r.nextInt(n)).acts.add(new int[]{2, x.event.size() - 1});
    }
    Run.Threads ts = run.threads();
    for (int t = 0; t < threads; t++) {
      List<Op> mine = new ArrayList<>();
      for (int i = t; i < notes; i += threads) {
        mine.add(new Op(2, i));
        // the others stay as they are
        for (int k = r.nextInt(4); k > 0; k--) {
          mine.add(r.nextInt(mine.size() + 1), new Op(r.nextInt(2), r.nextInt(churn)));
        }
      }
      ts.add("user" + t, () -> {
        for (Op o : mine) {
          x.op(o);
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    judge(run, x, init);
  }

  private static void judge(Run run, Multi x, boolean[] init) {
    List<Op> ops = new ArrayList<>(x.ops);
    ops.sort((a, b) -> Long.compare(a.s0, b.s0));
    Map<Long, Integer> calls = new HashMap<>();
    Map<Long, Boolean> twinCalled = new HashMap<>();
    for (Noted d : x.noted) {
      if (d.bad != null) {
        bad(run, ops, "listener " + d.listener + " was " + d.bad);
        return;
      }
      calls.merge(d.listener * 1000000L + d.notification, 1, Integer::sum);
      twinCalled.put(d.listener * 1000000L + d.notification, d.twin);
    }
    int n = x.all.size();
    List<List<Op>> of = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      of.add(new ArrayList<>());
    }
    for (Op o : ops) {
      run.sig(o.kind * 100L + o.listener);
      run.sig(o.result ? 1 : 0);
      if (o.kind < 2) {
        if (o.thrown != null) {
          bad(run, ops, "failed: " + o);
          return;
        }
        of.get(o.listener).add(o);
      }
    }
    run.events += ops.size() + x.noted.size();
    int definite = 0;
    for (Op o : ops) {
      if (o.kind != 2) {
        continue;
      }
      for (int l = 0; l < n; l++) {
        int called = calls.getOrDefault(l * 1000000L + o.listener, 0);
        int member = init[l] ? 1 : 0;
        boolean sure = true;
        // one that is removed and added again meanwhile may be met once more
        int most = 1;
        for (Op p : of.get(l)) {
          if (p.s1 < o.s0) {
            member += p.result ? p.kind == 0 ? 1 : -1 : 0;
          } else if (p.s0 < o.s1) {
            sure = false;
            most += p.kind == 0 && p.result ? 1 : 0;
          }
        }
        if (called > most || sure && called != member) {
          bad(run, ops, "notification " + o.listener + " called listener " + l + " " + called
              + " times" + (sure ? ", it was " + (member == 1 ? "" : "not ") + "registered" : ""));
          return;
        }
        definite += sure ? 1 : 0;
        if (sure && called == 1 && x.all.get(l).twin != null) {
          // the very object that was added
          boolean twin = twinCalled.get(l * 1000000L + o.listener);
          boolean possible = false;
          List<Op> done = new ArrayList<>();
          for (Op p : of.get(l)) {
            if (p.s1 < o.s0 && p.result) {
              done.add(p);
            }
          }
          for (Op p : done) {
            possible |= p.kind == 0 && p.twin == twin
                && done.stream().noneMatch(q -> q.s0 > p.s1);
          }
          if (!possible && !(done.isEmpty() && !twin)) {
            bad(run, ops, "notification " + o.listener + " called an object that equals listener "
                + l + " but is not the one that was added");
            return;
          }
        }
      }
    }
    for (int l = 0; l < n; l++) {
      if (!linearizable(of.get(l), init[l], new HashSet<>(), 0)) {
        bad(run, ops, "results of add and remove of listener " + l + " are not consistent: "
            + of.get(l));
        return;
      }
    }
    run.engine.count("notifications times listeners decided", definite);
    run.engine.count("add and remove", ops.stream().filter(o -> o.kind < 2).count());
    if (run.sample == null) {
      run.sample = ops.subList(0, Math.min(10, ops.size())).toString();
    }
  }

  private static void bad(Run run, List<Op> ops, String msg) {
    run.violate(MULTI, msg + "; " + ops.subList(0, Math.min(60, ops.size())), null);
  }

  /** Whether the operations have an order that respects their times and explains their results. */
  private static boolean linearizable(List<Op> ops, boolean member, Set<String> tried, long done) {
    if (ops.size() > 60) {
      return true;
    }
    if (done == (1L << ops.size()) - 1) {
      return true;
    }
    if (!tried.add(done + " " + member)) {
      return false;
    }
    long firstEnd = Long.MAX_VALUE;
    for (int i = 0; i < ops.size(); i++) {
      if ((done & 1L << i) == 0) {
        firstEnd = Math.min(firstEnd, ops.get(i).s1);
      }
    }
    for (int i = 0; i < ops.size(); i++) {
      Op o = ops.get(i);
      if ((done & 1L << i) == 0 && o.s0 < firstEnd && o.result == (o.kind == 0) != member
          && linearizable(ops, o.kind == 0, tried, done | 1L << i)) {
        return true;
      }
    }
    return false;
  }

  /** All listeners of one machine are told the same. */
  private static void multiInMachine(Run run) throws Exception {
    Random r = run.r;
    Spec s = Spec.table(r, Scn.gen(r));
    Scn.fires(r, s, Scn.size(r, 16, 60, 200), 5);
    int n = 2 + r.nextInt(4);
    for (int k = r.nextInt(6); k > 0 && !s.fires.isEmpty(); k--) {
      int l = 1 + r.nextInt(n);
      int t = new int[]{1, 2, 3, 12, 14}[r.nextInt(5)];
      s.op(r.nextInt(s.fires.size()), r.nextBoolean() ? E.BEGIN : E.END, l,
          new Spec.Op(Spec.Op.THROW, t));
    }
    World.Opt o = Scn.opt(run);
    o.listener = 0;
    World w = run.world(s, o);
    MultiConsumerStateMachineListener<Object, Object> m =
        new MultiConsumerStateMachineListener<>();
    for (int i = 1; i <= n; i++) {
      m.add(w.tagged(i));
    }
    StateMachineListener<Object, Object> extra = w.tagged(99);
    w.m.setStateMachineListener(m);
    run.start(w);
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int threads = 1 + r.nextInt(3);
    for (int t = 0; t < threads; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < roots.size(); i += threads) {
          w.fire(roots.get(i));
        }
      });
    }
    ts.add("changing", () -> {
      for (int i = 0; i < 5; i++) {
        m.add(extra);
        Noise.pause(50);
        m.remove(extra);
      }
    });
    ts.start();
    if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
      return;
    }
    List<E> trace = run.rec.sorted();
    run.cover(trace);
    // consecutive notifications with the same arguments by different listeners belong together
    Map<String, int[]> count = new HashMap<>();
    for (E e : trace) {
      if ((e.kind == E.BEGIN || e.kind == E.END) && e.idx != 99) {
        count.computeIfAbsent(e.kind + " " + e.fid + " " + e.ev + " " + e.from + " " + e.to
            + (e.fid == -3 ? e.s0 : ""), k -> new int[n + 1])[e.idx]++;
      }
    }
    for (Map.Entry<String, int[]> c : count.entrySet()) {
      int[] v = c.getValue();
      for (int i = 2; i <= n; i++) {
        if (v[i] != v[1]) {
          run.violate(MULTI, "listeners 1 and " + i + " of " + n + " were told " + v[1] + " and "
              + v[i] + " times: " + c.getKey(), trace);
          return;
        }
      }
    }
    run.engine.count("notifications compared", count.size());
  }

  // ---------------------------------------------------------------------------------- C22

  static Check c22() {
    Check c = new Check("C22", "pairs of states and events with equal and with similar names, changing "
        + "payloads and actions, are compared directly, as keys, and through machines configured "
        + "with one and fired with other instances; a case is non-trivial if a pair was compared; "
        + "cases are distinct if their names (and fired events) are", NAMES);
    c.plain("pairs", 35, ChecksLib::pairs);
    c.plain("machines", 65, ChecksLib::namesInMachines);
    return c;
  }

  private static String fresh(Random r, String s) {
    switch (r.nextInt(3)) {
      case 0:
        return new String(s);
      case 1:
        return new StringBuilder(s).toString();
      default:
        return s;
    }
  }

  @SuppressWarnings("unchecked")
  private static NamedState<Object, Object> state(Random r, String name) {
    NamedState<Object, Object> s = new NamedState<>(fresh(r, name));
    for (int i = r.nextInt(3); i > 0; i--) {
      s.appendEntryActions((e, m) -> {
      });
    }
    for (int i = r.nextInt(3); i > 0; i--) {
      s.appendExitActions((e, m) -> {
      });
    }
    return s;
  }

  private static NamedStateEvent<Object> event(Random r, String name) {
    NamedStateEvent<Object> e = new NamedStateEvent<>(fresh(r, name));
    if (r.nextBoolean()) {
      e.setPayload(Scn.payload(r, 1));
    }
    for (int i = r.nextInt(3); i > 0; i--) {
      e = new NamedStateEvent<>(e);
    }
    if (r.nextInt(4) == 0) {
      e.setPayload(r.nextBoolean() ? null : new Object());
    }
    return e;
  }

  private static String similar(Random r, String s) {
    switch (r.nextInt(9)) {
      case 0:
        return s + " ";
      case 1:
        return " " + s;
      case 2:
        return s.toUpperCase();
      case 3:
        return s.toLowerCase();
      case 4:
        return s.replace("Aa", "BB");
      case 5:
        return s + "\u0000";
      case 6:
        return s.isEmpty() ? "x" : s.substring(0, s.length() - 1);
      case 7:
        return s.trim();
      default:
        return java.text.Normalizer.normalize(s, r.nextBoolean() ? java.text.Normalizer.Form.NFD
            : java.text.Normalizer.Form.NFC);
    }
  }

  @SuppressWarnings("unchecked")
  private static void pairs(Run run) {
    Random r = run.r;
    List<String> names = Names.make(r, 6, 1 + r.nextInt(3), "n");
    names = new ArrayList<>(names);
    for (int i = 0; i < 6; i++) {
      names.add(similar(r, names.get(i)));
    }
    int n = 0;
    for (String a : names) {
      run.sig(a.hashCode());
      for (String b : names) {
        boolean eq = a.equals(b);
        NamedState<Object, Object> s1 = state(r, a);
        NamedState<Object, Object> s2 = state(r, b);
        NamedStateEvent<Object> e1 = event(r, a);
        NamedStateEvent<Object> e2 = event(r, b);
        int h = s1.hashCode();
        int g = e1.hashCode();
        String x = null;
        if (s1.equals(s2) != eq || s2.equals(s1) != eq || e1.equals(e2) != eq
            || e2.equals(e1) != eq) {
          x = "equal is not " + eq;
        } else if (eq && (s1.hashCode() != s2.hashCode() || e1.hashCode() != e2.hashCode())) {
          x = "hash codes differ";
        } else if (s1.equals((Object) e2) || e2.equals((Object) s1) || s1.equals(null)
            || e1.equals(null) || e1.equals((Object) b) || s1.equals((Object) b)) {
          x = "equal to something else";
        } else if (!s1.equals(s1) || !e1.equals(e1)) {
          x = "not equal to itself";
        }
        s1.appendEntryActions((ev, m) -> {
        });
        s1.appendExitActions((ev, m) -> {
        });
        e1.setPayload(new Object());
        if (x == null && (s1.equals(s2) != eq || e1.equals(e2) != eq || s1.hashCode() != h
            || e1.hashCode() != g)) {
          x = "changed with the actions or the payload";
        }
        Map<Object, Integer> map = new HashMap<>();
        map.put(s1, 1);
        map.put(e1, 2);
        if (x == null && (map.size() != 2 || eq != map.containsKey(s2) || eq != map.containsKey(e2)
            || !a.equals(s1.getName()) || !a.equals(e1.getName()))) {
          x = "not found as a key, or another name";
        }
        if (x != null) {
          run.violate(NAMES, E.q(a) + " and " + E.q(b) + ": " + x, null);
          return;
        }
        n++;
      }
    }
    run.events += n;
    run.engine.count("pairs compared", n);
  }

  /** Similar names, one instance is configured and others are fired. */
  private static void namesInMachines(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = new Spec.Gen();
    g.stateScheme = 1 + r.nextInt(3);
    g.typeScheme = 1 + r.nextInt(3);
    g.sameNames = r.nextInt(4) == 0;
    g.compound = r.nextInt(4) == 0;
    g.maxActions = 1;
    g.maxTypes = 8;
    g.pctMapped = 60;
    Spec s = Spec.table(r, g);
    for (int k = 0; k < 2; k++) {
      s.types.replaceAll(x -> x);
      int i = r.nextInt(s.types.size());
      int j = r.nextInt(s.types.size());
      String x = similar(r, s.types.get(i));
      if (!s.types.contains(x) && !x.equals("_immediate_")) {
        s.types.set(j, x);
      }
      i = r.nextInt(s.states.size());
      j = r.nextInt(s.states.size());
      x = similar(r, s.states.get(i));
      if (!s.states.contains(x) && !x.equals("_END_") && !x.equals("_NOOP_")
          && !x.equals("_UNINITIALISED_")) {
        s.states.set(j, x);
      }
    }
    s.typeByName.clear();
    for (int j = 0; j < s.types.size(); j++) {
      s.typeByName.put(s.types.get(j), j);
    }
    for (int i = 0; i < 40; i++) {
      int type = r.nextInt(s.types.size());
      Spec.F f = s.fireTok(type, false);
      f.name = fresh(r, f.name);
    }
    World.Opt o = Scn.opt(run);
    o.mapStyle = 1;
    o.userStates = false;
    World w = run.world(s, o);
    // events that only look like configured ones, and copies without payload
    if (r.nextBoolean()) {
      run.start(w);
    } else {
      State<Object, Object> st = w.stateObjs.get(s.states.get(s.init));
      E e = w.call("startInState", () -> w.m.startInState(st));
      if (e.ex != null) {
        run.violate(NAMES, "could not be started in its initial state: " + Engine.stack(e.ex));
        return;
      }
    }
    for (int fid : Scn.roots(s)) {
      w.fire(fid);
    }
    if (!Scn.settle(run, w)) {
      return;
    }
    Checker k = new Checker(w).parse();
    run.cover(k.trace);
    // replay against the table, by name
    String cur = s.states.get(s.init);
    List<E> cbs = new ArrayList<>();
    for (E e : k.trace) {
      if ((e.kind == E.BEGIN || e.kind == E.UNM) && e.fid >= 0) {
        cbs.add(e);
      }
    }
    if (cbs.size() != s.fires.size()) {
      run.violate(NAMES, s.fires.size() + " events fired, " + cbs.size() + " processed");
      return;
    }
    for (E e : cbs) {
      Spec.F f = s.fires.get(e.fid);
      int out = s.out[s.states.indexOf(cur)][f.type];
      String want = out == Spec.UNM ? null : out == Spec.NOOP ? "_NOOP_" : s.states.get(out);
      if (!f.name.equals(e.ev) || !cur.equals(e.cur) || e.kind == E.UNM != (want == null)
          || want != null && !want.equals(e.to)) {
        run.violate(NAMES, "event " + E.q(f.name) + " in state " + E.q(cur) + " should lead to "
            + E.q(want) + " but: " + e + "; states " + s.states + " events " + s.types);
        return;
      }
      if (out >= 0) {
        cur = s.states.get(out);
      }
    }
    run.engine.count("events compared by name", cbs.size());
  }

  // ---------------------------------------------------------------------------------- C24

  static Check c24() {
    Check c = new Check("C24", "wrapped actions and handlers that return or throw throwables of all "
        + "sorts, called directly, concurrently, nested, and as actions of machines; every call is "
        + "compared with what was passed and thrown; a case is non-trivial if a wrapper was "
        + "executed; cases are distinct if what was thrown where is", WRAP);
    c.plain("kept by the machine only", 3, run -> ChecksKept.kept(run, WRAP, "H"));
    c.plain("direct", 30, ChecksLib::wrapDirect);
    c.noisy("concurrent", 20, ChecksLib::wrapConcurrent);
    c.noisy("in machines", 50, ChecksLib::wrapInMachine);
    return c;
  }

  /** One wrapper with what it has to do and did. */
  private static final class Wrap {

    Throwable actionThrows;
    Throwable handlerThrows;
    int actions;
    int handlers;
    StateEvent<Object> ev;
    StateMachine<Object, Object> sm;
    StateEvent<Object> hev;
    StateMachine<Object, Object> hsm;
    Exception handled;

    HandleExceptionAction<Object, Object> make() {
      return new HandleExceptionAction<>((e, m) -> {
        actions++;
        ev = e;
        sm = m;
        if (actionThrows != null) {
          Throwables.sneak(actionThrows);
        }
      }, (e, m, x) -> {
        handlers++;
        hev = e;
        hsm = m;
        handled = x;
        if (handlerThrows != null) {
          Throwables.sneak(handlerThrows);
        }
      });
    }

    /** @return what is wrong, or null */
    String judge(StateEvent<Object> e, StateMachine<Object, Object> m, Throwable thrown) {
      boolean isException = actionThrows instanceof Exception;
      if (actions != 1 || ev != e || sm != m) {
        return "action called " + actions + " times with " + ev + ", " + sm;
      }
      if (handlers != (isException ? 1 : 0)) {
        return "handler called " + handlers + " times";
      }
      if (isException && (hev != e || hsm != m || handled != actionThrows)) {
        return "handler called with " + hev + ", " + hsm + ", " + handled;
      }
      Throwable want = isException ? handlerThrows : actionThrows;
      if (thrown != want) {
        return thrown + " was thrown instead of " + want;
      }
      return null;
    }
  }

  private static Wrap wrap(Random r) {
    Wrap x = new Wrap();
    x.actionThrows = r.nextInt(4) == 0 ? null : throwable(r);
    x.handlerThrows = r.nextInt(4) != 0 ? null : again(r, x.actionThrows);
    return x;
  }

  /** Handlers often throw just what they were given, or wrap it. */
  private static Throwable again(Random r, Throwable given) {
    int k = given == null ? 3 : r.nextInt(5);
    if (k == 0) {
      return given;
    }
    if (k == 1) {
      return new IllegalStateException("wrapped", given);
    }
    Throwable t = throwable(r);
    if (k == 2 && t != given) {
      t.addSuppressed(given);
    }
    return t;
  }

  /** Also ones nobody would catch by its exact class. */
  private static Throwable throwable(Random r) {
    int k = 1 + r.nextInt(Throwables.KINDS + 2);
    if (k >= Throwables.KINDS + 1) {
      return new IllegalStateException("outer", new RuntimeException(new Throwables.TestChecked()));
    }
    return k == Throwables.KINDS ? new ThreadDeath() : Throwables.make(k);
  }

  private static void wrapDirect(Run run) {
    Random r = run.r;
    // not configured, only configured, started and ended
    List<GenericStateMachine<Object, Object>> machines = new ArrayList<>();
    for (int i = 0; i < 4; i++) {
      GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<>().build();
      if (i > 0) {
        m.initialSate(new NamedState<>("s")).receives(new NamedStateEvent<>("x")).itEnds();
      }
      if (i > 1) {
        m.start();
      }
      if (i > 2) {
        m.stop();
      }
      machines.add(m);
    }
    int n = 60;
    for (int i = 0; i < n; i++) {
      Wrap x = wrap(r);
      StateAction<Object, Object> a = x.make();
      Wrap outer = null;
      if (r.nextInt(3) == 0) {
        outer = new Wrap();
        outer.handlerThrows = r.nextInt(3) == 0 ? again(r, x.handlerThrows) : null;
      }
      NamedStateEvent<Object> e = r.nextInt(5) == 0 ? null : event(r, "e" + i);
      GenericStateMachine<Object, Object> sm = r.nextInt(5) == 0 ? null
          : machines.get(r.nextInt(machines.size()));
      run.sig(x.actionThrows == null ? 0 : x.actionThrows.getClass().hashCode());
      run.sig(x.handlerThrows == null ? 0 : x.handlerThrows.getClass().hashCode());
      StateAction<Object, Object> call = a;
      if (outer != null) {
        Wrap o = outer;
        call = new HandleExceptionAction<>(a, (ev, mm, ex) -> {
          o.handlers++;
          o.hev = ev;
          o.hsm = mm;
          o.handled = ex;
          if (o.handlerThrows != null) {
            Throwables.sneak(o.handlerThrows);
          }
        });
      }
      // the same may be thrown again and again
      int times = r.nextInt(3) == 0 ? 2 + r.nextInt(3) : 1;
      String bad = null;
      for (int j = 0; j < times && bad == null; j++) {
        bad = wrapOnce(x, outer, call, j > 0 && r.nextInt(4) == 0 ? event(r, "f" + i) : e,
            r.nextInt(4) == 0 ? null : sm);
        run.engine.count("wrapper executions", 1);
      }
      if (bad != null) {
        run.violate(WRAP, "action throws " + x.actionThrows + ", handler throws " + x.handlerThrows
            + ": " + bad, null);
        return;
      }
    }
    run.events += n;
    if (run.sample == null) {
      run.sample = n + " wrappers";
    }
  }

  private static String wrapOnce(Wrap x, Wrap outer, StateAction<Object, Object> call,
      StateEvent<Object> e, StateMachine<Object, Object> sm) {
    x.actions = 0;
    x.handlers = 0;
    if (outer != null) {
      outer.handlers = 0;
    }
    Throwable thrown = null;
    try {
      call.execute(e, sm);
    } catch (Throwable t) {
      thrown = t;
    }
    String bad;
    if (outer == null) {
      bad = x.judge(e, sm, thrown);
    } else {
      // what comes out of the inner one is handled by the outer one
      Throwable inner = x.actionThrows instanceof Exception ? x.handlerThrows : x.actionThrows;
      bad = x.judge(e, sm, inner);
      boolean ex = inner instanceof Exception;
      if (bad == null && (outer.handlers != (ex ? 1 : 0) || ex && (outer.handled != inner
          || outer.hev != e || outer.hsm != sm) || thrown != (ex ? outer.handlerThrows : inner))) {
        bad = "nested: outer handler called " + outer.handlers + " times with " + outer.handled
            + ", thrown " + thrown + " instead of " + inner;
      }
    }
    return bad;
  }

  /** One wrapper used by many threads. */
  private static void wrapConcurrent(Run run) throws Exception {
    Random r = run.r;
    Map<StateEvent<Object>, int[]> count = new java.util.IdentityHashMap<>();
    Map<StateEvent<Object>, Throwable> throwsFor = new java.util.IdentityHashMap<>();
    Map<StateEvent<Object>, Throwable> handlerThrows = new java.util.IdentityHashMap<>();
    ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<>().build();
    HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>((e, sm) -> {
      count.get(e)[0]++;
      Noise.hit(E.ENTRY);
      if (throwsFor.get(e) != null) {
        Throwables.sneak(throwsFor.get(e));
      }
    }, (e, sm, x) -> {
      count.get(e)[1]++;
      if (x != throwsFor.get(e) || sm != m) {
        bad.add("handler of " + e + " got " + x);
      }
      if (handlerThrows.get(e) != null) {
        Throwables.sneak(handlerThrows.get(e));
      }
    });
    int n = 2 + r.nextInt(4);
    List<List<StateEvent<Object>>> of = new ArrayList<>();
    for (int t = 0; t < n; t++) {
      List<StateEvent<Object>> l = new ArrayList<>();
      for (int i = 0; i < 20; i++) {
        StateEvent<Object> e = new NamedStateEvent<>("e");
        l.add(e);
        count.put(e, new int[2]);
        if (r.nextBoolean()) {
          throwsFor.put(e, throwable(r));
          if (r.nextInt(4) == 0) {
            handlerThrows.put(e, again(r, throwsFor.get(e)));
          }
        }
        run.sig(throwsFor.get(e) == null ? 0 : throwsFor.get(e).getClass().hashCode());
      }
      of.add(l);
    }
    Run.Threads ts = run.threads();
    for (List<StateEvent<Object>> l : of) {
      ts.add("executing", () -> {
        for (StateEvent<Object> e : l) {
          Throwable want = throwsFor.get(e) instanceof Exception ? handlerThrows.get(e)
              : throwsFor.get(e);
          Throwable got = null;
          try {
            a.execute(e, m);
          } catch (Throwable t) {
            got = t;
          }
          if (got != want) {
            bad.add(got + " was thrown instead of " + want);
          }
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    for (Map.Entry<StateEvent<Object>, int[]> e : count.entrySet()) {
      int want = throwsFor.get(e.getKey()) instanceof Exception ? 1 : 0;
      if (e.getValue()[0] != 1 || e.getValue()[1] != want) {
        bad.add("action called " + e.getValue()[0] + " times, handler " + e.getValue()[1]
            + " times, it throws " + throwsFor.get(e.getKey()));
      }
    }
    if (!bad.isEmpty()) {
      run.violate(WRAP, bad.peek(), null);
    }
    run.events += count.size();
    run.engine.count("wrapper executions", count.size());
  }

  /** Wrapped actions among other actions; the transitions are complete in spite of exceptions. */
  @SuppressWarnings("unchecked")
  private static void wrapInMachine(Run run) throws Exception {
    Random r = run.r;
    Spec.Gen g = Scn.gen(r);
    g.maxActions = 2;
    Spec s = Spec.table(r, g);
    Scn.fires(r, s, Scn.size(r, 12, 40, 100), 5);
    World.Opt o = Scn.opt(run);
    World w = run.world(s, o);
    ConcurrentLinkedQueue<String> bad = new ConcurrentLinkedQueue<>();
    int[] counts = new int[3];
    long seed = r.nextLong();
    ThreadLocal<Random> rnd = ThreadLocal.withInitial(() -> new Random(seed));
    Throwable[] current = new Throwable[1];
    Object[] args = new Object[2];
    for (State<Object, Object> st : w.stateObjs.values()) {
      HandleExceptionAction<Object, Object> a = new HandleExceptionAction<>((e, m) -> {
        if (current[0] != null) {
          bad.add("the handler was not called for " + current[0]);
        }
        counts[0]++;
        args[0] = e;
        args[1] = m;
        int k = rnd.get().nextInt(3) == 0 ? 0 : 1 + rnd.get().nextInt(Throwables.EXCEPTIONS);
        if (k > 0) {
          counts[1]++;
          current[0] = Throwables.make(k);
          Throwables.sneak(current[0]);
        }
      }, (e, m, x) -> {
        counts[2]++;
        if (x != current[0] || e != args[0] || m != args[1]) {
          bad.add("handler got " + e + ", " + m + ", " + x + " instead of " + current[0]);
        }
        current[0] = null;
      });
      if (r.nextBoolean()) {
        st.appendEntryActions(a);
      } else {
        st.appendExitActions(a, a);
      }
      // and another recording action behind them
      int i = s.states.indexOf(st.getName());
      int entry = s.nEntry[i]++;
      int exit = s.nExit[i]++;
      st.appendEntryActions((e, m) -> w.extra(E.ENTRY, st.getName(), entry, e, m));
      st.appendExitActions((e, m) -> w.extra(E.EXIT, st.getName(), exit, e, m));
    }
    run.start(w);
    Run.Threads ts = run.threads();
    List<Integer> roots = Scn.roots(s);
    int threads = 1 + r.nextInt(3);
    for (int t = 0; t < threads; t++) {
      int from = t;
      ts.add("firing" + t, () -> {
        for (int i = from; i < roots.size(); i += threads) {
          w.fire(roots.get(i));
        }
      });
    }
    ts.start();
    if (!Scn.join(run, ts) || !Scn.settle(run, w)) {
      return;
    }
    Checker k = new Checker(w).all().quiescent();
    run.cover(k.trace);
    if (!k.out.isEmpty()) {
      Run.Viol v = k.out.get(0);
      run.violate(WRAP, "a transition with wrapped actions went wrong: " + v.tag + " " + v.msg,
          k.trace);
    }
    if (!bad.isEmpty()) {
      run.violate(WRAP, bad.peek());
    }
    if (counts[1] != counts[2]) {
      run.violate(WRAP, counts[1] + " exceptions, " + counts[2] + " handled");
    }
    run.engine.count("wrapper executions", counts[0]);
    run.engine.count("handled exceptions", counts[2]);
  }
}
