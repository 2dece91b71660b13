package vh;

import com.webotech.statemachine.GenericStateMachine;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Objects;
import java.util.Set;

/**
 * Checks the recorded history of one machine against its specification. Every violation has a tag
 * that says which kind of guarantee is broken; a property's check looks at its own tags only.
 */
final class Checker {

  static final String TABLE = "TABLE";
  static final String PROTO = "PROTO";
  static final String ATOM = "ATOM";
  static final String CONS = "CONS";
  static final String ORDER = "ORDER";
  static final String ENDED = "ENDED";
  static final String EXC = "EXC";
  static final String PAYLOAD = "PAYLOAD";
  static final String THREAD = "THREAD";
  static final String START = "START";
  static final String SIZE = "SIZE";
  static final String REFUSE = "REFUSE";
  static final String UNMAPPED = "UNMAPPED";
  static final String MACHINE = "MACHINE";

  /** The callbacks that process one event. */
  static final class Group {

    int fid;
    String ev;
    final List<E> cbs = new ArrayList<>();
    final List<E> reports = new ArrayList<>();

    E first() {
      return cbs.isEmpty() ? reports.get(0) : cbs.get(0);
    }

    long lastLeave() {
      long l = 0;
      for (E e : cbs) {
        l = Math.max(l, e.s1);
      }
      for (E e : reports) {
        l = Math.max(l, e.s1);
      }
      return l;
    }
  }

  final World w;
  final Spec spec;
  final List<E> trace;
  final List<Run.Viol> out = new ArrayList<>();
  final List<Group> groups = new ArrayList<>();
  final Map<Integer, E> fires = new HashMap<>();
  final Map<Integer, Integer> refused = new HashMap<>();
  final Map<Integer, Integer> before = new HashMap<>();
  final Map<Integer, Integer> after = new HashMap<>();
  /** groups by fid */
  final Map<Integer, Integer> processed = new HashMap<>();
  /** index of the state in which the machine was started, or -1 when it was not */
  int startState;
  boolean startedInState;
  /** when the machine was first seen as ended, and when at the earliest that can have been */
  long knownEnded = Long.MAX_VALUE;
  long endPossible = Long.MAX_VALUE;
  boolean tableDone;
  boolean listener = true;
  /** events are matched by name only */
  boolean anon;
  /** sequence number from which on a concurrent stop() may disturb */
  long stopFrom = Long.MAX_VALUE;
  boolean broken;
  int finalState;
  boolean finalEnded;
  long endedAt = Long.MAX_VALUE;
  /** no event may be lost, also if the machine ended */
  boolean bounded;
  boolean dropDup;

  Checker(World w) {
    this.w = w;
    this.spec = w.spec;
    this.trace = w.rec.sorted();
    this.startState = spec.init;
    this.listener = w.opt.listener != 0;
  }

  void v(String tag, String msg) {
    if (out.size() < 20) {
      out.add(new Run.Viol(tag, msg, null));
    }
  }

  static boolean isProcessing(E e) {
    return e.kind >= E.BEGIN && e.kind <= E.UNM;
  }

  /** Splits the history into fires, reports and groups of callbacks. */
  Checker parse() {
    for (E e : trace) {
      if (e.ended && e.machine == w.m) {
        knownEnded = Math.min(knownEnded, e.s1);
      }
      if (e.kind == E.FIRE && e.machine == w.m) {
        fires.put(e.fid, e);
      }
    }
    Group g = null;
    List<Group> open = new ArrayList<>();
    for (E e : trace) {
      if (e.kind > E.BEFORE || e.machine != w.m) {
        continue;
      }
      if (e.kind == E.BEFORE) {
        before.merge(e.fid, 1, Integer::sum);
        continue;
      }
      if (e.kind == E.AFTER) {
        after.merge(e.fid, 1, Integer::sum);
        continue;
      }
      if (e.kind == E.EXC && isRefusal(e)) {
        refused.merge(e.fid, 1, Integer::sum);
        continue;
      }
      boolean startsNew = g == null || e.fid != g.fid || !Objects.equals(e.ev, g.ev)
          || listener && (e.kind == E.BEGIN || e.kind == E.UNM)
          || e.kind == E.UNM;
      if (e.kind == E.EXC) {
        if (g != null && g.fid == e.fid && Objects.equals(e.ev, g.ev)) {
          g.reports.add(e);
          continue;
        }
        startsNew = true;
      }
      if (startsNew) {
        g = new Group();
        g.fid = e.fid;
        g.ev = e.ev;
        groups.add(g);
        open.add(g);
      }
      if (e.kind == E.EXC) {
        g.reports.add(e);
      } else {
        g.cbs.add(e);
      }
    }
    for (Group x : groups) {
      processed.merge(x.fid, 1, Integer::sum);
    }
    return this;
  }

  /** A refusal is reported inside the fire itself. */
  boolean isRefusal(E e) {
    E f = fires.get(e.fid);
    return f != null && f.thread == e.thread && f.s0 < e.s0 && e.s1 < f.s1;
  }

  /** Callbacks of different events neither overlap nor interleave. */
  Checker atomicity() {
    E prev = null;
    long maxLeave = 0;
    E maxE = null;
    for (E e : trace) {
      if (e.machine != w.m || !(isProcessing(e) || e.kind == E.EXC && !isRefusal(e))) {
        continue;
      }
      if (maxE != null && e.s0 < maxLeave) {
        v(ATOM, "callback of " + what(e) + " began while a callback of " + what(maxE)
            + " was running: " + e + " inside " + maxE);
        broken = true;
      }
      if (e.s1 > maxLeave) {
        maxLeave = e.s1;
        maxE = e;
      }
      prev = e;
    }
    if (anon) {
      return this;
    }
    Map<Integer, Integer> last = new HashMap<>();
    for (int i = 0; i < groups.size(); i++) {
      Group g = groups.get(i);
      Integer p = last.put(g.fid, i);
      if (p != null && p < i - 1 && !completeAlone(groups.get(p))) {
        v(ATOM, "callbacks of event #" + g.fid + " " + E.q(g.ev) + " are interleaved with those of #"
            + groups.get(i - 1).fid);
        broken = true;
      }
    }
    return this;
  }

  private String what(E e) {
    return "event #" + e.fid + " " + E.q(e.ev);
  }

  private boolean completeAlone(Group g) {
    if (g.cbs.isEmpty()) {
      return true;
    }
    E l = g.cbs.get(g.cbs.size() - 1);
    return l.kind == E.UNM || l.kind == E.END || !g.reports.isEmpty() || l.ex != null
        || !listener;
  }

  /** Every fire has exactly one outcome; only fired events are processed. */
  Checker conservation() {
    Set<Integer> known = new HashSet<>();
    for (Group g : groups) {
      if (g.fid == -1) {
        continue;
      }
      if (!fires.containsKey(g.fid)) {
        v(CONS, "an event was processed that was never fired: " + g.first());
      } else if (g.first().s0 < fires.get(g.fid).s0) {
        v(CONS, "an event was processed before it was fired: " + g.first());
      }
      known.add(g.fid);
    }
    for (E f : fires.values()) {
      int p = processed.getOrDefault(f.fid, 0);
      int r = refused.getOrDefault(f.fid, 0);
      int b = before.getOrDefault(f.fid, 0);
      int a = after.getOrDefault(f.fid, 0);
      int n = p + r + b + a;
      if (n > 1) {
        v(CONS, "event #" + f.fid + " " + E.q(f.ev) + " has " + n + " outcomes (processed " + p
            + ", refused " + r + ", before start " + b + ", after end " + a + ")");
      } else if (n == 0 && f.ex == null && !dropDup) {
        if (f.s0 > knownEnded) {
          v(ENDED, "event #" + f.fid + " fired after the end was not reported: " + f);
        } else if (endedAt == Long.MAX_VALUE && !w.m.isEnded()) {
          v(CONS, "event #" + f.fid + " " + E.q(f.ev) + " was lost: " + f);
        }
      }
      if (f.s0 > knownEnded && n > a) {
        v(ENDED, "event #" + f.fid + " fired after the end was not just reported as such: " + f);
      }
      if (f.ex != null && n == 0) {
        v(CONS, "fire threw " + Engine.stack(f.ex));
      }
      if (a > 0 && tableDone && (endedAt == Long.MAX_VALUE || f.s1 < endPossible)) {
        v(ENDED, "event reported as after the end of a machine that has not ended: " + f);
      }
    }
    return this;
  }

  /** If one fire returned before another began, the first is processed first. */
  Checker order() {
    long maxCall = 0;
    E maxE = null;
    for (Group g : groups) {
      E f = fires.get(g.fid);
      if (f == null) {
        continue;
      }
      if (maxE != null && f.s1 < maxCall) {
        v(ORDER, "event #" + f.fid + " was fired before #" + maxE.fid
            + " but processed after it: fires " + f + " and " + maxE);
        return this;
      }
      if (f.s0 > maxCall) {
        maxCall = f.s0;
        maxE = f;
      }
    }
    return this;
  }

  private String stateName(int s) {
    return s == Spec.END ? GenericStateMachine.RESERVED_STATE_NAME_END : spec.states.get(s);
  }

  /** Replays the processed events, in the observed order, on the table. */
  Checker table() {
    int state = startState;
    boolean ended = false;
    boolean startSeen = startedInState;
    boolean resync = false;
    for (Group g : groups) {
      boolean lenient = g.lastLeave() > stopFrom;
      if (g.cbs.isEmpty()) {
        if (!lenient) {
          v(EXC, "exception reported although no callback failed: " + g.reports.get(0) + " "
              + Engine.stack(g.reports.get(0).ex));
        }
        continue;
      }
      if (lenient) {
        stopped(g);
        continue;
      }
      Spec.Exp x;
      if (g.fid == -1) {
        if (startSeen) {
          v(START, "the initial transition was made more than once: " + g.first());
        }
        startSeen = true;
        x = spec.expectStart(startState);
      } else {
        if (ended) {
          v(ENDED, "event #" + g.fid + " was processed after the end: " + g.first());
          return this;
        }
        int type = g.fid >= 0 ? spec.fires.get(g.fid).type
            : spec.typeByName.getOrDefault(g.ev, -1);
        x = spec.expect(g.fid, type, state);
      }
      if (!outcome(g, x, state)) {
        return this;
      }
      protocol(g, x, state);
      exceptions(g, x);
      payload(g);
      state = x.newState;
      if (x.ended) {
        ended = true;
        state = Spec.END;
        endedAt = Math.min(endedAt, g.lastLeave());
        endPossible = Math.min(endPossible, g.first().s0);
      }
    }
    if (stopFrom != Long.MAX_VALUE) {
      ended = true;
      state = Spec.END;
      endedAt = Math.min(endedAt, stopFrom);
      endPossible = Math.min(endPossible, stopFrom);
    }
    finalState = state;
    finalEnded = ended;
    tableDone = true;
    return this;
  }

  /** An event during which the machine was stopped can fail as well. */
  private void stopped(Group g) {
    for (int i = 0; i < g.cbs.size(); i++) {
      E e = g.cbs.get(i);
      if (!(e.ex instanceof Exception) || g.fid == -1) {
        continue;
      }
      long n = g.reports.stream().filter(x -> x.ex == e.ex && x.exThread == e.thread
          && x.payload == e.payload).count();
      if (n != 1 || g.reports.size() != 1) {
        v(EXC, n + " reports (of " + g.reports.size() + ") of the exception of event #" + g.fid
            + " " + E.q(g.ev) + ", which failed after stop(): " + e);
      }
      if (i < g.cbs.size() - 1) {
        v(EXC, "unexpected callback: " + g.cbs.get(i + 1) + " (an earlier step of this event "
            + "failed)");
      }
      return;
    }
  }

  /** Whether the event did what the table says. */
  private boolean outcome(Group g, Spec.Exp x, int state) {
    E f = g.cbs.get(0);
    String got;
    if (f.kind == E.UNM) {
      got = "unmapped";
    } else if (f.kind == E.BEGIN) {
      got = GenericStateMachine.RESERVED_STATE_NAME_NOOP.equals(f.to) ? "no-op"
          : "transition to " + E.q(f.to);
    } else if (!listener && x.kind == E.BEGIN && (f.kind == E.EXIT || f.kind == E.ENTRY)) {
      got = x.what(spec);
    } else {
      got = f.kind == E.END ? "end without begin" : "action first";
    }
    String want = x.what(spec);
    if (!got.equals(want)) {
      String tag = got.equals("end without begin") || got.equals("action first") ? PROTO : TABLE;
      v(tag, "event #" + g.fid + " " + E.q(g.ev) + " in state " + E.q(stateName(state)) + ": "
          + got + " instead of " + want);
      return false;
    }
    String cur = f.cur;
    if (g.fid != -1 && !Objects.equals(cur, stateName(state))) {
      v(TABLE, "event #" + g.fid + " " + E.q(g.ev) + " was processed in state " + E.q(cur)
          + " instead of " + E.q(stateName(state)));
      return false;
    }
    return true;
  }

  private void protocol(Group g, Spec.Exp x, int state) {
    List<int[]> want = new ArrayList<>();
    for (int[] c : x.cbs) {
      if (listener || c[0] != E.BEGIN && c[0] != E.END) {
        want.add(c);
      }
    }
    int n = Math.max(want.size(), g.cbs.size());
    String from = g.fid == -1 ? "_UNINITIALISED_" : stateName(state);
    String to = x.kind == E.END ? GenericStateMachine.RESERVED_STATE_NAME_NOOP
        : x.kind == E.UNM ? null : stateName(x.target);
    String tag = x.thrown != 0 ? EXC : PROTO;
    for (int i = 0; i < n; i++) {
      if (i >= want.size()) {
        v(tag, "unexpected callback: " + g.cbs.get(i)
            + (x.thrown != 0 ? " (an earlier step of this event failed)" : ""));
        return;
      }
      if (i >= g.cbs.size()) {
        v(tag, "callback " + E.KINDS[want.get(i)[0]] + "[" + want.get(i)[1] + "] of event #" + g.fid
            + " " + E.q(g.ev) + " (" + E.q(from) + " to " + E.q(to) + ") is missing");
        return;
      }
      E e = g.cbs.get(i);
      int kind = want.get(i)[0];
      if (e.kind != kind || (kind == E.ENTRY || kind == E.EXIT) && e.idx != want.get(i)[1]) {
        v(tag, "callback " + e + " where " + E.KINDS[kind] + "[" + want.get(i)[1]
            + "] is due for event #" + g.fid + " " + E.q(g.ev));
        return;
      }
      if ((kind == E.BEGIN || kind == E.END) && x.kind != E.UNM && (!Objects.equals(from, e.from)
          || !Objects.equals(to, e.to))) {
        v(PROTO, "listener was told " + E.q(e.from) + " -> " + E.q(e.to) + " instead of " + E.q(from)
            + " -> " + E.q(to) + ": " + e);
      }
      if (e.ended && !(x.target == Spec.END && kind == E.END)) {
        v(ENDED, "the machine is seen as ended before its last transition is complete: " + e);
      }
      if (kind == E.EXIT && !Objects.equals(e.to, from) || kind == E.ENTRY && !Objects.equals(e.to,
          to)) {
        v(PROTO, "action of the wrong state: " + e);
      }
      boolean old = kind == E.BEGIN || kind == E.EXIT || x.kind != E.BEGIN;
      String cur = old ? stateName(g.fid == -1 ? startState : state) : to;
      if (!(g.fid == -1 && kind == E.BEGIN) && !Objects.equals(cur, e.cur)) {
        v(PROTO, "current state is " + E.q(e.cur) + " instead of " + E.q(cur) + " in " + e);
      }
    }
  }

  private void exceptions(Group g, Spec.Exp x) {
    boolean report = x.thrown != 0 && !Throwables.isError(x.thrown) && g.fid != -1;
    if (!report) {
      if (!g.reports.isEmpty()) {
        v(EXC, "exception reported although no callback threw one: " + g.reports.get(0) + " "
            + Engine.stack(g.reports.get(0).ex));
      }
      return;
    }
    if (g.reports.size() != 1) {
      v(EXC, g.reports.size() + " reports of the exception of event #" + g.fid + " " + E.q(g.ev)
          + " instead of 1");
      return;
    }
    E rep = g.reports.get(0);
    E thrower = null;
    for (E e : g.cbs) {
      if (e.ex != null) {
        thrower = e;
      }
    }
    if (thrower != null && rep.ex != thrower.ex) {
      v(EXC, "reported exception is not the one that was thrown: " + rep);
    }
    if (thrower != null && rep.exThread != thrower.thread) {
      v(EXC, "reported thread " + rep.exThread + " is not the processing thread: " + rep);
    }
    if (rep.payload != g.cbs.get(0).payload) {
      v(EXC, "reported event is not the one that failed: " + rep);
    }
  }

  private void payload(Group g) {
    if (g.fid == -1) {
      return;
    }
    Object want = g.fid >= 0 ? spec.fires.get(g.fid).payload : null;
    for (E e : g.cbs) {
      if (g.fid >= 0 && e.payload != want) {
        v(PAYLOAD, "payload " + e.payload + " instead of " + want + ": " + e);
        return;
      }
    }
    for (E e : g.reports) {
      if (g.fid >= 0 && e.payload != want) {
        v(PAYLOAD, "payload " + e.payload + " instead of " + want + ": " + e);
        return;
      }
    }
  }

  /** The machine's state once nothing goes on any more. */
  Checker quiescent() {
    if (broken || !tableDone) {
      return this;
    }
    String want = finalEnded ? GenericStateMachine.RESERVED_STATE_NAME_END : stateName(finalState);
    String cur = World.name(w.m.getCurrentState());
    if (!Objects.equals(want, cur)) {
      v(finalEnded ? ENDED : TABLE, "the machine is in state " + E.q(cur) + " instead of "
          + E.q(want) + " when all events have been processed");
    }
    if (w.m.isEnded() != finalEnded) {
      v(ENDED, "isEnded() is " + w.m.isEnded() + " instead of " + finalEnded
          + " when all events have been processed");
    }
    return this;
  }

  /** Once seen as ended, a machine stays ended, and nothing new is processed. */
  Checker staysEnded() {
    for (Group g : groups) {
      if (!g.cbs.isEmpty() && g.first().s0 > knownEnded) {
        v(ENDED, "processing of event #" + g.fid + " began after the machine was seen as ended: "
            + g.first());
        break;
      }
    }
    for (E e : trace) {
      if (e.machine == w.m && e.s0 > knownEnded && e.kind != E.FIRE && e.kind != E.CALL
          && (!e.ended || !e.started || !GenericStateMachine.RESERVED_STATE_NAME_END.equals(
          e.cur))) {
        v(ENDED, "machine is not seen as started, ended and in the end state after its end: " + e);
        break;
      }
    }
    return this;
  }

  /** From the given moment on the machine must be seen as ended and stay quiet. */
  Checker ended(long from) {
    for (E e : trace) {
      if (e.machine != w.m || e.s0 < from) {
        continue;
      }
      if (isProcessing(e)) {
        v(ENDED, "callback after the end: " + e);
        return this;
      }
      if (e.kind == E.AFTER && (!e.ended || !GenericStateMachine.RESERVED_STATE_NAME_END.equals(
          e.cur))) {
        v(ENDED, "machine is not seen as ended after its end: " + e);
        return this;
      }
    }
    return this;
  }

  Checker all() {
    parse();
    atomicity();
    if (!broken) {
      table();
    }
    conservation();
    order();
    return this;
  }

  /** All callbacks of processed events run on the executor's thread. */
  Checker threads() {
    for (E e : trace) {
      if (e.machine == w.m && isProcessing(e) && e.fid != -1 && w.exec != null
          && !w.exec.isWorker(e.thread)) {
        v(THREAD, "callback on a thread that is not the executor's: " + e);
        return this;
      }
    }
    return this;
  }
}
