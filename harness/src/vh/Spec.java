package vh;

import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** What a machine is configured with and what is fired at it. */
final class Spec {

  static final int END = -1;
  static final int NOOP = -2;
  static final int UNM = -3;

  /** One fire. */
  static final class F {

    int fid;
    int type;
    String name;
    Object payload;
    /** a child is fired from a callback */
    boolean child;
  }

  /** Something done inside a callback. */
  static final class Op {

    static final int FIRE = 1;
    static final int THROW = 2;
    static final int STOP = 3;
    static final int PAUSE = 4;
    static final int RUN = 5;
    final int k;
    final int arg;
    final Runnable run;

    Op(int k, int arg) {
      this(k, arg, null);
    }

    Op(int k, int arg, Runnable run) {
      this.k = k;
      this.arg = arg;
      this.run = run;
    }
  }

  List<String> states;
  List<String> types;
  int init;
  int[][] out;
  boolean[] immEnd;
  int[] nEntry;
  int[] nExit;
  boolean unique;
  /** there is no listener, and each transition can be seen nevertheless */
  boolean visible;
  final List<F> fires = new ArrayList<>();
  final Map<String, Integer> byName = new HashMap<>();
  /** how the payloads compare */
  int toks = Tok.SAME;
  /** payloads of all sorts, if they are not tokens */
  Map<Object, Integer> byPayload;
  final Map<String, Integer> typeByName = new HashMap<>();
  final Map<Long, List<Op>> ops = new HashMap<>();

  static long key(int fid, int kind, int idx) {
    return ((long) (fid + 10) << 20) | (kind << 14) | idx;
  }

  List<Op> opsAt(int fid, int kind, int idx) {
    List<Op> l = ops.get(key(fid, kind, idx));
    return l == null ? List.of() : l;
  }

  void op(int fid, int kind, int idx, Op op) {
    ops.computeIfAbsent(key(fid, kind, idx), k -> new ArrayList<>()).add(op);
  }

  int stateIndex(String name) {
    return states.indexOf(name);
  }

  F fire(int type, boolean child, Object payload) {
    F f = new F();
    f.fid = fires.size();
    f.type = type;
    f.name = unique ? types.get(type) + "#" + f.fid : types.get(type);
    f.payload = payload;
    f.child = child;
    fires.add(f);
    if (unique) {
      byName.put(f.name, f.fid);
    }
    typeByName.put(f.name, type);
    return f;
  }

  F fireTok(int type, boolean child) {
    F f = fire(type, child, null);
    if (byPayload == null) {
      f.payload = new Tok(f.fid, toks);
    } else {
      f.payload = Payloads.make((f.fid * 0x9E3779B1 >>> 8) % Payloads.KINDS, f.fid);
      byPayload.put(f.payload, f.fid);
    }
    return f;
  }

  /** Generator options. */
  static final class Gen {

    int minStates = 2;
    int maxStates = 6;
    int minTypes = 1;
    int maxTypes = 5;
    int maxActions = 3;
    int stateScheme;
    int typeScheme;
    int pctMapped = 75;
    int pctNoop = 12;
    int pctEnd;
    int pctImmEnd;
    int pctSelf = 15;
    boolean unique;
    boolean sameNames;
    boolean compound;
    boolean anyPayload;
    /** each transition can be seen without a listener */
    boolean visible;
  }

  static Spec table(Random r, Gen g) {
    Spec s = new Spec();
    s.toks = r.nextInt(3);
    if (g.anyPayload && r.nextInt(4) == 0) {
      s.byPayload = Collections.synchronizedMap(new IdentityHashMap<>());
    }
    int n = g.minStates + r.nextInt(g.maxStates - g.minStates + 1);
    int t = g.minTypes + r.nextInt(g.maxTypes - g.minTypes + 1);
    s.unique = g.unique;
    s.states = Names.make(r, n, g.stateScheme, "s");
    s.types = g.sameNames && t <= n ? new ArrayList<>(s.states.subList(0, t))
        : Names.make(r, t, g.typeScheme, "e");
    if (g.compound && !g.unique) {
      String sep = Names.separator(r);
      s.unique = false;
      s.states = Names.compound(r, n, sep);
      s.types = Names.compound(r, t, sep);
    }
    s.init = r.nextInt(n);
    s.out = new int[n][t];
    s.immEnd = new boolean[n];
    s.nEntry = new int[n];
    s.nExit = new int[n];
    s.visible = g.visible;
    for (int i = 0; i < n; i++) {
      s.nEntry[i] = r.nextInt(g.maxActions + 1);
      s.nExit[i] = r.nextInt(g.maxActions + 1);
      if (g.visible) {
        s.nEntry[i] = Math.max(1, s.nEntry[i]);
        s.nExit[i] = Math.max(1, s.nExit[i]);
      }
      s.immEnd[i] = r.nextInt(100) < g.pctImmEnd && i != s.init;
      for (int j = 0; j < t; j++) {
        s.out[i][j] = s.immEnd[i] || r.nextInt(100) >= g.pctMapped ? UNM
            : !g.visible && r.nextInt(100) < g.pctNoop ? NOOP
                : r.nextInt(100) < g.pctEnd ? END : r.nextInt(100) < g.pctSelf ? i : r.nextInt(n);
      }
    }
    for (int j = 0; j < t; j++) {
      s.typeByName.put(s.types.get(j), j);
    }
    return s;
  }

  /** Result of processing one event according to the table and the scripts. */
  static final class Exp {

    int kind; // E.BEGIN: transition, E.END: noop, E.UNM: unmapped
    int target;
    final List<int[]> cbs = new ArrayList<>();
    int thrown; // 0: none
    int newState;
    boolean ended;
    boolean stopped;
    final List<Integer> fired = new ArrayList<>();

    String what(Spec s) {
      return kind == E.UNM ? "unmapped" : kind == E.END ? "no-op"
          : "transition to " + E.q(target == END ? "_END_" : s.states.get(target));
    }
  }

  /** @param state index of the current state */
  Exp expect(int fid, int type, int state) {
    Exp x = new Exp();
    int o = type < 0 ? UNM : out[state][type];
    x.newState = state;
    x.target = o;
    if (o == UNM) {
      x.kind = E.UNM;
      at(x, fid, E.UNM, 0);
      return x;
    }
    if (o == NOOP) {
      x.kind = E.END;
      if (at(x, fid, E.BEGIN, 0)) {
        at(x, fid, E.END, 0);
      }
      return x;
    }
    x.kind = E.BEGIN;
    if (!at(x, fid, E.BEGIN, 0)) {
      return x;
    }
    for (int i = 0; i < nExit[state]; i++) {
      if (!at(x, fid, E.EXIT, i)) {
        return x;
      }
    }
    if (o == END) {
      x.newState = END;
      x.ended = true;
      at(x, fid, E.END, 0);
      return x;
    }
    x.newState = o;
    enter(x, fid, o);
    return x;
  }

  /** The initial transition. */
  Exp expectStart(int state) {
    Exp x = new Exp();
    x.kind = E.BEGIN;
    x.target = state;
    x.newState = state;
    if (at(x, -1, E.BEGIN, 0)) {
      enter(x, -1, state);
    }
    return x;
  }

  private void enter(Exp x, int fid, int o) {
    for (int i = 0; i < nEntry[o]; i++) {
      if (!at(x, fid, E.ENTRY, i)) {
        return;
      }
    }
    if (!at(x, fid, E.END, 0)) {
      return;
    }
    if (immEnd[o]) {
      x.newState = END;
      x.ended = true;
    }
  }

  private boolean at(Exp x, int fid, int kind, int idx) {
    if (visible && (kind == E.BEGIN || kind == E.END)) {
      return true;
    }
    x.cbs.add(new int[]{kind, idx});
    for (Op op : opsAt(fid, kind, idx)) {
      if (op.k == Op.FIRE) {
        x.fired.add(op.arg);
      } else if (op.k == Op.STOP) {
        x.stopped = true;
        x.ended = true;
      } else if (op.k == Op.THROW) {
        x.thrown = op.arg;
        return false;
      }
    }
    return true;
  }
}
