package vh;

import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.function.Supplier;

/** C17 to C19: the app service. */
final class ChecksApp {

  static final String APP = "APP";
  static final String CALLS = "APP_CALLS";
  static final String FAIL = "APP_FAIL";

  static void register(Map<String, Supplier<Check>> m) {
    m.put("C17", ChecksApp::c17);
    m.put("C18", ChecksApp::c18);
    m.put("C19", ChecksApp::c19);
  }

  static Check c17() {
    Check c = new Check("C17", "apps with 0 to 60 (rarely up to 400) recording subsystems in both modes are started, "
        + "stopped and restarted by a model-based driver (and by concurrent callers), the recorded "
        + "subsystem and lifecycle history is checked against the documented lifecycle; a case is "
        + "non-trivial if the app was started; cases are distinct if their recorded histories are",
        APP);
    c.noisy("cycles", 70, run -> new Walk(run, APP, false, false).go());
    c.noisy("concurrent callers", 30, run -> chaos(run, APP, false));
    return c;
  }

  static Check c18() {
    Check c = new Check("C18", "calls of start() and stop() in every lifecycle state (held there by "
        + "gates in subsystems and listeners) from other threads and from the app's thread, "
        + "interrupts, concurrent first starts; a case is non-trivial if the app was started; cases "
        + "are distinct if their recorded histories are", CALLS);
    c.noisy("calls", 50, run -> new Walk(run, CALLS, false, true).go());
    c.plain("calls and what is logged", 15, run -> {
      Walk w = new Walk(run, CALLS, false, true);
      w.logs = true;
      w.go();
    });
    c.noisy("concurrent callers", 15, run -> chaos(run, CALLS, false));
    c.noisy("concurrent first starts", 10, ChecksApp::firstStarts);
    c.noisy("failing apps return", 10, run -> new Walk(run, CALLS, true, true).go());
    return c;
  }

  static Check c19() {
    Check c = new Check("C19", "subsystems that fail at any position while starting or stopping, and "
        + "error() from any thread in any lifecycle state, over several restart cycles; a case is "
        + "non-trivial if the app was started; cases are distinct if their recorded histories are",
        FAIL);
    c.noisy("failures", 75, run -> new Walk(run, FAIL, true, false).go());
    c.noisy("concurrent errors", 25, run -> chaos(run, FAIL, true));
    c.plain("start, error, start while STOPPED", 2, ChecksApp::staleComplete);
    return c;
  }

  private static int subsystems(Random r) {
    return r.nextInt(80) == 0 ? r.nextInt(400) : r.nextInt(12) == 0 ? r.nextInt(60) : r.nextInt(6);
  }

  /** One controller that always knows what has to happen. */
  private static final class Walk {

    final Run run;
    final Random r;
    final String tag;
    final boolean failing;
    final boolean calls;
    final App a;
    boolean logs;
    volatile int failAt = -1;
    volatile App.Gate gate;
    /** what the gate is in: "start", "stop" or BEGIN/END of a transition into a state */
    volatile String where;
    volatile int whereIdx;
    volatile boolean inline;
    volatile Runnable atGate;
    volatile boolean atGateDone;
    int started;
    int stopped;

    Walk(Run run, String tag, boolean failing, boolean calls) {
      this.run = run;
      this.r = run.r;
      this.tag = tag;
      this.failing = failing;
      this.calls = calls;
      this.a = new App(run, r.nextBoolean(), subsystems(r));
      int pause = r.nextInt(4) == 0 ? r.nextInt(400) : 0;
      // some subsystems leave their thread interrupted
      boolean interrupts = r.nextInt(4) == 0;
      a.hook = e -> {
        Thread.interrupted();
        boolean sub = e.note != null;
        String at = sub ? e.note.substring(4) : E.KINDS[e.kind] + " " + e.to;
        if (at.equals(where) && (!sub || e.idx == whereIdx)) {
          where = null;
          if (inline) {
            atGate.run();
            atGateDone = true;
          } else {
            gate.pass();
          }
        }
        if (pause > 0 && sub) {
          Noise.pause(pause);
        }
        if (interrupts && sub && (e.s0 * 31 >>> 2) % 3 == 0) {
          Thread.currentThread().interrupt();
        }
        if (sub && e.idx == failAt) {
          failAt = -1;
          Throwables.sneak(Throwables.make(1 + (int) (e.s0 % Throwables.EXCEPTIONS)));
        }
      };
    }

    void go() throws Exception {
      if (logs) {
        Logs.start();
      }
      try {
        walk();
      } finally {
        if (logs) {
          List<Logs.Line> lines = Logs.stop();
          if (Scn.ok(run) && !failing && !a.threadName.equals("app")) {
            for (Logs.Line l : lines) {
              if ((l.logger.endsWith("EventProcessingStrategyFactory")
                  || l.logger.endsWith("DefaultUnexpectedFlowListener"))
                  && l.thread.getName().startsWith(a.threadName)) {
                run.violate(tag, "a rejected call fired an event: " + l);
                break;
              }
            }
          }
        }
      }
      if (run.inconclusive == null) {
        a.check(tag);
        int n = 0;
        for (E e : run.rec.sorted()) {
          n += e.note != null && e.note.startsWith("sub ") ? 1 : 0;
        }
        run.engine.count("subsystem calls", n);
        run.engine.count("cycles", started);
      }
    }

    /** Sets a gate (or something to be done by the app's thread itself). */
    private void arm(String where, int idx, Runnable action) {
      inline = r.nextInt(3) == 0;
      atGate = action;
      atGateDone = false;
      gate = new App.Gate();
      whereIdx = idx;
      this.where = where;
    }

    /** Does what has to be done while the app is in the gate. */
    private boolean atGate() throws Exception {
      if (inline) {
        return a.await(tag, "a callback", () -> atGateDone);
      }
      App.Gate g = gate;
      if (!a.await(tag, "a callback", () -> g.passed)) {
        return false;
      }
      try {
        atGate.run();
      } finally {
        g.open();
      }
      return true;
    }

    private E timed(String what, Supplier<E> c) {
      E[] e = new E[1];
      Thread t = new Thread(() -> e[0] = c.get(), "caller");
      t.setDaemon(true);
      t.start();
      try {
        t.join(8000);
        if (t.isAlive()) {
          String b = Run.blockedInLibrary(t, 3);
          if (b != null) {
            run.violate(tag, what + " does not return: " + b);
          } else {
            run.inconclusive = what + " does not return";
          }
          throw new Run.Abort();
        }
      } catch (InterruptedException x) {
        throw new IllegalStateException(x);
      }
      return e[0];
    }

    private void rejected(E e) {
      run.engine.count("rejected calls", 1);
      if (!(e.ex instanceof IllegalStateException)) {
        run.violate(tag, "not rejected with an IllegalStateException while " + a.state() + ": " + e);
      }
    }

    private void accepted(E e) {
      if (e.ex != null) {
        run.violate(tag, "failed while " + a.state() + ": " + e + " " + Engine.stack(e.ex));
        throw new Run.Abort();
      }
    }

    private void reject(boolean start, boolean stop) {
      int n = 1 + r.nextInt(2);
      for (int i = 0; i < n; i++) {
        if (start && r.nextInt(3) != 0) {
          rejected(timed("start()", a::start));
        }
        if (stop && r.nextInt(3) != 0) {
          rejected(timed("stop()", a::stop));
        }
      }
    }

    /** Usually one, but the others change nothing. */
    private void errors() {
      int n = failing && r.nextInt(3) == 0 ? 2 + r.nextInt(5) : 1;
      for (int i = 0; i < n; i++) {
        a.error();
      }
    }

    private boolean blocked() {
      return a.startCall.s1 == Long.MAX_VALUE;
    }

    private void walk() throws Exception {
      if (calls && r.nextBoolean()) {
        reject(false, true);
      }
      if (failing && r.nextInt(4) == 0) {
        a.error();
      }
      if (r.nextBoolean()) {
        a.observe();
      }
      int cycles = a.exit ? 1 : 1 + r.nextInt(r.nextInt(10) == 0 ? 12 : 4);
      boolean interrupted = false;
      boolean restarted = false;
      for (int cycle = 0; cycle < cycles; cycle++) {
        boolean first = cycle == 0;
        boolean fails = failing && a.n > 0 && r.nextInt(2) == 0 && !restarted;
        failAt = fails ? r.nextInt(a.n) : -1;
        boolean[] errored = {false};
        boolean gated = false;
        if (restarted) {
          // has happened before STOPPED was complete
        } else if (calls && r.nextBoolean()) {
          gated = true;
          int k = r.nextInt(a.n > 0 ? 4 : 3);
          if (k == 0 && first) {
            arm("begin " + App.STARTING, 0, () -> reject(true, true));
          } else if (k == 1 && !fails) {
            arm("begin " + App.STARTED, 0, () -> reject(true, true));
          } else if (k == 3) {
            arm("start", fails ? r.nextInt(failAt + 1) : r.nextInt(a.n), () -> reject(true, true));
          } else {
            arm("end " + App.STARTING, 0, () -> reject(true, true));
          }
        } else if (failing && r.nextInt(3) == 0) {
          gated = true;
          if (a.n > 0 && r.nextInt(3) != 0) {
            arm("start", fails ? r.nextInt(failAt + 1) : r.nextInt(a.n), this::errors);
            errored[0] = true;
          } else if (!fails) {
            arm("end " + App.STARTING, 0, this::errors);
            errored[0] = true;
          } else {
            gated = false;
          }
        } else if (!first && !fails && a.n > 0 && r.nextBoolean()) {
          // a restart returns at once, not when the subsystems have started
          gated = true;
          arm("start", r.nextInt(a.n), () -> {
          });
          inline = false;
        }
        if (first) {
          a.launch();
        } else if (!restarted) {
          accepted(timed("restarting start()", a::start));
        }
        restarted = false;
        if (gated && !atGate()) {
          return;
        }
        boolean down = fails || errored[0];
        if (!down) {
          if (!a.reach(tag, App.STARTED, ++started)) {
            return;
          }
          a.observe();
          if (calls) {
            reject(true, false);
          }
          if (first && !blocked() && !interrupted) {
            run.violate(tag, "start() returned while the app is running: " + a.startCall);
            return;
          }
          // take it down
          if (failing && r.nextInt(3) == 0) {
            if (r.nextBoolean()) {
              accepted(timed("error()", a::error));
            } else {
              errors();
            }
          } else {
            boolean stopFails = failing && a.n > 0 && r.nextInt(2) == 0;
            failAt = stopFails ? r.nextInt(a.n) : -1;
            gated = false;
            if (calls && !a.exit && cycle + 1 < cycles && r.nextInt(4) == 0) {
              // it is STOPPED as soon as its listener is told so
              gated = true;
              restarted = true;
              arm("end " + App.STOPPED, 0,
                  () -> accepted(timed("start() of an app that has just stopped", a::start)));
            } else if (calls && r.nextBoolean()) {
              gated = true;
              int k = r.nextInt(a.n > 0 ? 3 : 2);
              arm(k == 2 ? "stop" : k == 0 && !stopFails ? "begin " + App.STOPPED
                  : "end " + App.STOPPING, k != 2 ? 0
                  : stopFails ? failAt + r.nextInt(a.n - failAt) : r.nextInt(a.n),
                  () -> reject(true, true));
            } else if (failing && r.nextInt(3) == 0) {
              gated = true;
              boolean sub = a.n > 0 && r.nextBoolean();
              arm(sub ? "stop" : "end " + App.STOPPING, !sub ? 0
                  : stopFails ? failAt + r.nextInt(a.n - failAt) : r.nextInt(a.n), this::errors);
            } else if (a.exit && calls && r.nextBoolean()) {
              // STOPPED in exit-on-stop mode, the end is near
              gated = true;
              arm(r.nextBoolean() ? "end " + App.STOPPED : "begin " + App.END, 0, () -> {
                reject(true, false);
                accepted(timed("stop() of a stopped app", a::stop));
              });
            }
            if (calls && blocked() && !restarted && r.nextInt(3) == 0) {
              interrupted = true;
              a.interrupts.incrementAndGet();
              a.main.interrupt();
            } else {
              accepted(timed("stop()", a::stop));
            }
            if (gated && !atGate()) {
              return;
            }
          }
        }
        if (a.exit) {
          break;
        }
        stopped++;
        if (!restarted && !a.reach(tag, App.STOPPED, stopped)) {
          return;
        }
        a.observe();
        if (interrupted) {
          if (!a.returned(tag)) {
            return;
          }
        } else if (!blocked()) {
          run.violate(tag, "start() returned although the app has not received a stop while "
              + "STOPPED: " + a.startCall);
          return;
        }
        if (failing && !restarted && r.nextInt(3) == 0) {
          a.error();
        }
      }
      if (!a.exit) {
        accepted(timed("stop() while STOPPED", a::stop));
      }
      if (!a.reach(tag, App.END, 1) || !a.returned(tag)) {
        return;
      }
      a.observe();
      if (calls) {
        reject(true, true);
      }
      if (failing) {
        a.error();
      }
      E s = a.startCall;
      if (s.ex != null) {
        run.violate(tag, "start() did not return normally: " + s + " " + Engine.stack(s.ex));
      }
      if (interrupted != a.interruptedAfterStart) {
        run.violate(tag, "the interrupt flag is " + a.interruptedAfterStart + " after start()");
      }
      if (!interrupted) {
        long stop = 0;
        for (E e : run.rec.sorted()) {
          if (e.kind == E.BEGIN && e.to.equals(a.exit ? App.STOPPED : App.END)) {
            stop = e.s0;
          }
        }
        if (s.s1 < stop) {
          run.violate(tag, "start() returned before the app was done: " + s);
        }
      }
    }
  }

  /** Many callers; one of them restarts the app. */
  private static void chaos(Run run, String tag, boolean errors) throws Exception {
    Random r = run.r;
    App a = new App(run, r.nextInt(3) == 0, r.nextInt(5));
    int pause = r.nextInt(3) == 0 ? r.nextInt(200) : 0;
    if (pause > 0) {
      a.hook = e -> {
        if (e.note != null) {
          Noise.pause(pause);
        }
      };
    }
    Run.Threads ts = run.threads();
    int n = 1 + r.nextInt(4);
    int ops = 2 + r.nextInt(8);
    List<E> made = java.util.Collections.synchronizedList(new ArrayList<>());
    for (int t = 0; t < n; t++) {
      long seed = r.nextLong();
      ts.add("caller" + t, () -> {
        Random x = new Random(seed);
        for (int i = 0; i < ops; i++) {
          if (x.nextBoolean()) {
            Noise.pause(x.nextInt(600));
          }
          String st = a.observe().cur;
          if (errors && x.nextInt(3) == 0) {
            made.add(a.error());
          } else if (!App.STOPPED.equals(st) || a.exit || x.nextInt(8) == 0) {
            made.add(a.stop());
          }
        }
      });
    }
    if (!a.exit) {
      ts.add("restarter", () -> {
        for (int i = 0; i < ops; i++) {
          Run.await(0.003, () -> App.STOPPED.equals(a.state()) || App.END.equals(a.state()));
          // the very first start() is made by another thread
          if (a.times(App.UNINIT) > 0) {
            E e = a.start();
            made.add(e);
            if (e.ex == null) {
              // only one start at a time, see the known finding of C19
              Run.await(20, () -> App.END.equals(a.state()) || a.restartedAfter(e.s0));
            }
          }
        }
      });
    }
    a.launch();
    ts.start();
    if (!Scn.join(run, ts)) {
      return;
    }
    // bring it to its end
    long until = System.nanoTime() + 60_000_000_000L;
    while (!App.END.equals(a.state())) {
      String[] s = new String[1];
      if (!a.await(tag, "STARTED, STOPPED or the end", () -> {
        s[0] = a.state();
        return App.STARTED.equals(s[0]) || App.STOPPED.equals(s[0]) || App.END.equals(s[0]);
      })) {
        return;
      }
      if (!App.END.equals(s[0])) {
        made.add(a.stop());
        if (!a.await(tag, "leaving " + s[0] + " after stop()", () -> !s[0].equals(a.state()))) {
          return;
        }
      }
      if (System.nanoTime() > until) {
        run.inconclusive = "did not end";
        return;
      }
    }
    if (!a.reach(tag, App.END, 1) || !a.returned(tag)) {
      return;
    }
    if (a.startCall.ex != null) {
      run.violate(tag, "start() did not return normally: " + a.startCall + " "
          + Engine.stack(a.startCall.ex));
    }
    for (E e : made) {
      if (e.ex != null && !(e.ex instanceof IllegalStateException)) {
        run.violate(tag, "call failed: " + e + " " + Engine.stack(e.ex));
        break;
      }
    }
    a.check(tag);
    run.engine.count("concurrent calls", made.size());
  }

  /**
   * While a restartable app is STOPPED, a start, an error and a start arrive and are processed in
   * this order, the second start fails. The failed app must not become STARTED.
   */
  private static void staleComplete(Run run) throws Exception {
    App a = new App(run, false, 1 + run.r.nextInt(3));
    int failAt = run.r.nextInt(a.n);
    App.Gate g = new App.Gate();
    int[] starts = new int[1];
    a.hook = e -> {
      if (e.kind == E.END && App.STOPPED.equals(e.to)) {
        g.pass();
      }
      if ("sub start".equals(e.note)) {
        starts[0] += e.idx == 0 ? 1 : 0;
        if (starts[0] == 3 && e.idx == failAt) {
          Throwables.sneak(Throwables.make(1 + run.r.nextInt(Throwables.EXCEPTIONS)));
        }
      }
    };
    a.launch();
    if (!a.reach(FAIL, App.STARTED, 1)) {
      return;
    }
    a.stop();
    if (!a.await(FAIL, "STOPPED", () -> g.passed)) {
      return;
    }
    a.start();
    a.error();
    a.start();
    g.open();
    if (!a.reach(FAIL, App.STOPPED, 3)) {
      return;
    }
    StringBuilder sb = new StringBuilder();
    for (E e : run.rec.sorted()) {
      if (e.kind == E.END) {
        sb.append(sb.length() == 0 ? "" : " ").append(e.ev).append('>').append(e.to);
      }
    }
    run.cover(run.rec.sorted());
    String prefix = "_immediate_>UNINITIALISED start>STARTING complete>STARTED stop>STOPPING "
        + "complete>STOPPED start>STARTING error>STOPPED start>STARTING ";
    if (sb.toString().equals(prefix + "complete>STARTED error>STOPPED")) {
      run.known("stale-complete", FAIL, "after start(), error(), start() while STOPPED the app "
          + "becomes STARTED although its subsystem failed to start (stale complete event)");
    } else if (!sb.toString().equals(prefix + "error>STOPPED")) {
      run.violate(FAIL, "unexpected lifecycle: " + sb);
    }
  }

  private static void firstStarts(Run run) throws Exception {
    Random r = run.r;
    App a = new App(run, r.nextBoolean(), r.nextInt(4));
    Run.Threads ts = run.threads();
    int n = 2 + r.nextInt(4);
    a.launch();
    List<E> made = java.util.Collections.synchronizedList(new ArrayList<>());
    for (int t = 0; t < n; t++) {
      ts.add("starter" + t, () -> made.add(a.start()));
    }
    boolean held = r.nextBoolean();
    if (!held) {
      ts.start();
    }
    if (!a.reach(CALLS, App.STARTED, 1)) {
      return;
    }
    if (held) {
      ts.start();
    }
    // one of all the calls blocks, all the others have to be rejected while it does
    if (!a.await(CALLS, "rejecting the other calls of start()", () -> made.size()
        + (a.startCall.s1 == Long.MAX_VALUE ? 0 : 1) == n)) {
      return;
    }
    int rejected = 0;
    for (E e : made) {
      rejected += e.ex instanceof IllegalStateException ? 1 : 0;
    }
    rejected += a.startCall.ex instanceof IllegalStateException ? 1 : 0;
    if (rejected != n) {
      run.violate(CALLS, rejected + " of " + (n + 1) + " first calls of start() were rejected");
      return;
    }
    E stop = a.stop();
    if (!a.exit) {
      if (!a.reach(CALLS, App.STOPPED, 1)) {
        return;
      }
      a.stop();
    }
    if (stop.ex != null || !a.reach(CALLS, App.END, 1) || !a.returned(CALLS)
        || !Scn.join(run, ts)) {
      if (Scn.ok(run)) {
        run.violate(CALLS, "stop() failed: " + stop);
      }
      return;
    }
    if (made.size() != n) {
      run.violate(CALLS, "a call of start() is missing");
    }
    a.check(CALLS);
  }
}
