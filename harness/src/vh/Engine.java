package vh;

import java.io.PrintWriter;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.locks.LockSupport;

/** Runs the scenarios of a check for some time, under varying schedules, and reports. */
final class Engine {

  final Check check;
  final long seed;
  final int shard;
  final int shards;
  final boolean thorough;
  final double budget;
  final Path out;
  final String only;
  final Set<Long> signatures = new HashSet<>();
  final Map<String, Long> counters = Collections.synchronizedMap(new TreeMap<>());
  final List<String> samples = new ArrayList<>();
  final Map<String, Integer> inconclusive = new LinkedHashMap<>();
  final Map<String, Integer> plans = new TreeMap<>();
  final Map<String, Integer> other = new TreeMap<>();
  /** the violations that have been listed as known findings */
  final Set<String> knownKeys;
  final Map<String, Integer> known = new TreeMap<>();
  int evaluations;
  int violated;
  long events;

  Engine(Check check, long seed, int shard, int shards, boolean thorough, double budget, Path out,
      String only, Set<String> knownKeys) {
    this.knownKeys = knownKeys;
    this.check = check;
    this.seed = seed;
    this.shard = shard;
    this.shards = shards;
    this.thorough = thorough;
    this.budget = budget;
    this.out = out;
    this.only = only;
  }

  void count(String name, long n) {
    counters.merge(name, n, Long::sum);
  }

  void max(String name, long n) {
    counters.merge(name, n, Math::max);
  }

  private static long mix(long... v) {
    long h = 0x9E3779B97F4A7C15L;
    for (long x : v) {
      h ^= x;
      h *= 0xBF58476D1CE4E5B9L;
      h ^= h >>> 29;
    }
    return h;
  }

  private volatile Run current;
  private volatile Check.Sc currentSc;

  void run() throws Exception {
    long start = System.nanoTime();
    Random r = new Random(mix(seed, shard, check.id.hashCode()));
    List<Check.Sc> scs = new ArrayList<>();
    for (Check.Sc s : check.scenarios) {
      if (only == null || only.equals(s.name)) {
        scs.add(s);
      }
    }
    Thread me = Thread.currentThread();
    Thread dog = new Thread(() -> watch(me, start, scs), "watchdog");
    dog.setDaemon(true);
    dog.start();
    while ((System.nanoTime() - start) / 1e9 < budget && violated == 0) {
      Check.Sc sc = null;
      for (Check.Sc s : scs) {
        if (sc == null || (double) s.spentNanos / s.weight < (double) sc.spentNanos / sc.weight) {
          sc = s;
        }
      }
      long t0 = System.nanoTime();
      one(sc, r);
      sc.spentNanos += Math.max(1, System.nanoTime() - t0);
      sc.runs++;
    }
    write((System.nanoTime() - start) / 1e9, scs);
  }

  /** The thread that drives the runs may itself be stuck in a call of the library. */
  private void watch(Thread driver, long start, List<Check.Sc> scs) {
    String at = null;
    while (at == null) {
      LockSupport.parkNanos(2_000_000_000L);
      String b = Run.blockedInLibrary(driver, 25);
      // not one that spins or sleeps
      at = b == null || b.startsWith("s") ? null : Run.libraryCall(driver.getStackTrace());
    }
    Run run = current;
    String what = "a thread is stuck: " + driver.getState() + " " + at + " " + stack(driver);
    boolean own = check.tags.contains(Scn.STALL) || check.id.equals("C03") && at.contains("fire:")
        || check.id.equals("C07") && at.contains("stop:") || check.id.equals("C25")
        && (at.contains(".get") || at.contains(".is") || at.contains(".setStateMachineListener:"));
    try {
      if (own) {
        violated++;
        run.violate(Scn.STALL, what, null);
        for (Run.Viol v : run.violations) {
          report(currentSc, run, v);
        }
      } else {
        inconclusive.merge(currentSc.name + ": " + what, 1, Integer::sum);
        other.merge(Scn.STALL + ": " + what, 1, Integer::sum);
      }
      evaluations++;
      write((System.nanoTime() - start) / 1e9, scs);
    } catch (Exception e) {
      e.printStackTrace();
    }
    Runtime.getRuntime().halt(0);
  }

  private static String stack(Thread t) {
    StringBuilder sb = new StringBuilder();
    for (StackTraceElement f : t.getStackTrace()) {
      if (sb.length() < 1500) {
        sb.append(" < ").append(f.getClassName().replaceAll(".*\\.", "")).append('.')
            .append(f.getMethodName()).append(':').append(f.getLineNumber());
      }
    }
    return sb.toString();
  }

  private Noise.Plan plan(Check.Sc sc, Random r) {
    if (!sc.noise) {
      return new Noise.Count();
    }
    // the first runs, and some later ones, are undisturbed and tell which sites there are
    if (sc.runs < 2 || sc.runs % 7 == 0) {
      return new Noise.Count();
    }
    int micros = new int[]{300, 1500, 4000}[r.nextInt(3)];
    switch (sc.runs % 7) {
      case 1:
      case 3:
      case 5:
        if (!sc.delays.isEmpty()) {
          int[] d = sc.delays.get(sc.nextDelay++ % sc.delays.size());
          return new Noise.Delay(new int[]{d[0]}, new int[]{d[1]}, micros);
        }
        return new Noise.Count();
      case 2:
        return new Noise.Rnd(20, 300);
      case 4:
        if (sc.delays.size() > 1) {
          int[] a = sc.delays.get(r.nextInt(sc.delays.size()));
          int[] b = sc.delays.get(r.nextInt(sc.delays.size()));
          return new Noise.Delay(new int[]{a[0], b[0]}, new int[]{a[1], b[1]}, micros);
        }
        return new Noise.Count();
      default:
        return new Noise.Rnd(150, 500);
    }
  }

  private void one(Check.Sc sc, Random r) throws Exception {
    long runSeed = mix(seed, shard, sc.name.hashCode(), sc.runs);
    Noise.Plan plan = plan(sc, r);
    Run run = new Run(this, sc.name, runSeed, plan, thorough);
    current = run;
    currentSc = sc;
    long t0 = System.nanoTime();
    Noise.plan = plan;
    try {
      sc.fn.run(run);
    } catch (Run.Abort t) {
      // recorded
    } catch (Throwable t) {
      run.inconclusive = "harness failure " + stack(t);
    } finally {
      Noise.plan = null;
      run.end();
    }
    if (plan instanceof Noise.Count && sc.noise) {
      refill(sc, (Noise.Count) plan, r);
    }
    evaluations++;
    events += run.events;
    String kind = plan.getClass().getSimpleName();
    plans.merge(kind + (plan.fired() ? "" : " (not reached)"), 1, Integer::sum);
    if (run.signature != 1469598103934665603L && signatures.size() < 400000) {
      signatures.add(run.signature);
    }
    if (samples.size() < 3 && run.sample != null && sc.runs == shard % 3) {
      samples.add(sc.name + ": " + run.sample);
    }
    if (run.inconclusive != null) {
      inconclusive.merge(sc.name + ": " + run.inconclusive, 1, Integer::sum);
    }
    for (Run.Viol v : run.violations) {
      if (check.tags.contains(v.tag) && v.key != null && knownKeys.contains(v.key)) {
        known.merge(v.key + " " + v.msg, 1, Integer::sum);
      } else if (check.tags.contains(v.tag)) {
        violated++;
        if (violated <= 3) {
          report(sc, run, v);
        }
      } else {
        other.merge(v.tag + ": " + v.msg, 1, Integer::sum);
      }
    }
    if ((System.nanoTime() - t0) / 1e9 > 3) {
      System.err.println("slow run " + sc.name + " " + plan + " " + (System.nanoTime() - t0) / 1e9
          + " s, " + run.events + " events");
    }
  }

  private void refill(Check.Sc sc, Noise.Count c, Random r) {
    List<int[]> l = new ArrayList<>();
    for (int s = 0; s < Noise.MAX_SITES; s++) {
      int n = c.counts.get(s);
      for (int k = 1; k <= Math.min(n, 3); k++) {
        l.add(new int[]{s, k});
      }
      if (n > 3) {
        l.add(new int[]{s, 4 + r.nextInt(n - 3)});
      }
    }
    if (sc.runs == 0 || sc.nextDelay >= sc.delays.size()) {
      Collections.shuffle(l, r);
      sc.delays = l;
      sc.nextDelay = 0;
    }
  }

  static String stack(Throwable t) {
    return stack(t, 8);
  }

  private static String stack(Throwable t, int depth) {
    StringBuilder sb = new StringBuilder(t.toString());
    for (int i = 0; i < t.getStackTrace().length && i < 6; i++) {
      sb.append(" < ").append(t.getStackTrace()[i]);
    }
    if (t.getCause() != null && depth > 0) {
      sb.append(" caused by ").append(stack(t.getCause(), depth - 1));
    }
    return sb.toString();
  }

  private void report(Check.Sc sc, Run run, Run.Viol v) throws Exception {
    Path f = out.resolve("violation-" + shard + "-" + violated + ".txt");
    try (PrintWriter w = new PrintWriter(Files.newBufferedWriter(f))) {
      w.println("property: " + check.id);
      w.println("what: " + v.msg);
      w.println("kind: " + v.tag);
      w.println("scenario: " + sc.name);
      w.println("run: seed=" + seed + " shard=" + shard + "/" + shards + " run=" + sc.runs
          + " runSeed=" + run.seed);
      w.println("schedule perturbation: " + run.plan);
      w.println("history (start..end sequence numbers):");
      for (String s : v.trace) {
        w.println("  " + s);
      }
    }
  }

  private void write(double wall, List<Check.Sc> scs) throws Exception {
    try (PrintWriter w = new PrintWriter(Files.newBufferedWriter(out.resolve(
        "shard-" + shard + ".json")))) {
      Map<String, Object> m = new LinkedHashMap<>();
      m.put("evaluations", evaluations);
      m.put("events", events);
      m.put("violations", violated);
      m.put("wall", wall);
      m.put("rule", check.rule);
      m.put("inconclusive", inconclusive);
      m.put("other", other);
      m.put("known", known);
      m.put("plans", plans);
      Map<String, Object> s = new LinkedHashMap<>();
      for (Check.Sc sc : scs) {
        s.put(sc.name, sc.runs);
      }
      m.put("scenarios", s);
      m.put("counters", counters);
      m.put("samples", samples);
      int hit = 0;
      List<String> never = new ArrayList<>();
      for (int i = Noise.HARNESS_SITES; i < Noise.HARNESS_SITES + Sites.count(); i++) {
        if (Noise.everHit.get(i) != 0) {
          hit++;
        }
      }
      m.put("sites_hit", hit);
      m.put("sites", Sites.count());
      m.put("site_hits", Noise.totalHits.get());
      m.put("signatures", signatures);
      w.println(Json.of(m));
    }
  }
}
