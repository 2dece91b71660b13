package vh;

import java.util.concurrent.ThreadLocalRandom;
import java.util.concurrent.atomic.AtomicIntegerArray;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.locks.LockSupport;

/**
 * Perturbs schedules. Calls of {@link #hit(int)} are woven into the library's classes (before field
 * accesses, calls, monitor operations and returns) and the harness' callbacks call it too.
 */
public final class Noise {

  /** Sites below this number belong to the harness, the rest to the library. */
  public static final int HARNESS_SITES = 64;
  static final int MAX_SITES = 8192;
  static volatile Plan plan;
  static final AtomicLong totalHits = new AtomicLong();
  static final AtomicIntegerArray everHit = new AtomicIntegerArray(MAX_SITES);

  public static void hit(int site) {
    Plan p = plan;
    if (p != null) {
      p.hit(site);
    }
  }

  static abstract class Plan {

    abstract void hit(int site);

    /** true if the plan did perturb something */
    boolean fired() {
      return true;
    }
  }

  /** Counts the hits of each site. */
  static final class Count extends Plan {

    final AtomicIntegerArray counts = new AtomicIntegerArray(MAX_SITES);

    @Override
    void hit(int site) {
      if (counts.getAndIncrement(site) == 0) {
        everHit.set(site, 1);
      }
      totalHits.incrementAndGet();
    }

    @Override
    public String toString() {
      return "none";
    }
  }

  /** Delays the occ-th hit (from 1) of each of the given sites, once. */
  static final class Delay extends Plan {

    final int[] sites;
    final int[] occs;
    final int micros;
    final AtomicIntegerArray counts;
    volatile boolean fired;

    Delay(int[] sites, int[] occs, int micros) {
      this.sites = sites;
      this.occs = occs;
      this.micros = micros;
      this.counts = new AtomicIntegerArray(sites.length);
    }

    @Override
    void hit(int site) {
      for (int i = 0; i < sites.length; i++) {
        if (sites[i] == site && counts.incrementAndGet(i) == occs[i]) {
          fired = true;
          pause(micros);
        }
      }
    }

    @Override
    boolean fired() {
      return fired;
    }

    @Override
    public String toString() {
      StringBuilder sb = new StringBuilder("delay " + micros + "us at");
      for (int i = 0; i < sites.length; i++) {
        sb.append(' ').append(Sites.name(sites[i])).append('#').append(occs[i]);
      }
      return sb.toString();
    }
  }

  /** Yields, spins or sleeps at random. */
  static final class Rnd extends Plan {

    final int perMille;
    final int maxMicros;
    /** so that long runs stay affordable */
    private final AtomicLong left = new AtomicLong(150_000);

    Rnd(int perMille, int maxMicros) {
      this.perMille = perMille;
      this.maxMicros = maxMicros;
    }

    @Override
    void hit(int site) {
      ThreadLocalRandom r = ThreadLocalRandom.current();
      if (r.nextInt(1000) < perMille) {
        if (r.nextInt(3) == 0) {
          Thread.yield();
        } else {
          int micros = 1 + r.nextInt(maxMicros);
          if (left.addAndGet(-micros) > 0) {
            pause(micros);
          }
        }
      }
    }

    @Override
    public String toString() {
      return "random " + perMille + "/1000 up to " + maxMicros + "us";
    }
  }

  static void pause(int micros) {
    if (micros < 60) {
      long until = System.nanoTime() + micros * 1000L;
      while (System.nanoTime() < until) {
        Thread.onSpinWait();
      }
      return;
    }
    boolean interrupted = Thread.interrupted();
    long until = System.nanoTime() + micros * 1000L;
    long left;
    while ((left = until - System.nanoTime()) > 0) {
      LockSupport.parkNanos(left);
      interrupted |= Thread.interrupted();
    }
    if (interrupted) {
      Thread.currentThread().interrupt();
    }
  }
}
