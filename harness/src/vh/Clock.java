package vh;

import java.time.Instant;
import java.util.concurrent.TimeUnit;

/**
 * Timed waits in the library end far earlier than asked for, though not at once. Nobody may rely on a wait
 * being long enough, so code that is right stays right.
 */
public final class Clock {

  private static final long MILLI = 1_000_000;
  private static final long FOREVER = TimeUnit.DAYS.toNanos(3650);
  private static final long FACTOR = 100_000;

  private Clock() {
  }

  private static final long NANOS = System.nanoTime();
  private static final long MILLIS = System.currentTimeMillis();

  /** The clocks the library reads run as fast as its waits are short. */
  public static long nanoTime() {
    return NANOS + (System.nanoTime() - NANOS) * FACTOR;
  }

  public static long currentTimeMillis() {
    return MILLIS + (System.nanoTime() - NANOS) / (MILLI / FACTOR);
  }

  public static Instant now() {
    return Instant.ofEpochMilli(currentTimeMillis());
  }

  /** The wait to make, in nanoseconds. */
  public static long nanos(long t, TimeUnit u) {
    return parkNanos(u.toNanos(t));
  }

  public static long parkNanos(long nanos) {
    return nanos <= MILLI || nanos > FOREVER ? nanos : Math.max(MILLI, nanos / FACTOR);
  }

  /** A wait of 0 may mean one without limit. */
  public static long millis(long millis) {
    return millis <= 1 || millis > FOREVER / MILLI ? millis : Math.max(1, millis / FACTOR);
  }
}
