package vh;

import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** A single-threaded executor that knows exactly when it has nothing left to do. */
final class MonExecutor extends AbstractExecutorService {

  private static final AtomicInteger ids = new AtomicInteger();
  final AtomicLong submitted = new AtomicLong();
  final AtomicLong completed = new AtomicLong();
  final ConcurrentLinkedQueue<Throwable> uncaught = new ConcurrentLinkedQueue<>();
  final ConcurrentLinkedQueue<Thread> threads = new ConcurrentLinkedQueue<>();
  private final ThreadPoolExecutor inner;
  final String name;

  MonExecutor() {
    name = "exec" + ids.incrementAndGet();
    inner = new ThreadPoolExecutor(1, 1, 0, TimeUnit.SECONDS, new LinkedBlockingQueue<>(), r -> {
      Thread t = new Thread(r, name);
      t.setDaemon(true);
      t.setUncaughtExceptionHandler((x, e) -> uncaught.add(e));
      threads.add(t);
      return t;
    });
  }

  @Override
  public void execute(Runnable r) {
    submitted.incrementAndGet();
    Object hb = new Object();
    RaceDetector.release(hb);
    try {
      inner.execute(() -> {
        RaceDetector.acquire(hb);
        RaceDetector.acquire(inner);
        try {
          r.run();
        } finally {
          RaceDetector.release(inner);
          completed.incrementAndGet();
        }
      });
    } catch (RuntimeException e) {
      completed.incrementAndGet();
      throw e;
    }
  }

  /** Makes the worker wait until the returned latch is opened. */
  CountDownLatch hold() throws InterruptedException {
    CountDownLatch in = new CountDownLatch(1);
    CountDownLatch free = new CountDownLatch(1);
    inner.execute(() -> {
      in.countDown();
      boolean done = false;
      while (!done) {
        try {
          free.await();
          done = true;
        } catch (InterruptedException e) {
          // stay
        }
      }
    });
    if (!in.await(60, TimeUnit.SECONDS)) {
      throw new IllegalStateException("worker is not available");
    }
    return free;
  }

  boolean idle() {
    long c = completed.get();
    return c == submitted.get();
  }

  /** What died is not kept. */
  void forget() {
    uncaught.clear();
    threads.removeIf(t -> !t.isAlive());
  }

  boolean isWorker(Thread t) {
    return threads.contains(t);
  }

  @Override
  public void shutdown() {
    inner.shutdown();
  }

  @Override
  public List<Runnable> shutdownNow() {
    return inner.shutdownNow();
  }

  @Override
  public boolean isShutdown() {
    return inner.isShutdown();
  }

  @Override
  public boolean isTerminated() {
    return inner.isTerminated();
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) throws InterruptedException {
    return inner.awaitTermination(timeout, unit);
  }
}
