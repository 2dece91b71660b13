package vh;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.atomic.AtomicLong;

/** Records events in one total order. */
final class Rec {

  private final AtomicLong seq = new AtomicLong();
  private final ConcurrentLinkedQueue<E> log = new ConcurrentLinkedQueue<>();

  /** More than this is never recorded by a machine that works. */
  private static final long LIMIT = 3_000_000;

  boolean endless() {
    return seq.get() > LIMIT;
  }

  long next() {
    return seq.incrementAndGet();
  }

  long now() {
    return seq.get();
  }

  E enter(E e) {
    e.thread = Thread.currentThread();
    Run.tick();
    e.s0 = next();
    if (e.s0 > LIMIT) {
      Noise.pause(2000);
      return e;
    }
    log.add(e);
    return e;
  }

  void leave(E e) {
    Run.tick();
    e.s1 = next();
  }

  List<E> sorted() {
    List<E> l = new ArrayList<>(log);
    l.sort((a, b) -> Long.compare(a.s0, b.s0));
    return l;
  }

  int size() {
    return log.size();
  }
}
