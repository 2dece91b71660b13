package vh;

import java.util.ArrayList;
import java.util.Iterator;
import java.util.AbstractQueue;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.function.IntPredicate;

/** A thread-safe queue that keeps the exact history of its size. Used as a user-supplied queue. */
final class MonQueue<X> extends AbstractQueue<X> {

  private final ConcurrentLinkedQueue<X> q = new ConcurrentLinkedQueue<>();
  private final Rec rec;
  /** which offers (from 1) it declines */
  IntPredicate declines;
  private int offers;
  private int accepted;
  /** called when something is about to be taken */
  volatile Runnable polled;
  int size;
  int max;
  /** (sequence number, size) after each change */
  final ArrayList<long[]> history = new ArrayList<>();

  MonQueue(Rec rec) {
    this.rec = rec;
    history.add(new long[]{0, 0});
  }

  @Override
  public boolean offer(X x) {
    Noise.hit(Sites.QUEUE_OFFER);
    synchronized (history) {
      offers++;
      if (declines != null && declines.test(offers)) {
        return false;
      }
      q.offer(x);
      accepted++;
      size++;
      max = Math.max(max, size);
      history.add(new long[]{rec.next(), size});
    }
    return true;
  }

  @Override
  public X poll() {
    Runnable p = polled;
    if (p != null) {
      p.run();
    }
    synchronized (history) {
      X x = q.poll();
      if (x != null) {
        size--;
        history.add(new long[]{rec.next(), size});
      }
      return x;
    }
  }

  @Override
  public X peek() {
    return q.peek();
  }

  @Override
  public boolean isEmpty() {
    return q.isEmpty();
  }

  @Override
  public boolean remove(Object o) {
    synchronized (history) {
      boolean b = q.remove(o);
      if (b) {
        size--;
        history.add(new long[]{rec.next(), size});
      }
      return b;
    }
  }

  @Override
  public Iterator<X> iterator() {
    return q.iterator();
  }

  @Override
  public int size() {
    try {
      synchronized (history) {
        return size;
      }
    } finally {
      Noise.hit(Sites.QUEUE_SIZE);
    }
  }

  int accepted() {
    synchronized (history) {
      return accepted;
    }
  }

  /** Largest size at any moment in [from, to]. */
  int maxIn(long from, long to) {
    synchronized (history) {
      int m = 0;
      for (int i = 0; i < history.size(); i++) {
        long start = history.get(i)[0];
        long end = i + 1 < history.size() ? history.get(i + 1)[0] : Long.MAX_VALUE;
        if (start <= to && end >= from) {
          m = (int) Math.max(m, history.get(i)[1]);
        }
      }
      return m;
    }
  }
}
