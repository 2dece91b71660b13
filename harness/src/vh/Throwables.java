package vh;

import java.io.IOException;
import java.io.UncheckedIOException;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.UndeclaredThrowableException;
import java.util.ConcurrentModificationException;
import java.util.NoSuchElementException;
import java.util.Random;
import java.util.concurrent.BrokenBarrierException;
import java.util.concurrent.CancellationException;
import java.util.concurrent.CompletionException;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.TimeoutException;
import java.util.concurrent.atomic.AtomicInteger;

/** Throwables of all sorts. */
final class Throwables {

  /** kinds 1 to this one are exceptions, the others are errors */
  static final int EXCEPTIONS = 40;
  static final int KINDS = EXCEPTIONS + 7;

  private static final AtomicInteger CAUSES = new AtomicInteger();

  static final class TestError extends Error {

    private static final long serialVersionUID = 1L;

    TestError() {
      super("induced");
    }
  }

  static final class TestChecked extends Exception {

    private static final long serialVersionUID = 1L;
  }

  /** Without message, stack trace and suppressed exceptions. */
  static final class TestBare extends RuntimeException {

    private static final long serialVersionUID = 1L;

    TestBare() {
      super(null, null, false, false);
    }
  }

  static int anError(Random r) {
    return EXCEPTIONS + 1 + r.nextInt(KINDS - EXCEPTIONS - 1);
  }

  static boolean isError(int kind) {
    return kind > EXCEPTIONS;
  }

  static Throwable make(int kind) {
    switch (kind) {
      case 1:
        return new IllegalStateException("induced");
      case 2:
        return new NullPointerException();
      case 3:
        return new RuntimeException((String) null);
      case 4:
        return new IOException("induced");
      case 5:
        return new TestChecked();
      case 6:
        return new InterruptedException("induced");
      case 7:
        return new IllegalArgumentException("{} %s");
      case 8:
        return new RejectedExecutionException("induced");
      case 9:
        return new CancellationException();
      case 10:
        return new Exception("induced");
      case 11:
        return new RuntimeException("induced", new Error("cause"));
      case 12:
        return new ClassCastException();
      case 13:
        return new UnsupportedOperationException("Queue size is maxed out at 1 - dropping event");
      case 14:
        return new CompletionException("induced", new IllegalStateException("cause"));
      case 15:
        return new ExecutionException("induced", new TestChecked());
      case 16:
        return new UncheckedIOException(new IOException("cause"));
      case 17:
        return new InvocationTargetException(new IllegalArgumentException("cause"));
      case 18:
        return new UndeclaredThrowableException(new TestChecked());
      case 19:
        return new RuntimeException(new NullPointerException("cause"));
      case 20:
        return new ConcurrentModificationException();
      case 21:
        return new NoSuchElementException("induced");
      case 22:
        return new IndexOutOfBoundsException("induced");
      case 23:
        return new ArithmeticException("induced");
      case 24:
        return new TimeoutException("induced");
      case 25:
        return new CloneNotSupportedException();
      case 26:
        return new SecurityException("induced");
      case 27:
        return new BrokenBarrierException();
      case 28:
        return new ClassNotFoundException("induced", new IllegalStateException("cause"));
      case 29:
        return new TestBare();
      case 30: {
        Exception e = new IllegalStateException("induced");
        e.addSuppressed(new NullPointerException("suppressed"));
        e.addSuppressed(new Error("suppressed"));
        return e;
      }
      case 31:
        return new NumberFormatException("{}");
      case 32:
        return new IllegalMonitorStateException();
      case 33:
        return new RuntimeException("induced", cause());
      case 34:
        return new IllegalStateException(cause());
      case 35:
        return new ExecutionException(cause());
      case 36:
        return new Exception("induced", new CompletionException(cause()));
      case 37:
        return new CompletionException(cause());
      case 38:
        return new IllegalArgumentException();
      case 39: {
        // its cause is caused by it
        Exception e = new IllegalStateException("induced");
        e.initCause(new RuntimeException("cause", e));
        return e;
      }
      case 40:
        return new RuntimeException("");
      case EXCEPTIONS + 1:
        return new TestError();
      case EXCEPTIONS + 2:
        return new StackOverflowError("induced");
      case EXCEPTIONS + 3:
        return new AssertionError("induced");
      case EXCEPTIONS + 4:
        return new OutOfMemoryError("induced");
      case EXCEPTIONS + 5:
        return new NoClassDefFoundError("induced");
      case EXCEPTIONS + 6:
        return new ExceptionInInitializerError(new IllegalStateException("cause"));
      default:
        throw new IllegalArgumentException("" + kind);
    }
  }

  /** Any of the others. */
  private static Throwable cause() {
    int kind = 1 + CAUSES.getAndIncrement() % (KINDS - 1);
    return make(kind > 32 && kind <= 37 ? 24 : kind);
  }

  @SuppressWarnings("unchecked")
  static <X extends Throwable> void sneak(Throwable t) throws X {
    throw (X) t;
  }
}
