package vh;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import java.io.ByteArrayInputStream;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collections;
import java.util.Date;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedList;
import java.util.List;
import java.util.Optional;
import java.util.TreeMap;
import java.util.UUID;
import java.util.concurrent.Callable;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.FutureTask;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicReference;
import java.util.function.Consumer;
import java.util.function.Function;
import java.util.function.Supplier;

/** Objects of all sorts, each time another one; nobody but the receiver may do anything with them. */
final class Payloads {

  static final int KINDS = 36;

  private Payloads() {
  }

  private static RuntimeException touched(int fid) {
    return new IllegalStateException("payload " + fid + " was used");
  }

  private static Object event(String name) {
    NamedStateEvent<Object> e = new NamedStateEvent<>(name);
    e.setPayload(new Object());
    return e;
  }

  static Object make(int kind, int fid) {
    switch (kind) {
      case 0:
        return new String("payload");
      case 1:
        return Integer.valueOf(100000 + fid);
      case 2:
        return Long.valueOf(100000L + fid);
      case 3:
        return Double.valueOf(fid);
      case 4:
        return new BigDecimal("1.00");
      case 5:
        return new int[]{fid};
      case 6:
        return new Object[0];
      case 7:
        return new byte[0];
      case 8:
        return new ArrayList<>();
      case 9:
        return new LinkedList<>(List.of("x"));
      case 10:
        return new HashMap<>();
      case 11:
        return new HashSet<>(List.of(1));
      case 12:
        return new TreeMap<>();
      case 13:
        return Optional.of(new String("x"));
      case 14:
        return new StringBuilder("x");
      case 15:
        return new Date(fid);
      case 16:
        return new IllegalStateException("payload");
      case 17:
        return new Error("payload");
      case 18:
        return (AutoCloseable) () -> {
          throw touched(fid);
        };
      case 19:
        return (Runnable) () -> {
          throw touched(fid);
        };
      case 20:
        return (Callable<Object>) () -> {
          throw touched(fid);
        };
      case 21:
        return (Supplier<Object>) () -> {
          throw touched(fid);
        };
      case 22:
        return (Iterable<Object>) () -> {
          throw touched(fid);
        };
      case 23:
        return new CompletableFuture<>();
      case 24:
        return new FutureTask<>(() -> {
          throw touched(fid);
        });
      case 25:
        return new AtomicInteger(fid);
      case 26:
        return new AtomicReference<>();
      case 27:
        return new WeakReference<>(new Object());
      case 28:
        return event("payload");
      case 29:
        return new NamedState<>("payload");
      case 30:
        return new ByteArrayInputStream(new byte[1]);
      case 31:
        return new UUID(0, fid);
      case 32:
        return Collections.unmodifiableList(new ArrayList<>());
      case 33:
        return new ArrayDeque<>();
      case 34:
        return (Consumer<Object>) x -> {
          throw touched(fid);
        };
      default:
        return (Function<Object, Object>) x -> {
          throw touched(fid);
        };
    }
  }
}
