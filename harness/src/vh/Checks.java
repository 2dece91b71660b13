package vh;

import java.util.LinkedHashMap;
import java.util.Map;
import java.util.function.Supplier;

/** All checks. */
final class Checks {

  private static final Map<String, Supplier<Check>> all = new LinkedHashMap<>();

  static {
    ChecksCore.register(all);
    ChecksFlow.register(all);
    ChecksQueue.register(all);
    ChecksApp.register(all);
    ChecksApi.register(all);
    ChecksLib.register(all);
    ChecksRetain.register(all);
    ChecksThreads.register(all);
    ChecksLog.register(all);
    ChecksObserve.register(all);
    ChecksMore.register(all);
  }

  static Check get(String id) {
    Supplier<Check> s = all.get(id);
    if (s == null) {
      throw new IllegalArgumentException("no check " + id);
    }
    return s.get();
  }
}
