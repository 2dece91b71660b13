package vh;

import java.util.ArrayList;
import java.util.List;
import java.util.Set;

/** The monitor of one property. */
class Check {

  interface Fn {

    void run(Run run) throws Exception;
  }

  static final class Sc {

    final String name;
    final int weight;
    final boolean noise;
    final Fn fn;
    // engine state
    long spentNanos;
    int runs;
    List<int[]> delays = new ArrayList<>();
    int nextDelay;

    Sc(String name, int weight, boolean noise, Fn fn) {
      this.name = name;
      this.weight = weight;
      this.noise = noise;
      this.fn = fn;
    }
  }

  final String id;
  /** the violations that are this property's */
  final Set<String> tags;
  final List<Sc> scenarios = new ArrayList<>();
  final String rule;

  Check(String id, String rule, String... tags) {
    this.id = id;
    this.rule = rule;
    this.tags = Set.of(tags);
  }

  /** A scenario that is run under schedule perturbation. */
  void noisy(String name, int weight, Fn fn) {
    scenarios.add(new Sc(name, weight, true, fn));
  }

  void plain(String name, int weight, Fn fn) {
    scenarios.add(new Sc(name, weight, false, fn));
  }
}
