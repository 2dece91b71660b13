package vh;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.List;

/** Names of the sites at which noise can be made. */
final class Sites {

  private static List<String> names = List.of();
  private static final String[] HARNESS = {"?", "listener.begin", "listener.end", "entry", "exit",
      "unmapped", "exception", "afterEnd", "beforeStart", "fire", "observer",
      "call", "queue.offer", "queue.size"};
  static final int QUEUE_OFFER = 12;
  static final int QUEUE_SIZE = 13;

  static void load(Path file) throws IOException {
    names = Files.readAllLines(file);
  }

  static int count() {
    return names.size();
  }

  static String name(int site) {
    if (site < Noise.HARNESS_SITES) {
      return "harness:" + (site < HARNESS.length ? HARNESS[site] : "" + site);
    }
    int i = site - Noise.HARNESS_SITES;
    return i < names.size() ? names.get(i) : "site" + site;
  }
}
