package vh;

import java.nio.file.Path;
import java.util.Set;

/** Usage: Main ID TIER SEED SHARD SHARDS BUDGET OUT SITES [SCENARIO] [KNOWN,...] */
public final class Main {

  public static void main(String[] a) throws Exception {
    Sites.load(Path.of(a[7]));
    Logs.init();
    Check c = Checks.get(a[0]);
    Engine e = new Engine(c, Long.parseLong(a[2]), Integer.parseInt(a[3]), Integer.parseInt(a[4]),
        a[1].equals("thorough"), Double.parseDouble(a[5]), Path.of(a[6]),
        a.length > 8 && !a[8].isEmpty() ? a[8] : null,
        a.length > 9 ? Set.of(a[9].split(",")) : Set.of());
    e.run();
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }
}
