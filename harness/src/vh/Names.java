package vh;

import java.util.ArrayList;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Random;
import java.util.Set;

/** Makes distinct names, plain or awkward ones. */
final class Names {

  private static final String[] AWKWARD = {"", " ", "  ", "\t", "\n", "a", "A", "\u00e1", "a\u0301",
      "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "_end_", "_END", "END_", "END", "_NOOP", "NOOP_",
      "_noop_", "__END__", "_immediate", "_Immediate_", "immediate", "_IMMEDIATE_", "{}", "{} {}",
      "%s", "%", "%n", "${sys:user.name}", "${jndi:x}", "null", "0", "-1", "\u0000", "\u00df", "ss",
      "SS", "\ud83d\ude00", "I", "i", "\u0130", "\u0131", " a", "a ", "a\u200b", "UNINITIALISED",
      "_UNINITIALISED", "UNINITIALISED_", "start", "stop", "error", "complete", "state",
      "NamedState[a]", "[a]", "a,b", "\\", "\"", "'", "*", ".*", "\u2028", "\r\n", "true", "Start",
      "start ", "STARTED", "started"};

  static List<String> make(Random r, int n, int scheme, String prefix) {
    Set<String> s = new LinkedHashSet<>();
    while (s.size() < n) {
      s.add(one(r, s.size(), scheme, prefix));
    }
    return new ArrayList<>(s);
  }

  private static final String[] SEPARATORS = {"", "-", "_", ".", ":", "+", "|", ">", "->", " ", "/",
      "#", ",", "::", "=", "@", "\u0000", "\t", "\n", "--", ";", "~"};

  static String separator(Random r) {
    return SEPARATORS[r.nextInt(SEPARATORS.length)];
  }

  /** Names that are made of the same few parts: two of them may join to the same as two others. */
  static List<String> compound(Random r, int n, String separator) {
    Set<String> s = new LinkedHashSet<>();
    int letters = 2 + n / 8;
    while (s.size() < n) {
      StringBuilder sb = new StringBuilder();
      int parts = 1 + r.nextInt(3);
      for (int i = 0; i < parts; i++) {
        sb.append(i > 0 ? separator : "").append((char) ('a' + r.nextInt(letters)));
      }
      s.add(sb.toString());
    }
    return new ArrayList<>(s);
  }

  private static String prefix(Random r) {
    int k = r.nextInt(30);
    return "x".repeat(k == 0 ? 5000 : k < 10 ? 40 : 300);
  }

  static String one(Random r, int i, int scheme, String prefix) {
    switch (scheme) {
      case 1:
        return AWKWARD[r.nextInt(AWKWARD.length)] + (r.nextInt(4) == 0 ? prefix + i
            : r.nextInt(8) == 0 ? "" + i : "");
      case 2: { // same hash codes
        StringBuilder sb = new StringBuilder(r.nextInt(5) == 0 ? prefix(r) : "");
        for (int k = 0; k < 9; k++) {
          sb.append(r.nextBoolean() ? "Aa" : "BB");
        }
        return sb.toString();
      }
      case 3: { // long common prefixes
        StringBuilder sb = new StringBuilder(prefix(r));
        return sb.append(i).toString();
      }
      default:
        return prefix + i;
    }
  }
}
