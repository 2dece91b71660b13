package vh;

import java.util.Locale;
import java.util.Map;

/** Writes JSON. */
final class Json {

  static String of(Object o) {
    StringBuilder sb = new StringBuilder();
    put(sb, o);
    return sb.toString();
  }

  private static void put(StringBuilder sb, Object o) {
    if (o == null) {
      sb.append("null");
    } else if (o instanceof Number || o instanceof Boolean) {
      sb.append(o);
    } else if (o instanceof Map) {
      sb.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) {
          sb.append(',');
        }
        first = false;
        put(sb, String.valueOf(e.getKey()));
        sb.append(':');
        put(sb, e.getValue());
      }
      sb.append('}');
    } else if (o instanceof Iterable) {
      sb.append('[');
      boolean first = true;
      for (Object x : (Iterable<?>) o) {
        if (!first) {
          sb.append(',');
        }
        first = false;
        put(sb, x);
      }
      sb.append(']');
    } else {
      sb.append('"');
      String s = o.toString();
      for (int i = 0; i < s.length(); i++) {
        char c = s.charAt(i);
        if (c == '"' || c == '\\') {
          sb.append('\\').append(c);
        } else if (c < 32 || c > 126) {
          sb.append(String.format(Locale.ROOT, "\\u%04x", (int) c));
        } else {
          sb.append(c);
        }
      }
      sb.append('"');
    }
  }
}
