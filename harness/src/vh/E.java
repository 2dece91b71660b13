package vh;

import java.util.Locale;

/** One recorded event: a callback of the library or a call made by the harness. */
final class E {

  static final int BEGIN = 1;
  static final int END = 2;
  static final int ENTRY = 3;
  static final int EXIT = 4;
  static final int UNM = 5;
  static final int EXC = 6;
  static final int AFTER = 7;
  static final int BEFORE = 8;
  static final int FIRE = 9;
  static final int OBS = 10;
  static final int CALL = 11;
  static final String[] KINDS = {"?", "begin", "end", "entry", "exit", "unmapped", "exception",
      "afterEnd", "beforeStart", "fire", "observe", "call"};

  int kind;
  long s0;
  volatile long s1 = Long.MAX_VALUE;
  int fid = -2;
  String ev;
  Object payload;
  String from;
  String to;
  int idx;
  /** current state's name while in the callback */
  String cur;
  /** the last sequence number given out when that had been read */
  long curSeq;
  boolean ended;
  boolean started;
  int size;
  Thread thread;
  Object machine;
  Throwable ex;
  Thread exThread;
  String note;

  @Override
  public String toString() {
    StringBuilder sb = new StringBuilder();
    sb.append(s0).append(s1 == Long.MAX_VALUE ? "..?" : ".." + s1).append(' ').append(KINDS[kind]);
    if (kind <= FIRE) {
      sb.append(" #").append(fid).append(' ').append(q(ev));
      if (payload != null) {
        sb.append('<').append(q(String.valueOf(payload))).append('>');
      }
    }
    if (from != null || to != null) {
      sb.append(' ').append(q(from)).append("->").append(q(to));
    }
    if (kind == ENTRY || kind == EXIT) {
      sb.append('[').append(idx).append(']');
    }
    if (cur != null) {
      sb.append(" cur=").append(q(cur));
    }
    if (ended) {
      sb.append(" ended");
    }
    if (ex != null) {
      sb.append(" ex=").append(ex.getClass().getSimpleName()).append(':').append(ex.getMessage());
    }
    if (note != null) {
      sb.append(' ').append(note);
    }
    return sb.append(" @").append(thread == null ? "?" : thread.getName()).toString();
  }

  static String q(String s) {
    if (s == null) {
      return "null";
    }
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < s.length() && i < 40; i++) {
      char c = s.charAt(i);
      if (c < 32 || c > 126) {
        sb.append(String.format(Locale.ROOT, "\\u%04x", (int) c));
      } else {
        sb.append(c);
      }
    }
    if (s.length() > 40) {
      sb.append("~").append(s.length());
    }
    return "'" + sb + "'";
  }
}
