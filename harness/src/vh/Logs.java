package vh;

import java.util.ArrayList;
import java.util.List;
import org.apache.logging.log4j.Level;
import org.apache.logging.log4j.LogManager;
import org.apache.logging.log4j.core.LogEvent;
import org.apache.logging.log4j.core.LoggerContext;
import org.apache.logging.log4j.core.appender.AbstractAppender;
import org.apache.logging.log4j.core.config.Configuration;
import org.apache.logging.log4j.core.config.LoggerConfig;
import org.apache.logging.log4j.core.config.Property;

/** Captures what is logged. */
final class Logs {

  static final class Line {

    final Level level;
    final String logger;
    final String text;
    final Throwable thrown;
    final Thread thread;

    Line(LogEvent e) {
      level = e.getLevel();
      logger = e.getLoggerName();
      text = e.getMessage().getFormattedMessage();
      thrown = e.getThrown();
      thread = Thread.currentThread();
    }

    @Override
    public String toString() {
      return level + " " + logger.replaceAll(".*\\.", "") + " " + E.q(text) + (thrown == null ? ""
          : " " + thrown) + " @" + thread.getName();
    }
  }

  private static final List<Line> lines = new ArrayList<>();
  /** whether anything is logged must not matter to anything else */
  private static final Level BASE = Level.valueOf(System.getProperty("vh.log", "OFF"));
  private static volatile boolean capturing;
  private static LoggerContext ctx;

  static void init() {
    ctx = (LoggerContext) LogManager.getContext(false);
    Configuration c = ctx.getConfiguration();
    LoggerConfig root = c.getRootLogger();
    new ArrayList<>(root.getAppenders().keySet()).forEach(root::removeAppender);
    AbstractAppender a = new AbstractAppender("capture", null, null, false, Property.EMPTY_ARRAY) {
      @Override
      public void append(LogEvent e) {
        // Debugging output is nobody's business
        if (capturing && e.getLevel().isMoreSpecificThan(Level.INFO)) {
          Line l = new Line(e);
          synchronized (lines) {
            lines.add(l);
          }
        }
      }
    };
    a.start();
    c.addAppender(a);
    root.addAppender(a, Level.ALL, null);
    level(BASE);
  }

  private static void level(Level l) {
    ctx.getConfiguration().getRootLogger().setLevel(l);
    ctx.updateLoggers();
  }

  static void start() {
    synchronized (lines) {
      lines.clear();
    }
    capturing = true;
    level(Level.ALL);
  }

  static List<Line> stop() {
    capturing = false;
    level(BASE);
    synchronized (lines) {
      return new ArrayList<>(lines);
    }
  }

  /** The lines so far. */
  static List<Line> now() {
    synchronized (lines) {
      return new ArrayList<>(lines);
    }
  }

  static void clear() {
    synchronized (lines) {
      lines.clear();
    }
  }
}
