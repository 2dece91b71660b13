package vh;

/** A payload that tells which fire it belongs to. */
final class Tok {

  final int fid;
  /** the machine it is meant for, if that matters */
  volatile Object owner;

  /** equals all of its kind on purpose: payload identity matters and equality must not */
  private final boolean same;
  /** must not be compared at all */
  private final boolean hostile;

  Tok(int fid) {
    this(fid, SAME);
  }

  static final int SAME = 0;
  static final int DIFFERENT = 1;
  static final int HOSTILE = 2;

  Tok(int fid, int mode) {
    this.fid = fid;
    this.same = mode == SAME;
    this.hostile = mode == HOSTILE;
  }

  @Override
  public boolean equals(Object o) {
    touched();
    return o == this || same && o instanceof Tok && ((Tok) o).same;
  }

  @Override
  public int hashCode() {
    touched();
    return same ? 1 : fid;
  }

  private void touched() {
    if (hostile) {
      throw new IllegalStateException("a payload was compared");
    }
  }

  @Override
  public String toString() {
    return "tok" + fid;
  }
}
