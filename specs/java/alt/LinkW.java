// the version of LinkW that is on the class path at run time
public abstract class LinkW implements LinkI {
  public int s() { return 1; }
  public static int i() { return 2; }
  public abstract int a();
  public int sf = 4;
  public static int inf = 5;
  public static LinkW mk() { return new LinkV(); }
  private int kept = 7;
  public int keep() { return kept; }
  public int gone2() { return 8; }
}
