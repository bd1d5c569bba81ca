/** Runs one behaviour of Exits.tla: a tree of threads; each that is not a daemon leaves a mark when it finishes. */
public class ExitDriver {
  static int[] parent, daemon;
  static String[] how;
  static class Mine extends RuntimeException {
    public void printStackTrace() { }
  }
  static class T extends Thread {
    final int i;
    T(int i) { this.i = i; setDaemon(daemon[i] != 0); }
    public void run() {
      children(i);
      if (daemon[i] != 0) while (true) try { Thread.sleep(1000000); } catch (InterruptedException e) { }
      finish(i);
    }
  }
  static void children(int i) { for (int j = 1; j < parent.length; ++j) if (parent[j] == i) new T(j).start(); }
  static void finish(int i) {
    if (how[i].equals("late")) try { Thread.sleep(30); } catch (InterruptedException e) { }
    synchronized (ExitDriver.class) { System.out.print(" " + i); System.out.flush(); }
    if (how[i].equals("throw")) throw new Mine();
  }
  // parents, daemons, how (of main first)
  public static void main(String[] a) {
    int n = a[0].length();
    parent = new int[n + 1]; daemon = new int[n + 1]; how = new String[n + 1];
    for (int i = 0; i <= n; ++i) {
      if (i > 0) { parent[i] = a[0].charAt(i - 1) - '0'; daemon[i] = a[1].charAt(i - 1) - '0'; }
      char c = a[2].charAt(i);
      how[i] = c == 't' ? "throw" : c == 'l' ? "late" : "return";
    }
    children(0);
    finish(0);
  }
}
