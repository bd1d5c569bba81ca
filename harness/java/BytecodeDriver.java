/** Runs the programs made from behaviours of Bytecode.tla (each is a class P..). */
public class BytecodeDriver extends H {
  void begin(String[] h) { Vals.reset(); }
  String op(String[] a) throws Throwable {
    Runnable r = (Runnable) Class.forName(a[0]).newInstance();
    String first = null;
    for (int i = 0; i < 3; ++i) {
      Vals.reset();
      r.run();
      String s = Vals.log.toString();
      if (first == null) first = s;
      else if (!first.equals(s)) return first + " then " + s;
    }
    return first;
  }
  public static void main(String[] args) throws Throwable {
    run(args[0], new BytecodeDriver());
  }
}
