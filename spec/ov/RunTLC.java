// Starts TLC with RealArith initialised, so that its infix operators are registered.
public class RunTLC {
  public static void main(String[] a) throws Exception { Class.forName("RealArith"); tlc2.TLC.main(a); }
}
