import tlc2.value.impl.*;

/** Line output for spec/Verdict.tla: one line per call, never wrapped, never interleaved. */
public class Verdict {
  public static Value Emit(Value v) {
    Value w = (Value) v.deepCopy();
    w.deepNormalize();
    String s = w.toString().replace('\n', ' ');
    synchronized (Verdict.class) {
      System.out.println("@@ " + s);
      System.out.flush();
    }
    return BoolValue.ValTrue;
  }

  /** as defined in spec/Verdict.tla, with the message made only when needed */
  public static Value Near(Value name, Value exp, Value got, Value rt, Value at) {
    double x = Fx.d(exp), y = Fx.d(got);
    boolean ok = Fx.close(x, y, Fx.d(rt), Fx.d(at));
    return new TupleValue(new Value[] {name, ok ? BoolValue.ValTrue : BoolValue.ValFalse,
        new StringValue(ok ? "" : "expected " + x + " got " + y)});
  }
}
