package tlc2.overrides;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.tool.EvalException;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.Value;

/** RTry(e): e, or FALSE where e has no value (a field or an element that is not there). */
public class TLCOverrides implements ITLCOverrides {
  @Override
  public Class[] get() { return new Class[] {TLCOverrides.class}; }

  @Evaluation(definition = "RTry", module = "Try", warn = false, silent = true)
  public static Value rtry(Tool tool, ExprOrOpArgNode[] args, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
    try {
      return tool.eval(args[0], c, s0, s1, control, cm);
    } catch (RuntimeException | StackOverflowError e) {
      if (System.getProperty("rtry.debug") != null) e.printStackTrace();
      return BoolValue.ValFalse;
    }
  }
}
