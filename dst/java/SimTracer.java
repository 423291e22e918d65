import org.python.core.*;

/** Line counter and preemption point of the simulator.
 *  sys.settrace would call its function under a JVM-wide lock; a task switched
 *  out inside it would block every other task, so tracing is hooked here. */
public class SimTracer extends TraceFunction {
  public static long steps = 0;
  public static long nextStop = Long.MAX_VALUE;
  public static PyObject callback = null;    // callback(code name, line)
  public static boolean on = false;
  // a run may look closely at a few functions: every line of theirs is offered to focusCallback
  public static int focusMod = 0;
  public static int focusSalt = 0;
  public static PyObject focusCallback = null;
  private static java.util.IdentityHashMap<Object, Boolean> focused = new java.util.IdentityHashMap<Object, Boolean>();

  public static void focus(int mod, int salt) {
    focusMod = mod;
    focusSalt = salt;
    focused = new java.util.IdentityHashMap<Object, Boolean>();
  }
  private static boolean isFocused(PyFrame f) {
    Object c = f.f_code;
    Boolean b = focused.get(c);
    if (b == null) {
      int h = (f.f_code.co_name + ":" + f.f_code.co_firstlineno + ":" + focusSalt).hashCode();
      h ^= h >>> 15; h *= 0x2c1b3c6d; h ^= h >>> 12; h *= 0x297a2d39; h ^= h >>> 15;
      b = !f.f_code.co_name.equals("<module>") && ((h & 0x7fffffff) % focusMod) == 0;
      focused.put(c, b);
    }
    return b;
  }
  public static java.util.HashMap<String, java.util.HashSet<Integer>> lines = null;   // coverage, when asked for

  public TraceFunction traceCall(PyFrame f) {
    if (on && f.f_code.co_filename.startsWith("SIM:")) return this;
    return null;
  }
  public TraceFunction traceLine(PyFrame f, int line) {
    if (lines != null) {
      java.util.HashSet<Integer> s = lines.get(f.f_code.co_filename);
      if (s == null) { s = new java.util.HashSet<Integer>(); lines.put(f.f_code.co_filename, s); }
      s.add(line);
    }
    if (++steps >= nextStop && callback != null)
      callback.__call__(Py.newString(f.f_code.co_name), Py.newInteger(line));
    else if (focusMod != 0 && focusCallback != null && isFocused(f))
      focusCallback.__call__(Py.newString(f.f_code.co_name), Py.newInteger(line));
    return this;
  }
  public TraceFunction traceReturn(PyFrame f, PyObject r) { return null; }
  public TraceFunction traceException(PyFrame f, PyException e) { return this; }

  public static void install() { Py.getThreadState().tracefunc = new SimTracer(); }
}
