package rsv;
import tlc2.overrides.ITLCOverrides;
public class Overrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { Kernel.class }; }
}
