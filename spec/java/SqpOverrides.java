import tlc2.overrides.ITLCOverrides;

public class SqpOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { IEEE.class }; }
}
