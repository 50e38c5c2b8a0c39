import tlc2.overrides.ITLCOverrides;
/** Index of the annotated operators (see -Dtlc2.overrides.TLCOverrides in tools/tlc.py). */
public final class GridppOverrides implements ITLCOverrides {
    @Override public Class<?>[] get() { return new Class<?>[] { RealNum.class }; }
}
