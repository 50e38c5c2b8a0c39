import tlc2.value.IValue;
import tlc2.value.IMVPerm;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** A real number (a Java double) as a first-class TLC value: the semantic domain of module RealNum. */
public final class RealValue extends Value {
    public final double v;
    public RealValue(double v) { this.v = v; }
    @Override public byte getKind() { return INTVALUE; }
    @Override public String getKindString() { return "a real number"; }
    @Override public boolean member(Value e) { throw new RuntimeException("Attempted \\in on a real number"); }
    @Override public Value takeExcept(ValueExcept ex) { if(ex.idx >= ex.path.length) return ex.value; throw new RuntimeException("Attempted EXCEPT on a real number"); }
    @Override public Value takeExcept(ValueExcept[] exs) { Value v = this; for(ValueExcept ex : exs) v = v.takeExcept(ex); return v; }
    @Override public Value normalize() { return this; }
    @Override public boolean isFinite() { throw new RuntimeException("Attempted IsFinite on a real number"); }
    @Override public int size() { throw new RuntimeException("Attempted Cardinality of a real number"); }
    @Override public boolean isNormalized() { return true; }
    @Override public boolean isDefined() { return true; }
    @Override public boolean mutates() { return false; }
    @Override public IValue deepCopy() { return this; }
    @Override public IValue initialize() { return this; }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public int compareTo(Object o) {
        if(o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
        if(o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
        throw new RuntimeException("Attempted to compare a real number with " + o);
    }
    @Override public boolean equals(Object o) {
        if(o instanceof RealValue) {
            double w = ((RealValue) o).v;
            return v == w || (Double.isNaN(v) && Double.isNaN(w));
        }
        if(o instanceof IntValue) return v == ((IntValue) o).val;
        if(o instanceof ModelValue) return false;
        throw new RuntimeException("Attempted to check equality of a real number with " + o);
    }
    @Override public long fingerPrint(long fp) {
        fp = FP64.Extend(fp, 77);
        return FP64.Extend(fp, Double.doubleToLongBits(v == 0 ? 0.0 : v));
    }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append(Double.toString(v)); }
}
