// Java implementation of the operators declared in IEEE.tla (TLC module override).
// A double is the pair <<hi, lo>> of the two 32-bit halves of its bit pattern, because TLC has no reals.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class IEEE {
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value v(double x) {
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) {
        TupleValue t = v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
        return t.elems;
    }
    static TupleValue tup(Value[] e) { return new TupleValue(e); }

    @TLAPlusOperator(identifier = "FDec", module = "IEEE", warn = false)
    public static Value dec(StringValue s) { return v(Double.parseDouble(s.val.toString())); }
    @TLAPlusOperator(identifier = "FInt", module = "IEEE", warn = false)
    public static Value ofInt(IntValue i) { return v(i.val); }
    @TLAPlusOperator(identifier = "FFloor", module = "IEEE", warn = false)
    public static Value floor(Value a) { return v(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "FAdd", module = "IEEE", warn = false)
    public static Value add(Value x, Value y) { return v(d(x) + d(y)); }
    @TLAPlusOperator(identifier = "FSub", module = "IEEE", warn = false)
    public static Value sub(Value x, Value y) { return v(d(x) - d(y)); }
    @TLAPlusOperator(identifier = "FMul", module = "IEEE", warn = false)
    public static Value mul(Value x, Value y) { return v(d(x) * d(y)); }
    @TLAPlusOperator(identifier = "FDiv", module = "IEEE", warn = false)
    public static Value div(Value x, Value y) { return v(d(x) / d(y)); }
    @TLAPlusOperator(identifier = "FNeg", module = "IEEE", warn = false)
    public static Value neg(Value x) { return v(-d(x)); }
    @TLAPlusOperator(identifier = "FAbs", module = "IEEE", warn = false)
    public static Value abs(Value x) { return v(Math.abs(d(x))); }
    @TLAPlusOperator(identifier = "FSqrt", module = "IEEE", warn = false)
    public static Value sqrt(Value x) { return v(Math.sqrt(d(x))); }
    @TLAPlusOperator(identifier = "FMax", module = "IEEE", warn = false)
    public static Value max(Value x, Value y) { return v(Math.max(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FMin", module = "IEEE", warn = false)
    public static Value min(Value x, Value y) { return v(Math.min(d(x), d(y))); }
    @TLAPlusOperator(identifier = "FLe", module = "IEEE", warn = false)
    public static Value le(Value x, Value y) { return b(d(x) <= d(y)); }
    @TLAPlusOperator(identifier = "FLt", module = "IEEE", warn = false)
    public static Value lt(Value x, Value y) { return b(d(x) < d(y)); }
    @TLAPlusOperator(identifier = "FEq", module = "IEEE", warn = false)
    public static Value eq(Value x, Value y) { return b(d(x) == d(y)); }
    @TLAPlusOperator(identifier = "FIsNaN", module = "IEEE", warn = false)
    public static Value isnan(Value x) { return b(Double.isNaN(d(x))); }
    @TLAPlusOperator(identifier = "FFin", module = "IEEE", warn = false)
    public static Value isfin(Value x) { double z = d(x); return b(!Double.isNaN(z) && !Double.isInfinite(z)); }
    @TLAPlusOperator(identifier = "FExp", module = "IEEE", warn = false)
    public static Value exp(Value x) { return v(Math.exp(d(x))); }
    @TLAPlusOperator(identifier = "FSin", module = "IEEE", warn = false)
    public static Value sin(Value x) { return v(Math.sin(d(x))); }
    @TLAPlusOperator(identifier = "FCos", module = "IEEE", warn = false)
    public static Value cos(Value x) { return v(Math.cos(d(x))); }
    @TLAPlusOperator(identifier = "FStr", module = "IEEE", warn = false)
    public static Value str(Value x) { return new StringValue(Double.toString(d(x))); }

    // vectors are sequences of doubles
    @TLAPlusOperator(identifier = "VDot", module = "IEEE", warn = false)
    public static Value dot(Value x, Value y) {
        Value[] a = seq(x), c = seq(y);
        double s = 0;
        for (int i = 0; i < a.length; i++) s += d(a[i]) * d(c[i]);
        return v(s);
    }
    @TLAPlusOperator(identifier = "VNorm", module = "IEEE", warn = false)
    public static Value norm(Value x) {
        double s = 0;
        for (Value e : seq(x)) { double z = d(e); s += z * z; }
        return v(Math.sqrt(s));
    }
    @TLAPlusOperator(identifier = "VMaxAbs", module = "IEEE", warn = false)
    public static Value maxabs(Value x) {
        double s = 0;
        for (Value e : seq(x)) { double z = Math.abs(d(e)); if (Double.isNaN(z)) return v(z); s = Math.max(s, z); }
        return v(s);
    }
    @TLAPlusOperator(identifier = "VAdd", module = "IEEE", warn = false)
    public static Value vadd(Value x, Value y) {
        Value[] a = seq(x), c = seq(y), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = v(d(a[i]) + d(c[i]));
        return tup(r);
    }
    @TLAPlusOperator(identifier = "VSub", module = "IEEE", warn = false)
    public static Value vsub(Value x, Value y) {
        Value[] a = seq(x), c = seq(y), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = v(d(a[i]) - d(c[i]));
        return tup(r);
    }
    @TLAPlusOperator(identifier = "VScale", module = "IEEE", warn = false)
    public static Value vscale(Value k, Value y) {
        Value[] c = seq(y), r = new Value[c.length];
        double z = d(k);
        for (int i = 0; i < c.length; i++) r[i] = v(z * d(c[i]));
        return tup(r);
    }
    @TLAPlusOperator(identifier = "VClip", module = "IEEE", warn = false)
    public static Value vclip(Value x, Value l, Value u) {
        Value[] a = seq(x), c = seq(l), e = seq(u), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = v(Math.min(Math.max(d(a[i]), d(c[i])), d(e[i])));
        return tup(r);
    }
    // a matrix is the sequence of its rows
    @TLAPlusOperator(identifier = "MVec", module = "IEEE", warn = false)
    public static Value mvec(Value m, Value x) {
        Value[] a = seq(m), c = seq(x), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            Value[] row = seq(a[i]);
            double s = 0;
            for (int j = 0; j < c.length; j++) s += d(row[j]) * d(c[j]);
            r[i] = v(s);
        }
        return tup(r);
    }
    @TLAPlusOperator(identifier = "MTVec", module = "IEEE", warn = false)
    public static Value mtvec(Value m, Value x) {
        Value[] a = seq(m), c = seq(x);
        int n = a.length == 0 ? 0 : seq(a[0]).length;
        Value[] r = new Value[n];
        for (int j = 0; j < n; j++) {
            double s = 0;
            for (int i = 0; i < a.length; i++) s += d(seq(a[i])[j]) * d(c[i]);
            r[j] = v(s);
        }
        return tup(r);
    }
}
