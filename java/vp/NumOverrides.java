package vp;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Arithmetic primitives for the TLA+ module Num: IEEE-754 doubles, represented in TLA+ as the pair
 * <<hi, lo>> of the two 32-bit halves of the bit pattern, and unbounded integers, represented as
 * decimal strings.  Nothing here knows anything about copulas: every formula is in the TLA+ modules.
 */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { NumOverrides.class };
    }

    static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }

    static Value r(final double x) {
        final long b = Double.doubleToLongBits(x == 0.0 ? 0.0 : x);
        return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
    }

    static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static BigInteger z(final Value v) {
        if (v instanceof IntValue) {
            return BigInteger.valueOf(((IntValue) v).val);
        }
        return new BigInteger(((StringValue) v).val.toString());
    }

    static Value zs(final BigInteger x) {
        return new StringValue(x.toString());
    }

    @TLAPlusOperator(identifier = "FParse", module = "Num", warn = false)
    public static Value parse(final StringValue s) {
        return r(Double.parseDouble(s.val.toString()));
    }

    @TLAPlusOperator(identifier = "++", module = "Num", warn = false)
    public static Value oplus(final Value a, final Value b) {
        return r(d(a) + d(b));
    }

    @TLAPlusOperator(identifier = "--", module = "Num", warn = false)
    public static Value ominus(final Value a, final Value b) {
        return r(d(a) - d(b));
    }

    @TLAPlusOperator(identifier = "**", module = "Num", warn = false)
    public static Value odot(final Value a, final Value b) {
        return r(d(a) * d(b));
    }

    @TLAPlusOperator(identifier = "//", module = "Num", warn = false)
    public static Value oslash(final Value a, final Value b) {
        return r(d(a) / d(b));
    }

    @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
    public static Value prec(final Value a, final Value b) {
        return b(d(a) < d(b));
    }

    @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
    public static Value preceq(final Value a, final Value b) {
        return b(d(a) <= d(b));
    }

    @TLAPlusOperator(identifier = "Fl", module = "Num", warn = false)
    public static Value fl(final StringValue s) {
        return r(Double.parseDouble(s.val.toString()));
    }

    @TLAPlusOperator(identifier = "FSgn", module = "Num", warn = false)
    public static Value sgn(final Value a) {
        return r(Math.signum(d(a)));
    }

    @TLAPlusOperator(identifier = "FAtan2", module = "Num", warn = false)
    public static Value atan2(final Value a, final Value b) {
        return r(Math.atan2(d(a), d(b)));
    }

    /** Inner product of two sequences. */
    @TLAPlusOperator(identifier = "FDot", module = "Num", warn = false)
    public static Value dot(final Value a, final Value b) {
        final double[] x = seq(a), y = seq(b);
        double t = 0;
        for (int i = 0; i < x.length; i++) {
            t += x[i] * y[i];
        }
        return r(t);
    }

    @TLAPlusOperator(identifier = "FShow", module = "Num", warn = false)
    public static Value show(final Value a) {
        return new StringValue(Double.toString(d(a)));
    }

    @TLAPlusOperator(identifier = "FInt", module = "Num", warn = false)
    public static Value fint(final IntValue a) {
        return r(a.val);
    }

    @TLAPlusOperator(identifier = "FAdd", module = "Num", warn = false)
    public static Value add(final Value a, final Value b) {
        return r(d(a) + d(b));
    }

    @TLAPlusOperator(identifier = "FSub", module = "Num", warn = false)
    public static Value sub(final Value a, final Value b) {
        return r(d(a) - d(b));
    }

    @TLAPlusOperator(identifier = "FMul", module = "Num", warn = false)
    public static Value mul(final Value a, final Value b) {
        return r(d(a) * d(b));
    }

    @TLAPlusOperator(identifier = "FDiv", module = "Num", warn = false)
    public static Value div(final Value a, final Value b) {
        return r(d(a) / d(b));
    }

    @TLAPlusOperator(identifier = "FNeg", module = "Num", warn = false)
    public static Value neg(final Value a) {
        return r(-d(a));
    }

    @TLAPlusOperator(identifier = "FAbs", module = "Num", warn = false)
    public static Value abs(final Value a) {
        return r(Math.abs(d(a)));
    }

    @TLAPlusOperator(identifier = "FExp", module = "Num", warn = false)
    public static Value exp(final Value a) {
        return r(Math.exp(d(a)));
    }

    @TLAPlusOperator(identifier = "FExpm1", module = "Num", warn = false)
    public static Value expm1(final Value a) {
        return r(Math.expm1(d(a)));
    }

    @TLAPlusOperator(identifier = "FLn", module = "Num", warn = false)
    public static Value ln(final Value a) {
        return r(Math.log(d(a)));
    }

    @TLAPlusOperator(identifier = "FLn1p", module = "Num", warn = false)
    public static Value ln1p(final Value a) {
        return r(Math.log1p(d(a)));
    }

    @TLAPlusOperator(identifier = "FPow", module = "Num", warn = false)
    public static Value pow(final Value a, final Value b) {
        return r(Math.pow(d(a), d(b)));
    }

    @TLAPlusOperator(identifier = "FSqrt", module = "Num", warn = false)
    public static Value sqrt(final Value a) {
        return r(Math.sqrt(d(a)));
    }

    @TLAPlusOperator(identifier = "FSin", module = "Num", warn = false)
    public static Value sin(final Value a) {
        return r(Math.sin(d(a)));
    }

    @TLAPlusOperator(identifier = "FCos", module = "Num", warn = false)
    public static Value cos(final Value a) {
        return r(Math.cos(d(a)));
    }

    @TLAPlusOperator(identifier = "FAtan", module = "Num", warn = false)
    public static Value atan(final Value a) {
        return r(Math.atan(d(a)));
    }

    @TLAPlusOperator(identifier = "FAsin", module = "Num", warn = false)
    public static Value asin(final Value a) {
        return r(Math.asin(d(a)));
    }

    @TLAPlusOperator(identifier = "FFloor", module = "Num", warn = false)
    public static Value floor(final Value a) {
        return r(Math.floor(d(a)));
    }

    /** Floor as a TLA+ integer; clamped to the 32-bit range of TLC's integers. */
    @TLAPlusOperator(identifier = "FToInt", module = "Num", warn = false)
    public static Value toInt(final Value a) {
        return IntValue.gen((int) Math.max(Integer.MIN_VALUE, Math.min(Integer.MAX_VALUE, Math.floor(d(a)))));
    }

    @TLAPlusOperator(identifier = "FLt", module = "Num", warn = false)
    public static Value lt(final Value a, final Value b) {
        return b(d(a) < d(b));
    }

    @TLAPlusOperator(identifier = "FLe", module = "Num", warn = false)
    public static Value le(final Value a, final Value b) {
        return b(d(a) <= d(b));
    }

    @TLAPlusOperator(identifier = "FEq", module = "Num", warn = false)
    public static Value eq(final Value a, final Value b) {
        return b(d(a) == d(b));
    }

    @TLAPlusOperator(identifier = "FIsNaN", module = "Num", warn = false)
    public static Value isNaN(final Value a) {
        return b(Double.isNaN(d(a)));
    }

    @TLAPlusOperator(identifier = "FIsFinite", module = "Num", warn = false)
    public static Value isFinite(final Value a) {
        final double x = d(a);
        return b(!Double.isNaN(x) && !Double.isInfinite(x));
    }

    /** |a - b| <= atol + rtol * |b|, equal infinities close, NaN close to NaN only. */
    @TLAPlusOperator(identifier = "FClose", module = "Num", warn = false)
    public static Value close(final Value a, final Value b, final Value rtol, final Value atol) {
        final double x = d(a), y = d(b);
        if (Double.isNaN(x) || Double.isNaN(y)) {
            return b(Double.isNaN(x) && Double.isNaN(y));
        }
        if (Double.isInfinite(x) || Double.isInfinite(y)) {
            return b(x == y);
        }
        return b(Math.abs(x - y) <= d(atol) + d(rtol) * Math.abs(y));
    }

    @TLAPlusOperator(identifier = "FMin", module = "Num", warn = false)
    public static Value min(final Value a, final Value b) {
        return r(Math.min(d(a), d(b)));
    }

    @TLAPlusOperator(identifier = "FMax", module = "Num", warn = false)
    public static Value max(final Value a, final Value b) {
        return r(Math.max(d(a), d(b)));
    }

    private static double[] seq(final Value s) {
        final TupleValue t = (TupleValue) s.toTuple();
        final double[] x = new double[t.elems.length];
        for (int i = 0; i < x.length; i++) {
            x[i] = d(t.elems[i]);
        }
        return x;
    }

    /** Sum of a sequence, compensated (Neumaier). */
    @TLAPlusOperator(identifier = "FSum", module = "Num", warn = false)
    public static Value sum(final Value s) {
        double t = 0, c = 0;
        for (final double x : seq(s)) {
            final double u = t + x;
            if (Double.isInfinite(u) || Double.isNaN(u)) {
                t = u;
                c = 0;
                continue;
            }
            c += Math.abs(t) >= Math.abs(x) ? (t - u) + x : (x - u) + t;
            t = u;
        }
        return r(t + c);
    }

    @TLAPlusOperator(identifier = "FProd", module = "Num", warn = false)
    public static Value prod(final Value s) {
        double t = 1;
        for (final double x : seq(s)) {
            t *= x;
        }
        return r(t);
    }

    @TLAPlusOperator(identifier = "ZAdd", module = "Num", warn = false)
    public static Value zadd(final Value a, final Value b) {
        return zs(z(a).add(z(b)));
    }

    @TLAPlusOperator(identifier = "ZSub", module = "Num", warn = false)
    public static Value zsub(final Value a, final Value b) {
        return zs(z(a).subtract(z(b)));
    }

    @TLAPlusOperator(identifier = "ZMul", module = "Num", warn = false)
    public static Value zmul(final Value a, final Value b) {
        return zs(z(a).multiply(z(b)));
    }

    /** Exact division; the TLA+ side only divides where the remainder is zero. */
    @TLAPlusOperator(identifier = "ZDiv", module = "Num", warn = false)
    public static Value zdiv(final Value a, final Value b) {
        final BigInteger[] qr = z(a).divideAndRemainder(z(b));
        if (qr[1].signum() != 0) {
            throw new ArithmeticException("ZDiv: inexact division");
        }
        return zs(qr[0]);
    }

    @TLAPlusOperator(identifier = "ZSign", module = "Num", warn = false)
    public static Value zsign(final Value a) {
        return IntValue.gen(z(a).signum());
    }

    @TLAPlusOperator(identifier = "ZToF", module = "Num", warn = false)
    public static Value ztof(final Value a) {
        return r(z(a).doubleValue());
    }
}
