import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** Arithmetic behind Rat.tla.  See there. */
public class Rat {
    private static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    private static final String NAN = "nan";

    private static String str(Value v) { return ((StringValue) v).val.toString(); }
    private static boolean num(String s) {
        if (s.isEmpty()) return false;
        char c = s.charAt(0);
        if (c == '-') { if (s.length() < 2) return false; c = s.charAt(1); }
        return c >= '0' && c <= '9';
    }
    private static BigDecimal dec(String s) { return new BigDecimal(s); }
    private static StringValue out(BigDecimal d) {
        if (d.signum() == 0) return new StringValue("0");
        // keep numbers readable and bounded: 100 significant digits is far beyond any ordinary input;
        // extreme ones keep what sums and multiples of doubles can have
        if (d.precision() > 120) {
            int e = Math.abs(d.precision() - d.scale());
            int keep = e < 25 ? 100 : 1500;
            if (d.precision() > keep) d = d.round(new MathContext(keep, RoundingMode.HALF_EVEN));
        }
        return new StringValue(d.stripTrailingZeros().toString());
    }
    private static StringValue nan() { return new StringValue(NAN); }
    private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RInt(Value n) { return new StringValue(Integer.toString(((IntValue) n).val)); }
    public static Value RAdd(Value a, Value b) {
        String x = str(a), y = str(b);
        return num(x) && num(y) ? out(dec(x).add(dec(y))) : nan();
    }
    public static Value RSub(Value a, Value b) {
        String x = str(a), y = str(b);
        return num(x) && num(y) ? out(dec(x).subtract(dec(y))) : nan();
    }
    public static Value RMul(Value a, Value b) {
        String x = str(a), y = str(b);
        return num(x) && num(y) ? out(dec(x).multiply(dec(y))) : nan();
    }
    public static Value RDiv(Value a, Value b) {
        String x = str(a), y = str(b);
        if (!num(x) || !num(y) || dec(y).signum() == 0) return nan();
        return out(dec(x).divide(dec(y), MC));
    }
    public static Value RAbs(Value a) {
        String x = str(a);
        if (x.equals("inf") || x.equals("-inf")) return new StringValue("inf");
        return num(x) ? out(dec(x).abs()) : nan();
    }
    public static Value RExp(Value a) {
        String x = str(a);
        if (!num(x)) return nan();
        BigDecimal d = dec(x);
        if (d.compareTo(new BigDecimal(-2000)) < 0) return new StringValue("0");
        if (d.compareTo(new BigDecimal(2000)) > 0) return new StringValue("inf");
        // e^d = (e^(d/2^k))^(2^k), Taylor on the small argument
        int k = 0;
        BigDecimal r = d;
        while (r.abs().compareTo(new BigDecimal("0.01")) > 0) { r = r.divide(new BigDecimal(2), new MathContext(120)); k++; }
        MathContext mc = new MathContext(110, RoundingMode.HALF_EVEN);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(r, mc).divide(new BigDecimal(i), mc);
            sum = sum.add(term, mc);
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, mc);
        return out(sum.round(MC));
    }
    /** numbers or infinities, at least one of them an infinity */
    private static boolean infinite(String x, String y) {
        return (num(x) || size(x) != 0) && (num(y) || size(y) != 0);
    }
    private static int size(String x) { return x.equals("inf") ? 1 : x.equals("-inf") ? -1 : 0; }
    public static Value RLeq(Value a, Value b) {
        String x = str(a), y = str(b);
        return bool(num(x) && num(y) ? dec(x).compareTo(dec(y)) <= 0 : infinite(x, y) && (size(x) <= size(y)));
    }
    public static Value RLt(Value a, Value b) {
        String x = str(a), y = str(b);
        return bool(num(x) && num(y) ? dec(x).compareTo(dec(y)) < 0 : infinite(x, y) && (size(x) < size(y)));
    }
    public static Value REq(Value a, Value b) {
        String x = str(a), y = str(b);
        if (num(x) && num(y)) return bool(dec(x).compareTo(dec(y)) == 0);
        return bool(x.equals(y) && !x.startsWith("bad"));
    }
    public static Value RFloorDiv(Value a, Value b) {
        String x = str(a), y = str(b);
        if (!num(x) || !num(y) || dec(y).signum() <= 0) return IntValue.gen(0);
        BigDecimal[] qr = dec(x).divideAndRemainder(dec(y));
        BigDecimal q = qr[0];
        if (qr[1].signum() < 0) q = q.subtract(BigDecimal.ONE);
        return IntValue.gen(q.min(new BigDecimal(1000000)).max(new BigDecimal(-1000000)).intValueExact());
    }
    public static Value RWithin(Value a, Value b, Value tol) {
        String x = str(a), y = str(b), t = str(tol);
        if (!num(x) || !num(y)) return bool(x.equals(y) && !x.startsWith("bad"));
        return bool(dec(x).subtract(dec(y)).abs().compareTo(dec(t)) <= 0);
    }
    public static Value RIsNum(Value a) { return bool(num(str(a))); }
    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigDecimal acc = BigDecimal.ZERO;
        for (int i = 0; i < t.size(); i++) {
            String x = str(t.elems[i]);
            if (!num(x)) return nan();
            acc = acc.add(dec(x));
        }
        return out(acc);
    }
    public static Value RNear(Value a, Value b, Value tol) {
        String x = str(a), y = str(b), t = str(tol);
        if (!num(x) || !num(y)) return bool(x.equals(y) && !x.startsWith("bad"));
        BigDecimal m = dec(y).abs().max(BigDecimal.ONE);
        return bool(dec(x).subtract(dec(y)).abs().compareTo(dec(t).multiply(m)) <= 0);
    }
}
