// Accelerators for the TLA+ module Dec (spec/Dec.tla): decimal real arithmetic.
// A real number is a TLA+ string holding a decimal numeral; all operations are
// carried out with MC significant digits, so rounding is far below any
// tolerance used by the specifications.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Dec {
    static final MathContext MC = new MathContext(36, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static final BigDecimal HALF = new BigDecimal("0.5");
    static final BigDecimal PI = new BigDecimal(
        "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651");
    static final BigDecimal LN2 = new BigDecimal(
        "0.69314718055994530941723212145817656807550013436025525412068000949339362196969471560586332699641868754200148102");
    static final BigDecimal LN10 = new BigDecimal(
        "2.30258509299404568401799145468436420760110148862877297603332790096757260967735248023599720508959829834196778404");

    static BigDecimal d(Value v) {
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        return new BigDecimal(((StringValue) v).val.toString());
    }
    // While traces are validated the arithmetic is total: a number that the code
    // reported and that is none, or an operation without result, gives "nan", and
    // comparisons with it are false.  In design checks it is an error of the specification.
    static final boolean TOTAL = System.getenv("TRACE") != null;
    static final StringValue NAN = new StringValue("nan");
    interface Op { Value run(); }
    static Value num(Op f) {
        if (!TOTAL) return f.run();
        try { return f.run(); }
        catch (ArithmeticException | NumberFormatException e) { return NAN; }
    }
    static int inf(Value v) {
        if (!(v instanceof StringValue)) return 0;
        String x = ((StringValue) v).val.toString();
        return x.equals("inf") ? 1 : x.equals("-inf") ? -1 : 0;
    }
    interface Cmp { boolean run(int order); }
    static Value cmp(Value a, Value c, Cmp f) {
        if (!TOTAL) return b(f.run(d(a).compareTo(d(c))));
        try {
            int i = inf(a), j = inf(c);
            if (i == 0 && j == 0) return b(f.run(d(a).compareTo(d(c))));
            if (i == 0) d(a);
            if (j == 0) d(c);
            return b(f.run(Integer.compare(i, j)));
        } catch (NumberFormatException e) { return b(false); }
    }
    static StringValue s(BigDecimal b) {
        b = b.round(MC);
        if (b.signum() == 0) return new StringValue("0");
        return new StringValue(b.stripTrailingZeros().toString());
    }
    static BigDecimal[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        BigDecimal[] r = new BigDecimal[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }
    static Value tup(BigDecimal[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = s(a[i]);
        return new TupleValue(r);
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- basic arithmetic -------------------------------------------------
    public static Value Add(Value a, Value c) { return num(() -> s(d(a).add(d(c), MC))); }
    public static Value Sub(Value a, Value c) { return num(() -> s(d(a).subtract(d(c), MC))); }
    public static Value Mul(Value a, Value c) { return num(() -> s(d(a).multiply(d(c), MC))); }
    public static Value Div(Value a, Value c) { return num(() -> s(d(a).divide(d(c), MC))); }
    public static Value Neg(Value a) { return num(() -> s(d(a).negate())); }
    public static Value Abs(Value a) { return num(() -> s(d(a).abs())); }
    public static Value Lt(Value a, Value c) { return cmp(a, c, o -> o < 0); }
    public static Value Le(Value a, Value c) { return cmp(a, c, o -> o <= 0); }
    public static Value Eq(Value a, Value c) { return cmp(a, c, o -> o == 0); }
    public static Value Floor(Value a) {
        return IntValue.gen(d(a).setScale(0, RoundingMode.FLOOR).intValueExact());
    }
    public static Value IsFin(Value a) {
        if (!(a instanceof StringValue)) return b(a instanceof IntValue);
        String x = ((StringValue) a).val.toString();
        return b(!(x.equals("nan") || x.equals("inf") || x.equals("-inf")));
    }

    // ---- transcendental functions ----------------------------------------
    static BigDecimal exp(BigDecimal x, MathContext mc) {
        if (x.signum() == 0) return BigDecimal.ONE;
        int p = mc.getPrecision() + 12;
        MathContext w = new MathContext(p + 6);
        // exp(x) = 10^n * exp(r), |r| <= ln10/2
        BigDecimal n = x.divide(LN10, w).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(n.multiply(LN10), w);
        int k = 8;
        BigDecimal q = r.divide(BigDecimal.valueOf(1 << k), w);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        BigDecimal eps = BigDecimal.ONE.movePointLeft(p + 4);
        for (int i = 1; i < 200; i++) {
            term = term.multiply(q, w).divide(BigDecimal.valueOf(i), w);
            sum = sum.add(term, w);
            if (term.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, w);
        return sum.scaleByPowerOfTen(n.intValueExact()).round(mc);
    }
    static BigDecimal ln(BigDecimal x, MathContext mc) {
        if (x.signum() <= 0) throw new ArithmeticException("Ln of " + x);
        int p = mc.getPrecision() + 10;
        MathContext w = new MathContext(p);
        int e10 = x.precision() - x.scale() - 1;
        BigDecimal m = x.scaleByPowerOfTen(-e10);          // 1 <= m < 10
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) {                      // y += 2 (m-e^y)/(m+e^y)
            BigDecimal e = exp(y, w);
            BigDecimal dl = m.subtract(e, w).multiply(TWO).divide(m.add(e, w), w);
            y = y.add(dl, w);
            if (dl.signum() == 0 || dl.precision() - dl.scale() < -p / 2) break;
        }
        return y.add(LN10.multiply(BigDecimal.valueOf(e10), w), w).round(mc);
    }
    static BigDecimal pow(BigDecimal x, BigDecimal y, MathContext mc) {
        BigDecimal yr = y.stripTrailingZeros();
        if (yr.scale() <= 0 && yr.abs().compareTo(BigDecimal.valueOf(10000)) < 0) {
            int n = yr.intValueExact();
            MathContext w = new MathContext(mc.getPrecision() + 10);
            if (n == 0) return BigDecimal.ONE;
            BigDecimal r = x.pow(Math.abs(n), w);
            return n > 0 ? r.round(mc) : BigDecimal.ONE.divide(r, mc);
        }
        if (x.signum() == 0 && y.signum() > 0) return BigDecimal.ZERO;
        MathContext w = new MathContext(mc.getPrecision() + 12);
        return exp(y.multiply(ln(x, w), w), mc);
    }
    static final BigDecimal SQRT2 = TWO.sqrt(new MathContext(110));
    // erfc(x) for x >= 0
    static BigDecimal erfc(BigDecimal x, MathContext mc) {
        if (x.signum() == 0) return BigDecimal.ONE;
        double xd = x.doubleValue();
        if (xd <= 9) {
            int p = mc.getPrecision() + 12 + (int) (xd * xd / 2.302585);
            MathContext w = new MathContext(p);
            BigDecimal x2 = x.multiply(x, w);
            BigDecimal term = x, sum = x;
            BigDecimal eps = BigDecimal.ONE.movePointLeft(p + 2);
            for (int n = 1; n < 2000; n++) {
                term = term.multiply(x2, w).multiply(TWO).divide(BigDecimal.valueOf(2 * n + 1), w);
                sum = sum.add(term, w);
                if (term.compareTo(sum.multiply(eps, w)) < 0) break;
            }
            BigDecimal erf = TWO.divide(PI.sqrt(w), w).multiply(exp(x2.negate(), w), w).multiply(sum, w);
            return BigDecimal.ONE.subtract(erf, w).round(mc);
        }
        // continued fraction  erfc(x) = e^{-x^2}/sqrt(pi) * 1/(x+ (1/2)/(x+ 1/(x+ (3/2)/(x+ ...
        MathContext w = new MathContext(mc.getPrecision() + 12);
        BigDecimal f = x;
        int terms = xd > 30 ? 60 : 300;
        for (int k = terms; k >= 1; k--) {
            f = x.add(BigDecimal.valueOf(k).multiply(HALF).divide(f, w), w);
        }
        return exp(x.multiply(x).negate(), w).divide(PI.sqrt(w).multiply(f, w), mc);
    }
    static BigDecimal ndtr(BigDecimal x, MathContext mc) {
        MathContext w = new MathContext(mc.getPrecision() + 6);
        BigDecimal u = x.abs().divide(SQRT2, w);
        BigDecimal q = erfc(u, w).multiply(HALF, w);       // upper tail of |x|
        return (x.signum() <= 0 ? q : BigDecimal.ONE.subtract(q, w)).round(mc);
    }
    static final String[][] BERN = { {"1","6"},{"-1","30"},{"1","42"},{"-1","30"},{"5","66"},{"-691","2730"},
        {"7","6"},{"-3617","510"},{"43867","798"},{"-174611","330"},{"854513","138"},{"-236364091","2730"},
        {"8553103","6"},{"-23749461029","870"},{"8615841276005","14322"} };
    static BigDecimal lngamma(BigDecimal x, MathContext mc) {
        if (x.signum() <= 0) throw new ArithmeticException("LnGamma of " + x);
        MathContext w = new MathContext(mc.getPrecision() + 14);
        BigDecimal shift = BigDecimal.ONE;
        BigDecimal y = x;
        while (y.compareTo(BigDecimal.valueOf(40)) < 0) {
            shift = shift.multiply(y, w);
            y = y.add(BigDecimal.ONE, w);
        }
        BigDecimal r = y.subtract(HALF, w).multiply(ln(y, w), w).subtract(y, w)
            .add(ln(TWO.multiply(PI, w), w).multiply(HALF, w), w);
        BigDecimal yp = y, y2 = y.multiply(y, w);
        for (int k = 1; k <= BERN.length; k++) {
            BigDecimal t = new BigDecimal(BERN[k - 1][0]).divide(new BigDecimal(BERN[k - 1][1]), w)
                .divide(BigDecimal.valueOf(2L * k * (2L * k - 1)), w).divide(yp, w);
            r = r.add(t, w);
            yp = yp.multiply(y2, w);
        }
        return r.subtract(ln(shift, w), w).round(mc);
    }
    static BigDecimal bi0(BigDecimal x, MathContext mc) {
        MathContext w = new MathContext(mc.getPrecision() + 10);
        BigDecimal q = x.multiply(x, w).divide(BigDecimal.valueOf(4), w);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int k = 1; k < 5000; k++) {
            term = term.multiply(q, w).divide(BigDecimal.valueOf((long) k * k), w);
            sum = sum.add(term, w);
            if (term.compareTo(sum.movePointLeft(mc.getPrecision() + 6)) < 0) break;
        }
        return sum.round(mc);
    }
    static BigDecimal cos(BigDecimal x, MathContext mc) {
        MathContext w = new MathContext(mc.getPrecision() + 12);
        BigDecimal tp = PI.multiply(TWO);
        BigDecimal n = x.divide(tp, w).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(n.multiply(tp), w);
        BigDecimal r2 = r.multiply(r, w), term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int k = 1; k < 200; k++) {
            term = term.multiply(r2, w).divide(BigDecimal.valueOf((2L * k) * (2L * k - 1)), w).negate();
            sum = sum.add(term, w);
            if (term.abs().compareTo(BigDecimal.ONE.movePointLeft(mc.getPrecision() + 8)) < 0) break;
        }
        return sum.round(mc);
    }
    public static Value Sqrt(Value a) { return num(() -> s(d(a).sqrt(MC))); }
    static BigDecimal ex(BigDecimal x) {
        return x.compareTo(BigDecimal.valueOf(-100000000)) < 0 ? BigDecimal.ZERO : exp(x, MC);
    }
    public static Value Exp(Value a) { return num(() -> s(ex(d(a)))); }
    public static Value Ln(Value a) { return num(() -> s(ln(d(a), MC))); }
    public static Value Pow(Value a, Value c) { return num(() -> s(pow(d(a), d(c), MC))); }
    public static Value Phi(Value a) { return num(() -> s(ndtr(d(a), MC))); }
    public static Value LnGamma(Value a) { return num(() -> s(lngamma(d(a), MC))); }
    public static Value BesselI0(Value a) { return num(() -> s(bi0(d(a), MC))); }
    public static Value Cos(Value a) { return num(() -> s(cos(d(a), MC))); }
    public static Value Pi() { return s(PI); }

    // ---- folds (pure accelerators of definitions in Dec.tla) --------------
    public static Value Sum(Value q) { return num(() -> sum(q)); }
    static Value sum(Value q) {
        BigDecimal r = BigDecimal.ZERO;
        for (BigDecimal x : seq(q)) r = r.add(x, MC);
        return s(r);
    }
    public static Value Trapz(Value ys, Value xs) { return num(() -> trapz(ys, xs)); }
    static Value trapz(Value ys, Value xs) {
        BigDecimal[] y = seq(ys), x = seq(xs);
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 1; i < x.length; i++)
            r = r.add(x[i].subtract(x[i - 1], MC).multiply(y[i].add(y[i - 1], MC), MC), MC);
        return s(r.multiply(HALF, MC));
    }
    public static Value Linspace(Value a, Value c, Value n) {
        int k = ((IntValue) n).val;
        BigDecimal lo = d(a), hi = d(c);
        BigDecimal[] r = new BigDecimal[k];
        for (int i = 0; i < k; i++)
            r[i] = lo.add(hi.subtract(lo, MC).multiply(BigDecimal.valueOf(i), MC)
                .divide(BigDecimal.valueOf(k - 1), MC), MC);
        return tup(r);
    }
    // |a - c| <= atol + rtol * |c|; total: non-finite values must be identical.
    public static Value Near(Value a, Value c, Value rtol, Value atol) {
        if (!((BoolValue) IsFin(a)).val || !((BoolValue) IsFin(c)).val) return b(a.equals(c));
        try {
            BigDecimal x = d(a), y = d(c);
            return b(x.subtract(y).abs().compareTo(d(atol).add(d(rtol).multiply(y.abs()))) <= 0);
        } catch (NumberFormatException e) {
            if (!TOTAL) throw e;
            return b(false);
        }
    }
}
